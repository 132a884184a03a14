//! needs: an interruptible continuation which exits via std::future_error
//! breaks: the documented std::terminate does not happen, the exception is silently lost
#include <portable_concurrency/future>
#include <future>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
int main() {
  pid_t pid = fork();
  if (pid == 0) {
    rlimit no_core{0, 0};
    setrlimit(RLIMIT_CORE, &no_core);
    alarm(20);
    auto p = pc::make_promise<int>();
    auto f = p.second.then([](pc::promise<int> r, pc::future<int> v) {
      r.set_value(v.get());
      r.set_value(2); // second value: throws promise_already_satisfied
    });
    p.first.set_value(1);
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  return !(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT);
}
