//! needs: a task which throws, executed by a user thread attached to the pool
//! breaks: the exception leaves attach() instead of terminating the program, the thread stays registered in the pool
#include <portable_concurrency/execution>
#include <portable_concurrency/functional>
#include <portable_concurrency/thread_pool>
#include <stdexcept>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
int main() {
  pid_t pid = fork();
  if (pid == 0) {
    rlimit no_core{0, 0};
    setrlimit(RLIMIT_CORE, &no_core);
    alarm(20);
    auto *pool = new pc::static_thread_pool{0};
    post(pool->executor(), [] { throw std::runtime_error{"oops"}; });
    try {
      pool->attach();
    } catch (...) {
    }
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  return !(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT);
}
