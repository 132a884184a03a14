//! flags: -O1 -fsanitize=address -fsanitize-address-use-after-scope
//! env: ASAN_OPTIONS=detect_stack_use_after_return=1
//! needs: notify with an executor object which does not outlive the call, on a future that becomes ready later
//! breaks: the executor used for posting is a destroyed object
#include <portable_concurrency/functional>
#include <portable_concurrency/future>
#include <vector>
struct queue { std::vector<pc::unique_function<void()>> *tasks; };
template <typename F> void post(queue q, F &&f) { q.tasks->emplace_back(std::forward<F>(f)); }
namespace portable_concurrency { template <> struct is_executor<queue> : std::true_type {}; }
int runs = 0;
void attach(pc::future<int> &f, std::vector<pc::unique_function<void()>> &tasks) {
  queue q{&tasks};
  f.notify(q, [] { ++runs; });
}
int main() {
  std::vector<pc::unique_function<void()>> tasks;
  auto p = pc::make_promise<int>();
  attach(p.second, tasks);
  p.first.set_value(1);
  if (tasks.size() != 1)
    return 1;
  tasks[0]();
  return runs != 1;
}
