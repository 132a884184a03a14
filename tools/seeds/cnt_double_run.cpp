//! flags: -O1
//! needs: an executor which invokes a scheduled continuation task and keeps the task object until the whole chain is done
//! breaks: the abandon notification of an executed continuation task runs against a live state / a second call of the task runs the continuation again
#include <portable_concurrency/future>
#include <portable_concurrency/functional>
#include <cstdio>
#include <vector>
struct keeper { std::vector<pc::unique_function<void()>> *tasks; };
template <typename F> void post(keeper k, F &&f) { k.tasks->emplace_back(std::forward<F>(f)); }
namespace portable_concurrency { template <> struct is_executor<keeper> : std::true_type {}; }
int main() {
  std::vector<pc::unique_function<void()>> tasks;
  auto pf = pc::make_promise<int>();
  int calls = 0;
  auto f = pf.second.then(keeper{&tasks}, [&](pc::future<int> x) { ++calls; return x.valid() ? x.get() : -1; });
  pf.first.set_value(3);
  if (tasks.size() != 1)
    return 1;
  tasks[0]();
  try { tasks[0](); } catch (...) { return 2; }
  tasks.clear();
  return calls != 1 || f.get() != 3;
}
