//! flags: -O1
//! needs: async with a named (lvalue) function object, changed or destroyed before the executor runs the task
//! breaks: the task refers to the caller's object and does not own a copy captured at the call
#include <portable_concurrency/future>
#include <portable_concurrency/functional>
#include <vector>
struct queue { std::vector<pc::unique_function<void()>> *tasks; };
template <typename F> void post(queue q, F &&f) { q.tasks->emplace_back(std::forward<F>(f)); }
namespace portable_concurrency { template <> struct is_executor<queue> : std::true_type {}; }
struct adder { int base; int operator()(int x) const { return base + x; } };
int main() {
  std::vector<pc::unique_function<void()>> tasks;
  adder a{10};
  auto f = pc::async(queue{&tasks}, a, 5);
  a.base = 1000;
  for (auto &t : tasks)
    t();
  return f.get() != 15;
}
