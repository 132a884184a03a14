//! flags: -O1
//! needs: a continuation handed to an executor that drops the task while another party (its parent's list) still references it
//! breaks: the dropped continuation is not abandoned, its future never becomes ready
#include <portable_concurrency/future>
#include <future>
#include <portable_concurrency/functional>
#include <vector>
struct dropper {};
template <typename F> void post(dropper, F &&f) { auto x = std::forward<F>(f); (void)x; }
namespace portable_concurrency { template <> struct is_executor<dropper> : std::true_type {}; }
int main() {
  auto pf = pc::make_promise<int>();
  auto f = pf.second.then(dropper{}, [](pc::future<int> x) { return x.get(); });
  auto s = f.share();
  auto g = s.next([](int x) { return x; });
  pf.first.set_value(3);
  if (!s.is_ready() || !g.is_ready())
    return 1;
  try { s.get(); return 2; } catch (const std::future_error &e) { return e.code() != std::future_errc::broken_promise; }
}
