//! flags: -O1
//! needs: two or more notifications pending on a result whose future is dropped before the promise is fulfilled
//! breaks: only the newest pending continuation is destroyed with the state; the older ones (and what they captured) leak
#include <portable_concurrency/future>
#include <memory>
int main() {
  auto a = std::make_shared<int>(1), b = std::make_shared<int>(2), c = std::make_shared<int>(3);
  {
    auto pf = pc::make_promise<int>();
    pf.second.notify([a] {});
    pf.second.notify([b] {});
    pf.second.notify([c] {});
    pf.second = {};
    if (pf.first.is_awaiten())
      return 2;
  }
  return a.use_count() != 1 || b.use_count() != 1 || c.use_count() != 1;
}
