//! flags: -O1 -fsanitize=address
//! needs: the timed_waiter is destroyed (after a timeout) before the future becomes ready
//! breaks: the notification uses the destroyed waiter (use after free)
#include <portable_concurrency/future>
#include <portable_concurrency/timed_waiter>
#include <chrono>
int main() {
  auto pf = pc::make_promise<int>();
  {
    pc::timed_waiter w{pf.second};
    if (w.wait_for(std::chrono::milliseconds(5)) != pc::future_status::timeout)
      return 1;
  }
  pf.first.set_value(5);
  return pf.second.get() != 5;
}
