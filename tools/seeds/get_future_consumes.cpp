//! flags: -O1
//! needs: a second get_future on a promise, with the promise used afterwards
//! breaks: the rejected second get_future leaves the promise without its state: the first future can never be fulfilled
#include <portable_concurrency/future>
#include <future>
int main() {
  pc::promise<int> p;
  auto f = p.get_future();
  try {
    p.get_future();
    return 1;
  } catch (const std::future_error &e) {
    if (e.code() != std::future_errc::future_already_retrieved)
      return 2;
  }
  try {
    p.set_value(7);
    return !f.is_ready() || f.get() != 7;
  } catch (const std::future_error &) {
    return 3;
  }
}
