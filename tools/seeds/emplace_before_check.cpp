//! flags: -O1
//! needs: set_exception on a promise that already holds a value
//! breaks: the stored value is replaced by the exception and the second set is not rejected
#include <portable_concurrency/future>
#include <future>
#include <stdexcept>
int main() {
  auto pf = pc::make_promise<int>();
  pf.first.set_value(5);
  bool rejected = false;
  try {
    pf.first.set_exception(std::make_exception_ptr(std::runtime_error("late")));
  } catch (const std::future_error &e) {
    rejected = e.code() == std::future_errc::promise_already_satisfied;
  }
  try {
    return !(pf.second.get() == 5 && rejected);
  } catch (...) {
    return 2;
  }
}
