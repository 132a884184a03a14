//! flags: -O1
//! needs: get on a future holding an exception, the future object inspected or used again afterwards
//! breaks: a future whose get threw the stored exception stays valid and can be read again
#include <portable_concurrency/future>
#include <future>
#include <stdexcept>
int main() {
  auto pf = pc::make_promise<int>();
  pf.first.set_exception(std::make_exception_ptr(std::runtime_error("x")));
  try { pf.second.get(); return 1; } catch (const std::runtime_error &) {}
  if (pf.second.valid())
    return 2;
  try { pf.second.get(); } catch (const std::future_error &e) { return e.code() != std::future_errc::no_state; } catch (...) { return 3; }
  return 4;
}
