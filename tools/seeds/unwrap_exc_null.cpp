//! flags: -O1
//! needs: a continuation which returns a failing future<void>, next attached after everything is done and the inner state is owned only by the unwrapped result
//! breaks: the failure of the inner future is not seen by the following next continuation: it runs and the result is a success
#include <portable_concurrency/future>
#include <stdexcept>
int main() {
  auto outer = pc::make_promise<int>();
  int calls = 0;
  auto f = outer.second.next([](int) { return pc::make_exceptional_future<void>(std::runtime_error("x")); });
  outer.first.set_value(1);
  auto h = f.next([&] { ++calls; });
  if (!h.is_ready() || calls)
    return 1;
  try { h.get(); return 2; } catch (const std::runtime_error &) { return 0; } catch (...) { return 3; }
}
