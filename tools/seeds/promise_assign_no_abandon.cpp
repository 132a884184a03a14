//! needs: a pending promise is overwritten by a moved-from (empty) promise
//! breaks: the future of the overwritten promise never becomes ready
#include <future>
#include <portable_concurrency/future>
int main() {
  auto a = pc::make_promise<int>();
  auto b = pc::make_promise<int>();
  pc::promise<int> kept = std::move(b.first);
  a.first = std::move(b.first);
  if (!a.second.is_ready())
    return 1;
  try {
    a.second.get();
    return 2;
  } catch (const std::future_error &e) {
    if (e.code() != std::future_errc::broken_promise)
      return 3;
  }
  kept.set_value(5);
  return b.second.get() != 5;
}
