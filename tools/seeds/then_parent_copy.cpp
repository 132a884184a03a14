//! needs: a then function which drops the future it was given while it still runs
//! breaks: the result stays alive although the last future referring to it is gone
#include <portable_concurrency/future>
int alive = 0;
struct res { res() { ++alive; } res(res &&) noexcept { ++alive; } res(const res &) { ++alive; } ~res() { --alive; } };
int main() {
  auto f = pc::make_ready_future(res{});
  if (alive != 1)
    return 1;
  int inside = -1;
  auto g = f.then([&](pc::future<res> x) {
    { pc::future<res> last = std::move(x); }
    inside = alive;
    return 1;
  });
  return inside != 0;
}
