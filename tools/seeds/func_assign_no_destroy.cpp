//! flags: -O1
//! needs: assignment of one non-empty function object to another one
//! breaks: the replaced callable is never destroyed
#include <portable_concurrency/functional>
#include <cstdio>
static int live = 0;
struct C { C() { ++live; } C(C &&) noexcept { ++live; } C(const C &) { ++live; } ~C() { --live; } void operator()() const {} };
int main() {
  {
    pc::unique_function<void()> a{C{}}, b{C{}};
    a = std::move(b);
    a();
    a = pc::unique_function<void()>{};
  }
  if (live)
    std::printf("%d callables are not destroyed\n", live);
  return live != 0;
}
