//! flags: -O1 -fsanitize=thread
//! needs: a thread which fulfils the promise while another one polls is_ready() and then reads the result
//! breaks: the stored result is not published: its construction is not ordered before the read of a thread which sees the future ready
#include <portable_concurrency/future>
#include <thread>
struct Big { long a, b; explicit Big(long v) : a(v), b(~v) {} };
int main() {
  for (int i = 0; i < 300; ++i) {
    auto pf = pc::make_promise<Big>();
    std::thread t([p = std::move(pf.first), i]() mutable { p.set_value(Big{i}); });
    while (!pf.second.is_ready())
      std::this_thread::yield();
    Big r = pf.second.get();
    t.join();
    if (r.a != i || r.b != ~long(i))
      return 1;
  }
}
