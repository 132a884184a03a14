//! flags: -O1 -fsanitize=thread
//! needs: a consumer which only polls is_ready() and then uses data the producer wrote before it fulfilled the promise
//! breaks: what the producer wrote before set_value() is not ordered before reads made after is_ready() returned true
#include <portable_concurrency/future>
#include <thread>
int main() {
  for (int i = 0; i < 300; ++i) {
    auto pf = pc::make_promise<void>();
    auto f = std::move(pf.second);
    long data = 0;
    std::thread t([p = std::move(pf.first), &data, i]() mutable { data = i; p.set_value(); });
    while (!f.is_ready())
      std::this_thread::yield();
    bool bad = data != i;
    t.join();
    if (bad)
      return 1;
  }
}
