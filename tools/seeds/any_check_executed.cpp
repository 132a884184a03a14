//! flags: -O1 -fsanitize=thread
//! needs: two inputs fulfilled at the same moment by different threads
//! breaks: both inputs write the index of the when_any result, the second one while the consumer already reads it
#include <portable_concurrency/future>
#include <atomic>
#include <thread>
int main() {
  for (int i = 0; i < 3000; ++i) {
    pc::promise<int> a, b;
    auto f = pc::when_any(a.get_future(), b.get_future());
    std::atomic<int> n{0};
    std::thread t1([&] { n.fetch_add(1, std::memory_order_relaxed); while (n.load(std::memory_order_relaxed) < 2) {} a.set_value(1); });
    std::thread t2([&] { n.fetch_add(1, std::memory_order_relaxed); while (n.load(std::memory_order_relaxed) < 2) {} b.set_value(1); });
    std::size_t idx = f.get().index;
    t1.join(), t2.join();
    if (idx > 1)
      return 1;
  }
}
