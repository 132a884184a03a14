//! flags: -O1
//! std: c++20
//! needs: a coroutine that starts awaiting a future which becomes ready on another thread between the readiness test and the registration
//! breaks: the coroutine is resumed twice
#include <portable_concurrency/future>
#include <atomic>
#include <chrono>
#include <thread>
pc::future<int> add1(pc::future<int> f, std::atomic<int> *n) { int v = co_await f; ++*n; co_return v + 1; }
int main() {
  const auto end = std::chrono::steady_clock::now() + std::chrono::seconds(40);
  for (int round = 0; std::chrono::steady_clock::now() < end; round++) {
    constexpr int N = 500;
    std::vector<pc::promise<int>> ps(N);
    std::vector<pc::future<int>> fs, rs(N);
    for (auto &p : ps)
      fs.push_back(p.get_future());
    std::atomic<int> turn{-1}, done{0}, n{0};
    std::thread t([&] {
      for (int i = 0; i < N; i++) {
        while (turn.load() < i) {}
        for (volatile int d = 0; d < (round * 7 + i) % 200; d = d + 1) {}
        ps[i].set_value(i);
        done = i + 1;
      }
    });
    for (int i = 0; i < N; i++) {
      turn = i;
      rs[i] = add1(std::move(fs[i]), &n);
      while (done.load() < i + 1) {}
      if (rs[i].get() != i + 1)
        return 2;
    }
    t.join();
    if (n != N)
      return 1;
  }
  return 0;
}
