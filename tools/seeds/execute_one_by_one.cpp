//! flags: -O2
//! needs: a continuation attached by one thread exactly while another thread publishes the result
//! breaks: the attached continuation is lost: it is neither run by the publisher nor by the attaching thread
#include <portable_concurrency/future>
#include <atomic>
#include <chrono>
#include <thread>
int main() {
  constexpr int N = 2000;
  const auto end = std::chrono::steady_clock::now() + std::chrono::seconds(40);
  while (std::chrono::steady_clock::now() < end) {
    std::vector<pc::promise<int>> ps(N);
    std::vector<pc::shared_future<int>> fs;
    for (auto &p : ps)
      fs.push_back(p.get_future().share());
    std::atomic<int> turn{-1}, done{0}, runs{0};
    std::thread t([&] {
      for (int i = 0; i < N; i++) {
        while (turn.load() < i) {}
        for (int k = 0; k < 4; k++)
          fs[i].notify([&] { runs++; });
        done = i + 1;
      }
    });
    for (int i = 0; i < N; i++) {
      turn = i;
      for (volatile int d = 0; d < i % 300; d = d + 1) {}
      ps[i].set_value(i);
      while (done.load() < i + 1) {}
    }
    t.join();
    if (runs != 4 * N)
      return 1;
  }
  return 0;
}
