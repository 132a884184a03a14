//! flags: -O2
//! needs: two inputs fulfilled at the same moment by different threads
//! breaks: the when_all future never becomes ready although every input is
#include <portable_concurrency/future>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
#include <vector>
int main() {
  const int N = 400000;
  std::atomic<int> go{-1}, fin{0};
  std::vector<pc::promise<void>> p[2];
  p[0].resize(N), p[1].resize(N);
  std::vector<pc::future<std::tuple<pc::future<void>, pc::future<void>>>> all;
  for (int i = 0; i < N; ++i)
    all.push_back(pc::when_all(p[0][i].get_future(), p[1][i].get_future()));
  auto body = [&](int k) {
    for (int i = 0; i < N; ++i) {
      fin.fetch_add(1);
      while (fin.load() < 2 * (i + 1)) {}
      p[k][i].set_value();
    }
  };
  std::thread a(body, 0), b(body, 1);
  a.join(), b.join();
  int lost = 0;
  for (auto &f : all)
    lost += !f.is_ready();
  if (lost)
    std::printf("%d of %d when_all futures are not ready\n", lost, N);
  return lost != 0;
}
