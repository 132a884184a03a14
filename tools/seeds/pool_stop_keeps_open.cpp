//! needs: a user thread attached to the pool which is idle when stop() is called, and nobody calling wait() yet
//! breaks: stop() does not release the attached thread, which stays blocked (joining it hangs)
#include <portable_concurrency/execution>
#include <portable_concurrency/functional>
#include <portable_concurrency/latch>
#include <portable_concurrency/thread_pool>
#include <chrono>
#include <thread>
#include <unistd.h>
int main() {
  pc::static_thread_pool pool{0};
  pc::latch inside{1};
  post(pool.executor(), [&] { inside.count_down(); });
  std::thread t{[&] { pool.attach(); }};
  inside.wait();
  std::this_thread::sleep_for(std::chrono::milliseconds{200});
  std::thread{[] { std::this_thread::sleep_for(std::chrono::seconds{20}); _exit(1); }}.detach();
  pool.stop();
  t.join();
  return 0;
}
