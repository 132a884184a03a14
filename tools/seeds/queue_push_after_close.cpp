//! flags: -O1
//! needs: a task which posts after wait() was called, while another task is still queued
//! breaks: a task posted after the pool was closed is accepted and executed
#include <portable_concurrency/thread_pool>
#include <portable_concurrency/functional>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
int main() {
  std::atomic<int> late{0}, first{0};
  {
    pc::static_thread_pool pool{1};
    auto exec = pool.executor();
    std::atomic<bool> started{false}, closed{false};
    post(exec, [&] { started = true; while (!closed) std::this_thread::yield(); post(exec, [&] { ++late; }); });
    post(exec, [&] { ++first; });
    std::thread w([&] { while (!started) std::this_thread::yield(); pool.wait(); });
    while (!started)
      std::this_thread::yield();
    std::this_thread::sleep_for(std::chrono::milliseconds(300));
    closed = true;
    w.join();
  }
  std::printf("queued before: %d, posted after close: %d\n", first.load(), late.load());
  return first != 1 || late != 0;
}
