//! flags: -O1
//! timeout: 30
//! needs: the pool is closed while a worker which was notified about a queued task has not yet taken it and another worker sleeps
//! breaks: wait()/the destructor hang: a sleeping worker is never told that the pool is closed
#include <portable_concurrency/thread_pool>
#include <portable_concurrency/functional>
#include <cstdio>
#include <thread>
int main() {
  for (int i = 0; i < 20000; ++i) {
    pc::static_thread_pool pool{4};
    if (i % 2)
      std::this_thread::yield();
    post(pool.executor(), [] {});
    pool.wait();
  }
}
