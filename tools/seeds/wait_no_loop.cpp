//! flags: -O1
//! needs: a spurious wake-up of the thread blocked in wait()
//! breaks: wait() returns although the future is not ready
#include <portable_concurrency/future>
#include <atomic>
#include <cstdio>
#include <pthread.h>
#include <thread>
#include <unistd.h>
static std::atomic<int> calls{0};
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { // only spurious wake-ups
  ++calls;
  pthread_mutex_unlock(m);
  usleep(2000);
  pthread_mutex_lock(m);
  return 0;
}
int main() {
  auto pf = pc::make_promise<int>();
  std::thread t([p = std::move(pf.first)]() mutable {
    while (calls < 1)
      usleep(1000);
    usleep(50000);
    p.set_value(1);
  });
  pf.second.wait();
  bool ready = pf.second.is_ready();
  t.join();
  if (!ready)
    std::puts("wait() returned before the future is ready");
  return !ready;
}
