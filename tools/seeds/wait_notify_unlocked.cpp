//! flags: -O1
//! needs: the fulfilling thread is preempted inside the wake-up of a thread blocked in wait(), which finishes meanwhile
//! breaks: the fulfilling thread uses the condition variable of a waiter whose wait() has already returned (destroyed stack object)
// pthread_cond_signal is replaced by one which is slow; a wait() which has returned by its end has destroyed the condition variable.
#include <portable_concurrency/future>
#include <atomic>
#include <cstdio>
#include <dlfcn.h>
#include <pthread.h>
#include <thread>
#include <unistd.h>
static std::atomic<bool> waiting{false}, returned{false}, used_dead{false};
extern "C" int pthread_cond_signal(pthread_cond_t *c) {
  static auto real = reinterpret_cast<int (*)(pthread_cond_t *)>(dlsym(RTLD_NEXT, "pthread_cond_signal"));
  if (waiting) {
    for (int i = 0; i < 200 && !returned; ++i)
      usleep(1000);
    if (returned) {
      used_dead = true;
      return 0;
    }
  }
  return real(c);
}
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  // Spurious wake-ups are allowed: poll so that the waiter notices the flag without the notification.
  pthread_mutex_unlock(m);
  waiting = true;
  usleep(1000);
  pthread_mutex_lock(m);
  return 0;
}
int main() {
  auto pf = pc::make_promise<int>();
  std::thread t([p = std::move(pf.first)]() mutable {
    while (!waiting)
      usleep(1000);
    p.set_value(1);
  });
  int v = pf.second.get();
  returned = true;
  t.join();
  if (used_dead)
    std::puts("condition variable of a finished wait() is used");
  return v != 1 || used_dead;
}
