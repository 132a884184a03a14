//! flags: -O1
//! needs: a spurious wake-up of the thread blocked in timed_waiter::wait_until
//! breaks: wait_until reports ready for a future which is not ready
#include <portable_concurrency/future>
#include <portable_concurrency/timed_waiter>
#include <chrono>
#include <cstdio>
#include <pthread.h>
#include <time.h>
extern "C" int pthread_cond_clockwait(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *) { return 0; }
extern "C" int pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *) { return 0; }
int main() {
  auto pf = pc::make_promise<int>();
  pc::timed_waiter w{pf.second};
  auto a = w.wait_until(std::chrono::steady_clock::now() + std::chrono::milliseconds(50));
  auto b = w.wait_until(std::chrono::system_clock::now() + std::chrono::milliseconds(50));
  if (a != pc::future_status::timeout || b != pc::future_status::timeout)
    return std::puts("ready reported for a future which is not ready"), 1;
}
