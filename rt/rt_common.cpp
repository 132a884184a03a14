// Runtime model used by both the engine and the native replay: threads, locks, clocks, allocation.
#include "vp.h"
#include <atomic>
#include <condition_variable>
#include <chrono>
#include <cstdlib>
#include <mutex>
#include <new>
#include <thread>
#include <errno.h>
#include <pthread.h>
#include <time.h>

extern "C" {
bool vp_ghost = false;
std::atomic<int> vp_sleeps{0};
__thread int vp_static_init = 0;
int vp_fault_budget = 0;
int vp_fault_count = 0;
char __libc_single_threaded = 0;
}
static void* vp_new(std::size_t n, bool nothrow, std::size_t align = 0) {
  if (vp_fault_budget > 0 && (__vp_nondet("alloc_fault", 1) & 1)) { --vp_fault_budget; ++vp_fault_count; if (nothrow) return nullptr; throw std::bad_alloc(); }
  void* p = __vp_malloc(n | (uint64_t)align << 32); if (vp_static_init) __vp_noleak(p); return p;
}
void* operator new(std::size_t n) { return vp_new(n, false); }
void* operator new[](std::size_t n) { return vp_new(n, false); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return vp_new(n, true); }
void* operator new(std::size_t n, std::align_val_t a) { return vp_new(n, false, (std::size_t)a); }
void* operator new[](std::size_t n, std::align_val_t a) { return vp_new(n, false, (std::size_t)a); }
void operator delete[](void* p, std::align_val_t) noexcept { __vp_free(p); }
void operator delete(void* p) noexcept { __vp_free(p); }
void operator delete[](void* p) noexcept { __vp_free(p); }
void operator delete(void* p, std::size_t) noexcept { __vp_free(p); }
void operator delete[](void* p, std::size_t) noexcept { __vp_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { __vp_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { __vp_free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { __vp_free(p); }

// ---- threads ---------------------------------------------------------------------------------
static void vp_tramp(void* p) noexcept { std::thread::_State_ptr st(static_cast<std::thread::_State*>(p)); st->_M_run(); }
namespace std {
thread::_State::~_State() = default;
void thread::_M_start_thread(_State_ptr st, void (*)()) { void* p = st.release(); _M_id._M_thread = __vp_thread_create(&vp_tramp, p) + 1; }
void thread::join() { if (!joinable()) __vp_fail("thread", "join of a thread that is not joinable"); uint64_t t = _M_id._M_thread - 1; _M_id = id(); __vp_thread_join(t); }
void thread::detach() { if (!joinable()) __vp_fail("thread", "detach of a thread that is not joinable"); _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 2; }
condition_variable::condition_variable() noexcept = default;
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) { void* m = l.mutex()->native_handle(); void* c = native_handle(); __vp_cv_begin(c, m); if (vp_ghost) vp_sleeps.fetch_add(1, std::memory_order_relaxed); __vp_cv_block(c, 0); __vp_lock(m); }
void condition_variable::notify_one() noexcept { __vp_cv_notify(native_handle(), 0); }
void condition_variable::notify_all() noexcept { __vp_cv_notify(native_handle(), 1); }
}  // namespace std

// ---- time: every reading is arbitrary but not before the previous reading of the same thread, and not before
// the deadline of a timed wait the thread saw expire
static thread_local int64_t vp_floor = 0;
int64_t vp_now() {
  int64_t v = (int64_t)__vp_nondet("clock", 40); __vp_assume(v >= vp_floor); vp_floor = v; return v;
}
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vp_now())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(vp_now())); }
}}}
static int vp_timedwait(void* c, void* m, const struct timespec* ts) {
  __vp_cv_begin(c, m); int mode = __vp_cv_block(c, 1);
  if (mode == 3) { int64_t dl = (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec; if (vp_floor < dl) vp_floor = dl; }
  __vp_lock(m); return mode == 3 ? ETIMEDOUT : 0;
}
extern "C" {
// recursive mutexes: the owner is kept beside the lock; only a thread's own stores make it equal to itself
static bool vp_recursive(pthread_mutex_t* m) { return m->__data.__kind == PTHREAD_MUTEX_RECURSIVE; }
static int vp_owner(pthread_mutex_t* m) { return __atomic_load_n(&m->__data.__owner, __ATOMIC_RELAXED); }
static void vp_own(pthread_mutex_t* m, int o) { __atomic_store_n(&m->__data.__owner, o, __ATOMIC_RELAXED); }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  if (!vp_recursive(m)) { __vp_lock(m); return 0; }
  int self = (int)__vp_self() + 1; if (vp_owner(m) == self) { m->__data.__count++; return 0; }
  __vp_lock(m); vp_own(m, self); m->__data.__count = 1; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (vp_recursive(m)) { if (--m->__data.__count) return 0; vp_own(m, 0); } __vp_unlock(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  int self = vp_recursive(m) ? (int)__vp_self() + 1 : 0; if (self && vp_owner(m) == self) { m->__data.__count++; return 0; }
  if (!__vp_trylock(m)) return EBUSY;
  __vp_held(m); if (self) { vp_own(m, self); m->__data.__count = 1; } return 0;
}
// reader-writer locks: a small monitor kept in the object
struct vp_rw { char mtx[8]; char cv[8]; int readers, writer; };
static_assert(sizeof(vp_rw) <= sizeof(pthread_rwlock_t), "");
static void vp_rw_wait(vp_rw* r) { __vp_cv_begin(r->cv, r->mtx); __vp_cv_block(r->cv, 0); __vp_lock(r->mtx); }
int pthread_rwlock_init(pthread_rwlock_t* p, const pthread_rwlockattr_t*) noexcept { *p = PTHREAD_RWLOCK_INITIALIZER; return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* p) noexcept { auto r = (vp_rw*)p; __vp_lock(r->mtx); while (r->writer) vp_rw_wait(r); r->readers++; __vp_unlock(r->mtx); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* p) noexcept { auto r = (vp_rw*)p; __vp_lock(r->mtx); while (r->writer || r->readers) vp_rw_wait(r); r->writer = 1; __vp_unlock(r->mtx); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* p) noexcept { auto r = (vp_rw*)p; __vp_lock(r->mtx); bool ok = !r->writer; if (ok) r->readers++; __vp_unlock(r->mtx); return ok ? 0 : EBUSY; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* p) noexcept { auto r = (vp_rw*)p; __vp_lock(r->mtx); bool ok = !r->writer && !r->readers; if (ok) r->writer = 1; __vp_unlock(r->mtx); return ok ? 0 : EBUSY; }
int pthread_rwlock_unlock(pthread_rwlock_t* p) noexcept { auto r = (vp_rw*)p; __vp_lock(r->mtx); if (r->writer) r->writer = 0; else r->readers--; __vp_cv_notify(r->cv, 1); __vp_unlock(r->mtx); return 0; }
// std::call_once
static int vp_once_mtx[2];
int pthread_once(pthread_once_t* o, void (*f)()) {
  if (__atomic_load_n(o, __ATOMIC_ACQUIRE)) return 0;
  __vp_lock(vp_once_mtx);
  if (!__atomic_load_n(o, __ATOMIC_ACQUIRE)) { try { f(); } catch (...) { __vp_unlock(vp_once_mtx); throw; } __atomic_store_n(o, 1, __ATOMIC_RELEASE); }
  __vp_unlock(vp_once_mtx); return 0;
}
} namespace std { __thread void* __once_callable; __thread void (*__once_call)(); } extern "C" {
void __once_proxy() { std::__once_call(); }
// function-local statics
int __cxa_guard_acquire(char* g) { if (__atomic_load_n(g, __ATOMIC_ACQUIRE)) return 0; __vp_lock(g + 4); if (__atomic_load_n(g, __ATOMIC_ACQUIRE)) { __vp_unlock(g + 4); return 0; } vp_static_init++; return 1; }
void __cxa_guard_release(char* g) noexcept { vp_static_init--; __atomic_store_n(g, 1, __ATOMIC_RELEASE); __vp_unlock(g + 4); }
void __cxa_guard_abort(char* g) noexcept { vp_static_init--; __vp_unlock(g + 4); }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) noexcept { *m = PTHREAD_MUTEX_INITIALIZER; return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { return vp_timedwait(c, m, t); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return vp_timedwait(c, m, t); }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { __vp_cv_begin(c, m); __vp_cv_block(c, 0); __vp_lock(m); return 0; }
int pthread_cond_signal(pthread_cond_t* c) noexcept { __vp_cv_notify(c, 0); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { __vp_cv_notify(c, 1); return 0; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept { *c = PTHREAD_COND_INITIALIZER; return 0; }
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
pthread_t pthread_self() noexcept { return __vp_self() + 1; }
int sched_yield() noexcept { return 0; }
int nanosleep(const struct timespec*, struct timespec*) { return 0; }
}
