// Interface between the harnesses and vpsym (and the native replay runtime).
#pragma once
#include <atomic>
#include <cstdint>
extern "C" {
uint64_t __vp_nondet(const char* name, unsigned bits);
void __vp_assume(int c);
void __vp_assert(int c, const char* msg);
void __vp_fail(const char* kind, const char* msg);
void __vp_reach(const char* label);
uint64_t __vp_thread_create(void (*f)(void*), void* arg);
void __vp_thread_join(uint64_t t);
uint64_t __vp_self();
void __vp_lock(void* m);
int __vp_trylock(void* m);
void __vp_held(void* m);
void __vp_unlock(void* m);
void __vp_cv_begin(void* cv, void* m);
int __vp_cv_block(void* cv, int timed);
void __vp_cv_notify(void* cv, int all);
void* __vp_malloc(uint64_t n);
void __vp_free(void* p);
void __vp_noleak(void* p);
void __vp_expect_terminate();     // std::terminate ends this path as intended (label "terminated"); sequential scenarios only
uint64_t __vp_pick(uint64_t v);   // continue separately for every value
[[noreturn]] void __vp_unwind(void* rec, const void* ti);
extern std::atomic<int> vp_sleeps;
extern bool vp_ghost;             // count the threads which started to sleep on a condition variable in vp_sleeps
extern __thread int vp_static_init;   // this thread initialises a function-local static: what it allocates lives until the program ends
extern int vp_fault_budget;      // how many further operator new calls may fail
extern int vp_fault_count;       // how many did
}
#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
#define VP_ASSERT(c) __vp_assert(!!(c), #c " (" __FILE_NAME__ ":" VP_STR(__LINE__) ")")
#define VP_ASSERT_MSG(c, m) __vp_assert(!!(c), m " (" __FILE_NAME__ ":" VP_STR(__LINE__) ")")
#define VP_REACH(l) __vp_reach(l)
#define VP_ASSUME(c) __vp_assume(!!(c))
#define VP_SCENARIO(name) extern "C" __attribute__((used, noinline)) void vp_##name()
inline bool vp_bool(const char* n) { return __vp_nondet(n, 1) & 1; }
inline int vp_int(const char* n) { return (int)(uint32_t)__vp_nondet(n, 32); }
inline uint64_t vp_u64(const char* n) { return __vp_nondet(n, 64); }
inline unsigned vp_choose(const char* n, unsigned k) { unsigned v = (unsigned)__vp_nondet(n, 8); __vp_assume(v < k); return v; }
inline unsigned vp_pick(const char* n, unsigned k) { return (unsigned)__vp_pick(vp_choose(n, k)); }
inline bool vp_pick2(const char* n) { return vp_pick(n, 2) != 0; }
