// Native side of the replay: real threads that run one at a time in the order the solver's counterexample (or a
// simulated trace) prescribes, inputs from the trace, happens-before checking with vector clocks, AddressSanitizer
// for memory errors.   usage: exe TRACE     prints  RESULT <kind>: <message>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <condition_variable>
#include <deque>
#include <exception>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>
using u64 = uint64_t;
extern "C" int __asan_address_is_poisoned(void const volatile*) __attribute__((weak));
extern "C" { struct Ent { const char* n; void (*f)(); }; extern const Ent __vpn_entries[]; }
enum { RD = 1, WR = 2, AT = 4, ACQ = 8, REL = 16, FENCE = 32 };
enum St { RUN, LOCK, JOIN, WAIT, DONE };
typedef std::vector<u64> VC;
struct Th { St st = RUN; bool started = false; u64 cnt = 0; void* on = nullptr; u64 jt = 0; bool timed = false, waiting = false, notified = false; std::condition_variable cv; std::deque<std::pair<std::string, u64>> in; VC vc; void (*fn)(void*); void* arg; std::set<void*> held; };
struct Item { int tid; u64 ap; int wake; };
static std::mutex G; static std::deque<Th> T; static std::vector<Item> S; static size_t idx = 0; static bool freeMode = false, races = false, noTmo = false, fences = false; static int cur = 0, prefer = -1, fill = 0; static std::map<std::pair<int, u64>, int> creates; static int nthreads = 1;
static thread_local int me = 0; static thread_local int inside = 0;
static std::string entry; static std::vector<std::string> reach; static std::map<void*, u64> live; static std::set<void*> noleak;
[[noreturn]] static void result(const std::string& r) { std::string o = "RESULT " + r + "\n"; for (auto& l : reach) o += "REACH " + l + "\n"; o += "POINTS"; for (auto& t : T) o += " " + std::to_string(t.cnt); o += "\nSCHEDULE " + std::to_string(idx) + "/" + std::to_string(S.size()) + "\n"; if (write(1, o.data(), o.size()) < 0) {} _exit(0); }
static void join(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) if (a[i] < b[i]) a[i] = b[i]; }
static u64 at(const VC& a, int i) { return (size_t)i < a.size() ? a[i] : 0; }
// ---- happens-before ---------------------------------------------------------------------------
struct Sh { VC c[4]; };   // plain read, plain write, atomic read, atomic write
static std::unordered_map<uintptr_t, Sh> shadow; static std::unordered_map<uintptr_t, VC> sync_;
static void chk(const VC& c, const char* what, uintptr_t a) { for (size_t t = 0; t < c.size(); t++) if ((int)t != me && c[t] > at(T[me].vc, t)) { char b[160]; snprintf(b, sizeof b, "data-race: thread %d and thread %zu, %s at byte %zx", me, t, what, (size_t)(a & 0xfff)); result(b); } }
static void hb(int k, uintptr_t a, u64 n, bool fr) {
  if (!races || fences) return;
  for (u64 i = 0; i < n; i++) {
    auto it = shadow.find(a + i); if (fr && it == shadow.end()) continue; Sh& s = it == shadow.end() ? shadow[a + i] : it->second; bool w = k & WR, r = k & RD;
    if (!(k & AT)) { chk(s.c[1], "plain write", a + i); chk(s.c[3], "atomic write", a + i); if (w) { chk(s.c[0], "plain read", a + i); if (fr || true) chk(s.c[2], "atomic read", a + i); } }
    else { chk(s.c[1], "plain write", a + i); if (w) chk(s.c[0], "plain read", a + i); }
    auto put = [&](int q) { if (s.c[q].size() <= (size_t)me) s.c[q].resize(me + 1); s.c[q][me] = T[me].vc[me]; };
    if (r) put(k & AT ? 2 : 0); if (w) put(k & AT ? 3 : 1);
  }
}
static void acq(int k, uintptr_t a) { if (k & AT && k & ACQ && k & RD) { auto it = sync_.find(a); if (it != sync_.end()) join(T[me].vc, it->second); } }
static void rel(int k, uintptr_t a, bool rmw) {
  if (!(k & AT)) return; Th& t = T[me];
  if (k & WR) { if (k & REL) { if (rmw) join(sync_[a], t.vc); else sync_[a] = t.vc; t.vc[me]++; } else if (!rmw) sync_.erase(a); }
}
// ---- scheduler --------------------------------------------------------------------------------
static bool runnable(int i) { Th& t = T[i]; if (!t.started || t.st == DONE) return false; if (t.st == LOCK) return *(int*)t.on == 0; if (t.st == JOIN) return T[t.jt].st == DONE; if (t.st == WAIT) return t.notified; return true; }
static void pick() {
  if (prefer >= 0 && runnable(prefer)) { cur = prefer; T[cur].cv.notify_all(); return; }
  for (size_t i = 0; i < T.size(); i++) if (runnable(i)) { cur = i; T[i].cv.notify_all(); return; }
  if (!noTmo) for (size_t i = 0; i < T.size(); i++) if (T[i].started && T[i].st == WAIT && T[i].timed) { T[i].notified = true; T[i].timed = false; cur = i; T[i].cv.notify_all(); return; }
  std::string m; for (size_t i = 0; i < T.size(); i++) if (T[i].started && T[i].st != DONE) m += " T" + std::to_string(i) + (T[i].st == LOCK ? " on a mutex" : T[i].st == JOIN ? " in join" : " in a condition variable wait");
  result(m.empty() ? "ok" : "deadlock:" + m);
}
static void enterFree() { if (!freeMode) { freeMode = true; pick(); } }
static int turn(std::unique_lock<std::mutex>& lk) {   // returns the wake mode of the item the thread runs under
  for (;;) {
    if (freeMode) { if (cur == me) return 0; T[me].cv.wait(lk); continue; }
    if (idx >= S.size()) { enterFree(); continue; }
    if (S[idx].tid == me) { if (T[me].cnt < S[idx].ap) return S[idx].wake; idx++; if (idx < S.size()) { if ((size_t)S[idx].tid < T.size()) T[S[idx].tid].cv.notify_all(); } else enterFree(); continue; }
    T[me].cv.wait(lk);
  }
}
static thread_local int wakeMode = 0; static bool verbose = getenv("VPN_TRACE");
extern "C" {
void __vpn_point(int k, void* a, u64 n) {
  if (inside || T.empty()) return;
  std::unique_lock<std::mutex> lk(G); wakeMode = turn(lk); T[me].cnt++; if (verbose) fprintf(stderr, "%d %lu %p\n", me, T[me].cnt, __builtin_return_address(0));
  if (k & FENCE) fences = true;
  if (k & (RD | WR)) { acq(k, (uintptr_t)a); hb(k, (uintptr_t)a, n, false); rel(k, (uintptr_t)a, (k & RD) && (k & WR)); }
}
void __vpn_access(int k, void* a, u64 n) { if (inside || T.empty()) return; std::unique_lock<std::mutex> lk(G); hb(k, (uintptr_t)a, n, false); }
void __vpn_rmw(int k, void* a, u64 n, int ok) { if (inside || T.empty()) return; std::unique_lock<std::mutex> lk(G); int q = ok ? (k & 255) | RD | WR : (k >> 8 & 255) | RD; acq(q, (uintptr_t)a); hb(q, (uintptr_t)a, n, false); rel(q, (uintptr_t)a, true); }
u64 __vp_nondet(const char* name, unsigned bits) {
  std::unique_lock<std::mutex> lk(G); Th& t = T[me]; u64 m = bits >= 64 ? ~0ull : (1ull << bits) - 1; if (t.in.empty()) { if (!S.empty() && !freeMode) result(std::string("diverged: no input for ") + name); return 0; } auto x = t.in.front(); t.in.pop_front();
  if (x.first != name) result("diverged: input " + x.first + " where the program asks for " + name); return x.second & m;
}
void __vp_assume(int c) { if (!c) { std::unique_lock<std::mutex> lk(G); result("diverged: assumption does not hold"); } }
void __vp_assert(int c, const char* m) { if (!c) { std::unique_lock<std::mutex> lk(G); result(std::string("assert: ") + m); } }
void __vp_fail(const char* k, const char* m) { std::unique_lock<std::mutex> lk(G); result(std::string(k) + ": " + m); }
void __vp_reach(const char* l) { std::unique_lock<std::mutex> lk(G); reach.push_back(l); }
u64 __vp_pick(u64 v) { return v; }
u64 __vp_self() { return me; }
static void* tramp(void* p) {
  Th* t = (Th*)p; { std::unique_lock<std::mutex> lk(G); for (size_t i = 0; i < T.size(); i++) if (&T[i] == t) me = i; }
  t->fn(t->arg);
  std::unique_lock<std::mutex> lk(G); if (freeMode && cur != me) turn(lk); t->st = DONE;
  if (!freeMode) { while (idx < S.size() && S[idx].tid == me) idx++; if (idx < S.size()) { if ((size_t)S[idx].tid < T.size()) T[S[idx].tid].cv.notify_all(); } else enterFree(); } else pick();
  for (auto& x : T) x.cv.notify_all(); lk.unlock(); for (;;) pause();   // stacks are not reused
}
u64 __vp_thread_create(void (*f)(void*), void* arg) {
  std::unique_lock<std::mutex> lk(G); auto it = creates.find({me, T[me].cnt - 1}); int id; if (it != creates.end()) { id = it->second; if (id >= nthreads) nthreads = id + 1; } else id = nthreads++;
  while ((int)T.size() <= id) T.emplace_back(); Th& t = T[id]; if (t.started) result("diverged: thread created twice"); t.started = true; t.fn = f; t.arg = arg; t.vc = T[me].vc; if ((int)t.vc.size() <= id) t.vc.resize(id + 1); t.vc[id] = 1; T[me].vc[me]++;
  pthread_t p; pthread_create(&p, nullptr, tramp, &t); pthread_detach(p); return id;
}
static void block(std::unique_lock<std::mutex>& lk, St st, void* on) { Th& t = T[me]; t.st = st; t.on = on; for (;;) { if (cur == me && runnable(me)) break; if (cur == me) pick(); if (cur == me && runnable(me)) break; if (cur != me) t.cv.wait(lk); } t.st = RUN; }
void __vp_thread_join(u64 id) {
  std::unique_lock<std::mutex> lk(G); Th& t = T[me]; if ((int)id == me) result("deadlock: thread joins itself");
  if (freeMode) { t.jt = id; block(lk, JOIN, nullptr); } else { t.st = JOIN; t.jt = id; for (int i = 0; i < 2000 && T[id].st != DONE && !freeMode; i++) t.cv.wait_for(lk, std::chrono::milliseconds(2)); if (freeMode) block(lk, JOIN, nullptr); else if (T[id].st != DONE) result("diverged: join of a thread that did not finish"); t.st = RUN; }
  join(t.vc, T[id].vc);
}
static void mem(void* p, const char* w) { if (__asan_address_is_poisoned && __asan_address_is_poisoned(p)) result(std::string("use-after-free: ") + w + " on a destroyed object"); }
void __vp_lock(void* m) {
  std::unique_lock<std::mutex> lk(G); mem(m, "mutex lock"); Th& t = T[me]; if (t.held.count(m)) result("deadlock: thread locks a mutex it already holds");
  if (*(int*)m) { if (!freeMode) result("diverged: mutex is not free"); block(lk, LOCK, m); mem(m, "mutex lock"); }
  *(int*)m = 1; t.held.insert(m); acq(RD | AT | ACQ, (uintptr_t)m); hb(RD | WR | AT, (uintptr_t)m, 4, false);
}
int __vp_trylock(void* m) { std::unique_lock<std::mutex> lk(G); mem(m, "mutex lock"); if (*(int*)m) return 0; *(int*)m = 1; T[me].held.insert(m); acq(RD | AT | ACQ, (uintptr_t)m); return 1; }
void __vp_held(void*) {}
void __vp_unlock(void* m) { std::unique_lock<std::mutex> lk(G); mem(m, "mutex unlock"); if (!T[me].held.erase(m)) result("mutex: unlock of a mutex the thread does not hold"); hb(WR | AT, (uintptr_t)m, 4, false); rel(WR | AT | REL, (uintptr_t)m, true); *(int*)m = 0; }
void __vp_cv_begin(void* cv, void* m) { { std::unique_lock<std::mutex> lk(G); mem(cv, "condition variable wait"); if (!T[me].held.count(m)) result("mutex: condition variable wait without holding the mutex"); hb(RD | WR | AT, (uintptr_t)cv, 1, false); T[me].waiting = true; T[me].notified = false; T[me].on = cv; } __vp_unlock(m); }
int __vp_cv_block(void* cv, int timed) {
  std::unique_lock<std::mutex> lk(G); Th& t = T[me]; int r = wakeMode;
  if (!freeMode && r) { if (r == 1 && !t.notified) { bool ok = false; for (auto& o : T) if (o.started && o.waiting && o.on == cv && o.notified) { o.notified = false; ok = true; break; } if (!ok) result("diverged: wake-up without notification"); } }
  else { if (!freeMode) result("diverged: condition variable wait without wake-up"); t.timed = timed; bool was = timed; void* on = cv; t.st = WAIT; t.on = on; bool n0 = t.notified; block(lk, WAIT, cv); r = was && !t.timed && !n0 ? 3 : 1; }
  t.waiting = false; t.notified = false; return r;
}
void __vp_cv_notify(void* cv, int all) { std::unique_lock<std::mutex> lk(G); mem(cv, "condition variable notification"); hb(RD | WR | AT, (uintptr_t)cv, 1, false); for (auto& t : T) if (t.started && t.waiting && t.on == cv && !t.notified) { t.notified = true; if (!all) break; } }
// exception objects belong to libstdc++, which decides who destroys them: their destructors have no points (as in the engine)
static std::map<void*, void (*)(void*)> excDtor;
static void exc_dtor(void* o) { void (*d)(void*) = nullptr; { std::unique_lock<std::mutex> lk(G); auto it = excDtor.find(o); if (it != excDtor.end()) { d = it->second; excDtor.erase(it); } } if (d) { inside++; d(o); inside--; } }
[[noreturn]] void vpn_real_throw(void*, void*, void (*)(void*)) __asm__("__cxa_throw"); void* vpn_real_init(void*, void*, void (*)(void*)) __asm__("__cxa_init_primary_exception");
[[noreturn]] void __vpn___cxa_throw(void* o, void* t, void (*d)(void*)) { if (d) { std::unique_lock<std::mutex> lk(G); excDtor[o] = d; } vpn_real_throw(o, t, d ? exc_dtor : nullptr); }
void* __vpn___cxa_init_primary_exception(void* o, void* t, void (*d)(void*)) { if (d) { std::unique_lock<std::mutex> lk(G); excDtor[o] = d; } return vpn_real_init(o, t, d ? exc_dtor : nullptr); }
void* __vp_malloc(u64 n) { u64 al = n >> 32; n &= 0xffffffffu; void* p; if (posix_memalign(&p, al < 16 ? 16 : al, n ? n : 1)) abort(); memset(p, fill, n); std::unique_lock<std::mutex> lk(G); live[p] = n; return p; }
void __vp_free(void* p) {
  if (!p) return; { std::unique_lock<std::mutex> lk(G); auto it = live.find(p); if (it == live.end()) { if (__asan_address_is_poisoned && __asan_address_is_poisoned(p)) result("memory: double free"); lk.unlock(); free(p); return; } hb(WR, (uintptr_t)p, it->second, true); for (u64 i = 0; i < it->second; i++) { shadow.erase((uintptr_t)p + i); sync_.erase((uintptr_t)p + i); } live.erase(it); } free(p);
}
static bool expTerm; void __vp_expect_terminate() { expTerm = true; }
void __vp_noleak(void* p) { std::unique_lock<std::mutex> lk(G); noleak.insert(p); }
void __vp_free_untracked(void*) {}
const char* __asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=1:exitcode=88:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0:quarantine_size_mb=64"; }
}
int main(int argc, char** argv) {
  FILE* f = argc > 1 ? fopen(argv[1], "r") : nullptr; if (!f) return 3; char l[4096];
  { std::deque<Th> t0; T.emplace_back(); T[0].started = true; T[0].vc = {1}; }
  while (fgets(l, sizeof l, f)) {
    long a, b, c; u64 v; char n[256];
    if (sscanf(l, "E %255s", n) == 1) entry = n; else if (sscanf(l, "T %ld %ld %ld", &a, &b, &c) == 3) creates[{(int)b, (u64)c}] = a;
    else if (sscanf(l, "I %ld %lu %255s", &a, &v, n) == 3) { while ((long)T.size() <= a) T.emplace_back(); T[a].in.push_back({n, v}); }
    else if (sscanf(l, "S %ld %ld %ld", &a, &b, &c) == 3) S.push_back({(int)a, (u64)b, (int)c}); else if (sscanf(l, "P %ld", &a) == 1) prefer = a; else if (l[0] == 'R') races = true; else if (l[0] == 'N') noTmo = true; else if (sscanf(l, "F %ld", &a) == 1) fill = a;
  }
  for (auto& x : S) while ((int)T.size() <= x.tid) T.emplace_back();
  std::set_terminate([] { std::unique_lock<std::mutex> lk(G, std::try_to_lock); if (expTerm) { reach.push_back("terminated"); result("ok"); } result("terminate: std::terminate called"); }); alarm(20);
  for (auto* e = __vpn_entries; e->n; e++) if (entry == e->n) {
    { std::unique_lock<std::mutex> lk(G); if (S.empty()) { freeMode = true; cur = 0; } }
    e->f();
    std::unique_lock<std::mutex> lk(G); T[0].st = DONE; for (int i = 0; i < 500; i++) { bool all = true; for (auto& t : T) if (t.started && t.st != DONE) all = false; if (all) break; if (!freeMode) { while (idx < S.size() && S[idx].tid == 0) idx++; if (idx < S.size()) T[S[idx].tid].cv.notify_all(); else enterFree(); } else if (cur == 0) pick(); lk.unlock(); usleep(2000); lk.lock(); }
    for (auto& p : live) if (!noleak.count(p.first)) result("leak: object of " + std::to_string(p.second) + " bytes is never destroyed");
    result("ok");
  }
  fprintf(stderr, "no entry %s\n", entry.c_str()); return 3;
}
