//@flags -std=c++20
#include "h.h"
// C20: coroutines awaiting futures (PC_HAS_COROUTINES).
#include <coroutine>
static int g_frames = 0;
struct Live { Live() { g_frames++; } Live(const Live&) = delete; ~Live() { g_frames--; } };   // a local of the coroutine: destroyed once with the frame
static pc::future<int> add1(pc::future<int> f, int* steps) { Live l; ++*steps; int v = co_await std::move(f); ++*steps; co_return v + 1; }
static pc::future<int> sum(pc::shared_future<int> a, pc::future<int> b) { Live l; int x = co_await a; int y = co_await b; co_return x + y; }
static pc::future<int> catching(pc::future<int> f) { Live l; try { co_return co_await f; } catch (const Err& e) { co_return OUT_ERR(e.v); } catch (const std::future_error& e) { co_return 2000000 + e.code().value(); } }
static pc::future<void> vd(pc::future<void> f, int* n) { Live l; co_await f; ++*n; }
template <class B> static pc::future<B> bx(pc::future<B> f) { Live l; B b = co_await f; B r(b.get() ^ 1); co_return r; }   // (templates: instantiated only where used)
template <class R> static pc::future<R> rf(pc::future<R> f) { Live l; R r = co_await f; co_return r; }
static pc::future<int> thrower(int k) { Live l; if (k == 0) throw Err{8}; co_return k; }
static pc::shared_future<int> shr(pc::shared_future<int> f) { Live l; co_return 3 + co_await f; }
static pc::future<int> noAwait(int k) { Live l; co_return k; }
static void finish(pc::promise<int>& p, unsigned how, int v) { if (how == 0) p.set_value(v); else if (how == 1) p.set_exception(std::make_exception_ptr(Err{v & 0xff})); else { auto x = std::move(p); } }
static int want(unsigned how, int v) { return how == 0 ? v : how == 1 ? OUT_ERR(v & 0xff) : OUT_BROKEN; }

//@ C20,C16 reach=before,later
VP_SCENARIO(coro_value) {
  unsigned how = vp_pick("how", 3); bool before = vp_pick2("before"), drop = vp_pick2("drop"); int v = vp_int("v"), steps = 0; g_frames = 0; { auto p = pc::make_promise<int>(); if (before) finish(p.first, how, v); auto f = add1(std::move(p.second), &steps); VP_ASSERT(f.valid()); VP_ASSERT(f.is_ready() == before); VP_ASSERT(steps == (before && how == 0 ? 2 : 1)); if (drop && !before) f = {}; if (!before) { VP_ASSERT(g_frames == 1); VP_ASSERT(p.first.is_awaiten()); finish(p.first, how, v); } VP_ASSERT(g_frames == 0); VP_ASSERT(steps == (how == 0 ? 2 : 1)); if (f.valid()) { VP_ASSERT(f.is_ready()); VP_ASSERT(outcome(f) == (how == 0 ? (int)(v + 1u) : want(how, v))); } } if (before) VP_REACH("before"); else VP_REACH("later");
}
//@ C20 reach=done
VP_SCENARIO(coro_kinds) {
  unsigned k = vp_pick("k", 8); bool before = vp_pick2("before"); int v = vp_int("v"), w = vp_int("w"), n = 0; g_frames = 0;
  if (k == 0) { auto p = pc::make_promise<int>(), q = pc::make_promise<int>(); auto s = p.second.share(); auto f = sum(s, std::move(q.second)); if (before) { p.first.set_value(v); VP_ASSERT(!f.is_ready()); q.first.set_value(w); } else { q.first.set_value(w); VP_ASSERT(!f.is_ready()); p.first.set_value(v); } VP_ASSERT(f.is_ready()); VP_ASSERT(f.get() == (int)((unsigned)v + w)); VP_ASSERT(s.valid() && s.get() == v); }
  else if (k == 1) { unsigned how = vp_pick("how", 3); auto p = pc::make_promise<int>(); if (before) finish(p.first, how, v); auto f = catching(std::move(p.second)); if (!before) finish(p.first, how, v); VP_ASSERT(f.is_ready()); VP_ASSERT(f.get() == want(how, v)); }
  else if (k == 2) { auto p = pc::make_promise<void>(); if (before) p.first.set_value(); auto f = vd(std::move(p.second), &n); VP_ASSERT(n == before); if (!before) p.first.set_value(); VP_ASSERT(n == 1); VP_ASSERT(f.is_ready()); f.get(); }
  else if (k == 3) { auto p = pc::make_promise<Box>(); if (before) p.first.set_value(Box(v)); auto f = bx(std::move(p.second)); if (!before) p.first.set_value(Box(v)); VP_ASSERT(f.get().get() == (v ^ 1)); }
  else if (k == 4) { auto p = pc::make_promise<int&>(); if (before) p.first.set_value(v); auto f = rf(std::move(p.second)); if (!before) p.first.set_value(v); VP_ASSERT(&f.get() == &v); }
  else if (k == 5) { unsigned t = vp_pick("t", 2); auto f = thrower(t); VP_ASSERT(f.is_ready()); VP_ASSERT(outcome(f) == (t ? 1 : OUT_ERR(8))); }
  else if (k == 6) { auto p = pc::make_promise<int>(); auto s = p.second.share(); if (before) p.first.set_value(v); auto f = shr(s); auto f2 = f; if (!before) p.first.set_value(v); VP_ASSERT(f.get() == (int)(v + 3u)); VP_ASSERT(f2.get() == f.get()); }
  else { auto f = add1(add1(noAwait(v), &n), &n); VP_ASSERT(f.is_ready()); VP_ASSERT(f.get() == (int)(v + 2u)); VP_ASSERT(n == 4); }
  VP_ASSERT(g_frames == 0); VP_REACH("done");
}
// co_await on a future which has no state: reported by the documented error, inside the coroutine
template <class F> static pc::future<int> aw(F f, bool in) { Live l; if (in) { try { co_await f; } catch (const std::future_error& e) { VP_ASSERT(e.code() == std::future_errc::no_state); co_return 11; } co_return 12; } co_await f; co_return 12; }
//@ C17,C20 reach=done
VP_SCENARIO(coro_invalid) {
  unsigned k = vp_pick("k", 4); bool in = vp_pick2("caught_inside"), moved = vp_pick2("moved"); g_frames = 0;
  { auto p = pc::make_promise<int>(); auto pv = pc::make_promise<void>(); auto s = pc::make_promise<int>(); auto sh = s.second.share(); pc::future<int> f0; pc::shared_future<int> s0; pc::future<void> v0; pc::shared_future<void> sv0; if (moved) { auto x = std::move(p.second); f0 = std::move(p.second); auto y = std::move(sh); s0 = sh; (void)x; (void)y; }
    auto r = k == 0 ? aw(std::move(f0), in) : k == 1 ? aw(s0, in) : k == 2 ? aw(std::move(v0), in) : aw(sv0, in);
    VP_ASSERT(r.is_ready()); int e = 0; try { e = r.get(); } catch (const std::future_error& x) { e = x.code() == std::future_errc::no_state ? 13 : 14; } VP_ASSERT(e == (in ? 11 : 13)); }
  VP_ASSERT(g_frames == 0); VP_REACH("done");
}
// every kind of coroutine that ends with an exception (its own or the awaited one) or whose result nobody keeps
static pc::future<void> tv(pc::future<int> f, int k, int* n) { Live l; if (k == 0) throw Err{1}; int v = co_await f; ++*n; if (k == 1) throw Err{v & 0xff}; if (k == 2) throw std::future_error(std::future_errc::no_state); }
template <class Box> static pc::future<Box> tb(pc::future<int> f, int k, int* n) { Live l; if (k == 0) throw Err{1}; int v = co_await f; ++*n; if (k == 1) throw Err{v & 0xff}; if (k == 2) throw std::future_error(std::future_errc::no_state); co_return Box(v); }
static int g_cell;
template <class R> static pc::future<R> tr(pc::future<int> f, int k, int* n) { Live l; if (k == 0) throw Err{1}; int v = co_await f; ++*n; if (k == 1) throw Err{v & 0xff}; if (k == 2) throw std::future_error(std::future_errc::no_state); g_cell = v; co_return g_cell; }
template <class CBox> static pc::shared_future<CBox> ts(pc::shared_future<int> f, int k, int* n) { Live l; if (k == 0) throw Err{1}; int v = co_await f; ++*n; if (k == 1) throw Err{v & 0xff}; if (k == 2) throw std::future_error(std::future_errc::no_state); CBox b(v); co_return b; }
template <class F, class G> static int coroOut(F& f, G g) { try { return g(f); } catch (const Err& e) { return 1000000 + e.v; } catch (const std::future_error& e) { return 2000000 + e.code().value(); } catch (...) { return 3000000; } }
//@ C20,C16 reach=done
VP_SCENARIO(coro_fail) {
  unsigned kind = vp_pick("kind", 4), how = vp_pick("how", 3), k = vp_pick("k", 4); bool before = vp_pick2("before"), drop = vp_pick2("drop"); int v = vp_int("v"), n = 0; VP_ASSUME(v >= 0 && v < 1000000); g_frames = 0; int expect = k == 0 ? OUT_ERR(1) : how == 1 ? OUT_ERR(v & 0xff) : how == 2 ? OUT_BROKEN : k == 1 ? OUT_ERR(v & 0xff) : k == 2 ? 2000000 + (int)std::future_errc::no_state : v;
  { auto p = pc::make_promise<int>(); if (before) finish(p.first, how, v); auto fin = [&](auto f, auto g) { VP_ASSERT(f.is_ready() == (before || k == 0)); bool d = drop; if (d) f = {}; if (!before) finish(p.first, how, v); VP_ASSERT(g_frames == 0); VP_ASSERT(n == (how == 0 && k != 0)); if (!d) { VP_ASSERT(f.is_ready()); VP_ASSERT(coroOut(f, g) == expect); } };
    if (kind == 0) fin(tv(std::move(p.second), k, &n), [v](auto& f) { f.get(); return v; }); else if (kind == 1) fin(tb<Box>(std::move(p.second), k, &n), [](auto& f) { return f.get().get(); }); else if (kind == 2) fin(tr<int&>(std::move(p.second), k, &n), [](auto& f) { int& r = f.get(); VP_ASSERT(&r == &g_cell); return r; }); else fin(ts<CBox>(p.second.share(), k, &n), [](auto& f) { return f.get().get(); }); }
  VP_ASSERT(g_frames == 0); VP_REACH("done");
}
// a coroutine as continuation of another chain: continuations attached to its future, unwrapping, cancellation of what follows
//@ C20,C08,C09 reach=done
VP_SCENARIO(coro_chain) {
  unsigned k = vp_pick("k", 4), how = vp_pick("how", 3); bool before = vp_pick2("before"); int v = vp_int("v"), n = 0, m = 0; g_frames = 0; { auto p = pc::make_promise<int>(); if (before) finish(p.first, how, v); pc::future<int> g;
    if (k == 0) g = add1(std::move(p.second), &n).next([&m](int x) { m++; return x ^ 5; }); else if (k == 1) g = add1(std::move(p.second), &n).then([&m](pc::future<int> x) { m++; return x.get() ^ 5; }); else if (k == 2) g = p.second.then([&](pc::future<int> x) { m++; return add1(std::move(x), &n); }).next([](int x) { return x ^ 5; }); else g = p.second.next([&](int x) { m++; return add1(noAwait(x), &n); }).next([](int x) { return x ^ 5; });
    if (!before) { VP_ASSERT(!g.is_ready()); finish(p.first, how, v); } VP_ASSERT(g.is_ready()); VP_ASSERT(outcome(g) == (how == 0 ? (int)(v + 1u) ^ 5 : want(how, v))); VP_ASSERT(m == (k == 1 || k == 2 || how == 0)); VP_ASSERT(n == (k == 3 ? (how == 0 ? 2 : 0) : how == 0 ? 2 : 1)); VP_ASSERT(g_frames == 0); } VP_REACH("done");
}
// one shared result awaited by two coroutines and a notification; all are resumed once
//@ C20,C03 reach=done
VP_SCENARIO(coro_shared) {
  int v = vp_int("v"), n = 0; bool drop = vp_pick2("drop"); g_frames = 0; { auto p = pc::make_promise<int>(); auto s = p.second.share(); auto a = sum(s, pc::make_ready_future(1)); s.notify([&] { n++; }); auto b = sum(s, noAwait(2)); VP_ASSERT(g_frames == 2); s = {}; if (drop) a = {}; p.first.set_value(v); VP_ASSERT(g_frames == 0 && n == 1); VP_ASSERT(b.get() == (int)(v + 2u)); if (!drop) VP_ASSERT(a.get() == (int)(v + 1u)); } VP_REACH("done");
}
// the awaited future is fulfilled by another thread while the coroutine suspends
//@ C20,C02,C16 reach=done cost=100
VP_SCENARIO(coro_conc) {
  unsigned how = vp_pick("how", 3); bool early = vp_pick2("thread_first"); g_frames = 0; int steps = 0; { auto p = pc::make_promise<int>(); std::thread t; if (early) t = std::thread([x = std::move(p.first), how]() mutable { finish(x, how, 4); }); auto f = add1(std::move(p.second), &steps); if (!early) t = std::thread([x = std::move(p.first), how]() mutable { finish(x, how, 4); }); int r = outcome(f); VP_ASSERT(r == (how == 0 ? 5 : want(how, 4))); t.join(); VP_ASSERT(steps == (how == 0 ? 2 : 1)); VP_ASSERT(g_frames == 0); } VP_REACH("done");
}
//@ C20,C22 reach=done cost=20
VP_SCENARIO(coro_conc_shared) {
  g_frames = 0; { auto p = pc::make_promise<int>(); auto s = p.second.share(); std::thread t([x = std::move(p.first)]() mutable { x.set_value(4); }); auto a = sum(s, pc::make_ready_future(1)); VP_ASSERT(s.get() == 4); VP_ASSERT(a.get() == 5); t.join(); VP_ASSERT(g_frames == 0); } VP_REACH("done");
}
// a coroutine awaiting a result with an allocator registers through that allocator, and everything goes back
struct CntArena { int blocks = 0, total = 0; };
template <class T> struct CA { using value_type = T; CntArena* a; explicit CA(CntArena* a) : a(a) {} template <class U> CA(const CA<U>& o) : a(o.a) {} T* allocate(std::size_t n) { a->blocks++; a->total++; return static_cast<T*>(::operator new(n * sizeof(T))); } void deallocate(T* p, std::size_t) { a->blocks--; ::operator delete(p); } template <class U> bool operator==(const CA<U>& o) const { return a == o.a; } template <class U> bool operator!=(const CA<U>& o) const { return a != o.a; } };
//@ C19,C20 reach=done
VP_SCENARIO(coro_alloc) {
  unsigned how = vp_pick("how", 3); bool shared = vp_pick2("shared"); int v = vp_int("v"), steps = 0; CntArena r; g_frames = 0; { auto pr = pc::make_promise<int>(CA<int>(&r)); VP_ASSERT(r.blocks == 1); pc::future<int> f; if (shared) f = sum(pr.second.share(), pc::make_ready_future(1)); else f = add1(std::move(pr.second), &steps); VP_ASSERT(r.blocks == 2); finish(pr.first, how, v); VP_ASSERT(g_frames == 0); VP_ASSERT(outcome(f) == (how == 0 ? (int)(v + 1u) : want(how, v))); } VP_ASSERT(r.blocks == 0); VP_REACH("done");
}
