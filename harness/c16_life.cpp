#include "h.h"
// C16: every object handed over, moved-from husks included, is destroyed exactly once and at the documented time.
// A Tok owns one allocation per object which moves do not transfer: an object whose destructor is skipped (or run twice)
// shows as a leak (or a double free) even when it was moved from.
struct Tok { int* id; int v; explicit Tok(int v) : id(new int(1)), v(v) {} Tok(Tok&& o) noexcept : id(new int(1)), v(o.v) { o.v = -1; } Tok(const Tok& o) : id(new int(1)), v(o.v) {} Tok& operator=(Tok&& o) noexcept { v = o.v; if (&o != this) o.v = -1; return *this; } ~Tok() { VP_ASSERT(*id == 1); *id = 0; delete id; } };
struct Pad { long a[6]; };
// values
//@ C16,C01 reach=done cost=5
VP_SCENARIO(life_values) {
  unsigned how = vp_pick("how", 5), use = vp_pick("use", 7); int v = vp_int("v"); VP_ASSUME(v != -1); pc::promise<Tok> p; pc::future<Tok> f; Queue q; bool err1 = how == 4;
  if (how == 0 || err1) { auto pr = pc::make_promise<Tok>(); p = std::move(pr.first); f = std::move(pr.second); } else if (how == 1) f = pc::make_ready_future(Tok(v)); else if (how == 2) f = pc::async(QExec{&q}, [](Tok t) { return t; }, Tok(v)); else { pc::packaged_task<Tok(int)> t([](int x) { return Tok(x); }); f = t.get_future(); t(v); }
  auto ful = [&] { if (how == 0) p.set_value(Tok(v)); else if (err1) p.set_exception(std::make_exception_ptr(Tok(v))); else if (how == 2) q.run(0); };
  auto got = [&](auto&& g) { int r = -5; try { r = g(); } catch (const Tok& t) { r = t.v; } VP_ASSERT(r == v); };
  if (use == 0) { ful(); got([&] { return f.get().v; }); }
  else if (use == 1) { ful(); f = {}; }
  else if (use == 2) { f = {}; if (how == 0) p.set_value(Tok(v)); else ful(); }
  else if (use == 3) { auto s = f.share(); ful(); got([&] { return s.get().v; }); auto s2 = s; s = {}; got([&] { return s2.get().v; }); }
  else if (use == 4) { auto g = f.next([](Tok t) { return t; }); ful(); got([&] { return g.get().v; }); }
  else if (use == 5) { auto g = f.then([](pc::future<Tok> t) { return t; }); ful(); got([&] { return g.get().v; }); }
  else { auto s = f.share(); auto g = s.next([](const Tok& t) { return Tok(t); }); auto h = pc::when_all(s, std::move(g)); ful(); auto t = h.get(); got([&] { return std::get<0>(t).get().v; }); got([&] { return std::get<1>(t).get().v; }); }
  VP_REACH("done");
}
// function objects and executors; `out` counts function objects still alive
static int g_fn = 0;
template <class P> struct Fn { Tok t; P pad; explicit Fn(int v) : t(v) { g_fn++; } Fn(Fn&& o) noexcept : t(std::move(o.t)) { g_fn++; } Fn(const Fn& o) : t(o.t) { g_fn++; } ~Fn() { g_fn--; }
  int operator()() { VP_ASSERT(t.v != -1); if (t.v == 99) throw Err{9}; return t.v; } int operator()(int x) { VP_ASSERT(t.v != -1); if (t.v == 99) throw Err{9}; return x; } template <class T> int operator()(pc::future<T> x) { VP_ASSERT(t.v != -1); if (t.v == 99) throw Err{9}; return x.get(); } template <class T> int operator()(pc::shared_future<T> x) { VP_ASSERT(t.v != -1); if (t.v == 99) throw Err{9}; return x.get(); } };
struct None {};
static int g_ex = 0;
struct LifeExec { Queue* q; Tok t; LifeExec(Queue* q) : q(q), t(7) { g_ex++; } LifeExec(const LifeExec& o) : q(o.q), t(o.t) { g_ex++; } LifeExec(LifeExec&& o) noexcept : q(o.q), t(std::move(o.t)) { g_ex++; } ~LifeExec() { g_ex--; } };
template <class F> void post(const LifeExec& e, F&& f) { VP_ASSERT(e.t.v == 7); e.q->t[e.q->n++] = new TaskOf<std::decay_t<F>>(std::move(f)); }
namespace portable_concurrency { template <> struct is_executor<LifeExec> : std::true_type {}; }
template <class F> static void lifeFns(unsigned how, unsigned end, bool thr) {
  g_fn = g_ex = 0; { Queue q; auto pr = pc::make_promise<int>(); pc::future<int> f; pc::shared_future<int> s; F fn(thr ? 99 : 4); int own = 1; bool ex = false;
    if (how == 0) f = pr.second.then(std::move(fn)); else if (how == 1) f = pr.second.next(std::move(fn)); else if (how == 2) { f = pr.second.then(LifeExec{&q}, std::move(fn)); ex = true; } else if (how == 3) { f = pr.second.next(LifeExec{&q}, std::move(fn)); ex = true; }
    else if (how == 4) { s = pr.second.share(); f = s.then(std::move(fn)); } else if (how == 5) { s = pr.second.share(); f = s.next(LifeExec{&q}, std::move(fn)); ex = true; } else if (how == 6) f = pr.second.next(fn); else { s = pr.second.share(); f = s.then(LifeExec{&q}, fn); ex = true; }
    VP_ASSERT(g_fn == own + 1); VP_ASSERT(g_ex == (ex ? 1 : 0));   // exactly one copy is kept
    if (end == 0) { pr.first.set_value(4); if (ex) { VP_ASSERT(q.n == 1); q.run(0); } VP_ASSERT(f.is_ready()); VP_ASSERT(g_fn == own); VP_ASSERT(g_ex == 0); VP_ASSERT(outcome(f) == (thr ? OUT_ERR(9) : 4)); }
    else if (end == 1) { pr.first.set_exception(std::make_exception_ptr(Err{3})); if (ex) q.run(0); VP_ASSERT(f.is_ready()); VP_ASSERT(g_fn == own); VP_ASSERT(g_ex == 0); int o = outcome(f); VP_ASSERT(o == OUT_ERR(3) || thr); }
    else if (end == 2) { f = {}; VP_ASSERT(g_fn == own); VP_ASSERT(g_ex == 0); pr.first.set_value(4); }   // cancelled
    else if (end == 3) { pr.first.set_value(4); q.clear(); if (ex) { VP_ASSERT(outcome(f) == OUT_BROKEN); } VP_ASSERT(g_fn == own); VP_ASSERT(g_ex == 0); }
    else { pr.first.set_value(4); f = {}; q.clear(); VP_ASSERT(g_fn == own); }
  } VP_ASSERT(g_fn == 0); VP_ASSERT(g_ex == 0);
}
//@ C16,C08,C07 reach=done cost=8
VP_SCENARIO(life_functions) { unsigned how = vp_pick("how", 8), end = vp_pick("end", 5); bool thr = vp_pick2("throws"); if (vp_pick2("big")) lifeFns<Fn<Pad>>(how, end, thr); else lifeFns<Fn<None>>(how, end, thr); VP_REACH("done"); }
// tasks
//@ C16,C21,C12 reach=done cost=8
VP_SCENARIO(life_tasks) {
  unsigned how = vp_pick("how", 6); bool thr = vp_pick2("throws"); g_fn = g_ex = 0;
  { Queue q; pc::future<int> f; using F = Fn<None>; F fn(thr ? 99 : 4); auto chk = [&] { VP_ASSERT(f.is_ready()); VP_ASSERT(g_fn == 1); VP_ASSERT(outcome(f) == (thr ? OUT_ERR(9) : 4)); };
    if (how == 0) { pc::packaged_task<int()> t(std::move(fn)); VP_ASSERT(g_fn == 2); f = t.get_future(); auto u = std::move(t); VP_ASSERT(g_fn == 2); u(); chk(); }
    else if (how == 1) { f = pc::async(LifeExec{&q}, std::move(fn)); VP_ASSERT(g_fn == 2); q.run(0); q.clear(); chk(); VP_ASSERT(g_ex == 0); }
    else if (how == 2) { pc::packaged_task<int()> t(std::move(fn)); f = t.get_future(); t = pc::packaged_task<int()>([] { return 1; }); VP_ASSERT(g_fn == 1); VP_ASSERT(outcome(f) == OUT_BROKEN); }
    else if (how == 3) { pc::unique_function<int()> u(std::move(fn)); VP_ASSERT(g_fn == 2); pc::unique_function<int()> w(std::move(u)); pc::packaged_task<int()> t(std::move(w)); f = t.get_future(); t(); int o = outcome(f); VP_ASSERT(o == (thr ? OUT_ERR(9) : 4)); }
    else if (how == 4) { pc::static_thread_pool pool(0); post(pool.executor(), std::move(fn)); VP_ASSERT(g_fn == 2); }
    else { auto s = pc::make_ready_future().share(); int r = 0; try { s.notify(std::move(fn)); } catch (const Err&) { r = 1; } VP_ASSERT(r == thr); } }
  VP_ASSERT(g_fn == 0); VP_ASSERT(g_ex == 0); VP_REACH("done");
}
// the future given to a continuation is the last one: its result goes with it, not with the end of the continuation
static int g_val = 0;
struct Cnt { int v; explicit Cnt(int v) : v(v) { g_val++; } Cnt(Cnt&& o) noexcept : v(o.v) { g_val++; } Cnt(const Cnt& o) : v(o.v) { g_val++; } ~Cnt() { g_val--; } };
//@ C16,C08 reach=done
VP_SCENARIO(life_then_release) {
  unsigned k = vp_pick("k", 6); bool before = vp_pick2("before"), get = vp_pick2("get"), queued = vp_pick2("queued"), fail = vp_pick2("fail"); int v = vp_int("v"), ran = 0; g_val = 0; Queue q;   // (the running set_value or set_exception keeps the state)
  { Cnt src(v); auto p = pc::make_promise<Cnt>(); pc::shared_future<Cnt> s; if (k >= 3) s = p.second.share(); pc::future<int> f;
    auto ful = [&] { if (fail) { auto e = std::make_exception_ptr(src); p.first.set_exception(std::move(e)); } else p.first.set_value(src); }; if (before) ful();
    auto body = [&](auto x) { ran++; VP_ASSERT(g_val == 2); s = {}; VP_ASSERT(g_val == 2); if (get) { int r = 0; try { r = x.get().v; } catch (const Cnt& c) { r = c.v; } VP_ASSERT(r == v); } x = {}; if (queued || before) VP_ASSERT(g_val == 1); return 5; };
    auto at = [&](auto e) { switch (k) {
      case 0: f = p.second.then(e, [&](pc::future<Cnt> x) { return body(std::move(x)); }); break; case 1: f = p.second.then(e, [&](pc::future<Cnt> x) { return pc::make_ready_future(body(std::move(x))); }); break; case 2: f = p.second.then(e, [&](pc::promise<int> r, pc::future<Cnt> x) { r.set_value(body(std::move(x))); }); break;
      case 3: f = s.then(e, [&](pc::shared_future<Cnt> x) { return body(std::move(x)); }); break; case 4: f = s.then(e, [&](pc::shared_future<Cnt> x) { return pc::make_ready_future(body(std::move(x))); }); break; default: f = s.then(e, [&](pc::promise<int> r, pc::shared_future<Cnt> x) { r.set_value(body(std::move(x))); }); } };
    if (queued) at(QExec{&q}); else at(pc::inplace_executor);
    if (!before) ful(); if (queued) { VP_ASSERT(ran == 0); q.run(0); } VP_ASSERT(ran == 1 && g_val == 1); VP_ASSERT(f.get() == 5); }
  VP_ASSERT(g_val == 0); VP_REACH("done");
}
