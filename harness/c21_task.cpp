#include "h.h"
// C21: async and packaged_task run the function once with the given arguments.
struct Arg { int v; int* copies; Box b; Arg(int v, int* c) : v(v), copies(c), b(v) {} Arg(const Arg& o) : v(o.v), copies(o.copies), b(o.b.get()) { ++*copies; } Arg(Arg&& o) noexcept : v(o.v), copies(o.copies), b(std::move(o.b)) {} };
// executor behaviours: 0 inline, 1 queue then run, 2 queue then drop, 3 drop at once, 4 refuse with an exception
//@ C21,C06,C16,C08 reach=run,dropped,refused cost=5
VP_SCENARIO(async_exec) {
  unsigned ex = vp_pick("executor", 5), res = vp_pick("res", 4); bool lv = vp_pick2("lvalue_arg"); int v = vp_int("v"), w = vp_int("w"), copies = 0, n = 0; Queue q; Arg a(v, &copies); Box fb(9);
  auto chk = [&](Arg x, const Box& y) { n++; VP_ASSERT(x.v == v && x.b.get() == v); VP_ASSERT(y.get() == w); if (res == 3) throw Err{5}; };
  auto go = [&](auto fn, auto check) {
    auto launch = [&](auto e) { if (lv) return pc::async(e, std::move(fn), a, Box(w)); return pc::async(e, std::move(fn), std::move(a), Box(w)); };
    decltype(launch(pc::inplace_executor)) f; bool refused = false;
    if (ex == 0) f = launch(pc::inplace_executor); else if (ex == 1 || ex == 2) f = launch(QExec{&q}); else if (ex == 3) f = launch(DropExec{}); else try { f = launch(ThrowExec{}); } catch (const Err& e) { refused = e.v == 77; }
    VP_ASSERT(copies == (lv ? 1 : 0)); VP_ASSERT(refused == (ex == 4)); if (lv) { VP_ASSERT(a.b.get() == v); a.v = 1; } VP_ASSERT(n == (ex == 0));
    if (ex == 4) { VP_ASSERT(!f.valid()); VP_REACH("refused"); return; }
    VP_ASSERT(f.is_ready() == (ex == 0 || ex == 3));
    if (ex == 1) { VP_ASSERT(q.n == 1); q.run(0); VP_ASSERT(n == 1); VP_ASSERT(f.is_ready()); bool again = err([&] { q.run(0); }) == ALREADY; VP_ASSERT(again); VP_ASSERT(n == 1); q.drop(0); } else if (ex == 2) q.drop(0);
    VP_ASSERT(f.is_ready()); if (ex >= 2) { VP_ASSERT(n == 0); VP_ASSERT(err([&] { f.get(); }) == BROKEN); VP_REACH("dropped"); } else { int r = 0; if (res == 3) { try { f.get(); } catch (const Err& e) { r = e.v; } VP_ASSERT(r == 5); } else check(f); VP_REACH("run"); }
    VP_ASSERT(copies == (lv ? 1 : 0));
  };
  if (res == 0 || res == 3) go([chk](Arg x, Box y) { chk(std::move(x), y); return x.v ^ 1; }, [&](auto& f) { VP_ASSERT(f.get() == (v ^ 1)); });
  else if (res == 1) go([chk](Arg x, Box y) { chk(std::move(x), y); }, [&](auto& f) { f.get(); });
  else go([chk, fb = std::move(fb)](Arg x, Box y) mutable { chk(std::move(x), y); VP_ASSERT(fb.get() == 9); return y; }, [&](auto& f) { VP_ASSERT(f.get().get() == w); });
}
// packaged_task passes its call arguments through; result kinds; nothing else the caller owns changes
struct Obj { int v; Box b; Obj(int v) : v(v), b(v) {} Obj(const Obj& o) : v(o.v), b(o.b.get()) {} Obj(Obj&& o) noexcept : v(o.v), b(std::move(o.b)) { o.v = -1; } Obj& operator=(const Obj&) = delete; };
//@ C21,C01 reach=done
VP_SCENARIO(task_results) {
  unsigned k = vp_pick("k", 14); int v = vp_int("v"), w = vp_int("w"), n = 0; Obj o(v); int x = v;
  if (k == 0) { pc::packaged_task<int(int&, Box, const Box&)> t([&](int& r, Box b, const Box& c) { n++; VP_ASSERT(&r == &x); r = w; return b.get() ^ c.get(); }); auto f = t.get_future(); Box c(3); t(x, Box(v), c); VP_ASSERT(x == w); VP_ASSERT(f.get() == (v ^ 3)); VP_ASSERT(c.get() == 3); }
  else if (k == 1) { pc::packaged_task<int&(int&)> t([&](int& r) -> int& { n++; return r; }); auto f = t.get_future(); t(x); VP_ASSERT(&f.get() == &x); }
  else if (k == 2) { pc::packaged_task<void(int)> t([&](int r) { n++; VP_ASSERT(r == v); }); auto f = t.get_future(); t(v); VP_ASSERT(f.is_ready()); f.get(); }
  // a function returning a reference to a caller's object, task result by value: a copy is stored, the object stays intact
  else if (k == 3) { pc::packaged_task<Obj()> t([&]() -> Obj& { n++; return o; }); auto f = t.get_future(); t(); VP_ASSERT(o.v == v && o.b.get() == v); Obj r = f.get(); VP_ASSERT(r.v == v && r.b.get() == v); }
  else if (k == 4) { pc::packaged_task<Obj()> t([&]() -> const Obj& { n++; return o; }); auto f = t.get_future(); t(); VP_ASSERT(o.v == v && o.b.get() == v); Obj r = f.get(); VP_ASSERT(r.v == v && r.b.get() == v); }
  else if (k == 5) { pc::packaged_task<long(char)> t([&](int c) -> short { n++; return (short)(c + 1); }); auto f = t.get_future(); t((char)7); VP_ASSERT(f.get() == 8); }
  else if (k == 6) { pc::packaged_task<Box()> t([&] { n++; return Box(w); }); auto s = t.get_future().share(); t(); VP_ASSERT(s.get().get() == w); VP_ASSERT(&s.get() == &s.get()); }
  else if (k == 7) { struct M { int a; int add(int b) { return a + b; } } m{v}; pc::packaged_task<int(M&, int)> t(&M::add); n++; auto f = t.get_future(); t(m, 1); VP_ASSERT(f.get() == (int)(v + 1u)); }
  else if (k == 8) { int e = 0; pc::packaged_task<int()> t([&]() -> int { n++; throw Err{v}; }); auto f = t.get_future(); t(); VP_ASSERT(f.is_ready()); try { f.get(); } catch (const Err& y) { e = y.v == v; } VP_ASSERT(e == 1); }
  else if (k == 12) { int e = 0; pc::packaged_task<int&()> t([&]() -> int& { n++; throw Err{v}; }); auto f = t.get_future(); int r = err([&] { t(); }); VP_ASSERT(r == NONE); VP_ASSERT(f.is_ready()); try { f.get(); } catch (const Err& y) { e = y.v == v; } VP_ASSERT(e == 1); }
  else if (k == 13) { int e = 0; pc::packaged_task<void()> t([&] { n++; throw Err{v}; }); auto f = t.get_future(); int r = err([&] { t(); }); VP_ASSERT(r == NONE); VP_ASSERT(f.is_ready()); try { f.get(); } catch (const Err& y) { e = y.v == v; } VP_ASSERT(e == 1); }
  else if (k == 9) { pc::packaged_task<Obj(Obj)> t([&](Obj y) { n++; return y; }); auto f = t.get_future(); t(o); VP_ASSERT(o.v == v && o.b.get() == v); Obj r = f.get(); VP_ASSERT(r.v == v && r.b.get() == v); }
  else if (k == 10) { pc::packaged_task<Obj(const Obj&)> t([&](const Obj& y) -> const Obj& { n++; return y; }); auto f = t.get_future(); t(o); VP_ASSERT(o.v == v && o.b.get() == v); Obj r = f.get(); VP_ASSERT(r.v == v); }
  else { auto sh = pc::make_ready_future(v).share(); pc::packaged_task<pc::shared_future<int>()> t([&]() -> pc::shared_future<int>& { n++; return sh; }); auto f = t.get_future(); t(); VP_ASSERT(sh.valid() && sh.get() == v); VP_ASSERT(f.get() == v); }
  VP_ASSERT(n == 1); VP_REACH("done");
}
// the function object is destroyed with the run, not kept until the future dies
//@ C21,C16 reach=done
VP_SCENARIO(task_func_released) {
  unsigned k = vp_pick("k", 4); bool thr = vp_pick2("throw"); int live = 0; struct L { int* n; L(int* n) : n(n) { ++*n; } L(L&& o) noexcept : n(o.n) { o.n = nullptr; } ~L() { if (n) --*n; } };
  auto fn = [l = L(&live), thr, b = Box(5)] { if (thr) throw Err{1}; return b.get(); }; pc::future<int> f;
  if (k == 0) { pc::packaged_task<int()> t(std::move(fn)); VP_ASSERT(live == 1); f = t.get_future(); t(); VP_ASSERT(live == 0); } else if (k == 1) { f = pc::async(pc::inplace_executor, std::move(fn)); VP_ASSERT(live == 0); } else if (k == 2) { pc::packaged_task<int()> t(std::move(fn)); f = t.get_future(); { auto u = std::move(t); } VP_ASSERT(live == 0); VP_ASSERT(outcome(f) == OUT_BROKEN); VP_REACH("done"); return; } else { pc::packaged_task<int()> t(std::move(fn)); f = t.get_future(); f = {}; VP_ASSERT(live == 0); VP_ASSERT(err([&] { t(); }) == NONE); VP_REACH("done"); return; }
  VP_ASSERT(f.valid()); VP_ASSERT(outcome(f) == (thr ? OUT_ERR(1) : 5)); VP_REACH("done");
}
// arguments given by reference_wrapper stay references; arrays and functions decay; member functions
static int plain(const char* s, int x) { return s[0] + x; }
//@ C21 reach=done
VP_SCENARIO(async_args) {
  unsigned k = vp_pick("k", 12); int v = vp_int("v"), x = 1; Queue q; struct M { int a; int add(int b) { return a + b; } int a2() const { return a; } } m{v};
  if (k == 0) { auto f = pc::async(QExec{&q}, [](int& r, int y) { r = y; return y; }, std::ref(x), v); VP_ASSERT(x == 1); q.run(0); VP_ASSERT(x == v && f.get() == v); }
  else if (k == 1) { char s[2] = {5, 0}; auto f = pc::async(QExec{&q}, plain, s, v); q.run(0); VP_ASSERT(f.get() == (int)(v + 5u)); }
  else if (k == 2) { auto f = pc::async(QExec{&q}, &M::add, m, 2); m.a = 0; q.run(0); VP_ASSERT(f.get() == (int)(v + 2u)); }
  else if (k == 3) { auto f = pc::async(QExec{&q}, &M::a2, std::ref(m)); m.a = 17; q.run(0); VP_ASSERT(f.get() == 17); }
  else if (k == 4) { auto f = pc::async(QExec{&q}, &M::add, &m, 2); m.a = 17; q.run(0); VP_ASSERT(f.get() == 19); }
  else if (k == 5) { auto f = pc::async(QExec{&q}, &M::add, std::make_unique<M>(m), 2); m.a = 0; q.run(0); VP_ASSERT(f.get() == (int)(v + 2u)); }
  else if (k == 6) { pc::packaged_task<int(M)> t(&M::a); auto f = t.get_future(); t(m); m.a = 0; VP_ASSERT(f.get() == v); }
  else if (k == 7) { pc::packaged_task<int(std::reference_wrapper<M>)> t(&M::a); auto f = t.get_future(); m.a = 17; t(std::ref(m)); VP_ASSERT(f.get() == 17); }
  else if (k == 8) { pc::packaged_task<int(M*)> t(&M::a); auto f = t.get_future(); m.a = 17; t(&m); VP_ASSERT(f.get() == 17); }
  else if (k == 9) { auto f = pc::async(QExec{&q}, &M::a2, std::cref(m)); q.run(0); VP_ASSERT(f.get() == v); }
  else if (k == 10) { auto pr = pc::make_promise<M>(); auto f = pr.second.next(&M::a2); pr.first.set_value(m); VP_ASSERT(f.get() == v); auto g = pc::make_ready_future(&m).next(&M::a2); VP_ASSERT(g.get() == v); auto s = pc::make_ready_future(m).share(); auto h = s.next(&M::a2); VP_ASSERT(h.get() == v); }
  else { auto f = pc::async(QExec{&q}, [](int y) { return pc::make_ready_future(y ^ 2); }, v); VP_ASSERT(!f.is_ready()); q.run(0); VP_ASSERT(f.is_ready() && f.get() == (v ^ 2)); }
  VP_REACH("done");
}
// the task is run by another thread
//@ C21,C02,C04 reach=done cost=10
VP_SCENARIO(async_thread) {
  unsigned k = vp_pick("k", 3); int out = 0; Threads th; auto f = pc::async(TExec{&th}, [&](int x) { out = 3; if (k == 1) throw Err{2}; return x; }, 8); if (k == 2) { f = {}; th.join(); } else { VP_ASSERT(outcome(f) == (k ? OUT_ERR(2) : 8)); VP_ASSERT(out == 3); } VP_REACH("done");
}
// named function objects and values: the library owns a copy made at the call, the caller's object is neither moved from nor consulted later
struct Named { CBox b; int calls = 0; explicit Named(int v) : b(v) {} template <class... A> int operator()(A&&...) { return b.get() + calls++; } };
//@ C21,C08,C16 reach=done
VP_SCENARIO(named_functors) {
  unsigned k = vp_pick("k", 17); int v = vp_int("v"), w = vp_int("w"); VP_ASSUME(v != w); Queue q; auto p = pc::make_promise<int>(); auto pv = pc::make_promise<void>(); pc::shared_future<int> s; if (k >= 9) s = p.second.share(); Named n(v); pc::future<int> f; bool ran = false; pc::packaged_task<int()> t; pc::unique_function<int()> u;
  switch (k) {
    case 0: f = pc::async(QExec{&q}, n); break; case 1: f = pc::async(QExec{&q}, n, 1, CBox(2)); break; case 2: t = pc::packaged_task<int()>(n); f = t.get_future(); break; case 3: u = pc::unique_function<int()>(n); break; case 4: { pc::unique_function<int()> z(n); u = std::move(z); break; }
    case 5: f = p.second.then(n); break; case 6: f = p.second.next(n); break; case 7: f = p.second.then(QExec{&q}, n); break; case 8: f = p.second.next(QExec{&q}, n); break;
    case 9: f = s.then(n); break; case 10: f = s.next(n); break; case 11: f = s.then(QExec{&q}, n); break; case 12: f = s.next(QExec{&q}, n); break;
    case 13: f = pv.second.next(n); break; case 14: f = pv.second.next(QExec{&q}, n); break; case 15: f = pv.second.then(n); break;
    default: { auto c = [n](pc::promise<int> r, pc::shared_future<int>) mutable { r.set_value(n()); }; f = s.then(QExec{&q}, c); } }
  VP_ASSERT(n.b.get() == v && n.calls == 0); n.b = CBox(w); n.calls = 7;
  if (k < 2) q.run(0); else if (k == 2) t(); else if (k < 5) { VP_ASSERT(u() == v); VP_ASSERT(u() == (int)(v + 1u)); ran = true; } else { p.first.set_value(1); pv.first.set_value(); if (k == 7 || k == 8 || k == 11 || k == 12 || k == 14 || k == 16) { VP_ASSERT(!f.is_ready()); q.run(0); } }
  if (!ran) { VP_ASSERT(f.is_ready()); VP_ASSERT(f.get() == v); } VP_ASSERT(n.b.get() == w && n.calls == 7); VP_REACH("done");
}
// named executors and cancel actions: the same for the executor objects given to the library
struct NExec { CBox id; Queue* q; int* seen; NExec(int v, Queue* q, int* seen) : id(v), q(q), seen(seen) {} };
template <class F> void post(NExec e, F&& f) { *e.seen = e.id.get(); post(QExec{e.q}, std::forward<F>(f)); }
namespace portable_concurrency { template <> struct is_executor<NExec> : std::true_type {}; }
//@ C08,C03,C16,C21 reach=done
VP_SCENARIO(named_execs) {
  unsigned k = vp_pick("k", 18); bool con = vp_pick2("const"); int v = vp_int("v"), w = vp_int("w"), seen = 0, ran = 0; VP_ASSUME(v != w && v != 0); Queue q; auto p = pc::make_promise<int>(); auto pv = pc::make_promise<void>(); pc::shared_future<int> s, sf; pc::future<int> f; pc::future<void> fv; if (k >= 8 && k < 15) s = p.second.share();
  { NExec e(v, &q, &seen);
    auto go = [&](auto& e) { switch (k) {
      case 0: p.second.notify(e, [&] { ran++; }); break; case 1: f = p.second.then(e, [&](pc::future<int> x) { ran++; return x.get(); }); break; case 2: f = p.second.then(e, [&](pc::future<int> x) { ran++; return x; }); break; case 3: sf = p.second.then(e, [&](pc::future<int> x) { ran++; return x.share(); }); break;
      case 4: f = p.second.then(e, [&](pc::promise<int> r, pc::future<int> x) { ran++; r.set_value(x.get()); }); break; case 5: f = p.second.next(e, [&](int x) { ran++; return x; }); break; case 6: f = p.second.next(e, [&](int x) { ran++; return pc::make_ready_future(x); }); break; case 7: fv = p.second.next(e, [&](int) { ran++; }); break;
      case 8: s.notify(e, [&] { ran++; }); break; case 9: f = s.then(e, [&](pc::shared_future<int> x) { ran++; return x.get(); }); break; case 10: sf = s.then(e, [&](pc::shared_future<int> x) { ran++; return x; }); break; case 11: f = s.then(e, [&](pc::promise<int> r, pc::shared_future<int> x) { ran++; r.set_value(x.get()); }); break;
      case 12: f = s.next(e, [&](const int& x) { ran++; return x; }); break; case 13: f = s.next(e, [&](const int& x) { ran++; return pc::make_ready_future(x); }); break; case 14: fv = s.then(e, [&](pc::shared_future<int>) { ran++; }); break;
      case 15: f = pv.second.next(e, [&] { ran++; return 1; }); break; case 16: pv.second.notify(e, [&] { ran++; }); break; default: f = pc::async(e, [&] { ran++; return 1; }); } };
    if (con) { const NExec& c = e; go(c); } else go(e);
    VP_ASSERT(e.id.get() == v); VP_ASSERT(ran == 0); e.id = CBox(w); }
  p.first.set_value(1); pv.first.set_value(); VP_ASSERT(ran == 0 && q.n == 1); VP_ASSERT(seen == v); q.run(0); VP_ASSERT(ran == 1); if (f.valid()) VP_ASSERT(f.is_ready() && f.get() == 1); if (sf.valid()) VP_ASSERT(sf.is_ready() && sf.get() == 1); if (fv.valid()) VP_ASSERT(fv.is_ready()); VP_REACH("done");
}
//@ C07,C16 reach=done
VP_SCENARIO(named_canceler) {
  unsigned k = vp_pick("k", 3); int v = vp_int("v"), w = vp_int("w"), got = 0, n = 0; VP_ASSUME(v != w && v != 0); struct C { CBox b; int* got; int* n; void operator()() { *got = b.get(); ++*n; } };
  { pc::promise<int> p; pc::future<int> f; { C c{CBox(v), &got, &n}; if (k == 0) { pc::promise<int> x(pc::canceler_arg, c); p = std::move(x); f = p.get_future(); } else if (k == 1) { auto x = pc::make_promise<int>(pc::canceler_arg, c); p = std::move(x.first); f = std::move(x.second); } else { const C& cc = c; auto x = pc::make_promise<int>(pc::canceler_arg, cc); p = std::move(x.first); f = std::move(x.second); } VP_ASSERT(c.b.get() == v && n == 0); c.b = CBox(w); }
    VP_ASSERT(n == 0); { pc::future<int> g = std::move(f); } VP_ASSERT(n == 1 && got == v); VP_ASSERT(!p.is_awaiten()); }
  VP_ASSERT(n == 1); VP_REACH("done");
}
//@ C01,C16 reach=done
VP_SCENARIO(named_values) {
  unsigned k = vp_pick("k", 7); int v = vp_int("v"), w = vp_int("w"); VP_ASSUME(v != w); CBox b(v); const CBox& c = b; pc::future<CBox> f; auto p = pc::make_promise<CBox>();
  switch (k) { case 0: f = std::move(p.second); p.first.set_value(b); break; case 1: f = std::move(p.second); p.first.set_value(c); break; case 2: f = pc::make_ready_future(b); break; case 3: f = pc::make_ready_future(c); break; case 4: f = pc::async(pc::inplace_executor, [](CBox x) { return x; }, b); break; case 5: f = pc::async(pc::inplace_executor, [&]() -> CBox { return b; }); break; default: { pc::packaged_task<CBox(CBox&)> t([](CBox& x) { return x; }); f = t.get_future(); t(b); } }
  VP_ASSERT(b.get() == v); b = CBox(w); VP_ASSERT(f.is_ready()); VP_ASSERT(f.get().get() == v); VP_ASSERT(b.get() == w); VP_REACH("done");
}
