#include "h.h"
// C08: then / next: values, errors, executors.
struct Cnt { int call = 0; };

// then: the function gets a ready future with the parent's outcome, its own outcome becomes the result
//@ C08,C01 reach=val,exc
VP_SCENARIO(th_then) {
  bool shared = vp_pick2("shared"), parent_err = vp_pick2("perr"), thr = vp_pick2("throws"), before = vp_pick2("ready_before"); unsigned ex = vp_pick("exec", 3); int v = vp_int("v"), w = vp_int("w"); int calls = 0; bool inside = false; Queue q;
  auto pr = pc::make_promise<int>(); auto set = [&] { if (parent_err) pr.first.set_exception(std::make_exception_ptr(Err{v & 0xff})); else pr.first.set_value(v); };
  int exp = parent_err ? OUT_ERR(v & 0xff) : v; if (before) set();
  auto fn = [&](auto x) -> int { calls++; VP_ASSERT(ex != 1 || inside); VP_ASSERT(x.valid()); VP_ASSERT(x.is_ready()); VP_ASSERT(outcome(x) == exp); if (thr) throw Err{w & 0xff}; return w; };
  pc::future<int> f; pc::shared_future<int> s; if (shared) s = pr.second.share();
  if (shared) { if (ex == 0) f = s.then(fn); else if (ex == 1) f = s.then(QExec{&q}, fn); else f = s.then(pc::inplace_executor, fn); VP_ASSERT(s.valid()); }
  else { if (ex == 0) f = pr.second.then(fn); else if (ex == 1) f = pr.second.then(QExec{&q}, fn); else f = pr.second.then(pc::inplace_executor, fn); VP_ASSERT(!pr.second.valid()); }
  if (!before) { VP_ASSERT(calls == 0 && q.n == 0); VP_ASSERT(!f.is_ready()); set(); }
  if (ex == 1) { VP_ASSERT(calls == 0); VP_ASSERT(q.n == 1); VP_ASSERT(!f.is_ready()); inside = true; q.run(0); q.run(0); inside = false; }
  VP_ASSERT(calls == 1); VP_ASSERT(f.is_ready()); int o = outcome(f); VP_ASSERT(o == (thr ? OUT_ERR(w & 0xff) : w)); if (shared) VP_ASSERT(outcome(s) == exp); if (thr) VP_REACH("exc"); else VP_REACH("val");
}
// next: value in, value out; a failed parent skips the function and forwards the same exception
//@ C08,C01 reach=val,exc,skip
VP_SCENARIO(th_next) {
  bool shared = vp_pick2("shared"), parent_err = vp_pick2("perr"), thr = vp_pick2("throws"), before = vp_pick2("ready_before"); unsigned ex = vp_pick("exec", 2); int v = vp_int("v"), w = vp_int("w"); int calls = 0; bool inside = false; Queue q;
  auto pr = pc::make_promise<int>(); auto set = [&] { if (parent_err) pr.first.set_exception(std::make_exception_ptr(Err{v & 0xff})); else pr.first.set_value(v); };
  if (before) set(); auto fn = [&](int x) -> int { calls++; VP_ASSERT(ex == 0 || inside); VP_ASSERT(x == v); if (thr) throw Err{w & 0xff}; return w; };
  pc::future<int> f; pc::shared_future<int> s; if (shared) s = pr.second.share();
  if (shared) { if (ex) f = s.next(QExec{&q}, fn); else f = s.next(fn); VP_ASSERT(s.valid()); } else { if (ex) f = pr.second.next(QExec{&q}, fn); else f = pr.second.next(fn); VP_ASSERT(!pr.second.valid()); }
  if (!before) { VP_ASSERT(calls == 0 && q.n == 0); VP_ASSERT(!f.is_ready()); set(); }
  if (ex) { VP_ASSERT(calls == 0); VP_ASSERT(q.n == 1); inside = true; q.run(0); q.run(0); inside = false; }
  VP_ASSERT(calls == !parent_err); VP_ASSERT(f.is_ready()); int o = outcome(f); VP_ASSERT(o == (parent_err ? OUT_ERR(v & 0xff) : thr ? OUT_ERR(w & 0xff) : w)); if (parent_err) VP_REACH("skip"); else if (thr) VP_REACH("exc"); else VP_REACH("val");
}
// void parent and void results
//@ C08 reach=done
VP_SCENARIO(th_void) {
  bool shared = vp_pick2("shared"), perr = vp_pick2("perr"), thr = vp_pick2("throws"), next = vp_pick2("next"), before = vp_pick2("before"); int calls = 0; auto pr = pc::make_promise<void>(); auto set = [&] { if (perr) pr.first.set_exception(std::make_exception_ptr(Err{3})); else pr.first.set_value(); };
  if (before) set(); pc::future<void> f; pc::shared_future<void> s; if (shared) s = pr.second.share();
  auto fn0 = [&] { calls++; if (thr) throw Err{4}; }; auto fn1 = [&](auto x) { calls++; VP_ASSERT(x.is_ready()); VP_ASSERT(err([&] { x.get(); }) == (perr ? OTHER : NONE)); if (thr) throw Err{4}; };
  if (shared) { if (next) f = s.next(fn0); else f = s.then(fn1); } else { if (next) f = pr.second.next(fn0); else f = pr.second.then(fn1); }
  if (!before) { VP_ASSERT(!f.is_ready() && calls == 0); set(); }
  VP_ASSERT(calls == !(next && perr)); int e = 0; try { f.get(); } catch (const Err& x) { e = x.v; } VP_ASSERT(e == (next && perr ? 3 : thr ? 4 : 0)); VP_REACH("done");
}
// references and move-only values travel unchanged
//@ C08,C16 reach=done
VP_SCENARIO(th_ref_moveonly) {
  unsigned k = vp_pick("k", 6); int v = vp_int("v"); bool before = vp_pick2("before");
  if (k < 2) { int x = v, y = 0; auto pr = pc::make_promise<int&>(); if (before) pr.first.set_value(x); auto f = k == 0 ? pr.second.next([&](int& r) -> int& { VP_ASSERT(&r == &x); return y; }) : pr.second.then([&](pc::future<int&> r) -> int& { VP_ASSERT(&r.get() == &x); return y; }); if (!before) pr.first.set_value(x); int& g = f.get(); VP_ASSERT(&g == &y); VP_ASSERT(x == v); }
  else if (k == 2) { auto pr = pc::make_promise<Box>(); if (before) pr.first.set_value(Box(v)); auto f = pr.second.next([](Box b) { return Box(b.get() ^ 1); }); if (!before) pr.first.set_value(Box(v)); VP_ASSERT(f.get().get() == (v ^ 1)); }
  else if (k == 3) { auto pr = pc::make_promise<Box>(); if (before) pr.first.set_value(Box(v)); auto f = pr.second.then([](pc::future<Box> b) { return b.get(); }); if (!before) pr.first.set_value(Box(v)); VP_ASSERT(f.get().get() == v); }
  else if (k == 4) { auto pr = pc::make_promise<Box>(); auto s = pr.second.share(); if (before) pr.first.set_value(Box(v)); const Box* a = nullptr; auto f = s.next([&](const Box& b) { a = &b; return b.get(); }); auto g = s.next([](const Box& b) { return b.get() ^ 1; }); if (!before) pr.first.set_value(Box(v)); VP_ASSERT(f.get() == v); VP_ASSERT(g.get() == (v ^ 1)); VP_ASSERT(a == &s.get()); VP_ASSERT(s.get().get() == v); }
  else { auto pr = pc::make_promise<Box>(); auto s = pr.second.share(); if (before) pr.first.set_value(Box(v)); auto f = s.then([](pc::shared_future<Box> b) { return b.get().get(); }); if (!before) pr.first.set_value(Box(v)); VP_ASSERT(f.get() == v); VP_ASSERT(s.get().get() == v); }
  VP_REACH("done");
}
// a stateful move-only function object is moved, not copied, and invoked as itself
//@ C08,C16 reach=done
VP_SCENARIO(th_functor) {
  struct F { Box b; int operator()(int x) && { return x + b.get(); } int operator()(int) & { return -1; } }; int v = vp_int("v");
  auto pr = pc::make_promise<int>(); auto f = pr.second.next(F{Box(5)}); pr.first.set_value(v); VP_ASSERT(f.get() == (int)((unsigned)v + 5u)); 
  struct G { int n; int operator()(pc::future<int> x) { return x.get() + n; } }; G g{7}; auto p2 = pc::make_promise<int>(); auto f2 = p2.second.then(g); g.n = 100; p2.first.set_value(1); VP_ASSERT(f2.get() == 8); VP_REACH("done");
}
// an executor refusing the task with an exception (continuation attached to a ready future): the exception reaches the caller
//@ C08,C18 reach=done
VP_SCENARIO(th_exec_throws) {
  bool next = vp_pick2("next"); auto f = pc::make_ready_future(1); bool got = false; pc::future<int> g;
  try { if (next) g = f.next(ThrowExec{}, [b = Box(1)](int x) { return x; }); else g = f.then(ThrowExec{}, [b = Box(1)](pc::future<int> x) { return x.get(); }); } catch (const Err& e) { got = e.v == 77; }
  VP_ASSERT(got || (g.valid() && g.is_ready() && outcome(g) != 1)); VP_REACH("done");
}
// notify with an executor
//@ C08,C03 reach=done
VP_SCENARIO(th_notify_exec) {
  bool shared = vp_pick2("shared"), before = vp_pick2("before"); int n = 0; Queue q; auto pr = pc::make_promise<int>(); pc::shared_future<int> s; if (shared) s = pr.second.share(); if (before) pr.first.set_value(1);
  if (shared) s.notify(QExec{&q}, [&, b = Box(1)] { VP_ASSERT(s.is_ready()); n++; }); else pr.second.notify(QExec{&q}, [&, b = Box(1)] { VP_ASSERT(pr.second.is_ready()); n++; });
  if (!before) { VP_ASSERT(q.n == 0); pr.first.set_value(1); } VP_ASSERT(q.n == 1 && n == 0); q.run(0); VP_ASSERT(n == 1); VP_ASSERT(q.n == 1); VP_REACH("done");
}
// the executor's task runs on a third thread
//@ C08,C02,C16 reach=done cost=10
VP_SCENARIO(th_exec_thread) {
  unsigned kind = vp_pick("kind", 3); Threads th; auto pr = pc::make_promise<int>(); int side = 0; pc::future<int> f;
  if (kind == 0) f = pr.second.then(TExec{&th}, [&side, b = Box(1)](pc::future<int> x) { VP_ASSERT(side == 3); return x.get() + b.get(); }); else if (kind == 1) f = pr.second.next(TExec{&th}, [&side, b = Box(1)](int x) { VP_ASSERT(side == 3); return x + b.get(); }); else f = pr.second.then(TExec{&th}, [&side, b = Box(1)](pc::promise<int> p, pc::future<int> x) { VP_ASSERT(side == 3); p.set_value(x.get() + b.get()); });
  std::thread t([&side, p = std::move(pr.first)]() mutable { side = 3; p.set_value(4); }); VP_ASSERT(f.get() == 5); t.join(); VP_REACH("done");
}
// the task invoked by two threads at once still runs the function once -- not promised; two tasks on two threads are independent
//@ C08 reach=done cost=10
VP_SCENARIO(th_shared_two_exec) {
  Threads th; auto pr = pc::make_promise<int>(); auto s = pr.second.share(); auto f = s.next(TExec{&th}, [](int x) { return x + 1; }); auto g = s.next([](int x) { return x + 2; });
  pr.first.set_value(4); VP_ASSERT(f.get() == 5 && g.get() == 6); VP_REACH("done");
}
// long chain of mixed continuations: an error anywhere skips the next functions and reaches the end
//@ C08 reach=done
VP_SCENARIO(th_chain) {
  unsigned bad = vp_pick("bad", 4); int calls = 0; auto pr = pc::make_promise<int>(); auto f = pr.second.next([&](int x) { calls++; if (bad == 1) throw Err{1}; return x + 1; }).next([&](int x) { calls++; if (bad == 2) throw Err{2}; return x + 1; }).then([&](pc::future<int> x) { calls++; int v = x.get(); if (bad == 3) throw Err{3}; return v + 1; }).next([&](int x) { calls++; return x + 1; });
  if (bad == 0 && vp_pick2("perr")) { pr.first.set_exception(std::make_exception_ptr(Err{9})); VP_ASSERT(outcome(f) == OUT_ERR(9)); VP_ASSERT(calls == 1); }
  else { pr.first.set_value(0); int o = outcome(f); VP_ASSERT(o == (bad ? OUT_ERR((int)bad) : 4)); VP_ASSERT(calls == (bad == 0 ? 4 : bad == 1 ? 2 : 3)); } VP_REACH("done");
}
// any type of exception thrown by the function, or stored in the parent, is the outcome
struct MyErr : std::runtime_error { int v; MyErr(int v) : std::runtime_error("x"), v(v) {} };
static void raise(unsigned k, int v) { switch (k) { case 0: throw Err{v}; case 1: throw v; case 2: throw std::bad_alloc(); case 3: throw std::future_error(std::future_errc::no_state); case 4: throw MyErr(v); case 5: throw std::future_error(std::future_errc::promise_already_satisfied); case 6: throw std::bad_function_call(); default: throw std::future_error(std::future_errc::broken_promise); } }
template <class F> static bool raised(F&& f, unsigned k, int v) { try { f(); } catch (const Err& e) { return k == 0 && e.v == v; } catch (int x) { return k == 1 && x == v; } catch (const std::bad_alloc&) { return k == 2; } catch (const std::future_error& e) { return e.code() == (k == 3 ? std::future_errc::no_state : k == 5 ? std::future_errc::promise_already_satisfied : std::future_errc::broken_promise) && (k == 3 || k == 5 || k == 7); } catch (const MyErr& e) { return k == 4 && e.v == v; } catch (const std::bad_function_call&) { return k == 6; } return false; }
//@ C08,C18,C09,C01,C21 reach=done
VP_SCENARIO(exc_types) {
  unsigned k = vp_pick("exception", 8), how = vp_pick("how", 31); int v = vp_int("v"), x = 0, calls = 0; auto p = pc::make_promise<int>(); auto pv = pc::make_promise<void>(); auto& s = p.second; pc::shared_future<int> t; pc::shared_future<void> tv; if (how >= 18) { t = s.share(); tv = pv.second.share(); } pc::future<int> f; pc::future<void> g; pc::future<int&> h; bool call = false;
  auto I = [&](auto&&...) -> int { calls++; raise(k, v); return 0; }; auto V = [&](auto&&...) { calls++; raise(k, v); }; auto R = [&](auto&&...) -> int& { calls++; raise(k, v); return x; }; auto U = [&](auto&&...) -> pc::future<int> { calls++; raise(k, v); return {}; }; auto UV = [&](auto&&...) -> pc::future<void> { calls++; raise(k, v); return {}; }; auto UR = [&](auto&&...) -> pc::shared_future<int&> { calls++; raise(k, v); return {}; }; auto skip = [&](auto&&...) { calls = 100; return 1; };
  auto UF = [&](auto&&...) -> pc::future<int&> { calls++; raise(k, v); return {}; }; pc::shared_future<int&> sh;
  auto task = [&](auto t, auto& out) { out = t.get_future(); call = true; int e = err([&] { t(); }); VP_ASSERT(e == NONE); };
  switch (how) {
    case 0: f = s.then(I); break; case 1: f = s.next(I); break; case 2: g = s.then(V); break; case 3: g = s.next(V); break; case 4: h = s.next(R); break; case 5: f = s.next(U); break; case 6: g = s.then(UV); break; case 7: f = pv.second.next(I); break; case 8: g = pv.second.next(V); break; case 9: f = pv.second.next(U); break;
    case 10: task(pc::packaged_task<int()>(I), f); break; case 11: task(pc::packaged_task<void()>(V), g); break; case 12: task(pc::packaged_task<int&()>(R), h); break; case 13: task(pc::packaged_task<pc::future<int>()>(U), f); break; case 14: task(pc::packaged_task<pc::future<void>()>(UV), g); break; case 15: f = pc::async(pc::inplace_executor, I, 1); call = true; break;
    case 18: f = t.then(I); break; case 19: f = t.next(I); break; case 20: g = t.then(V); break; case 21: g = t.next(V); break; case 22: f = t.then(U); break; case 23: f = t.next(U); break; case 24: g = t.next(UV); break; case 25: f = tv.next(U); break; case 26: f = tv.next(I); break; case 27: task(pc::packaged_task<pc::future<int&>()>(UF), h); break; case 28: task(pc::packaged_task<pc::shared_future<int&>()>(UR), sh); break; case 29: h = t.next(UF); break; case 30: sh = tv.next(UR); break;
    case 16: f = s.next(skip); break; default: g = pv.second.next([&] { calls = 100; }); break; }
  if (how == 16 || how == 17) { try { raise(k, v); } catch (...) { p.first.set_exception(std::current_exception()); pv.first.set_exception(std::current_exception()); } } else { p.first.set_value(1); pv.first.set_value(); }
  VP_ASSERT(calls == (how != 16 && how != 17)); if (f.valid()) { VP_ASSERT(f.is_ready()); VP_ASSERT(raised([&] { f.get(); }, k, v)); } else if (g.valid()) { VP_ASSERT(g.is_ready()); VP_ASSERT(raised([&] { g.get(); }, k, v)); } else if (sh.valid()) { VP_ASSERT(sh.is_ready()); VP_ASSERT(raised([&] { sh.get(); }, k, v)); } else { VP_ASSERT(h.valid() && h.is_ready()); VP_ASSERT(raised([&] { h.get(); }, k, v)); } (void)call; VP_REACH("done");
}
