#include "h.h"
#include <array>
#include <new>
// C18: exceptions from user code or allocation never corrupt or wedge a result channel.
// run an operation of the library during which any one allocation may fail; true if it threw bad_alloc
template <class F> static bool oom(F&& f) { vp_fault_budget = 1; int c = vp_fault_count; bool t = false; try { f(); } catch (const std::bad_alloc&) { t = true; } catch (...) { vp_fault_budget = 0; VP_ASSERT_MSG(false, "an allocation failure was reported by another exception"); } vp_fault_budget = 0; VP_ASSERT(t == (vp_fault_count > c)); if (t) VP_REACH("threw"); else VP_REACH("ok"); return t; }

//@ C18,C16 reach=threw,ok
VP_SCENARIO(oom_attach) {
  unsigned k = vp_pick("k", 9), fin = vp_pick("fin", 3); bool before = vp_pick2("set_before"); int v = vp_int("v"), n = 0, m = 0; auto p = pc::make_promise<int>(); pc::future<int> f = std::move(p.second), g; pc::shared_future<int> s; pc::future<void> gv;
  auto finish = [&] { if (fin == 0) p.first.set_value(v); else if (fin == 1) p.first.set_exception(std::make_exception_ptr(Err{3})); else { auto x = std::move(p.first); } };
  int want = fin == 0 ? v : fin == 1 ? OUT_ERR(3) : OUT_BROKEN; if (before) finish(); f.notify([&] { m++; }); if (k >= 5) s = f.share();
  bool t = oom([&] { switch (k) {
    case 0: f.notify([&] { n++; }); VP_ASSERT(f.valid()); break; case 1: if (before) f.wait(); else f.notify(pc::inplace_executor, [&] { n++; }); break;
    case 2: g = f.then([&](pc::future<int> x) { n++; vp_fault_budget = 0; return outcome(x); }); break; case 3: g = f.next([&](int x) { n++; return x; }); break; case 4: f = f.detach(); break;
    case 5: s.notify([&] { n++; }); break; case 6: g = s.then([&](pc::shared_future<int> x) { n++; vp_fault_budget = 0; return outcome(x); }); break; case 7: g = s.next([&](const int& x) { n++; return x; }); break; default: g = s.then(pc::inplace_executor, [&](pc::promise<int> q, pc::shared_future<int> x) { n++; vp_fault_budget = 0; q.set_value(outcome(x)); }); break; } });
  if (!before) finish();
  if (t) { VP_ASSERT(n == 0); VP_ASSERT(!g.valid()); }
  if (k >= 5) { VP_ASSERT(s.valid() && s.is_ready() && outcome(s) == want); VP_ASSERT(m == 1); } else if (f.valid()) { VP_ASSERT(f.is_ready()); VP_ASSERT(m == 1); VP_ASSERT(outcome(f) == want); } else { VP_ASSERT(k == 2 || k == 3 || k == 4); if (k == 4) VP_ASSERT(t); }   // then, next and detach may have consumed the future
  if (!t) { if (g.valid()) { VP_ASSERT(g.is_ready()); VP_ASSERT(outcome(g) == want); } VP_ASSERT(n == (k == 4 || (k == 1 && before) ? 0 : (k == 3 || k == 7) ? fin == 0 : 1)); }
}
//@ C18,C16 reach=threw,ok
VP_SCENARIO(oom_wait) {
  bool timed = vp_pick2("timed"), first = vp_pick2("ready"); int v = vp_int("v"); auto p = pc::make_promise<int>(); if (first) p.first.set_value(v); bool t = oom([&] { if (timed) { auto st = p.second.wait_for(std::chrono::seconds(0)); VP_ASSERT(!(st == pc::future_status::ready) || first); } else if (first) VP_ASSERT(p.second.get() == v); else p.second.notify([] {}); });
  if (!first) p.first.set_value(v); if (t || timed || !first) { VP_ASSERT(p.second.valid()); VP_ASSERT(p.second.get() == v); }
}
//@ C18,C16 reach=threw,ok
VP_SCENARIO(oom_make) {
  unsigned k = vp_pick("k", 8); int v = vp_int("v"); std::pair<pc::promise<int>, pc::future<int>>* pr = nullptr; pc::future<int> f; int n = 0; Queue q;
  bool t = oom([&] { if (k == 0) { auto p = pc::make_promise<int>(); p.first.set_value(v); f = std::move(p.second); } else if (k == 1) { pc::promise<int> p; f = p.get_future(); p.set_value(v); } else if (k == 2) f = pc::make_ready_future(v); else if (k == 3) { pc::packaged_task<int()> p([b = Box(2), v] { return b.get() == 2 ? v : 0; }); f = p.get_future(); p(); } else if (k == 4) f = pc::async(pc::inplace_executor, [v] { return v; }); else if (k == 5) { auto p = pc::make_promise<int>(pc::canceler_arg, [&n] { n++; }); p.first.set_value(v); f = std::move(p.second); } else if (k == 6) { pc::unique_function<int()> u([b = Box(1), pad = std::array<long, 8>{}, v] { return v; }); pc::unique_function<int()> w(std::move(u)); f = pc::make_ready_future(w()); } else { f = pc::async(QExec{&q}, [](Box b) { return b.get(); }, Box(v)); } });
  (void)pr; if (t) { VP_ASSERT(!f.valid()); } else { if (k == 7) q.run(0); VP_ASSERT(f.get() == v); } if (k != 5) VP_ASSERT(n == 0); else VP_ASSERT(n <= 1 && (t || n == 0));
}
// when_all / when_any: a failed call leaves the producers usable
//@ C18,C16 reach=threw,ok
VP_SCENARIO(oom_when) {
  unsigned k = vp_pick("k", 4), ready = vp_pick("ready", 4); auto p = pc::make_promise<Box>(), q = pc::make_promise<Box>(); if (ready & 1) p.first.set_value(Box(1)); if (ready & 2) q.first.set_value(Box(2)); pc::shared_future<Box> s = q.second.share(); std::vector<pc::shared_future<Box>> sv; sv.reserve(2); sv.push_back(p.second.share()); sv.push_back(s); 
  pc::future<std::tuple<pc::shared_future<Box>, pc::shared_future<Box>>> a; pc::future<std::vector<pc::shared_future<Box>>> av; bool got = false, gotAny = false;
  bool t = oom([&] { if (k == 0) a = pc::when_all(sv[0], s); else if (k == 1) av = pc::when_all(sv.begin(), sv.end()); else if (k == 2) { auto r = pc::when_any(sv[0], s); gotAny = r.is_ready(); } else { auto r = pc::when_any(sv.begin(), sv.end()); gotAny = r.is_ready(); } });
  if (!t && k >= 2) VP_ASSERT(gotAny == (ready != 0));
  if (!(ready & 1)) p.first.set_value(Box(1)); if (!(ready & 2)) q.first.set_value(Box(2)); VP_ASSERT(sv[0].get().get() == 1 && s.get().get() == 2); if (t) VP_ASSERT(!a.valid() && !av.valid()); if (a.valid()) VP_ASSERT(a.is_ready()); if (av.valid()) VP_ASSERT(av.is_ready()); (void)got;
}
// an allocation failure while the result of a continuation is unwrapped reaches the future
//@ C18,C09 reach=failed,ok
VP_SCENARIO(oom_unwrap) {
  unsigned k = vp_pick("k", 4); bool ready = vp_pick2("inner_ready"), sh = vp_pick2("shared"); int v = vp_int("v"), m = 0; auto in = pc::make_promise<int>(); if (ready) in.first.set_value(v); pc::shared_future<int> s; if (sh) s = in.second.share(); auto p = pc::make_promise<int>(); bool failed = false; pc::future<int> g; pc::shared_future<int> gs;
  auto fn = [&](auto&&...) { pc::future<int> r = std::move(in.second); vp_fault_budget = 1; return r; }; auto fns = [&](auto&&...) { pc::shared_future<int> r = s; vp_fault_budget = 1; return r; };
  if (!sh) { if (k == 0) g = p.second.then(fn); else if (k == 1) g = p.second.next(fn); else if (k == 2) { pc::packaged_task<pc::future<int>()> t(fn); g = t.get_future(); g.notify([&] { m++; }); int e = 0; try { t(); } catch (const std::bad_alloc&) { e = 1; } vp_fault_budget = 0; VP_ASSERT(!e); } else g = pc::async(pc::inplace_executor, fn); vp_fault_budget = 0; if (k != 2) g.notify([&] { m++; }); }
  else { if (k == 0) gs = p.second.then(fns); else if (k == 1) gs = p.second.next(fns); else if (k == 2) { pc::packaged_task<pc::shared_future<int>()> t(fns); gs = t.get_future(); gs.notify([&] { m++; }); int e = 0; try { t(); } catch (const std::bad_alloc&) { e = 1; } vp_fault_budget = 0; VP_ASSERT(!e); } else gs = pc::async(pc::inplace_executor, fns); vp_fault_budget = 0; if (k != 2) gs.notify([&] { m++; }); }
  p.first.set_value(0); vp_fault_budget = 0; failed = vp_fault_count != 0;
  if (!ready) { VP_ASSERT((sh ? gs.is_ready() : g.is_ready()) == failed); in.first.set_value(v); }
  VP_ASSERT(sh ? gs.is_ready() : g.is_ready()); VP_ASSERT(m == 1); int r = sh ? outcome(gs) : outcome(g); VP_ASSERT(r == (failed ? 3000000 : v)); if (sh) VP_ASSERT(outcome(s) == v); if (failed) VP_REACH("failed"); else VP_REACH("ok");
}
// copying a value into a promise throws: the caller gets the exception, the promise is still usable
struct TC { Box b; bool armed; TC(int v, bool a) : b(v), armed(a) {} TC(const TC& o) : b(o.b.get()), armed(o.armed) { if (armed) throw Err{21}; } TC(TC&& o) noexcept(false) : b(std::move(o.b)), armed(o.armed) { if (armed) throw Err{22}; } };
//@ C18,C01,C16 reach=threw,ok
VP_SCENARIO(throwing_value) {
  bool armed = vp_pick2("armed"), mv = vp_pick2("move"); unsigned fin = vp_pick("fin", 3); int n = 0; auto p = pc::make_promise<TC>(); p.second.notify([&] { n++; }); TC a(1, armed); int got = 0; try { if (mv) p.first.set_value(std::move(a)); else p.first.set_value(a); } catch (const Err& e) { got = e.v; }
  VP_ASSERT(got == (armed ? (mv ? 22 : 21) : 0)); VP_ASSERT(p.second.is_ready() == !armed); VP_ASSERT(n == !armed); VP_ASSERT(p.second.valid());
  if (!armed) { VP_ASSERT(p.second.get().b.get() == 1); VP_REACH("ok"); return; } VP_REACH("threw");
  if (fin == 0) { p.first.set_value(TC(2, false)); VP_ASSERT(n == 1); VP_ASSERT(p.second.get().b.get() == 2); } else if (fin == 1) { p.first.set_exception(std::make_exception_ptr(Err{4})); VP_ASSERT(n == 1); int r = 0; try { p.second.get(); } catch (const Err& e) { r = e.v; } VP_ASSERT(r == 4); } else { { auto x = std::move(p.first); } VP_ASSERT(n == 1); VP_ASSERT(err([&] { p.second.get(); }) == BROKEN); }
}
// moving the result of a task or continuation into place throws: the exception becomes the result
struct TM { Box b; int* left; TM(int v, int* l) : b(v), left(l) {} TM(TM&& o) noexcept(false) : b(std::move(o.b)), left(o.left) { if (left && --*left < 0) throw Err{31}; } };
//@ C18 reach=threw,ok
VP_SCENARIO(throwing_result) {
  unsigned k = vp_pick("k", 4); int left = vp_pick("moves", 3), n = 0; auto fn = [&](auto&&...) { return TM(5, &left); }; auto p = pc::make_promise<int>(); pc::future<TM> g;
  if (k == 0) g = p.second.then(fn); else if (k == 1) g = p.second.next(fn); else if (k == 2) { pc::packaged_task<TM()> t(fn); g = t.get_future(); int e = err([&] { t(); }); VP_ASSERT(e == NONE); } else g = pc::async(pc::inplace_executor, fn);
  g.notify([&] { n++; }); p.first.set_value(1); VP_ASSERT(g.is_ready()); VP_ASSERT(n == 1); left = 100 + left; bool threw = false; try { VP_ASSERT(g.get().b.get() == 5); } catch (const Err& e) { threw = e.v == 31; VP_ASSERT(threw); } if (threw) VP_REACH("threw"); else VP_REACH("ok");
}
// a notification or an executor that throws does not make other continuations or waiters disappear
//@ C18,C03 reach=done
VP_SCENARIO(throwing_continuation) {
  unsigned k = vp_pick("k", 4), pos = vp_pick("pos", 3), how = vp_pick("how", 2); int n[3] = {}, e = 0, v = vp_int("v"); auto p = pc::make_promise<int>(); auto s = p.second.share(); pc::future<int> g;
  for (unsigned i = 0; i < 3; i++) if (i == pos) { if (k == 0) s.notify([&n, i] { n[i]++; throw Err{41}; }); else if (k == 1) s.notify(ThrowExec{}, [&n, i] { n[i]++; }); else if (k == 2) g = s.then(ThrowExec{}, [&n, i](pc::shared_future<int>) { n[i]++; return 1; }); else g = s.next(ThrowExec{}, [&n, i](const int&) { n[i]++; return 1; }); } else s.notify([&n, i] { n[i]++; });
  try { if (how) p.first.set_exception(std::make_exception_ptr(Err{3})); else p.first.set_value(v); } catch (const Err& x) { e = x.v; } VP_ASSERT(e == (k == 0 ? 41 : 77));
  for (unsigned i = 0; i < 3; i++) VP_ASSERT(n[i] == (i == pos ? k == 0 : 1)); VP_ASSERT(s.is_ready()); VP_ASSERT(outcome(s) == (how ? OUT_ERR(3) : v)); if (k >= 2) { VP_ASSERT(g.is_ready()); VP_ASSERT(outcome(g) == OUT_BROKEN); } VP_REACH("done");
}
// ... in particular a blocked thread still wakes up
//@ C18,C04 reach=done cost=10
VP_SCENARIO(throwing_waiter) {
  bool ex = vp_pick2("executor"), late = vp_pick2("late"); auto p = pc::make_promise<int>(); auto s = p.second.share(); auto at = [&] { if (ex) s.notify(ThrowExec{}, [] {}); else s.notify([] { throw Err{1}; }); }; if (!late) at(); std::thread t([c = s] { VP_ASSERT(c.get() == 6); }); if (late) at(); int e = 0; try { p.first.set_value(6); } catch (const Err&) { e = 1; } VP_ASSERT(e == 1); t.join(); VP_REACH("done");
}
// the same when a task call makes the future ready, for every kind of result: the exception reaches the caller of the task, the result and the other notifications stay
template <class R, class Fn, class Chk> void notifThrows(bool ex, bool first, Fn fn, Chk chk) {
  int n = 0, e = 0; pc::packaged_task<R()> t(fn); auto f = t.get_future(); if (first) f.notify([&] { n++; }); if (ex) f.notify(ThrowExec{}, [] {}); else f.notify([] { throw Err{77}; }); if (!first) f.notify([&] { n++; });
  try { t(); } catch (const Err& x) { e = x.v; } catch (...) { e = -1; } VP_ASSERT(e == 77); VP_ASSERT(n == 1); VP_ASSERT(f.is_ready()); VP_ASSERT(err([&] { t(); }) == ALREADY); chk(f);
}
//@ C18,C03,C21 reach=done
VP_SCENARIO(throwing_task_notify) {
  unsigned k = vp_pick("k", 9); bool ex = vp_pick2("executor"), first = vp_pick2("first"); int v = vp_int("v"), x = 0;
  auto val = [&](auto& f) { VP_ASSERT(outcome(f) == v); }; auto bad = [&](auto& f) { int r = 0; try { f.get(); } catch (const Err& y) { r = y.v; } VP_ASSERT(r == 9); }; auto vd = [&](auto& f) { VP_ASSERT(err([&] { f.get(); }) == NONE); }; auto rf = [&](auto& f) { VP_ASSERT(&f.get() == &x); };
  if (k == 0) notifThrows<int>(ex, first, [&] { return v; }, val); else if (k == 1) notifThrows<int>(ex, first, []() -> int { throw Err{9}; }, bad); else if (k == 2) notifThrows<void>(ex, first, [] {}, vd); else if (k == 3) notifThrows<void>(ex, first, [] { throw Err{9}; }, bad);
  else if (k == 4) notifThrows<int&>(ex, first, [&]() -> int& { return x; }, rf); else if (k == 5) notifThrows<pc::future<int>>(ex, first, [&] { return pc::make_ready_future(v); }, val); else if (k == 6) notifThrows<pc::future<void>>(ex, first, [&] { return pc::make_ready_future(); }, vd);
  else if (k == 7) notifThrows<pc::future<int&>>(ex, first, [&] { return pc::make_ready_future(std::ref(x)); }, rf); else notifThrows<pc::shared_future<int>>(ex, first, [&] { return pc::make_ready_future(v).share(); }, val);
  VP_REACH("done");
}
// attaching to a ready future: the exception of the function / executor reaches the attaching caller
//@ C18 reach=done
VP_SCENARIO(throwing_inline) {
  unsigned k = vp_pick("k", 3); int v = vp_int("v"), e = 0; auto s = pc::make_ready_future(v).share(); pc::future<int> g; try { if (k == 0) s.notify([] { throw Err{5}; }); else if (k == 1) s.notify(ThrowExec{}, [] {}); else g = s.then(ThrowExec{}, [](pc::shared_future<int>) { return 1; }); } catch (const Err& x) { e = x.v; } VP_ASSERT(e == (k ? 77 : 5)); VP_ASSERT(s.valid() && s.get() == v); VP_ASSERT(!g.valid()); VP_REACH("done");
}
// function objects whose copy throws
struct CF { Box b; bool armed; CF(bool a) : b(1), armed(a) {} CF(const CF& o) : b(o.b.get()), armed(o.armed) { if (armed) throw Err{51}; } CF(CF&& o) noexcept : b(std::move(o.b)), armed(o.armed) {} template <class... A> int operator()(A&&...) { return b.get(); } };
//@ C18,C16 reach=done
VP_SCENARIO(throwing_functor) {
  unsigned k = vp_pick("k", 6); bool armed = vp_pick2("armed"); int v = vp_int("v"), e = 0; CF c(armed); auto p = pc::make_promise<int>(); pc::shared_future<int> s = p.second.share(); pc::future<int> g;
  try { if (k == 0) s.notify(c); else if (k == 1) g = s.then(c); else if (k == 2) g = s.next(c); else if (k == 3) g = pc::async(pc::inplace_executor, c, 1); else if (k == 4) { pc::packaged_task<int()> t(c); g = t.get_future(); t(); } else { pc::unique_function<int()> u(c); VP_ASSERT(u() == 1); } } catch (const Err& x) { e = x.v; }
  VP_ASSERT(e == (armed ? 51 : 0)); VP_ASSERT(g.valid() == (!armed && k >= 1 && k <= 4)); VP_ASSERT(s.valid() && !s.is_ready()); p.first.set_value(v); VP_ASSERT(s.get() == v); if (g.valid()) VP_ASSERT(g.get() == 1); VP_ASSERT(c.b.get() == 1); VP_REACH("done");
}
// posting to a pool fails
//@ C18,C12 reach=threw,ok cost=10
VP_SCENARIO(oom_pool) {
  int n = 0; bool t; { pc::static_thread_pool pool(0); t = oom([&] { post(pool.executor(), [&n, b = Box(4), pad = std::array<long, 8>{}] { n++; }); }); bool t2 = false; if (t) post(pool.executor(), [&n] { n++; }); std::thread w([&] { pool.attach(); }); (void)t2; pool.wait(); w.join(); } VP_ASSERT(n <= 1);
}
// starting a worker of a pool fails (allocation of the thread state stands for every failure of the std::thread constructor)
//@ C18,C13 reach=threw,ok cost=10
VP_SCENARIO(oom_pool_ctor) {
  unsigned n = 1 + vp_pick("n", 2); bool t = oom([&] { pc::static_thread_pool pool(n); }); (void)t;
}
// where an escaping exception has no one to go to the program is terminated (as documented for interruptible continuations): it is not swallowed
static void raise(unsigned x, pc::promise<int>& p) { if (x == 0) throw Err{4}; if (x == 1) throw std::runtime_error("x"); p.set_value(1); p.set_value(2); }
//@ C18 reach=terminated
VP_SCENARIO(throwing_interruptible) {
  __vp_expect_terminate(); unsigned x = vp_pick("x", 3); int k = (int)vp_pick2("shared"); int early = (int)vp_pick2("early"); pc::promise<int> p; auto f = p.get_future(); pc::future<int> r; if (early) p.set_value(1);
  if (k) { auto s = f.share(); r = s.then([x](pc::promise<int> p, pc::shared_future<int>) { raise(x, p); }); } else r = f.then([x](pc::promise<int> p, pc::future<int>) { raise(x, p); });
  if (!early) p.set_value(1);
  VP_ASSERT_MSG(false, "the exception of an interruptible continuation was swallowed");
}
//@ C18 reach=terminated
VP_SCENARIO(throwing_post_chain) {
  __vp_expect_terminate(); pc::promise<int> p; auto r = p.get_future().next([](int v) { return v + 1; }).next(ThrowExec{}, [](int v) { return v; });
  p.set_value(1);
  VP_ASSERT_MSG(false, "the exception of the executor inside a continuation was swallowed");
}
