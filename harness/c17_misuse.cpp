#include "h.h"
// C17: misuse is reported by the documented error and changes nothing; valid().
struct Never { void operator()() const { VP_ASSERT_MSG(false, "function attached to an invalid future was run"); } };
// every entry point of an invalid future / shared_future throws no_state
template <class F> static void invalidFuture(F& f, unsigned op) {
  VP_ASSERT(!f.valid()); int e = -2;
  switch (op) {
    case 0: e = err([&] { f.get(); }); break;
    case 1: e = err([&] { f.wait(); }); break;
    case 2: e = err([&] { (void)f.is_ready(); }); break;
    case 3: e = err([&] { f.notify(Never{}); }); break;
    case 4: e = err([&] { f.notify(pc::inplace_executor, Never{}); }); break;
    case 5: e = err([&] { (void)f.then([](F) {}); }); break;
    case 6: e = err([&] { (void)f.then([](F) { return pc::make_ready_future(5); }); }); break;
    case 7: e = err([&] { (void)f.then(pc::inplace_executor, [](pc::promise<int>, F) {}); }); break;
    case 8: e = err([&] { (void)f.detach(); }); break;
    case 9: e = err([&] { (void)f.wait_for(std::chrono::seconds(1)); }); break;
    default: e = err([&] { (void)f.wait_until(std::chrono::steady_clock::time_point{}); }); break;
  }
  VP_ASSERT(e == NOSTATE); VP_ASSERT(!f.valid());
}
template <class T, class F> static void invalidNext(F& f) { int e = err([&] { if constexpr (std::is_void_v<T>) (void)f.next([] {}); else (void)f.next([](auto&&) {}); }); VP_ASSERT(e == NOSTATE); }
template <class T> static std::pair<pc::promise<T>, pc::future<T>> readyPair() { auto r = pc::make_promise<T>(); static int g = 0; if constexpr (std::is_void_v<T>) r.first.set_value(); else if constexpr (std::is_reference_v<T>) r.first.set_value(g); else r.first.set_value(T(7)); return r; }
template <class T> static void invalidAll(unsigned how, unsigned op, bool shared) {
  // how: 0 default constructed, 1 moved-from, 2 after get / share, 3 after then, 4 after next, 5 after detach, 6 move-assigned from
  auto p = readyPair<T>(); pc::future<T> other; pc::shared_future<T> so;
  if (!shared) {
    pc::future<T> f = std::move(p.second), d; VP_ASSERT(!p.second.valid() && f.valid()); pc::future<T>* x = &f; pc::future<T> k;
    if (how == 0) x = &d; else if (how == 1) { other = std::move(f); VP_ASSERT(other.valid()); } else if (how == 2) { if (op & 1) (void)f.get(); else { so = f.share(); VP_ASSERT(so.valid() && so.is_ready()); } } else if (how == 3) (void)f.then([](pc::future<T> g) { VP_ASSERT(g.valid()); return 0; }); else if (how == 4) { if constexpr (std::is_void_v<T>) (void)f.next([] {}); else (void)f.next([](auto&&) {}); } else if (how == 5) { other = f.detach(); VP_ASSERT(other.valid() && other.is_ready()); } else { k = std::move(f); f = std::move(k); VP_ASSERT(f.valid()); x = &k; }
    if (op == 11) invalidNext<T>(*x); else invalidFuture(*x, op);
  } else {
    pc::shared_future<T> f = p.second.share(), d; VP_ASSERT(!p.second.valid() && f.valid()); pc::shared_future<T>* x = &f;
    if (how == 0) x = &d; else if (how == 5) { so = f.detach(); VP_ASSERT(so.valid() && so.is_ready()); } else { so = std::move(f); VP_ASSERT(so.valid()); if (how == 6) { f = so; VP_ASSERT(f.valid()); f = d; } }
    if (op == 11) invalidNext<T>(*x); else invalidFuture(*x, op);
  }
}
//@ C17 reach=done
VP_SCENARIO(misuse_future) {
  unsigned t = vp_pick("type", 4), how = vp_pick("how", 7), op = vp_pick("op", 12); bool sh = vp_pick2("shared");
  if (t == 0) invalidAll<int>(how, op, sh); else if (t == 1) invalidAll<void>(how, op, sh); else if (t == 2) invalidAll<int&>(how, op, sh); else invalidAll<Box>(how, op, sh);
  VP_REACH("done");
}
// a promise: double retrieval, double satisfaction, use after move; the failed call changes nothing
//@ C17,C01 reach=done
VP_SCENARIO(misuse_promise) {
  unsigned t = vp_pick("type", 3), op = vp_pick("op", 7); bool first = vp_pick2("value_first"); int v = vp_int("v"), w = vp_int("w"); static int g; g = v;
  auto go = [&](auto tag, auto set, auto check) {
    using T = typename decltype(tag)::type; pc::promise<T> p; 
    if (op == 0) { auto f = p.get_future(); VP_ASSERT(err([&] { (void)p.get_future(); }) == RETRIEVED); VP_ASSERT(!f.is_ready()); set(p, v); check(f, v); }
    else if (op == 1) { auto f = p.get_future(); if (first) set(p, v); else p.set_exception(std::make_exception_ptr(Err{3})); VP_ASSERT(err([&] { set(p, w); }) == ALREADY); VP_ASSERT(err([&] { p.set_exception(std::make_exception_ptr(Err{4})); }) == ALREADY); VP_ASSERT(err([&] { set(p, w); }) == ALREADY); if (first) check(f, v); else { int r = 0; try { f.get(); } catch (const Err& e) { r = e.v; } VP_ASSERT(r == 3); } }
    else if (op == 2) { auto f = p.get_future(); pc::promise<T> q(std::move(p)); VP_ASSERT(err([&] { set(p, w); }) == NOSTATE); VP_ASSERT(err([&] { p.set_exception(std::make_exception_ptr(Err{4})); }) == NOSTATE); VP_ASSERT(err([&] { (void)p.get_future(); }) == NOSTATE); VP_ASSERT(err([&] { (void)p.is_awaiten(); }) == NOSTATE); VP_ASSERT(!f.is_ready()); VP_ASSERT(err([&] { (void)q.get_future(); }) == RETRIEVED); set(q, v); check(f, v); }
    else if (op == 3) { set(p, v); VP_ASSERT(err([&] { set(p, w); }) == ALREADY); auto f = p.get_future(); VP_ASSERT(f.is_ready()); check(f, v); }
    else if (op == 4) { pc::promise<T> q; auto f = q.get_future(); auto f0 = p.get_future(); p = std::move(q); VP_ASSERT(f0.is_ready()); VP_ASSERT(err([&] { f0.get(); }) == BROKEN); VP_ASSERT(!f.is_ready()); VP_ASSERT(err([&] { set(q, w); }) == NOSTATE); set(p, v); check(f, v); }
    else if (op == 5) { { auto f = p.get_future(); } VP_ASSERT(!p.is_awaiten()); VP_ASSERT(err([&] { (void)p.get_future(); }) == RETRIEVED); VP_ASSERT(err([&] { set(p, v); }) == NONE); }
    else { auto pr = pc::make_promise<T>(); VP_ASSERT(pr.first.is_awaiten()); VP_ASSERT(err([&] { (void)pr.first.get_future(); }) == RETRIEVED); set(pr.first, v); check(pr.second, v); VP_ASSERT(err([&] { pr.second.get(); }) == NOSTATE); }
  };
  struct I { using type = int; }; struct V { using type = void; }; struct R { using type = int&; };
  if (t == 0) go(I{}, [](auto& p, int x) { p.set_value(x); }, [](auto& f, int x) { VP_ASSERT(f.get() == x); }); else if (t == 1) go(V{}, [](auto& p, int) { p.set_value(); }, [](auto& f, int) { f.get(); }); else go(R{}, [](auto& p, int) { p.set_value(g); }, [](auto& f, int) { VP_ASSERT(&f.get() == &g); });
  VP_REACH("done");
}
//@ C17,C21 reach=done
VP_SCENARIO(misuse_task) {
  unsigned op = vp_pick("op", 8); bool thr = vp_pick2("throw"); int v = vp_int("v"), n = 0; using PT = pc::packaged_task<int(int)>; auto fn = [&](int x) { n++; if (thr) throw Err{6}; return x; }; auto expect = [&](pc::future<int>& f) { VP_ASSERT(f.is_ready()); VP_ASSERT(outcome(f) == (thr ? OUT_ERR(6) : v)); };
  PT t(fn), d; VP_ASSERT(t.valid() && !d.valid());
  if (op == 0) { VP_ASSERT(err([&] { d(1); }) == NOSTATE); VP_ASSERT(err([&] { (void)d.get_future(); }) == NOSTATE); VP_ASSERT(!d.valid()); }
  else if (op == 1) { auto f = t.get_future(); VP_ASSERT(err([&] { (void)t.get_future(); }) == RETRIEVED); VP_ASSERT(t.valid() && !f.is_ready()); t(v); expect(f); }
  else if (op == 2) { auto f = t.get_future(); t(v); VP_ASSERT(err([&] { t(1); }) == ALREADY); VP_ASSERT(n == 1); VP_ASSERT(t.valid()); expect(f); VP_ASSERT(n == 1); }
  else if (op == 3) { auto f = t.get_future(); d = std::move(t); VP_ASSERT(!t.valid() && d.valid()); VP_ASSERT(err([&] { t(1); }) == NOSTATE); VP_ASSERT(err([&] { (void)t.get_future(); }) == NOSTATE); VP_ASSERT(n == 0 && !f.is_ready()); d(v); expect(f); }
  else if (op == 4) { auto f = t.get_future(); t.swap(d); VP_ASSERT(!t.valid() && d.valid() && !f.is_ready()); d.swap(t); VP_ASSERT(t.valid() && !d.valid()); t(v); expect(f); }
  else if (op == 5) { t(v); VP_ASSERT(n == 1); auto f = t.get_future(); VP_ASSERT(err([&] { t(2); }) == ALREADY); expect(f); VP_ASSERT(n == 1); }
  else if (op == 6) { { auto f = t.get_future(); } VP_ASSERT(t.valid()); VP_ASSERT(err([&] { t(v); }) == NONE); VP_ASSERT(n == 0); VP_ASSERT(err([&] { (void)t.get_future(); }) == RETRIEVED); }
  else { auto f = t.get_future(); PT u(fn); t = std::move(u); VP_ASSERT(outcome(f) == OUT_BROKEN); auto g = t.get_future(); t(v); expect(g); VP_ASSERT(n == 1); }
  VP_REACH("done");
}
// operations on a shared_future leave it valid and usable
//@ C17,C22 reach=done
VP_SCENARIO(shared_stays_valid) {
  unsigned op = vp_pick("op", 10); bool before = vp_pick2("set_before"), ref = vp_pick2("second_copy"); int v = vp_int("v"), ran = 0; auto p = pc::make_promise<int>(); pc::shared_future<int> f = p.second.share(), c; if (ref) c = f; if (before) p.first.set_value(v); pc::future<int> g; pc::future<void> gv;
  if (op == 0) f.notify([&] { ran++; }); else if (op == 1) g = f.then([&](pc::shared_future<int> s) { ran++; VP_ASSERT(s.valid()); return s.get(); }); else if (op == 2) g = f.next([&](const int& x) { ran++; return x; });
  else if (op == 3) g = f.then(pc::inplace_executor, [&](pc::promise<int> q, pc::shared_future<int> s) { ran++; VP_ASSERT(s.valid()); q.set_value(s.get()); });
  else if (op == 4) g = f.then([&](pc::promise<int> q, pc::shared_future<int> s) { ran++; VP_ASSERT(s.valid()); q.set_value(s.get()); });
  else if (op == 5) g = f.then([&](pc::shared_future<int> s) { ran++; return s; }).next([](const int& x) { return x; }); else if (op == 6) { ran++; if (before) { f.wait(); VP_ASSERT(f.get() == v); } } else if (op == 7) { ran++; auto r = pc::when_all(f); if (before) VP_ASSERT(std::get<0>(r.get()).get() == v); } else if (op == 8) { ran++; pc::shared_future<int> e(f); VP_ASSERT(e.valid()); } else { f.notify(pc::inplace_executor, [&] { ran++; }); }
  VP_ASSERT(f.valid()); VP_ASSERT(f.is_ready() == before); if (ref) VP_ASSERT(c.valid());
  if (!before) p.first.set_value(v);
  VP_ASSERT(f.valid() && f.is_ready()); VP_ASSERT(f.get() == v); VP_ASSERT(f.get() == v); VP_ASSERT(ran == 1); if (g.valid()) VP_ASSERT(g.get() == v); VP_REACH("done");
}
// valid() of futures returned by the library and of results
//@ C17 reach=done
VP_SCENARIO(future_valid_moves) {
  unsigned op = vp_pick("op", 6); auto p = pc::make_promise<Box>(); pc::future<Box> f = std::move(p.second), e; VP_ASSERT(f.valid() && !e.valid() && !p.second.valid());
  if (op == 0) { e = std::move(f); VP_ASSERT(e.valid() && !f.valid()); p.first.set_value(Box(1)); VP_ASSERT(e.get().get() == 1); VP_ASSERT(!e.valid()); }
  else if (op == 1) { pc::future<Box> q = pc::make_ready_future(Box(2)); q = std::move(f); VP_ASSERT(q.valid() && !q.is_ready() && !f.valid()); VP_ASSERT(p.first.is_awaiten()); q = pc::future<Box>(); VP_ASSERT(!q.valid()); VP_ASSERT(!p.first.is_awaiten()); }
  else if (op == 2) { auto s = f.share(); VP_ASSERT(!f.valid() && s.valid()); auto s2 = s; auto s3 = std::move(s); VP_ASSERT(!s.valid() && s2.valid() && s3.valid()); s = s2; VP_ASSERT(s.valid() && s2.valid()); }
  else if (op == 3) { auto g = f.then([](pc::future<Box> x) { return x; }); VP_ASSERT(!f.valid() && g.valid() && !g.is_ready()); p.first.set_value(Box(4)); VP_ASSERT(g.get().get() == 4); }
  else if (op == 4) { p.first.set_exception(std::make_exception_ptr(Err{2})); int r = 0; try { f.get(); } catch (const Err& x) { r = x.v; } VP_ASSERT(r == 2); VP_ASSERT(!f.valid()); VP_ASSERT(err([&] { f.get(); }) == NOSTATE); }
  else { f.wait_for(std::chrono::seconds(0)); f.notify([] {}); VP_ASSERT(f.valid()); VP_ASSERT(!f.is_ready()); p.first.set_value(Box(5)); f.wait(); VP_ASSERT(f.valid() && f.is_ready()); VP_ASSERT(f.get().get() == 5); }
  VP_REACH("done");
}
