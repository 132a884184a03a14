#include "h.h"
// C01: the first stored result is what everybody sees.

// store: 0 value by const reference, 1 by rvalue, 2 exception;  then: another store; read by every kind of reader
//@ C01,C16,C17 reach=value,exc,already cost=3
VP_SCENARIO(res_first_wins) {
  int v = vp_int("v"), w = vp_int("w"); unsigned k = vp_pick("store", 3), k2 = vp_pick("second", 3), how = vp_pick("origin", 3), reader = vp_pick("reader", 4);
  pc::promise<int> p; pc::future<int> f;
  if (how == 0) { f = p.get_future(); }
  else if (how == 1) { auto pr = pc::make_promise<int>(); p = std::move(pr.first); f = std::move(pr.second); }
  auto store = [&](unsigned k, int x) { if (k == 0) { const int c = x; p.set_value(c); } else if (k == 1) p.set_value(int(x)); else p.set_exception(std::make_exception_ptr(Err{x})); };
  if (how != 2) VP_ASSERT(f.valid() && !f.is_ready());
  store(k, v);
  if (how == 2) f = p.get_future();   // retrieved after the result was stored
  VP_ASSERT(f.is_ready());
  VP_ASSERT(err([&] { store(k2, w); }) == ALREADY); VP_REACH("already");
  VP_ASSERT(f.is_ready());
  int want = k == 2 ? OUT_ERR(v) : v, got = 0;
  if (reader == 0) got = outcome(f);
  else if (reader == 1) { pc::shared_future<int> s = f.share(); pc::shared_future<int> s2 = s; VP_ASSERT(outcome(s) == want); VP_ASSERT(err([&] { store(k2, w); }) == ALREADY); got = outcome(s2); VP_ASSERT(outcome(s) == want && s.is_ready() && s2.is_ready()); }
  else if (reader == 2) { int seen = -5; pc::future<void> g = f.then([&](pc::future<int> x) { VP_ASSERT(x.is_ready()); seen = outcome(x); }); g.get(); got = seen; }
  else { pc::future<int> g = f.next([](int x) { return x; }); VP_ASSERT(g.is_ready()); got = outcome(g); }
  VP_ASSERT(got == want);
  if (k == 2) VP_REACH("exc"); else VP_REACH("value");
}
// move-only value: moved exactly once through, never copied, owned by one place at a time
//@ C01,C16 reach=value,exc,dropped cost=3
VP_SCENARIO(res_move_only) {
  int v = vp_int("v"); bool exc = vp_pick2("exc"), ready_first = vp_pick2("ready_first"); unsigned reader = vp_pick("reader", 6);
  auto pr = pc::make_promise<Box>(); pc::promise<Box> p = std::move(pr.first); pc::future<Box> f = std::move(pr.second);
  auto set = [&] { if (exc) p.set_exception(std::make_exception_ptr(Err{v})); else p.set_value(Box(v)); };
  int got = -1; auto rd = [&](auto&& fn) { try { got = fn(); } catch (const Err& e) { got = OUT_ERR(e.v); } };
  int want = exc ? OUT_ERR(v) : v;
  if (ready_first) set();
  if (reader == 0) { if (!ready_first) set(); rd([&] { Box b = f.get(); return b.get(); }); }
  else if (reader == 1) { pc::shared_future<Box> s(std::move(f)); VP_ASSERT(!f.valid()); pc::shared_future<Box> s2(s); if (!ready_first) set(); rd([&] { return s.get().get(); }); s = pc::shared_future<Box>(); int g1 = got; rd([&] { const Box& a = s2.get(); VP_ASSERT(&a == &s2.get()); return a.get(); }); VP_ASSERT(g1 == got); }
  else if (reader == 2) { pc::future<int> g = f.next([](Box b) { return b.get(); }); if (!ready_first) set(); rd([&] { return g.get(); }); }
  else if (reader == 3) { pc::future<Box> g = f.then([](pc::future<Box> x) { return x.get(); }); if (!ready_first) set(); rd([&] { return g.get().get(); }); }
  else if (reader == 4) { pc::shared_future<Box> s = f.share(); pc::future<int> g = s.next([](const Box& b) { return b.get(); }); if (!ready_first) set(); rd([&] { return g.get(); }); int g1 = got; rd([&] { return s.get().get(); }); VP_ASSERT(g1 == got); }
  else { f = pc::future<Box>(); if (!ready_first) set(); VP_REACH("dropped"); return; }
  VP_ASSERT(got == want); if (exc) VP_REACH("exc"); else VP_REACH("value");
}
// copyable value stored by const reference is copied, by rvalue moved; the caller's object is unaffected by a copy
//@ C01,C16 reach=done
VP_SCENARIO(res_copyable) {
  int v = vp_int("v"); bool rv = vp_pick2("rvalue"); CBox src(v); pc::promise<CBox> p; auto f = p.get_future();
  if (rv) p.set_value(std::move(src)); else { p.set_value(src); VP_ASSERT(src.get() == v); src = CBox(v + 1); }
  VP_ASSERT(f.is_ready()); pc::shared_future<CBox> s = f.share(); VP_ASSERT(s.get().get() == v); CBox c = s.get(); VP_ASSERT(c.get() == v && s.get().get() == v);
  VP_REACH("done");
}
//@ C01,C16,C17 reach=done
VP_SCENARIO(res_ref_void) {
  bool exc = vp_pick2("exc"); unsigned how = vp_pick("how", 4); int x = 3;
  { auto pr = pc::make_promise<int&>(); auto f = std::move(pr.second); VP_ASSERT(!f.is_ready());
    if (exc) pr.first.set_exception(std::make_exception_ptr(Err{1})); else pr.first.set_value(x);
    VP_ASSERT(f.is_ready()); VP_ASSERT(err([&] { int y = 0; pr.first.set_value(y); }) == ALREADY);
    int* got = nullptr; int e = 0;
    auto body = [&](auto fn) { try { got = fn(); } catch (const Err& r) { e = r.v; } };
    if (how == 0) body([&] { return &f.get(); });
    else if (how == 1) { auto s = f.share(); body([&] { return &s.get(); }); if (!exc) VP_ASSERT(&s.get() == &x); }
    else if (how == 2) { auto g = f.next([](int& r) { return &r; }); body([&] { return g.get(); }); }
    else { auto s = f.share(); pc::future<int*> g = s.then([](pc::shared_future<int&> r) { return &r.get(); }); body([&] { return g.get(); }); }
    VP_ASSERT(exc ? e == 1 && !got : got == &x);
  }
  { auto pr = pc::make_promise<void>(); auto f = std::move(pr.second); VP_ASSERT(!f.is_ready());
    if (exc) pr.first.set_exception(std::make_exception_ptr(Err{1})); else pr.first.set_value();
    VP_ASSERT(f.is_ready()); VP_ASSERT(err([&] { pr.first.set_value(); }) == ALREADY); VP_ASSERT(err([&] { pr.first.set_exception(std::make_exception_ptr(Err{2})); }) == ALREADY);
    int e = 0, n = 0;
    try {
      if (how == 0) { f.get(); n++; } else if (how == 1) { auto s = f.share(); s.get(); s.get(); n++; } else if (how == 2) { auto g = f.next([&] { n++; }); g.get(); } else { auto s = f.share(); auto g = s.next([&] { n++; }); g.get(); }
    } catch (const Err& r) { e = r.v; }
    VP_ASSERT(exc ? e == 1 && n == 0 : n == 1 && e == 0);
  }
  VP_REACH("done");
}
//@ C01,C16 reach=done
VP_SCENARIO(res_make_ready) {
  int v = vp_int("v"); int x = v;
  { auto f = pc::make_ready_future(v); VP_ASSERT(f.valid() && f.is_ready() && f.get() == v); }
  { auto f = pc::make_ready_future(Box(v)); VP_ASSERT(f.is_ready()); VP_ASSERT(f.get().get() == v); }
  { auto f = pc::make_ready_future(std::ref(x)); VP_ASSERT(f.is_ready()); VP_ASSERT(&f.get() == &x); }
  { auto f = pc::make_ready_future(); VP_ASSERT(f.is_ready()); f.get(); }
  { auto f = pc::make_exceptional_future<int>(Err{v}); VP_ASSERT(f.is_ready() && outcome(f) == OUT_ERR(v)); }
  { auto f = pc::make_exceptional_future<int>(std::make_exception_ptr(Err{v})); VP_ASSERT(f.is_ready() && outcome(f) == OUT_ERR(v)); }
  { CBox b(v); auto f = pc::make_ready_future(b); VP_ASSERT(b.get() == v && f.get().get() == v && b.get() == v); }
  VP_REACH("done");
}
// any history of stores through any of three moved-around promises: only the first counts
//@ C01,C06,C17 reach=done cost=5
VP_SCENARIO(res_history) {
  auto pr = pc::make_promise<int>(); pc::promise<int> p[2]; p[0] = std::move(pr.first); pc::future<int> f = std::move(pr.second); int cur = 0, want = -1; bool set = false, gone = false;
  for (int i = 0; i < 4; i++) {
    VP_ASSERT(f.is_ready() == (set || gone));
    unsigned op = vp_pick("op", 4);
    if (op == 0) { int e = err([&] { p[cur].set_value(i); }); VP_ASSERT(e == (gone ? (int)NOSTATE : set ? (int)ALREADY : (int)NONE)); if (!set && !gone) { set = true; want = i; } }
    else if (op == 1) { int e = err([&] { p[cur].set_exception(std::make_exception_ptr(Err{i})); }); VP_ASSERT(e == (gone ? (int)NOSTATE : set ? (int)ALREADY : (int)NONE)); if (!set && !gone) { set = true; want = OUT_ERR(i); } }
    else if (op == 2) { p[1 - cur] = std::move(p[cur]); cur = 1 - cur; VP_ASSERT(err([&] { p[1 - cur].set_value(9); }) == NOSTATE); }
    else { pc::promise<int> dead(std::move(p[cur])); if (!set && !gone) { want = OUT_BROKEN; } gone = true; }
  }
  VP_ASSERT(f.is_ready() == (set || gone)); if (set || gone) VP_ASSERT(outcome(f) == want); VP_REACH("done");
}
// a concurrent observer: never ready early, ready for ever, and always with the first result
//@ C01,C02 reach=early,late
VP_SCENARIO(res_conc_observer) {
  int v = vp_int("v"); bool exc = vp_pick2("exc"); auto pr = pc::make_promise<int>(); auto f = std::move(pr.second);
  std::atomic<int> before{0};
  std::thread t([&, p = std::move(pr.first)]() mutable {
    before.store(1, std::memory_order_relaxed);
    if (exc) p.set_exception(std::make_exception_ptr(Err{v})); else p.set_value(v);
    VP_ASSERT(err([&] { p.set_value(v + 1); }) == ALREADY);
  });
  bool r1 = f.is_ready(); if (r1) VP_ASSERT(before.load(std::memory_order_relaxed) == 1);
  bool r2 = f.is_ready(); VP_ASSERT(!r1 || r2);
  if (r2) VP_REACH("early"); else VP_REACH("late");
  t.join(); VP_ASSERT(f.is_ready()); VP_ASSERT(outcome(f) == (exc ? OUT_ERR(v) : v));
}
// the promise loses its race: while the promise stores, the future is dropped; nothing is corrupted
//@ C01,C16,C07 reach=done
VP_SCENARIO(res_conc_drop) {
  auto pr = pc::make_promise<Box>(); auto f = std::move(pr.second); unsigned k = vp_pick("k", 3);
  std::thread t([p = std::move(pr.first), k]() mutable { if (k == 0) p.set_value(Box(4)); else if (k == 1) p.set_exception(std::make_exception_ptr(Err{1})); else { pc::promise<Box> q(std::move(p)); } });
  { pc::future<Box> g(std::move(f)); } t.join(); VP_REACH("done");
}
// the function objects for algorithms do what the member functions do
//@ C01,C17 reach=done
VP_SCENARIO(res_adapters) {
  unsigned k = vp_pick("k", 4), how = vp_pick("how", 3); int v = vp_int("v"), x = 0; auto fin = [&](auto& p, auto set) { VP_ASSERT(p.first.is_awaiten()); if (how == 0) set(); else if (how == 1) p.first.set_exception(std::make_exception_ptr(Err{3})); else { auto d = std::move(p.first); } };
  auto chk = [&](auto& f, auto val, bool shared) { VP_ASSERT(pc::future_ready(f)); VP_ASSERT(f.is_ready()); int r = 0; try { val(); } catch (const Err& e) { r = e.v; } catch (const std::future_error& e) { r = 1000 + e.code().value(); } VP_ASSERT(r == (how == 0 ? 0 : how == 1 ? 3 : 1000 + (int)std::future_errc::broken_promise)); VP_ASSERT(f.valid() == shared); };
  if (k == 0) { auto p = pc::make_promise<Box>(); auto& f = p.second; VP_ASSERT(!pc::future_ready(f)); fin(p, [&] { p.first.set_value(Box(v)); }); chk(f, [&] { VP_ASSERT(pc::future_get(f).get() == v); }, false); }
  else if (k == 1) { auto p = pc::make_promise<CBox>(); auto s = p.second.share(); VP_ASSERT(!pc::future_ready(s)); fin(p, [&] { p.first.set_value(CBox(v)); }); chk(s, [&] { VP_ASSERT(pc::future_get(s).get() == v); VP_ASSERT(&pc::future_get(s) == &s.get()); }, true); }
  else if (k == 2) { auto p = pc::make_promise<void>(); auto& f = p.second; VP_ASSERT(!pc::future_ready(f)); fin(p, [&] { p.first.set_value(); }); chk(f, [&] { pc::future_get(f); }, false); }
  else { auto p = pc::make_promise<int&>(); auto s = p.second.share(); VP_ASSERT(!pc::future_ready(s)); fin(p, [&] { p.first.set_value(x); }); chk(s, [&] { VP_ASSERT(&pc::future_get(s) == &x); }, true); }
  VP_REACH("done");
}
