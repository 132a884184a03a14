#include "h.h"
// C22: one shared result used by several threads; C16: results are released no later than the last future.
// a second consumer uses, copies or drops its copy while the main thread does the same and the result is set before or concurrently
static void use(pc::shared_future<CBox> f, unsigned op, std::atomic<int>& n) {
  if (op == 0) { const CBox& b = f.get(); VP_ASSERT(b.get() == 9); VP_ASSERT(&b == &f.get()); }
  else if (op == 1) { auto c = f; f = {}; auto g = c.next([&n](const CBox& b) { ++n; return b.get(); }); c = {}; VP_ASSERT(g.get() == 9); }
  else if (op == 2) { f.notify([&n] { ++n; }); f.wait(); }
  else if (op == 3) { auto c = f; auto d = std::move(f); c = d; }
  else { auto g = f.then([&n](pc::shared_future<CBox> s) { ++n; return s.get(); }); f = {}; CBox b = g.get(); VP_ASSERT(b.get() == 9); }
}
//@ C22,C16,C02 reach=done cost=60
VP_SCENARIO(sh_two_users) {
  unsigned a = vp_pick("a", 5), b = vp_pick("b", 5); std::atomic<int> n{0}; auto p = pc::make_promise<CBox>(); auto f = p.second.share(); p.first.set_value(CBox(9)); std::thread t([&n, b, f]() mutable { use(std::move(f), b, n); }); use(std::move(f), a, n); t.join(); auto k = [](unsigned x) { return x == 1 || x == 2 || x == 4; }; VP_ASSERT(n == k(a) + k(b)); VP_REACH("done");
}
// ... the result is set by a third party (the other user)
//@ C22,C16,C03 reach=done cost=200
VP_SCENARIO(sh_set_and_use) {
  unsigned a = vp_pick("a", 5), b = vp_pick("b", 5); std::atomic<int> n{0}; auto p = pc::make_promise<CBox>(); auto f = p.second.share(); std::thread t([&n, b, f, q = std::move(p.first)]() mutable { { auto x = std::move(q); x.set_value(CBox(9)); } use(std::move(f), b, n); }); use(std::move(f), a, n); t.join(); auto k = [](unsigned x) { return x == 1 || x == 2 || x == 4; }; VP_ASSERT(n == k(a) + k(b)); VP_REACH("done");
}
// two users and the producer
//@ C22,C16 reach=done cost=60 opts='--sims 150 --spur 0'
VP_SCENARIO(sh_three) {
  unsigned a = vp_pick("a", 2), b = vp_pick("b", 2); std::atomic<int> n{0}; auto p = pc::make_promise<CBox>(); auto f = p.second.share(); auto op = [](pc::shared_future<CBox> f, unsigned o, std::atomic<int>& n) { if (o == 0) { f.notify([&n] { ++n; }); f = {}; } else { auto c = f; f = {}; if (c.is_ready()) VP_ASSERT(c.get().get() == 9); } };
  pc::shared_future<CBox> keep = f; std::thread t([q = std::move(p.first)]() mutable { q.set_value(CBox(9)); }), u([&n, b, f, op]() mutable { op(std::move(f), b, n); }); op(std::move(f), a, n); t.join(); u.join(); VP_ASSERT(n == (a == 0) + (b == 0)); VP_ASSERT(keep.get().get() == 9); VP_REACH("done");
}
// the last references are dropped concurrently; the producer keeps only weak references
//@ C22,C16,C07 reach=done cost=20
VP_SCENARIO(sh_last_drop) {
  bool set = vp_pick2("set"), producer = vp_pick2("producer_drops"); std::atomic<int> n{0}; auto p = pc::make_promise<CBox>(pc::canceler_arg, [&n] { ++n; }); auto f = p.second.share(); if (set) p.first.set_value(CBox(9)); std::thread t; if (producer) t = std::thread([q = std::move(p.first)]() mutable { auto x = std::move(q); }); else t = std::thread([f]() mutable { f = {}; }); f = {}; t.join(); VP_ASSERT(n <= 1); if (set) VP_ASSERT(n == 0); else if (!producer) VP_ASSERT(n == 1); VP_REACH("done");
}
// continuations of every kind get the shared value as a constant: whatever they do, other users see the same object untouched
//@ C22,C08,C09,C01 reach=done
VP_SCENARIO(sh_next_intact) {
  unsigned k = vp_pick("k", 7); bool before = vp_pick2("before"); int v = vp_int("v"), n = 0; auto p = pc::make_promise<CBox>(); auto f = p.second.share(); auto h = f; if (before) p.first.set_value(CBox(v)); pc::future<int> g;
  if (k == 0) g = f.next([&](CBox x) { n++; return x.get(); }); else if (k == 1) g = f.next([&](auto&& x) { n++; CBox y(std::forward<decltype(x)>(x)); return y.get(); }); else if (k == 2) g = f.next([&](auto&& x) { n++; CBox y(std::forward<decltype(x)>(x)); return pc::make_ready_future(y.get()); }); else if (k == 3) g = f.next([&](CBox x) { n++; return pc::make_ready_future(x.get()); });
  else if (k == 4) { QExec e{nullptr}; Queue q; e.q = &q; g = f.next(e, [&](auto&& x) { n++; CBox y(std::forward<decltype(x)>(x)); return pc::make_ready_future(y.get()); }); if (!before) { p.first.set_value(CBox(v)); before = true; } q.run_all(); } else if (k == 5) g = f.then([&](pc::shared_future<CBox> s) { n++; CBox y(s.get()); return y.get(); }); else g = f.then([&](auto&& s) { n++; CBox y(std::move(s).get()); return pc::make_ready_future(y.get()).share(); }).next([](int x) { return x; });
  if (!before) p.first.set_value(CBox(v)); VP_ASSERT(n == 1); VP_ASSERT(g.get() == v); VP_ASSERT(f.valid() && f.get().get() == v); VP_ASSERT(h.get().get() == v); VP_ASSERT(&f.get() == &h.get()); CBox c = h.get(); VP_ASSERT(c.get() == v && f.get().get() == v); VP_REACH("done");
}
// results and functions are released no later than the last future (and function objects with their run)
struct Cnt { int* n; explicit Cnt(int* n) : n(n) { ++*n; } Cnt(Cnt&& o) noexcept : n(o.n) { o.n = nullptr; } Cnt(const Cnt& o) : n(o.n) { ++*n; } ~Cnt() { if (n) --*n; } };
//@ C16 reach=done
VP_SCENARIO(life_release) {
  unsigned k = vp_pick("k", 9); int live = 0; bool keep = vp_pick2("keep_promise");
  { auto p = pc::make_promise<Cnt>(); pc::promise<Cnt> hold; pc::future<Cnt> f = std::move(p.second); if (k != 5) p.first.set_value(Cnt(&live)); if (keep) hold = std::move(p.first); else if (k != 5) { auto x = std::move(p.first); }
    if (k == 0) { f = {}; VP_ASSERT(live == 0); } else if (k == 1) { { Cnt c = f.get(); VP_ASSERT(live == 1); } VP_ASSERT(live == 0); } else if (k == 2) { auto s = f.share(); auto t = s; s = {}; VP_ASSERT(live == 1); t = {}; VP_ASSERT(live == 0); } else if (k == 3) { auto g = f.next([](Cnt) { return 1; }); VP_ASSERT(live == 0); VP_ASSERT(g.get() == 1); } else if (k == 4) { auto g = f.then([](pc::future<Cnt> x) { x.get(); return 2; }); VP_ASSERT(live == 0); VP_ASSERT(g.get() == 2); }
    else if (k == 5) { auto g = f.next([c = Cnt(&live)](Cnt) { return 1; }); VP_ASSERT(live == 1); g = {}; VP_ASSERT(live == 0); } else if (k == 6) { auto s = f.share(); auto g = s.next([c = Cnt(&live)](const Cnt&) { return 1; }); VP_ASSERT(live == 1); s = {}; VP_ASSERT(g.get() == 1); VP_ASSERT(live == 0); } else if (k == 7) { auto g = f.then([](pc::future<Cnt> x) { return x; }); VP_ASSERT(live == 1); g = {}; VP_ASSERT(live == 0); } else { auto g = pc::when_all(std::move(f)); VP_ASSERT(live == 1); { auto t = g.get(); VP_ASSERT(live == 1); } VP_ASSERT(live == 0); } }
  VP_ASSERT(live == 0); VP_REACH("done");
}
// exception objects too
struct ExcCnt { Cnt c; explicit ExcCnt(int* n) : c(n) {} };
//@ C16 reach=done
VP_SCENARIO(life_exception) {
  unsigned k = vp_pick("k", 5); int live = 0; { auto p = pc::make_promise<int>(); pc::future<int> f = std::move(p.second), g; p.first.set_exception(std::make_exception_ptr(ExcCnt(&live))); VP_ASSERT(live == 1); if (k == 0) f = {}; else if (k == 1) { try { f.get(); } catch (const ExcCnt&) {} } else if (k == 2) { g = f.next([](int x) { return x; }); VP_ASSERT(live == 1); g = {}; } else if (k == 3) { g = f.then([](pc::future<int> x) -> int { return x.get(); }); VP_ASSERT(live == 1); try { g.get(); } catch (const ExcCnt&) {} } else { auto s = f.share(); auto t = s; try { s.get(); } catch (...) {} s = {}; VP_ASSERT(live == 1); } } VP_ASSERT(live == 0); VP_REACH("done");
}
