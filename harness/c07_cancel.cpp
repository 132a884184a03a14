#include "h.h"
// C07: cancellation.
struct Probe { int* dead; explicit Probe(int* d) : dead(d) {} Probe(Probe&& o) noexcept : dead(o.dead) { o.dead = nullptr; } ~Probe() { if (dead) ++*dead; } };

// a not yet started task: dropping the future destroys the function unrun, the task is then a no-op
//@ C07,C16 reach=done,kept
VP_SCENARIO(can_task) {
  unsigned kind = vp_pick("kind", 3), hold = vp_pick("hold", 4); int dead = 0, ran = 0; Queue q;
  {
    pc::future<int> f; pc::shared_future<int> s, s2; pc::packaged_task<int()> pt; auto fn = [&] { return [&ran, p = Probe(&dead)] { ran++; return 1; }; };
    if (kind == 0) f = pc::async(QExec{&q}, fn()); else if (kind == 1) { pt = pc::packaged_task<int()>(fn()); f = pt.get_future(); } else f = pc::make_ready_future(1).then(QExec{&q}, [&ran, p = Probe(&dead)](pc::future<int>) { ran++; return 1; });
    VP_ASSERT(dead == 0);
    if (hold == 0) f = {}; else if (hold == 1) { s = f.share(); s2 = s; s = {}; VP_ASSERT(dead == 0); s2 = {}; } else if (hold == 2) { s = f.share(); s2 = s; s = {}; } else { auto g = std::move(f); }
    if (hold != 2) { VP_ASSERT(dead == 1); VP_ASSERT(ran == 0); }
    if (kind == 1) pt(); else q.run(0);
    if (hold == 2) { VP_ASSERT(ran == 1 && dead == 1); VP_ASSERT(s2.get() == 1); VP_REACH("kept"); } else { VP_ASSERT(ran == 0 && dead == 1); VP_REACH("done"); }
  }
  q.clear(); VP_ASSERT(dead == 1);
}
// a chain: dropping the tail cancels every link nobody else awaits
//@ C07,C16 reach=all,part
VP_SCENARIO(can_chain) {
  unsigned when = vp_pick("when", 3); bool keep = vp_pick2("keep_mid"); int d1 = 0, d2 = 0, r1 = 0, r2 = 0; auto pr = pc::make_promise<int>(); Queue q;
  pc::shared_future<int> mid = pr.second.next(QExec{&q}, [&r1, p = Probe(&d1)](int v) { r1++; return v + 1; }).share();
  auto f = mid.next(QExec{&q}, [&r2, p = Probe(&d2)](int v) { r2++; return v + 1; }); if (!keep) mid = {};
  VP_ASSERT(pr.first.is_awaiten());
  if (when == 0) f = {};
  pr.first.set_value(1); if (when == 1) f = {};
  if (q.n) q.run(0);
  if (when == 2) f = {};
  if (q.n > 1) q.run(1);
  VP_ASSERT(r2 == 0); VP_ASSERT(r1 == ((when == 2 || keep) ? 1 : 0)); if (keep) { VP_ASSERT(mid.get() == 2); VP_REACH("part"); } else VP_REACH("all");
  VP_ASSERT(d2 == 1); if (!keep) VP_ASSERT(d1 == 1); mid = {}; q.clear(); VP_ASSERT(d1 == 1 && d2 == 1);
}
// is_awaiten
//@ C07 reach=done
VP_SCENARIO(can_awaiten) {
  bool old = vp_pick2("get_future"); pc::promise<int> p; pc::future<int> f; if (old) { VP_ASSERT(p.is_awaiten()); f = p.get_future(); } else { auto pr = pc::make_promise<int>(); p = std::move(pr.first); f = std::move(pr.second); }
  VP_ASSERT(p.is_awaiten()); unsigned k = vp_pick("k", 6);
  if (k == 0) f = {}; else if (k == 1) { auto s = f.share(); auto s2 = s; s = {}; VP_ASSERT(p.is_awaiten()); s2 = {}; } else if (k == 2) { auto g = f.then([](pc::future<int>) {}); VP_ASSERT(p.is_awaiten()); g = {}; } else if (k == 3) { auto g = f.next([](int) {}); VP_ASSERT(p.is_awaiten()); auto h = g.next([] {}); VP_ASSERT(p.is_awaiten()); h = {}; }
  else if (k == 4) { auto g = pc::when_any(std::move(f)); VP_ASSERT(p.is_awaiten()); auto p2 = std::move(p); VP_ASSERT(p2.is_awaiten()); p = std::move(p2); p.set_value(1); VP_ASSERT(std::get<0>(g.get().futures).get() == 1); }
  else { f.notify([] {}); VP_ASSERT(p.is_awaiten()); f = {}; }
  if (k != 4) { VP_ASSERT(!p.is_awaiten()); p.set_value(5); p.set_value(6); VP_ASSERT(!p.is_awaiten()); } VP_REACH("done");
}
// inside an interruptible continuation
//@ C07 reach=aw,not
VP_SCENARIO(can_interruptible) {
  bool drop = vp_pick2("drop"), shared = vp_pick2("shared"); auto pr = pc::make_promise<int>(); pc::promise<int> out; pc::future<int> f; int ran = 0; bool had = false; Queue q;
  if (shared) { auto s = pr.second.share(); f = s.then(QExec{&q}, [&](pc::promise<int> p, pc::shared_future<int> x) { ran++; VP_ASSERT(x.is_ready()); VP_ASSERT(p.is_awaiten()); out = std::move(p); }); } else f = pr.second.then(QExec{&q}, [&](pc::promise<int> p, pc::future<int> x) { ran++; VP_ASSERT(x.is_ready()); VP_ASSERT(p.is_awaiten()); out = std::move(p); });
  pr.first.set_value(1); q.run(0); VP_ASSERT(ran == 1); VP_ASSERT(out.is_awaiten());
  if (drop) { f = {}; VP_ASSERT(!out.is_awaiten()); out.set_value(1); VP_REACH("not"); } else { VP_ASSERT(!f.is_ready()); out.set_value(9); VP_ASSERT(f.get() == 9); VP_ASSERT(!out.is_awaiten()); VP_REACH("aw"); } (void)had;
}
// the cancel action runs exactly once iff the state dies unsatisfied
//@ C07,C16 reach=cancelled,satisfied,broken
VP_SCENARIO(can_action) {
  unsigned how = vp_pick("how", 7); bool old = vp_pick2("ctor"); int n = 0, dead = 0;
  {
    auto act = [&n, p = Probe(&dead)] { n++; }; pc::promise<int> p; pc::future<int> f;
    if (old) { p = pc::promise<int>(pc::canceler_arg, std::move(act)); f = p.get_future(); } else { auto pr = pc::make_promise<int>(pc::canceler_arg, std::move(act)); p = std::move(pr.first); f = std::move(pr.second); }
    if (how == 0) { f = {}; VP_ASSERT(n == 1); VP_ASSERT(dead == 1); p.set_value(1); VP_ASSERT(n == 1); VP_REACH("cancelled"); }
    else if (how == 1) { p.set_value(1); VP_ASSERT(n == 0); f = {}; VP_ASSERT(n == 0); VP_REACH("satisfied"); }
    else if (how == 2) { p.set_exception(std::make_exception_ptr(Err{1})); VP_ASSERT(outcome(f) == OUT_ERR(1)); VP_ASSERT(n == 0); }
    else if (how == 3) { auto x = std::move(p); } else if (how == 4) { auto s = f.share(); auto s2 = s; s = {}; VP_ASSERT(n == 0); s2 = {}; VP_ASSERT(n == 1); }
    else if (how == 5) { auto g = f.next([](int) {}); VP_ASSERT(n == 0); g = {}; VP_ASSERT(n == 1); }
    else { auto g = f.then([](pc::future<int> x) { return outcome(x); }); p.set_value(3); VP_ASSERT(g.get() == 3); VP_ASSERT(n == 0); }
    if (how == 3) { VP_ASSERT(f.is_ready()); VP_ASSERT(outcome(f) == OUT_BROKEN); VP_REACH("broken"); }
  }
  VP_ASSERT(dead == 1); VP_ASSERT(n == (how == 0 || how == 4 || how == 5)); 
}
// detach: the detached part completes, what is attached after it is still cancelled
//@ C07,C16 reach=done
VP_SCENARIO(can_detach) {
  unsigned k = vp_pick("k", 3); bool shared = vp_pick2("shared"); int r1 = 0, r2 = 0, d1 = 0, d2 = 0; Queue q; pc::future<int> f = pc::async(QExec{&q}, [&r1, p = Probe(&d1)] { r1++; return 5; });
  if (!shared) {
    auto g = f.detach(); VP_ASSERT(!f.valid()); VP_ASSERT(g.valid()); VP_ASSERT(!g.is_ready());
    if (k == 0) { g = {}; q.run(0); VP_ASSERT(r1 == 1); }
    else if (k == 1) { auto h = g.next([&r2, p = Probe(&d2)](int v) { r2++; return v; }); h = {}; VP_ASSERT(d2 == 1); q.run(0); VP_ASSERT(r1 == 1 && r2 == 0); }
    else { auto h = g.next([&r2, p = Probe(&d2)](int v) { r2++; return v + 1; }); q.run(0); VP_ASSERT(h.get() == 6); VP_ASSERT(r1 == 1 && r2 == 1); }
  } else {
    auto s = f.share(); auto g = s.detach(); VP_ASSERT(!s.valid()); VP_ASSERT(g.valid());
    if (k == 0) { g = {}; q.run(0); VP_ASSERT(r1 == 1); } else if (k == 1) { auto h = g.next([&r2, p = Probe(&d2)](int v) { r2++; return v; }); g = {}; h = {}; VP_ASSERT(d2 == 1); q.run(0); VP_ASSERT(r1 == 1 && r2 == 0); } else { auto h = g.then([&r2](pc::shared_future<int> v) { r2++; return v.get() + 1; }); q.run(0); VP_ASSERT(h.get() == 6); VP_ASSERT(g.get() == 5); }
  }
  VP_ASSERT(d1 == 1); VP_REACH("done");
}
// dropping races with running the task
//@ C07,C16 reach=ran,not cost=5
VP_SCENARIO(can_vs_run) {
  bool shared = vp_pick2("shared"); std::atomic<int> dead{0}; int ran = 0; struct P { std::atomic<int>* d; explicit P(std::atomic<int>* x) : d(x) {} P(P&& o) noexcept : d(o.d) { o.d = nullptr; } ~P() { if (d) ++*d; } };
  pc::packaged_task<int()> t([&ran, p = P(&dead)] { ran++; return 1; }); auto f = t.get_future(); pc::shared_future<int> s; if (shared) s = f.share();
  std::thread th([&t] { t(); }); if (shared) s = {}; else f = {}; th.join();
  VP_ASSERT(dead == 1); VP_ASSERT(ran <= 1); if (ran) VP_REACH("ran"); else VP_REACH("not");
}
// dropping a continuation's future races with the fulfilment of its parent
//@ C07,C16 reach=ran,not cost=10
VP_SCENARIO(can_vs_schedule) {
  unsigned kind = vp_pick("kind", 3); std::atomic<int> ran{0}; auto pr = pc::make_promise<int>(); pc::future<int> f;
  if (kind == 0) f = pr.second.then([&ran, b = Box(1)](pc::future<int> x) { ++ran; return x.get() + b.get(); }); else if (kind == 1) f = pr.second.next([&ran, b = Box(1)](int x) { ++ran; return x + b.get(); }); else f = pr.second.then([&ran, b = Box(1)](pc::promise<int> p, pc::future<int> x) { ++ran; p.set_value(x.get() + b.get()); });
  std::thread t([p = std::move(pr.first)]() mutable { p.set_value(1); }); f = {}; t.join();
  VP_ASSERT(ran <= 1); if (ran) VP_REACH("ran"); else VP_REACH("not");
}
// cancel action versus fulfilment and drop on two threads
//@ C07,C16 reach=cancelled,not cost=5
VP_SCENARIO(can_action_conc) {
  std::atomic<int> n{0}; auto pr = pc::make_promise<int>(pc::canceler_arg, [&n, b = Box(2)] { VP_ASSERT(b.get() == 2); ++n; });
  std::thread t([p = std::move(pr.first)]() mutable { bool a = p.is_awaiten(); p.set_value(1); (void)a; }); pr.second = {}; t.join(); VP_ASSERT(n <= 1); if (n) VP_REACH("cancelled"); else VP_REACH("not");
}
// is_awaiten while the consumer drops: false only when nobody can observe; stays false
//@ C07 reach=t,f cost=5
VP_SCENARIO(can_awaiten_conc) {
  auto pr = pc::make_promise<int>(); bool keep = vp_pick2("keep"); pc::shared_future<int> s = pr.second.share(); auto s2 = s; if (!keep) s2 = {};
  std::thread t([p = std::move(pr.first), keep]() mutable { bool a = p.is_awaiten(), b = p.is_awaiten(); VP_ASSERT(a || !b); if (keep) VP_ASSERT(a && b); if (a) VP_REACH("t"); else VP_REACH("f"); p.set_value(1); });
  s = {}; t.join(); if (keep) VP_ASSERT(s2.get() == 1);
}
// detached task runs although its future is dropped concurrently
//@ C07,C16 reach=done cost=5
VP_SCENARIO(can_detach_conc) {
  int ran = 0, tail = 0; pc::packaged_task<int()> t([&ran, b = Box(1)] { ran++; return b.get(); }); auto g = t.get_future().detach(); auto h = g.next([&tail](int v) { tail++; return v; });
  std::thread th([&t] { t(); }); h = {}; th.join(); VP_ASSERT(ran == 1); VP_ASSERT(tail <= 1); VP_REACH("done");
}
// the function of an interruptible continuation notices while it runs that nobody waits for it any more
//@ C07,C16 reach=done
VP_SCENARIO(awaiten_inside) {
  bool shared = vp_pick2("shared"), queued = vp_pick2("queued"), twice = vp_pick2("second_copy"); Queue q; auto pr = pc::make_promise<int>(); pc::future<int> f; int ran = 0;
  auto body = [&](pc::promise<int>& p) { ran++; VP_ASSERT(p.is_awaiten()); if (twice) { auto s = f.share(); auto s2 = s; s = {}; VP_ASSERT(p.is_awaiten()); s2 = {}; } else { auto g = std::move(f); VP_ASSERT(p.is_awaiten()); g = {}; } VP_ASSERT(!p.is_awaiten()); p.set_value(1); VP_ASSERT(!p.is_awaiten()); };
  auto u = [&](pc::promise<int> p, pc::future<int> x) { VP_ASSERT(x.get() == 3); body(p); }; auto s = [&](pc::promise<int> p, pc::shared_future<int> x) { VP_ASSERT(x.get() == 3); body(p); };
  if (shared) { auto sh = pr.second.share(); f = queued ? sh.then(QExec{&q}, s) : sh.then(s); } else f = queued ? pr.second.then(QExec{&q}, u) : pr.second.then(u);
  pr.first.set_value(3); if (queued) { VP_ASSERT(ran == 0); q.run(0); } VP_ASSERT(ran == 1 && !f.valid()); VP_REACH("done");
}
