#include "h.h"
// C06: abandoned work surfaces as broken_promise.

// every way of abandoning a promise, with waiter-visible state and continuations attached before or after
//@ C06,C16 reach=dtor,assign,moved,raw,task
VP_SCENARIO(ab_seq) {
  unsigned how = vp_pick("how", 6); bool pre = vp_pick2("attached_before"), shared = vp_pick2("shared"); int runs = 0, got = -1;
  pc::future<int> f; auto abandon = [&](auto&& body) { body(); };
  auto attach = [&](auto& x) { x.notify([&] { runs++; }); };
  pc::shared_future<int> s; 
  auto start = [&](pc::future<int> x) { f = std::move(x); if (shared) s = f.share(); if (pre) { if (shared) attach(s); else attach(f); } };
  auto rdy = [&] { return shared ? s.is_ready() : f.is_ready(); };
  if (how == 0) { { auto pr = pc::make_promise<int>(); start(std::move(pr.second)); VP_ASSERT(!rdy()); } VP_REACH("dtor"); }
  else if (how == 1) { auto pr = pc::make_promise<int>(); start(std::move(pr.second)); auto q = pc::make_promise<int>(); VP_ASSERT(!rdy()); pr.first = std::move(q.first); VP_ASSERT(rdy()); VP_ASSERT(!q.second.is_ready()); pr.first.set_value(4); VP_ASSERT(q.second.get() == 4); VP_REACH("assign"); }
  else if (how == 2) { auto pr = pc::make_promise<int>(); start(std::move(pr.second)); auto* p2 = new pc::promise<int>(std::move(pr.first)); { auto dead = std::move(pr.first); } pr.first = pc::promise<int>(); VP_ASSERT(!rdy()); delete p2; VP_REACH("moved"); }
  else if (how == 3) { auto* p = new pc::promise<int>(); start(p->get_future()); VP_ASSERT(!rdy()); delete p; VP_REACH("raw"); }
  else if (how == 4) { auto* t = new pc::packaged_task<int()>([b = Box(1)] { return b.get(); }); start(t->get_future()); pc::packaged_task<int()> u(std::move(*t)); delete t; VP_ASSERT(!rdy()); u = pc::packaged_task<int()>(); VP_REACH("task"); }
  else { Queue q; start(pc::async(QExec{&q}, [b = Box(1)] { return b.get(); })); VP_ASSERT(!rdy()); VP_ASSERT(q.n == 1); q.clear(); }
  VP_ASSERT(rdy()); if (!pre) { if (shared) attach(s); else attach(f); } VP_ASSERT(runs == 1);
  got = shared ? outcome(s) : outcome(f); VP_ASSERT(got == OUT_BROKEN); (void)abandon;
}
// every kind of producer x every way to lose it: destroyed, overwritten by a fresh, an empty, a satisfied or a moved-from one
template <class P, class Mk, class Done> static void abMatrix(unsigned how, bool pre, bool wasMoved, Mk mk, Done done) {
  int runs = 0; auto* p = new P(mk()); auto f = p->get_future(); if (wasMoved) { auto* p2 = new P(std::move(*p)); delete p; p = p2; } if (pre) f.notify([&] { runs++; }); VP_ASSERT(!f.is_ready());
  if (how == 0) delete p;
  else if (how == 1) { *p = mk(); VP_ASSERT(f.is_ready()); auto g = p->get_future(); VP_ASSERT(!g.is_ready()); delete p; VP_ASSERT(g.is_ready()); }
  else if (how == 2) { P q(mk()); P r(std::move(q)); auto g = r.get_future(); *p = std::move(q); VP_ASSERT(f.is_ready()); VP_ASSERT(!g.is_ready()); delete p; VP_ASSERT(!g.is_ready()); done(r); VP_ASSERT(g.is_ready()); }
  else if (how == 3) { P q(mk()); auto g = q.get_future(); done(q); *p = std::move(q); VP_ASSERT(f.is_ready() && g.is_ready()); delete p; VP_ASSERT(err([&] { (void)g.get(); }) == NONE); }
  else if (how == 4) { P q(mk()); auto g = q.get_future(); std::swap(*p, q); VP_ASSERT(!f.is_ready() && !g.is_ready()); delete p; VP_ASSERT(g.is_ready() && !f.is_ready()); VP_ASSERT(err([&] { (void)g.get(); }) == BROKEN); q = mk(); }
  else { std::vector<P> v; v.push_back(std::move(*p)); delete p; v.push_back(mk()); auto g = v[1].get_future(); VP_ASSERT(!f.is_ready()); v.erase(v.begin()); VP_ASSERT(f.is_ready() && !g.is_ready()); done(v[0]); VP_ASSERT(g.is_ready()); }
  VP_ASSERT(f.is_ready()); if (!pre) f.notify([&] { runs++; }); VP_ASSERT(runs == 1); VP_ASSERT(err([&] { (void)f.get(); }) == BROKEN);
}
//@ C06,C16 reach=done cost=4
VP_SCENARIO(ab_matrix) {
  unsigned t = vp_pick("t", 7), how = vp_pick("how", 6); bool pre = vp_pick2("attached_before"), mv = vp_pick2("moved"); static int cell; int cancels = 0;
  switch (t) {
    case 0: abMatrix<pc::promise<int>>(how, pre, mv, [] { return pc::promise<int>(); }, [](auto& p) { p.set_value(1); }); break;
    case 1: abMatrix<pc::promise<void>>(how, pre, mv, [] { return pc::promise<void>(); }, [](auto& p) { p.set_value(); }); break;
    case 2: abMatrix<pc::promise<int&>>(how, pre, mv, [] { return pc::promise<int&>(); }, [](auto& p) { p.set_value(cell); }); break;
    case 3: abMatrix<pc::promise<Box>>(how, pre, mv, [] { return pc::promise<Box>(std::allocator_arg, std::allocator<char>()); }, [](auto& p) { p.set_value(Box(3)); }); break;
    case 4: abMatrix<pc::promise<int>>(how, pre, mv, [&] { return pc::promise<int>(pc::canceler_arg, [&] { cancels++; }); }, [](auto& p) { p.set_value(1); }); VP_ASSERT(cancels == (how == 4)); break;   // (how 4 drops a promise whose future was never taken)
    case 5: abMatrix<pc::packaged_task<int()>>(how, pre, mv, [] { return pc::packaged_task<int()>([b = Box(2)] { return b.get(); }); }, [](auto& p) { p(); }); break;
    default: abMatrix<pc::packaged_task<void(int)>>(how, pre, mv, [] { return pc::packaged_task<void(int)>([b = Box(2)](int) {}); }, [](auto& p) { p(1); }); }
  VP_REACH("done");
}
// abandoning after a result changes nothing
//@ C06,C01 reach=done
VP_SCENARIO(ab_after_result) {
  unsigned how = vp_pick("how", 4); int v = vp_int("v"); pc::future<int> f;
  if (how == 0) { auto pr = pc::make_promise<int>(); f = std::move(pr.second); pr.first.set_value(v); { auto x = std::move(pr.first); } }
  else if (how == 1) { auto pr = pc::make_promise<int>(); f = std::move(pr.second); pr.first.set_value(v); pr.first = pc::promise<int>(); }
  else if (how == 2) { pc::packaged_task<int()> t([v] { return v; }); f = t.get_future(); t(); t = pc::packaged_task<int()>([] { return 1; }); }
  else { Queue q; f = pc::async(QExec{&q}, [v] { return v; }); q.run(0); q.clear(); }
  VP_ASSERT(f.is_ready()); VP_ASSERT(f.get() == v); VP_REACH("done");
}
// a promise of every kind of result
//@ C06 reach=done
VP_SCENARIO(ab_types) {
  { auto f = [] { auto p = pc::make_promise<void>(); return std::move(p.second); }(); VP_ASSERT(f.is_ready()); VP_ASSERT(err([&] { f.get(); }) == BROKEN); }
  { auto f = [] { auto p = pc::make_promise<int&>(); return std::move(p.second); }(); VP_ASSERT(err([&] { f.get(); }) == BROKEN); }
  { auto f = [] { auto p = pc::make_promise<Box>(); return std::move(p.second); }(); VP_ASSERT(err([&] { f.get(); }) == BROKEN); }
  { auto f = [] { pc::packaged_task<void(int)> t([](int) {}); return t.get_future(); }(); VP_ASSERT(err([&] { f.get(); }) == BROKEN); }
  { auto f = [] { pc::packaged_task<pc::future<int>()> t([] { return pc::make_ready_future(1); }); return t.get_future(); }(); VP_ASSERT(err([&] { f.get(); }) == BROKEN); }
  VP_REACH("done");
}
// a continuation's task dropped by its executor breaks the promise of the continuation, and everything hanging on it
//@ C06,C08,C16 reach=done
VP_SCENARIO(ab_cont_drop) {
  unsigned kind = vp_pick("kind", 4); bool ready = vp_pick2("ready"), clr = vp_pick2("clear"); Queue q; int runs = 0, tail = 0; auto pr = pc::make_promise<int>(); auto& src = pr.second; if (ready) pr.first.set_value(1);
  pc::future<int> f;
  auto go = [&](auto ex) {
    if (kind == 0) f = src.then(ex, [&runs, b = Box(1)](pc::future<int> x) { runs++; return x.get(); });
    else if (kind == 1) f = src.next(ex, [&runs, b = Box(1)](int x) { runs++; return x; });
    else if (kind == 2) f = src.then(ex, [&runs, b = Box(1)](pc::future<int> x) { runs++; return x; });
    else f = src.then(ex, [&runs, b = Box(1)](pc::promise<int> p, pc::future<int> x) { runs++; p.set_value(x.get()); });
  };
  if (clr) go(QExec{&q}); else go(DropExec{});
  auto g = f.then([&tail](pc::future<int> x) { tail++; return outcome(x); });
  if (!ready) { VP_ASSERT(!g.is_ready()); pr.first.set_value(1); }
  if (clr) { VP_ASSERT(!g.is_ready()); q.clear(); }
  VP_ASSERT(g.is_ready()); VP_ASSERT(tail == 1 && runs == 0); VP_ASSERT(g.get() == OUT_BROKEN); VP_REACH("done");
}
// an abandoned parent: then sees the error, next forwards it
//@ C06,C08 reach=done
VP_SCENARIO(ab_parent) {
  unsigned kind = vp_pick("kind", 5); bool shared = vp_pick2("shared"), late = vp_pick2("late"); int ran = 0; auto* p = new std::pair<pc::promise<int>, pc::future<int>>(pc::make_promise<int>()); auto src = std::move(p->second); pc::shared_future<int> ss; if (shared) ss = src.share(); 
  if (late) { delete p; p = nullptr; }
  pc::future<int> f;
  if (kind == 0) { if (shared) f = ss.then([&](pc::shared_future<int> x) { ran++; return outcome(x); }); else f = src.then([&](pc::future<int> x) { ran++; return outcome(x); }); }
  else if (kind == 1) { if (shared) f = ss.next([&](int) { ran++; return 1; }); else f = src.next([&](int) { ran++; return 1; }); }
  else if (kind == 2) { if (shared) f = ss.next([&](int) { ran++; return pc::make_ready_future(1); }); else f = src.next([&](int) { ran++; return pc::make_ready_future(1); }); }
  else if (kind == 3) { if (shared) f = ss.then([](pc::promise<int> q, pc::shared_future<int> x) { q.set_value(outcome(x)); }); else f = src.then([](pc::promise<int> q, pc::future<int> x) { q.set_value(outcome(x)); }); }
  else { if (shared) f = ss.then([](pc::promise<int>, pc::shared_future<int>) {}); else f = src.then([](pc::promise<int>, pc::future<int>) {}); }
  if (!late) { VP_ASSERT(!f.is_ready()); delete p; }
  VP_ASSERT(f.is_ready()); int o = outcome(f); VP_ASSERT(o == OUT_BROKEN); VP_ASSERT(ran == (kind == 0)); VP_REACH("done");
}
// concurrent: a blocked waiter is released by the abandonment, a continuation runs once
//@ C06,C04 reach=done cost=5
VP_SCENARIO(ab_vs_wait) {
  unsigned how = vp_pick("how", 4); bool shared = vp_pick2("shared"); pc::future<int> f; std::thread t; pc::promise<int> keep;
  if (how == 0) { auto pr = pc::make_promise<int>(); f = std::move(pr.second); t = std::thread([p = std::move(pr.first)] {}); }
  else if (how == 1) { auto pr = pc::make_promise<int>(); f = std::move(pr.second); keep = std::move(pr.first); t = std::thread([&keep] { keep = pc::promise<int>(); }); }
  else if (how == 2) { pc::packaged_task<int()> k([] { return 1; }); f = k.get_future(); t = std::thread([k = std::move(k)] {}); }
  else { pc::packaged_task<int()> k([] { return 1; }); f = k.get_future(); auto* h = new pc::packaged_task<int()>(std::move(k)); t = std::thread([h] { pc::packaged_task<int()> m(std::move(*h)); delete h; }); }
  if (shared) { auto s = f.share(); VP_ASSERT(outcome(s) == OUT_BROKEN); VP_ASSERT(outcome(s) == OUT_BROKEN); } else VP_ASSERT(outcome(f) == OUT_BROKEN);
  VP_REACH("done"); t.join();
}
//@ C06,C03 reach=done cost=5
VP_SCENARIO(ab_vs_cont) {
  unsigned kind = vp_pick("kind", 3); std::atomic<int> runs{0}; auto pr = pc::make_promise<int>(); std::thread t([p = std::move(pr.first)] {}); pc::future<int> g;
  if (kind == 0) { pr.second.notify([&] { ++runs; }); t.join(); VP_ASSERT(runs == 1); VP_ASSERT(outcome(pr.second) == OUT_BROKEN); }
  else if (kind == 1) { g = pr.second.then([&](pc::future<int> x) { ++runs; return outcome(x); }); VP_ASSERT(g.get() == OUT_BROKEN); t.join(); VP_ASSERT(runs == 1); }
  else { g = pr.second.next([&](int) { ++runs; return 1; }); VP_ASSERT(outcome(g) == OUT_BROKEN); t.join(); VP_ASSERT(runs == 0); }
  VP_REACH("done");
}
// a task dropped by another thread while its parent is fulfilled by a third: the chain still breaks exactly once
//@ C06,C08 reach=done cost=10
VP_SCENARIO(ab_cont_drop_conc) {
  Queue q; auto pr = pc::make_promise<int>(); auto f = pr.second.then(QExec{&q}, [b = Box(1)](pc::future<int> x) { return x.get(); });
  std::thread t([&q, p = std::move(pr.first)]() mutable { p.set_value(1); q.clear(); });
  VP_ASSERT(outcome(f) == OUT_BROKEN); VP_REACH("done"); t.join();
}
// get_future races nothing: promise first used, then abandoned before or after get_future
//@ C06 reach=done
VP_SCENARIO(ab_no_future) {
  unsigned k = vp_pick("k", 3);
  if (k == 0) { pc::promise<Box> p; }
  else if (k == 1) { pc::promise<Box> p; p.set_value(Box(1)); auto f = p.get_future(); VP_ASSERT(f.get().get() == 1); }
  else { pc::packaged_task<int()> t([b = Box(1)] { return 1; }); }
  VP_REACH("done");
}
// an executor that keeps tasks of one type in one slot: a later task overwrites (move-assigns) an earlier one
struct Slot { Task* t = nullptr; ~Slot() { delete t; } };
struct SlotExec { Slot* s; };
template <class F> void post(SlotExec e, F&& f) { using D = std::decay_t<F>; if (e.s->t) static_cast<TaskOf<D>*>(e.s->t)->f = std::move(f); else e.s->t = new TaskOf<D>(std::move(f)); }
namespace portable_concurrency { template <> struct is_executor<SlotExec> : std::true_type {}; }
//@ C06,C16 reach=done
VP_SCENARIO(aband_overwritten_task) {
  unsigned k = vp_pick("k", 4); bool run = vp_pick2("run"); Slot s; pc::future<int> f[2]; pc::promise<int> p[2]; int ran = 0;
  for (int i = 0; i < 2; i++) { auto pr = pc::make_promise<int>(); p[i] = std::move(pr.first); if (k == 0) f[i] = pr.second.then(SlotExec{&s}, [&ran](pc::future<int> x) { ran++; return x.get() + 1; }); else if (k == 1) f[i] = pr.second.next(SlotExec{&s}, [&ran](int x) { ran++; return x + 1; }); else if (k == 2) { f[i] = pc::async(SlotExec{&s}, [&ran, i] { ran++; return i + 1; }); } else f[i] = pr.second.then(SlotExec{&s}, [&ran](pc::promise<int> q, pc::future<int> x) { ran++; q.set_value(x.get() + 1); }); }
  if (k != 2) { p[0].set_value(0); VP_ASSERT(!f[0].is_ready()); p[1].set_value(1); }
  VP_ASSERT(f[0].is_ready()); VP_ASSERT(outcome(f[0]) == OUT_BROKEN); VP_ASSERT(ran == 0); VP_ASSERT(!f[1].is_ready());
  if (run) { s.t->run(); VP_ASSERT(ran == 1); VP_ASSERT(f[1].get() == 2); } else { delete s.t; s.t = nullptr; VP_ASSERT(outcome(f[1]) == OUT_BROKEN); } VP_REACH("done");
}
