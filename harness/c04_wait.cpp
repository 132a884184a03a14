#include "h.h"
// C04: blocking waits.

//@ C04,C16 reach=wait,get,swait,sget cost=8
VP_SCENARIO(wait_vs_set) {
  unsigned k = vp_pick("kind", 4), out = vp_pick("store", 3); auto pr = pc::make_promise<int>(); auto f = std::move(pr.second); bool set = false;
  std::thread t([&, p = std::move(pr.first)]() mutable { set = true; if (out == 0) p.set_value(5); else if (out == 1) p.set_exception(std::make_exception_ptr(Err{6})); else { auto x = std::move(p); } });
  int want = out == 0 ? 5 : out == 1 ? OUT_ERR(6) : OUT_BROKEN;
  if (k == 0) { f.wait(); VP_ASSERT(set && f.is_ready()); f.wait(); VP_ASSERT(outcome(f) == want); VP_REACH("wait"); }
  else if (k == 1) { VP_ASSERT(outcome(f) == want && set); VP_REACH("get"); }
  else if (k == 2) { pc::shared_future<int> s = f.share(); s.wait(); VP_ASSERT(set && s.is_ready()); VP_ASSERT(outcome(s) == want); VP_REACH("swait"); }
  else { pc::shared_future<int> s = f.share(); VP_ASSERT(outcome(s) == want && set && outcome(s) == want); VP_REACH("sget"); }
  t.join();
}
// the waiter drops the last future right after it was released
//@ C04,C16 reach=done
VP_SCENARIO(wait_then_drop) {
  auto pr = pc::make_promise<Box>(); auto* f = new pc::future<Box>(std::move(pr.second)); bool by_get = vp_pick2("get");
  std::thread t([p = std::move(pr.first)]() mutable { p.set_value(Box(5)); });
  if (by_get) { Box b = f->get(); VP_ASSERT(b.get() == 5); } else f->wait();
  delete f; t.join(); VP_REACH("done");
}
// two waiters on one shared result
//@ C04,C22 reach=done cost=40 opts='--sims 150 --spur 0'
VP_SCENARIO(wait_two) {
  auto pr = pc::make_promise<int>(); pc::shared_future<int> f = pr.second.share();
  std::thread t([f] { VP_ASSERT(f.get() == 5); });
  std::thread u([p = std::move(pr.first)]() mutable { p.set_value(5); });
  f.wait(); VP_ASSERT(f.is_ready() && f.get() == 5); f = {};
  t.join(); u.join(); VP_REACH("done");
}
// waiting together with continuations attached before
//@ C04,C03 reach=done cost=8
VP_SCENARIO(wait_with_cont) {
  auto pr = pc::make_promise<int>(); auto f = std::move(pr.second); int n = 0; f.notify([&] { n++; });
  std::thread t([p = std::move(pr.first)]() mutable { p.set_value(5); });
  f.wait(); VP_ASSERT(f.is_ready() && f.get() == 5); t.join(); VP_ASSERT(n == 1); VP_REACH("done");
}
// waiting on a continuation's future
//@ C04,C08 reach=done cost=8
VP_SCENARIO(wait_on_cont) {
  auto pr = pc::make_promise<int>(); pc::future<int> g = pr.second.next([](int x) { return x + 1; }); bool drop = vp_pick2("drop");
  std::thread t([p = std::move(pr.first), drop]() mutable { if (!drop) p.set_value(5); else auto x = std::move(p); });
  VP_ASSERT(outcome(g) == (drop ? OUT_BROKEN : 6)); t.join(); VP_REACH("done");
}
// wait on a ready future returns at once, in every order
//@ C04,C01 reach=done
VP_SCENARIO(wait_ready) {
  auto pr = pc::make_promise<int>(); pr.first.set_value(1); pr.second.wait(); pr.second.wait(); pc::shared_future<int> s = pr.second.share(); s.wait(); s.wait(); VP_ASSERT(s.get() == 1 && s.get() == 1); VP_REACH("done");
}
