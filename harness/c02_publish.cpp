#include "h.h"
// C02: whoever learns that the future is ready may read the result and everything the producer wrote before.
struct Big { int a, b; Box c; Big(int x) : a(x), b(x + 1), c(x + 2) {} bool is(int x) const { return a == x && b == x + 1 && c.get() == x + 2; } };

template <class P> static void produce(P& p, unsigned k, int v, int& side) { side = v; if (k == 0) p.set_value(Big(v)); else if (k == 1) p.set_exception(std::make_exception_ptr(Err{v})); else { P q(std::move(p)); } }

// reader kinds: 0 poll is_ready, 1 wait, 2 get, 3 timed wait, 4 notification, 5 then, 6 next
//@ C02,C04,C16 reach=poll,wait,get,timed,notify,then,next cost=70
VP_SCENARIO(pub_unique) {
  int v = vp_int("v"); unsigned k = vp_pick("store", 3), rd = vp_pick("reader", 7); int side = 0; auto pr = pc::make_promise<Big>(); auto f = std::move(pr.second);
  std::thread t([&, p = std::move(pr.first)]() mutable { produce(p, k, v, side); });
  auto look = [&](auto&& fn) { VP_ASSERT(side == v); try { fn(); VP_ASSERT(k == 0); } catch (const Err& e) { VP_ASSERT(k == 1 && e.v == v); } catch (const std::future_error& e) { VP_ASSERT(k == 2 && e.code() == std::future_errc::broken_promise); } };
  auto val = [&] { Big b = f.get(); VP_ASSERT(b.is(v)); };
  if (rd == 0) { if (f.is_ready()) { look(val); VP_REACH("poll"); } }
  else if (rd == 1) { f.wait(); look(val); VP_REACH("wait"); }
  else if (rd == 2) { try { Big b = f.get(); VP_ASSERT(side == v && b.is(v)); } catch (const Err& e) { VP_ASSERT(k == 1 && side == v && e.v == v); } catch (const std::future_error&) { VP_ASSERT(k == 2 && side == v); } VP_REACH("get"); }
  else if (rd == 3) { pc::timed_waiter w(f); if (w.wait_for(std::chrono::seconds(1)) == pc::future_status::ready) { look(val); VP_REACH("timed"); } }
  else if (rd == 4) { int n = 0; f.notify([&] { VP_ASSERT(side == v && f.is_ready()); n++; VP_REACH("notify"); }); t.join(); VP_ASSERT(n == 1); look(val); }
  else if (rd == 5) { auto g = f.then([&](pc::future<Big> x) { VP_ASSERT(x.is_ready()); look([&] { Big b = x.get(); VP_ASSERT(b.is(v)); }); VP_REACH("then"); }); g.get(); }
  else { auto g = f.next([&](Big b) { VP_ASSERT(side == v && b.is(v)); VP_REACH("next"); }); try { g.get(); VP_ASSERT(k == 0); } catch (const Err& e) { VP_ASSERT(k == 1 && side == v); } catch (const std::future_error&) { VP_ASSERT(k == 2 && side == v); } }
  if (t.joinable()) t.join();
}
//@ C02,C22,C16 reach=poll,wait,timed,notify,then,next cost=8
VP_SCENARIO(pub_shared) {
  int v = vp_int("v"); unsigned k = vp_pick("store", 2), rd = vp_pick("reader", 6); int side = 0; auto pr = pc::make_promise<Big>(); pc::shared_future<Big> f = pr.second.share();
  std::thread t([&, p = std::move(pr.first)]() mutable { produce(p, k, v, side); });
  auto look = [&](const pc::shared_future<Big>& x) { VP_ASSERT(side == v); try { VP_ASSERT(x.get().is(v)); VP_ASSERT(k == 0); } catch (const Err& e) { VP_ASSERT(k == 1 && e.v == v); } };
  if (rd == 0) { if (f.is_ready()) { look(f); VP_REACH("poll"); } }
  else if (rd == 1) { f.wait(); look(f); VP_REACH("wait"); }
  else if (rd == 2) { pc::timed_waiter w(f); if (w.wait_for(std::chrono::seconds(1)) == pc::future_status::ready) { look(f); VP_REACH("timed"); } }
  else if (rd == 3) { int n = 0; f.notify([&, f] { look(f); n++; VP_REACH("notify"); }); t.join(); VP_ASSERT(n == 1); }
  else if (rd == 4) { auto g = f.then([&](pc::shared_future<Big> x) { look(x); VP_REACH("then"); }); g.get(); look(f); }
  else { auto g = f.next([&](const Big& b) { VP_ASSERT(side == v && b.is(v)); VP_REACH("next"); }); try { g.get(); VP_ASSERT(k == 0); } catch (const Err& e) { VP_ASSERT(k == 1 && side == v); } }
  if (t.joinable()) t.join();
}
// the result reaches a third thread which only hears of it from the continuation
//@ C02,C08 reach=done cost=8
VP_SCENARIO(pub_chain) {
  int v = vp_int("v"); int side = 0, side2 = 0; auto pr = pc::make_promise<int>();
  pc::future<int> g = pr.second.next([&](int x) { VP_ASSERT(side == v); side2 = x; return x + 1; });
  std::thread t([&, p = std::move(pr.first)]() mutable { side = v; p.set_value(v); });
  std::thread u([&, g = std::move(g)]() mutable { int r = g.get(); VP_ASSERT(r == v + 1 && side == v && side2 == v); });
  t.join(); u.join(); VP_REACH("done");
}
// a task run by one thread, its future read by another
//@ C02,C21 reach=done
VP_SCENARIO(pub_task) {
  int v = vp_int("v"); int side = 0; bool thr = vp_pick2("thr"), byget = vp_pick2("byget");
  pc::packaged_task<Big(int)> task([&](int x) { side = x; if (thr) throw Err{x}; return Big(x); }); pc::future<Big> f = task.get_future();
  std::thread t([&, task = std::move(task)]() mutable { task(v); });
  if (!byget) f.wait();
  try { Big b = f.get(); VP_ASSERT(!thr && b.is(v) && side == v); } catch (const Err& e) { VP_ASSERT(thr && e.v == v && side == v); }
  t.join(); VP_REACH("done");
}
// handing the unfulfilled promise over and the result back: two producers in a row
//@ C02,C09 reach=done cost=6
VP_SCENARIO(pub_unwrap) {
  int v = vp_int("v"); int s1 = 0, s2 = 0; auto inner = pc::make_promise<int>(); auto outer = pc::make_promise<void>();
  pc::future<int> g = outer.second.next([&, in = std::move(inner.second)]() mutable { VP_ASSERT(s1 == 1); return std::move(in); });
  std::thread t([&, p = std::move(outer.first)]() mutable { s1 = 1; p.set_value(); });
  std::thread u([&, p = std::move(inner.first)]() mutable { s2 = 2; p.set_value(v); });
  int r = g.get(); VP_ASSERT(r == v && s1 == 1 && s2 == 2); t.join(); u.join(); VP_REACH("done");
}
