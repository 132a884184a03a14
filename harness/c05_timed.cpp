#include "h.h"
#include <chrono>
// C05: timed waits.
using clk = std::chrono::steady_clock;
using sysclk = std::chrono::system_clock;
using ns = std::chrono::nanoseconds;
static ns sym_dur() { return ns((int64_t)__vp_nondet("dur", 32)); }

//@ C05,C16 reach=ready,timeout cost=20
VP_SCENARIO(timed_for) {
  bool shared = vp_pick2("shared"); auto pr = pc::make_promise<int>(); auto f = std::move(pr.second); pc::shared_future<int> s; if (shared) s = f.share(); ns d = sym_dur();
  std::thread t([p = std::move(pr.first)]() mutable { p.set_value(5); });
  auto t0 = clk::now(); pc::future_status r;
  if (shared) { pc::timed_waiter w(s); r = w.wait_for(d); } else { pc::timed_waiter w(f); r = w.wait_for(d); }
  bool rdy = shared ? s.is_ready() : f.is_ready();
  if (r == pc::future_status::ready) { VP_ASSERT(rdy); VP_REACH("ready"); } else { VP_ASSERT(r == pc::future_status::timeout); VP_ASSERT(clk::now() - t0 >= d); VP_REACH("timeout"); }
  t.join();
}
//@ C05,C16 reach=ready,timeout cost=20
VP_SCENARIO(timed_until) {
  bool sys = vp_pick2("sys"); auto pr = pc::make_promise<int>(); auto f = std::move(pr.second); ns d = sym_dur(); pc::timed_waiter w(f);
  std::thread t([p = std::move(pr.first)]() mutable { p.set_value(5); });
  if (sys) { auto dl = sysclk::now() + d; auto r = w.wait_until(dl); if (r == pc::future_status::ready) { VP_ASSERT(f.is_ready()); VP_REACH("ready"); } else { VP_ASSERT(r == pc::future_status::timeout); VP_ASSERT(sysclk::now() >= dl); VP_REACH("timeout"); } }
  else { auto dl = clk::now() + d; auto r = w.wait_until(dl); if (r == pc::future_status::ready) { VP_ASSERT(f.is_ready()); VP_REACH("ready"); } else { VP_ASSERT(r == pc::future_status::timeout); VP_ASSERT(clk::now() >= dl); VP_REACH("timeout"); } }
  t.join(); VP_ASSERT(w.wait_for(d) == pc::future_status::ready);
}
// the future's own (deprecated) timed waits
//@ C05 reach=ready,timeout cost=20
VP_SCENARIO(timed_member) {
  bool shared = vp_pick2("shared"), until = vp_pick2("until"); auto pr = pc::make_promise<int>(); auto f = std::move(pr.second); pc::shared_future<int> s; if (shared) s = f.share(); ns d = sym_dur();
  std::thread t([p = std::move(pr.first)]() mutable { p.set_value(5); });
  auto t0 = clk::now(); pc::future_status r = shared ? (until ? s.wait_until(t0 + d) : s.wait_for(d)) : (until ? f.wait_until(t0 + d) : f.wait_for(d));
  bool rdy = shared ? s.is_ready() : f.is_ready();
  if (r == pc::future_status::ready) { VP_ASSERT(rdy); VP_REACH("ready"); } else { VP_ASSERT(r == pc::future_status::timeout); VP_ASSERT(clk::now() - t0 >= d); VP_REACH("timeout"); }
  t.join(); VP_ASSERT((shared ? s.wait_for(d) : f.wait_for(d)) == pc::future_status::ready);
}
// once ready, every timed wait says so, also with no time at all; nothing is ready before that
//@ C05 reach=done
VP_SCENARIO(timed_seq) {
  auto pr = pc::make_promise<int>(); auto f = std::move(pr.second); pc::timed_waiter w(f); ns d = sym_dur(); bool until = vp_pick2("until"); unsigned out = vp_pick("store", 3);
  auto ask = [&](pc::timed_waiter& x) { return until ? x.wait_until(clk::now() + d) : x.wait_for(d); };
  VP_ASSERT(ask(w) == pc::future_status::timeout); VP_ASSERT(f.wait_for(d) == pc::future_status::timeout);
  if (out == 0) pr.first.set_value(1); else if (out == 1) pr.first.set_exception(std::make_exception_ptr(Err{1})); else { auto x = std::move(pr.first); }
  VP_ASSERT(ask(w) == pc::future_status::ready); VP_ASSERT(ask(w) == pc::future_status::ready); pc::timed_waiter w2(f); VP_ASSERT(ask(w2) == pc::future_status::ready); VP_ASSERT(w2.wait_for(ns(0)) == pc::future_status::ready); VP_ASSERT(f.wait_for(ns(0)) == pc::future_status::ready);
  (void)outcome(f); VP_ASSERT(ask(w) == pc::future_status::ready); VP_REACH("done");
}
// lifetime: the waiter dies first, the future dies first, the waiter is moved
//@ C05,C16 reach=done cost=10
VP_SCENARIO(timed_life) {
  unsigned k = vp_pick("k", 4); auto pr = pc::make_promise<int>(); auto f = std::move(pr.second); auto* w = new pc::timed_waiter(f);
  std::thread t([p = std::move(pr.first)]() mutable { p.set_value(5); });
  if (k == 0) { delete w; w = nullptr; }
  else if (k == 1) { f = {}; delete w; w = nullptr; }
  else if (k == 2) { pc::timed_waiter w2(std::move(*w)); delete w; w = nullptr; if (w2.wait_for(ns(5)) == pc::future_status::ready) VP_ASSERT(f.is_ready()); }
  else { auto r = w->wait_for(ns(5)); delete w; w = nullptr; f = {}; (void)r; }
  t.join(); VP_REACH("done");
}
// two waiters on one shared future
//@ C05,C22 reach=done cost=60 opts='--sims 150 --tmo 1 --spur 0'
VP_SCENARIO(timed_two) {
  auto pr = pc::make_promise<int>(); pc::shared_future<int> f = pr.second.share();
  std::thread t([f]() mutable { pc::timed_waiter w(f); if (w.wait_for(ns(5)) == pc::future_status::ready) VP_ASSERT(f.is_ready() && f.get() == 5); });
  std::thread u([p = std::move(pr.first)]() mutable { p.set_value(5); });
  pc::timed_waiter w(f); if (w.wait_for(ns(7)) == pc::future_status::ready) VP_ASSERT(f.is_ready() && f.get() == 5);
  t.join(); u.join(); VP_REACH("done");
}
// threads waiting through copies of one waiter, with deadlines far away: fulfilment wakes them all (no time-out happens here)
//@ C05,C04 reach=done cost=40 opts='--sims 150 --tmo 0 --spur 0'
VP_SCENARIO(timed_copies) {
  bool until = vp_pick2("until"), shared = vp_pick2("shared"); auto pr = pc::make_promise<int>(); pc::future<int> f = std::move(pr.second); pc::shared_future<int> s; if (shared) s = f.share(); pc::timed_waiter w = shared ? pc::timed_waiter(s) : pc::timed_waiter(f);
  auto ask = [until](pc::timed_waiter x) { return until ? x.wait_until(clk::now() + std::chrono::hours(1)) : x.wait_for(std::chrono::hours(1)); };
  std::thread t([=] { VP_ASSERT(ask(w) == pc::future_status::ready); }); std::thread u([p = std::move(pr.first)]() mutable { p.set_value(5); });
  VP_ASSERT(ask(w) == pc::future_status::ready); t.join(); u.join(); VP_REACH("done");
}
