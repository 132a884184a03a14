#include "h.h"
// C14: latch.

// one thread counting down by a symbolic amount at a time, no blocking: ready exactly at zero
//@ C14 reach=done
VP_SCENARIO(latch_seq) {
  unsigned n = vp_pick("n", 4); pc::latch l((ptrdiff_t)n); unsigned left = n; VP_ASSERT(l.is_ready() == (left == 0));
  for (int i = 0; i < 3 && left; i++) { unsigned k = (unsigned)__vp_pick(vp_choose("k", left + 1)); if (k == 1) l.count_down(); else l.count_down((ptrdiff_t)k); left -= k; VP_ASSERT(l.is_ready() == (left == 0)); }
  if (!left) { l.wait(); VP_ASSERT(l.is_ready()); VP_REACH("done"); }
}
// waiter, released only at zero, sees what the counters did; it destroys the latch at once
//@ C14,C16 reach=done
VP_SCENARIO(latch_wait_destroy) {
  auto* l = new pc::latch(1); int d = 0; bool by2 = vp_pick2("n");
  if (by2) { delete l; l = new pc::latch(2); }
  std::thread t([l, &d, by2] { d = 7; l->count_down(by2 ? 2 : 1); });
  l->wait(); VP_ASSERT(l->is_ready()); VP_ASSERT(d == 7); delete l; VP_REACH("done"); t.join();
}
//@ C14 reach=done cost=10
VP_SCENARIO(latch_two_counters) {
  auto* l = new pc::latch(2); int a = 0, b = 0;
  std::thread t([&] { a = 1; l->count_down(); }), u([&] { b = 2; l->count_down(); });
  l->wait(); VP_ASSERT(a == 1 && b == 2); VP_ASSERT(l->is_ready()); delete l; VP_REACH("done"); t.join(); u.join();
}
//@ C14 reach=done,done2 cost=10
VP_SCENARIO(latch_arrive) {
  auto* l = new pc::latch(2); int a = 0, b = 0;
  std::thread t([&] { a = 1; l->count_down_and_wait(); VP_ASSERT(a == 1 && b == 2); VP_REACH("done2"); });
  b = 2; l->count_down_and_wait(); VP_ASSERT(a == 1 && b == 2); delete l; VP_REACH("done"); t.join();
}
//@ C14 reach=done,done2 cost=20
VP_SCENARIO(latch_arrive3) {
  auto* l = new pc::latch(2); int a = 0, b = 0; bool three = vp_pick2("three"); if (three) { delete l; l = new pc::latch(3); }
  std::thread t([&] { a = 1; l->count_down_and_wait(); VP_ASSERT(a == 1 && b == 2); VP_REACH("done2"); }), u([&] { if (three) l->count_down(); else l->wait(); VP_ASSERT(three || (a == 1 && b == 2)); });
  b = 2; l->count_down_and_wait(); VP_ASSERT(a == 1 && b == 2); t.join(); if (!three) u.join(); delete l; if (three) u.join(); VP_REACH("done");
}
// the poller learns readiness from is_ready, then destroys the latch while waiter and counter are still inside
//@ C14,C16 reach=rdy,not cost=20
VP_SCENARIO(latch_poll) {
  auto* l = new pc::latch(1); int d = 0; bool w = vp_pick2("waiter");
  std::thread t([&] { d = 3; if (w) l->count_down_and_wait(); else l->count_down(); });
  if (l->is_ready()) { VP_ASSERT(d == 3); VP_REACH("rdy"); } else VP_REACH("not");
  t.join(); VP_ASSERT(l->is_ready()); delete l;
}
// two plain waiters, one counter; the last one out destroys
//@ C14,C16 reach=done cost=20
VP_SCENARIO(latch_two_waiters) {
  auto* l = new pc::latch(1); int d = 0; std::atomic<int> in{2};
  auto w = [&] { l->wait(); VP_ASSERT(d == 5); if (--in == 0) { delete l; VP_REACH("done"); } };
  std::thread t(w), u([&] { d = 5; l->count_down(); }); w(); t.join(); u.join();
}
// the counting thread knows that the other one sleeps inside the latch; it destroys the latch right after releasing it
//@ C14,C16 reach=asleep,not,done cost=20
VP_SCENARIO(latch_destroy_sleeping) {
  vp_ghost = true; auto* l = new pc::latch(1); int d = 0; bool aw = vp_pick2("cdw"); if (aw) { delete l; l = new pc::latch(2); }
  std::thread t([l, &d, aw] { if (aw) l->count_down_and_wait(); else l->wait(); VP_ASSERT(d == 4); VP_REACH("done"); });
  d = 4; if (vp_sleeps.load(std::memory_order_relaxed) >= 1) { l->count_down(); delete l; t.join(); VP_REACH("asleep"); } else { l->count_down(); t.join(); delete l; VP_REACH("not"); }
}
