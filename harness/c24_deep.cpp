// Wider concurrent scenarios: one more thread or one more operation than the quick ones.
#include "h.h"
// three threads attach to one shared result while main fulfils it
//@ C03,C22 reach=done cost=25
VP_SCENARIO(deep_attach3) {
  auto pr = pc::make_promise<int>(); pc::shared_future<int> f = pr.second.share(); std::atomic<int> n[3]; for (auto& x : n) x = 0;
  auto att = [&n](pc::shared_future<int> f, int i) { f.notify([&n, i] { ++n[i]; }); };
  std::thread a(att, f, 0), b(att, f, 1), c(att, f, 2); pr.first.set_value(4); a.join(); b.join(); c.join();
  for (auto& x : n) VP_ASSERT(x == 1); VP_REACH("done");
}
// three producers, a when_all and a waiter
//@ C10,C04 reach=done cost=6
VP_SCENARIO(deep_all3) {
  auto p = pc::make_promise<int>(), q = pc::make_promise<int>(), r = pc::make_promise<int>(); int d[3] = {}; auto f = pc::when_all(std::move(p.second), std::move(q.second), std::move(r.second));
  auto put = [](pc::promise<int> x, int* d) { *d = 1; x.set_value(5); };
  std::thread a(put, std::move(p.first), &d[0]), b(put, std::move(q.first), &d[1]), c(put, std::move(r.first), &d[2]);
  auto t = f.get(); VP_ASSERT(d[0] && d[1] && d[2]); VP_ASSERT(std::get<0>(t).is_ready() && std::get<1>(t).is_ready() && std::get<2>(t).is_ready());
  a.join(); b.join(); c.join(); VP_REACH("done");
}
//@ C11,C02 reach=i0,i1,i2 cost=6
VP_SCENARIO(deep_any3) {
  auto p = pc::make_promise<int>(), q = pc::make_promise<int>(), r = pc::make_promise<int>(); int d[3] = {}; auto f = pc::when_any(std::move(p.second), std::move(q.second), std::move(r.second));
  auto put = [](pc::promise<int> x, int* d) { *d = 1; x.set_value(5); };
  std::thread a(put, std::move(p.first), &d[0]), b(put, std::move(q.first), &d[1]), c(put, std::move(r.first), &d[2]);
  auto t = f.get(); VP_ASSERT(t.index < 3);
  if (t.index == 0) { VP_REACH("i0"); VP_ASSERT(d[0] && std::get<0>(t.futures).get() == 5); } else if (t.index == 1) { VP_REACH("i1"); VP_ASSERT(d[1] && std::get<1>(t.futures).get() == 5); } else { VP_REACH("i2"); VP_ASSERT(d[2] && std::get<2>(t.futures).get() == 5); }
  a.join(); b.join(); c.join();
}
// three counting threads and a waiter which destroys the latch
//@ C14 reach=done cost=6
VP_SCENARIO(deep_latch3) {
  int d[3] = {}; auto l = std::make_unique<pc::latch>(3);
  std::thread a([&] { d[0] = 1; l->count_down(); }), b([&] { d[1] = 1; l->count_down_and_wait(); }), c([&] { d[2] = 1; l->count_down(1); });
  l->wait(); VP_ASSERT(d[0] && d[1] && d[2] && l->is_ready()); l.reset(); a.join(); b.join(); c.join(); VP_REACH("done");
}
// two workers, three tasks, wait
//@ C12,C13 reach=done cost=100 tier=thorough
VP_SCENARIO(deep_pool_wait) {
  std::atomic<int> n[3]; for (auto& x : n) x = 0; { pc::static_thread_pool pool(2); for (int i = 0; i < 3; i++) post(pool.executor(), [&n, i] { ++n[i]; }); pool.wait(); for (auto& x : n) VP_ASSERT(x == 1); } VP_REACH("done");
}
// three readers of one shared result, all in different ways, and the producer
//@ C22,C02,C04 reach=done cost=100 tier=thorough
VP_SCENARIO(deep_shared3) {
  auto pr = pc::make_promise<Box>(); pc::shared_future<Box> f = pr.second.share(); int d = 0; std::atomic<int> n{0};
  std::thread a([&d](pc::shared_future<Box> f) { f.wait(); VP_ASSERT(d == 1); VP_ASSERT(f.get().get() == 7); }, f), b([&](pc::shared_future<Box> f) { auto g = f.next([&](const Box& x) { VP_ASSERT(d == 1 && x.get() == 7); ++n; return 0; }); g.wait(); }, f), c([&d](pc::shared_future<Box> f) { if (f.is_ready()) { VP_ASSERT(d == 1); VP_ASSERT(f.get().get() == 7); } }, std::move(f));
  d = 1; pr.first.set_value(Box(7)); a.join(); b.join(); c.join(); VP_ASSERT(n == 1); VP_REACH("done");
}
// unwrapping across threads: outer function run by one, inner fulfilled by another, the outer future dropped or read by main
//@ C09,C16 reach=got,cut cost=30
VP_SCENARIO(deep_unwrap) {
  auto out = pc::make_promise<int>(), in = pc::make_promise<int>(); auto f = out.second.next([g = std::move(in.second)](int) mutable { return std::move(g); });
  std::thread a([p = std::move(out.first)]() mutable { p.set_value(1); }), b([p = std::move(in.first)]() mutable { p.set_value(2); });
  if (vp_pick2("drop")) { f = {}; VP_REACH("cut"); } else { VP_ASSERT(f.get() == 2); VP_REACH("got"); }
  a.join(); b.join();
}
// a chain over two executing threads with the source fulfilled by a third
//@ C08,C03 reach=done cost=25
VP_SCENARIO(deep_chain) {
  Threads th; auto pr = pc::make_promise<int>(); std::atomic<int> n{0};
  std::thread a([p = std::move(pr.first)]() mutable { p.set_value(1); });
  auto f = pr.second.next(TExec{&th}, [&](int v) { ++n; return v + 1; }).next([&](int v) { ++n; return v * 2; });
  VP_ASSERT(f.get() == 4 && n == 2); a.join(); th.join(); VP_REACH("done");
}
// four producers
//@ C10 reach=done cost=12
VP_SCENARIO(deep_all4) {
  std::vector<pc::future<int>> v; pc::promise<int> p[4]; int d[4] = {}; for (auto& x : p) v.push_back(x.get_future()); std::atomic<int> n{0}; auto f = pc::when_all(std::move(v)); f.notify([&] { ++n; });
  auto put = [&](int i) { d[i] = 1; p[i].set_value(i); }; std::thread a(put, 0), b(put, 1), c(put, 2), e(put, 3);
  auto t = f.get(); for (int i = 0; i < 4; i++) { VP_ASSERT(d[i] == 1); VP_ASSERT(t[i].is_ready() && t[i].get() == i); } a.join(); b.join(); c.join(); e.join(); VP_ASSERT(n == 1); VP_REACH("done");
}
// four producers; the first ready input is consumed together with the result while the others still finish
//@ C11,C16 reach=done cost=100 tier=thorough
VP_SCENARIO(deep_any4) {
  std::vector<pc::future<int>> v; pc::promise<int> p[4]; int d[4] = {}; for (auto& x : p) v.push_back(x.get_future()); std::atomic<int> n{0};
  auto put = [&](int i) { d[i] = 1; p[i].set_value(i); }; std::thread a(put, 0), b(put, 1); auto f = pc::when_any(std::move(v)); f.notify([&] { ++n; }); std::thread c(put, 2), e(put, 3);
  { auto t = f.get(); VP_ASSERT(t.index < 4 && d[t.index] == 1); VP_ASSERT(t.futures[t.index].get() == (int)t.index); } a.join(); b.join(); c.join(); e.join(); VP_ASSERT(n == 1); VP_REACH("done");
}
//@ C14 reach=done cost=100 tier=thorough
VP_SCENARIO(deep_latch4) {
  int d[4] = {}; auto l = std::make_unique<pc::latch>(4); auto cw = [&](int i) { d[i] = 1; l->count_down_and_wait(); VP_ASSERT(d[0] && d[1] && d[2] && d[3]); };
  std::thread a(cw, 0), b(cw, 1), c(cw, 2); d[3] = 1; l->count_down(); l->wait(); VP_ASSERT(d[0] && d[1] && d[2]); l.reset(); a.join(); b.join(); c.join(); VP_REACH("done");
}
// two attached threads (both inside a task for sure), more work, then the pool is destroyed
//@ C13,C12 reach=done cost=30
VP_SCENARIO(deep_pool_attach2) {
  std::atomic<int> n{0}; auto pool = std::make_unique<pc::static_thread_pool>(0); auto ex = pool->executor(); pc::latch in(3); for (int i = 0; i < 2; i++) post(ex, [&] { in.count_down_and_wait(); });
  std::thread t([x = pool.get()] { x->attach(); }), u([x = pool.get()] { x->attach(); }); in.count_down_and_wait(); post(ex, [&] { ++n; }); pool.reset(); t.join(); u.join(); VP_ASSERT(n <= 1); VP_REACH("done");
}
