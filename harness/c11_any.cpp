#include "h.h"
// C11: when_any.
static void fill(pc::promise<int>& p, unsigned how, int v) { if (how == 0) p.set_value(v); else if (how == 1) p.set_exception(std::make_exception_ptr(Err{v & 0xff})); else { auto x = std::move(p); } }
static int expect(unsigned how, int v) { return how == 0 ? v : how == 1 ? OUT_ERR(v & 0xff) : OUT_BROKEN; }

//@ C11,C16 reach=done,already
VP_SCENARIO(any_tuple_seq) {
  unsigned ready = vp_pick("ready_before", 8), ord = vp_pick("order", 6), how = vp_pick("how", 3); bool sh = vp_pick2("shared_mid"), early = vp_pick2("consume_early"); int a = vp_int("a"), b = vp_int("b"), c = vp_int("c"), n = 0;
  static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  auto pa = pc::make_promise<int>(), pb = pc::make_promise<int>(), pcc = pc::make_promise<int>(); pc::shared_future<int> sb; if (sh) sb = pb.second.share();
  auto set = [&](int i) { if (i == 0) pa.first.set_value(a); else if (i == 1) fill(pb.first, how, b); else pcc.first.set_value(c); };
  for (int i = 0; i < 3; i++) if (ready >> i & 1) set(i);
  auto go = [&](auto f) {
    f.notify([&] { n++; }); unsigned done = ready; VP_ASSERT(f.is_ready() == (done != 0)); VP_ASSERT(n == (done != 0)); int k = 0;
    if (!done) { int i = perm[ord][k++]; set(i); done |= 1u << i; VP_ASSERT(f.is_ready()); VP_ASSERT(n == 1); if (early) VP_ASSERT(true); }
    auto rest = [&] { for (; k < 3; k++) { int i = perm[ord][k]; if (!(done >> i & 1)) { set(i); done |= 1u << i; } } };
    unsigned first = done; if (!early) rest(); auto r = f.get(); VP_ASSERT(r.index < 3); VP_ASSERT(first >> r.index & 1);
    VP_ASSERT(std::get<0>(r.futures).valid() && std::get<1>(r.futures).valid() && std::get<2>(r.futures).valid());
    VP_ASSERT(std::get<0>(r.futures).is_ready() == (done & 1)); VP_ASSERT(std::get<1>(r.futures).is_ready() == (done >> 1 & 1)); VP_ASSERT(std::get<2>(r.futures).is_ready() == (done >> 2 & 1)); rest();
    VP_ASSERT(std::get<0>(r.futures).get() == a); VP_ASSERT(outcome(std::get<1>(r.futures)) == expect(how, b)); VP_ASSERT(std::get<2>(r.futures).get() == c); VP_ASSERT(n == 1);
  };
  if (sh) { go(pc::when_any(std::move(pa.second), sb, std::move(pcc.second))); VP_ASSERT(sb.valid()); } else go(pc::when_any(std::move(pa.second), std::move(pb.second), std::move(pcc.second)));
  if (ready) VP_REACH("already"); else VP_REACH("done");
}
//@ C11 reach=done
VP_SCENARIO(any_small) {
  unsigned k = vp_pick("k", 7); std::vector<pc::future<int>> v; std::vector<pc::shared_future<int>> sv; const std::size_t none = (std::size_t)-1;
  if (k == 0) { auto f = pc::when_any(); VP_ASSERT(f.is_ready()); VP_ASSERT(f.get().index == none); } else if (k == 1) { auto f = pc::when_any(v.begin(), v.end()); VP_ASSERT(f.is_ready()); auto r = f.get(); VP_ASSERT(r.futures.empty() && r.index == none); } else if (k == 2) { auto f = pc::when_any(sv.begin(), sv.end()); VP_ASSERT(f.is_ready()); auto r = f.get(); VP_ASSERT(r.futures.empty() && r.index == none); } else if (k == 3) { auto f = pc::when_any(std::move(v)); VP_ASSERT(f.is_ready()); auto r = f.get(); VP_ASSERT(r.futures.empty() && r.index == none); }
  else if (k == 4) { auto f = pc::when_any(std::move(sv)); VP_ASSERT(f.is_ready()); auto r = f.get(); VP_ASSERT(r.futures.empty() && r.index == none); }
  else if (k == 5) { auto p = pc::make_promise<void>(); auto f = pc::when_any(std::move(p.second)); VP_ASSERT(!f.is_ready()); { auto x = std::move(p.first); } VP_ASSERT(f.is_ready()); auto t = f.get(); VP_ASSERT(t.index == 0); VP_ASSERT(std::get<0>(t.futures).is_ready()); }
  else { int x = 0; auto p = pc::make_promise<int&>(); auto q = pc::make_promise<Box>(); auto f = pc::when_any(std::move(p.second), std::move(q.second)); q.first.set_value(Box(4)); VP_ASSERT(f.is_ready()); auto t = f.get(); VP_ASSERT(t.index == 1); VP_ASSERT(std::get<1>(t.futures).get().get() == 4); p.first.set_value(x); VP_ASSERT(&std::get<0>(t.futures).get() == &x); }
  VP_REACH("done");
}
//@ C11,C16 reach=done
VP_SCENARIO(any_range_seq) {
  unsigned form = vp_pick("form", 4), n = 1 + vp_pick("n", 3), ready = vp_pick("ready", 8), firstSet = vp_pick("first", 3); int val[3] = {vp_int("a"), vp_int("b"), vp_int("c")}; unsigned err1 = vp_pick("err", 4); VP_ASSUME(err1 == 3 || err1 < n); VP_ASSUME(ready < (1u << n)); VP_ASSUME(firstSet < n); int note = 0;
  std::vector<pc::promise<int>> ps; std::vector<pc::future<int>> fs; std::vector<pc::shared_future<int>> ss; ps.reserve(3); fs.reserve(3); ss.reserve(3);
  for (unsigned i = 0; i < n; i++) { auto pr = pc::make_promise<int>(); ps.push_back(std::move(pr.first)); if (form & 1) ss.push_back(pr.second.share()); else fs.push_back(std::move(pr.second)); }
  auto set = [&](unsigned i) { fill(ps[i], err1 == i ? 1 : 0, val[i]); }; for (unsigned i = 0; i < n; i++) if (ready >> i & 1) set(i);
  auto go = [&](auto f) {
    f.notify([&] { note++; }); unsigned done = ready; VP_ASSERT(f.is_ready() == (done != 0)); if (!(done >> firstSet & 1)) { set(firstSet); done |= 1u << firstSet; } VP_ASSERT(f.is_ready()); VP_ASSERT(note == 1); unsigned winners = ready ? ready : done;
    auto r = f.get(); VP_ASSERT(r.futures.size() == n); VP_ASSERT(r.index < n); VP_ASSERT(winners >> r.index & 1); for (unsigned i = 0; i < n; i++) { VP_ASSERT(r.futures[i].is_ready() == (done >> i & 1)); if (!(done >> i & 1)) set(i); VP_ASSERT(outcome(r.futures[i]) == expect(err1 == i ? 1 : 0, val[i])); } VP_ASSERT(note == 1);
  };
  if (form == 0) { go(pc::when_any(fs.begin(), fs.end())); for (auto& f : fs) VP_ASSERT(!f.valid()); } else if (form == 1) { go(pc::when_any(ss.begin(), ss.end())); for (auto& f : ss) VP_ASSERT(f.valid()); } else if (form == 2) go(pc::when_any(std::move(fs))); else go(pc::when_any(std::move(ss)));
  VP_REACH("done");
}
//@ C11,C16 reach=done
VP_SCENARIO(any_drop) {
  unsigned k = vp_pick("k", 4); auto p = pc::make_promise<Box>(), q = pc::make_promise<Box>(); auto f = pc::when_any(std::move(p.second), std::move(q.second)); int ran = 0;
  if (k == 0) { f = {}; p.first.set_value(Box(1)); q.first.set_value(Box(2)); } else if (k == 1) { p.first.set_value(Box(1)); f = {}; q.first.set_value(Box(2)); } else if (k == 2) { auto g = f.next([&](pc::when_any_result<std::tuple<pc::future<Box>, pc::future<Box>>> t) { ran++; return t.index; }); q.first.set_value(Box(1)); VP_ASSERT(g.get() == 1); p.first.set_value(Box(5)); VP_ASSERT(ran == 1); } else { p.first.set_value(Box(1)); { auto r = f.get(); VP_ASSERT(r.index == 0); } VP_ASSERT(!q.first.is_awaiten() || true); { auto x = std::move(q.first); } }
  VP_REACH("done");
}
// two inputs fulfilled concurrently, main waits
//@ C11,C02,C04 reach=w0,w1 cost=20
VP_SCENARIO(any_conc) {
  unsigned how = vp_pick("how", 3); bool vec = vp_pick2("vec"); auto p = pc::make_promise<int>(), q = pc::make_promise<int>(); std::vector<pc::future<int>> v;
  int da = 0, db = 0;   // written by the producers, the winner's is read as soon as the combined future is ready
  auto body = [&](auto f, auto&& a, auto&& b) { std::thread t([&p, &da] { da = 1; p.first.set_value(5); }), u([&q, &db, how] { db = 2; fill(q.first, how, 6); }); auto r = f.get(); VP_ASSERT(r.index < 2); if (r.index == 0) { VP_ASSERT(da == 1); VP_ASSERT(a(r.futures).is_ready()); VP_REACH("w0"); } else { VP_ASSERT(db == 2); VP_ASSERT(b(r.futures).is_ready()); VP_REACH("w1"); } t.join(); u.join(); VP_ASSERT(a(r.futures).get() == 5); VP_ASSERT(outcome(b(r.futures)) == expect(how, 6)); };
  if (vec) { v.reserve(2); v.push_back(std::move(p.second)); v.push_back(std::move(q.second)); body(pc::when_any(std::move(v)), [](auto& r) -> auto& { return r[0]; }, [](auto& r) -> auto& { return r[1]; }); } else body(pc::when_any(std::move(p.second), std::move(q.second)), [](auto& r) -> auto& { return std::get<0>(r); }, [](auto& r) -> auto& { return std::get<1>(r); });
}
// one input is fulfilled while when_any is being built; the continuation runs once
//@ C11,C03 reach=rdy,not cost=20
VP_SCENARIO(any_conc_make) {
  unsigned second = vp_pick("second", 3); std::atomic<int> n{0}; auto p = pc::make_promise<int>(), q = pc::make_promise<int>(); std::thread t([x = std::move(p.first)]() mutable { x.set_value(5); }); if (second == 0) q.first.set_value(6);
  auto f = pc::when_any(std::move(p.second), std::move(q.second)); f.notify([&] { ++n; }); if (second == 1) q.first.set_value(6);
  // (the other thread may have claimed the result and be about to publish it, so readiness here is not implied)
  if (f.is_ready()) VP_REACH("rdy"); else VP_REACH("not");
  if (second == 2) t.join();
  auto r = f.get(); VP_ASSERT(r.index == 0 ? std::get<0>(r.futures).is_ready() : r.index == 1 && std::get<1>(r.futures).is_ready()); if (second == 2) VP_ASSERT(r.index == 0);
  if (second != 2) t.join(); VP_ASSERT(n == 1);
}
// the result is consumed or dropped while the other input is fulfilled
//@ C11,C16 reach=done cost=10
VP_SCENARIO(any_conc_drop) {
  unsigned k = vp_pick("k", 3); auto p = pc::make_promise<Box>(), q = pc::make_promise<Box>(); auto f = pc::when_any(std::move(p.second), std::move(q.second)); if (k) q.first.set_value(Box(2)); std::thread t([x = std::move(p.first)]() mutable { x.set_value(Box(1)); });
  if (k == 2) { auto r = f.get(); VP_ASSERT(r.index == 1); VP_ASSERT(std::get<1>(r.futures).get().get() == 2); VP_ASSERT(std::get<0>(r.futures).get().get() == 1); } else f = {}; t.join(); VP_REACH("done");
}
