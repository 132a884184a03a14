#include "h.h"
// C10: when_all.
static void fill(pc::promise<int>& p, unsigned how, int v) { if (how == 0) p.set_value(v); else if (how == 1) p.set_exception(std::make_exception_ptr(Err{v & 0xff})); else { auto x = std::move(p); } }
static int expect(unsigned how, int v) { return how == 0 ? v : how == 1 ? OUT_ERR(v & 0xff) : OUT_BROKEN; }
template <class F> void each(std::tuple<>&, F&&) {}

// tuple form, every order of fulfilment and of the call itself, every outcome, mixed future kinds
//@ C10,C16 reach=done,already
VP_SCENARIO(all_tuple_seq) {
  unsigned ready = vp_pick("ready_before", 8), ord = vp_pick("order", 6), how = vp_pick("how", 3); bool sh = vp_pick2("shared_mid"); int a = vp_int("a"), b = vp_int("b"), c = vp_int("c"), n = 0;
  static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  auto pa = pc::make_promise<int>(), pb = pc::make_promise<int>(), pcc = pc::make_promise<int>(); pc::shared_future<int> sb; if (sh) sb = pb.second.share();
  auto set = [&](int i) { if (i == 0) pa.first.set_value(a); else if (i == 1) fill(pb.first, how, b); else pcc.first.set_value(c); };
  for (int i = 0; i < 3; i++) if (ready >> i & 1) set(i);
  auto go = [&](auto f) {
    f.notify([&] { n++; }); unsigned done = ready; VP_ASSERT(f.valid());
    for (int k = 0; k < 3; k++) { int i = perm[ord][k]; VP_ASSERT(f.is_ready() == (done == 7)); VP_ASSERT(n == (done == 7)); if (!(done >> i & 1)) { set(i); done |= 1u << i; } }
    VP_ASSERT(f.is_ready()); VP_ASSERT(n == 1); auto t = f.get(); VP_ASSERT(std::get<0>(t).is_ready() && std::get<1>(t).is_ready() && std::get<2>(t).is_ready()); VP_ASSERT(std::get<0>(t).get() == a); VP_ASSERT(outcome(std::get<1>(t)) == expect(how, b)); VP_ASSERT(std::get<2>(t).get() == c);
  };
  if (sh) { go(pc::when_all(std::move(pa.second), sb, std::move(pcc.second))); VP_ASSERT(sb.valid()); VP_ASSERT(outcome(sb) == expect(how, b)); } else go(pc::when_all(std::move(pa.second), std::move(pb.second), std::move(pcc.second)));
  VP_ASSERT(!pa.second.valid() && !pcc.second.valid()); if (ready == 7) VP_REACH("already"); else VP_REACH("done");
}
// empty forms, single input, void and reference results
//@ C10 reach=done
VP_SCENARIO(all_small) {
  unsigned k = vp_pick("k", 7); std::vector<pc::future<int>> v; std::vector<pc::shared_future<int>> sv;
  if (k == 0) { auto f = pc::when_all(); VP_ASSERT(f.is_ready()); f.get(); } else if (k == 1) { auto f = pc::when_all(v.begin(), v.end()); VP_ASSERT(f.is_ready()); VP_ASSERT(f.get().empty()); } else if (k == 2) { auto f = pc::when_all(sv.begin(), sv.end()); VP_ASSERT(f.is_ready()); VP_ASSERT(f.get().empty()); } else if (k == 3) { auto f = pc::when_all(std::move(v)); VP_ASSERT(f.is_ready()); VP_ASSERT(f.get().empty()); }
  else if (k == 4) { auto f = pc::when_all(std::move(sv)); VP_ASSERT(f.is_ready()); VP_ASSERT(f.get().empty()); }
  else if (k == 5) { auto p = pc::make_promise<void>(); auto f = pc::when_all(std::move(p.second)); VP_ASSERT(!f.is_ready()); p.first.set_value(); VP_ASSERT(f.is_ready()); auto t = f.get(); VP_ASSERT(std::get<0>(t).is_ready()); }
  else { int x = 0; auto p = pc::make_promise<int&>(); auto q = pc::make_promise<Box>(); auto f = pc::when_all(std::move(p.second), std::move(q.second)); p.first.set_value(x); VP_ASSERT(!f.is_ready()); q.first.set_value(Box(4)); VP_ASSERT(f.is_ready()); auto t = f.get(); VP_ASSERT(&std::get<0>(t).get() == &x); VP_ASSERT(std::get<1>(t).get().get() == 4); }
  VP_REACH("done");
}
// range and vector forms, unique and shared
//@ C10,C16 reach=done
VP_SCENARIO(all_range_seq) {
  unsigned form = vp_pick("form", 4), n = 1 + vp_pick("n", 3), ready = vp_pick("ready", 8), rev = vp_pick("rev", 2); int val[3] = {vp_int("a"), vp_int("b"), vp_int("c")}; unsigned err1 = vp_pick("err", 4); VP_ASSUME(err1 == 3 || err1 < n); VP_ASSUME(ready < (1u << n)); int note = 0;
  std::vector<pc::promise<int>> ps; std::vector<pc::future<int>> fs; std::vector<pc::shared_future<int>> ss; ps.reserve(3); fs.reserve(3); ss.reserve(3);
  for (unsigned i = 0; i < n; i++) { auto pr = pc::make_promise<int>(); ps.push_back(std::move(pr.first)); if (form & 1) ss.push_back(pr.second.share()); else fs.push_back(std::move(pr.second)); }
  auto set = [&](unsigned i) { fill(ps[i], err1 == i ? 1 : 0, val[i]); }; for (unsigned i = 0; i < n; i++) if (ready >> i & 1) set(i);
  auto go = [&](auto f) {
    f.notify([&] { note++; }); unsigned done = ready, all = (1u << n) - 1; for (unsigned k = 0; k < n; k++) { unsigned i = rev ? n - 1 - k : k; VP_ASSERT(f.is_ready() == (done == all)); if (!(done >> i & 1)) { set(i); done |= 1u << i; } }
    VP_ASSERT(f.is_ready()); VP_ASSERT(note == 1); auto r = f.get(); VP_ASSERT(r.size() == n); for (unsigned i = 0; i < n; i++) { VP_ASSERT(r[i].is_ready()); VP_ASSERT(outcome(r[i]) == expect(err1 == i ? 1 : 0, val[i])); }
  };
  if (form == 0) { go(pc::when_all(fs.begin(), fs.end())); for (auto& f : fs) VP_ASSERT(!f.valid()); } else if (form == 1) { go(pc::when_all(ss.begin(), ss.end())); for (auto& f : ss) VP_ASSERT(f.valid()); } else if (form == 2) go(pc::when_all(std::move(fs))); else go(pc::when_all(std::move(ss)));
  VP_REACH("done");
}
// the result is dropped early: inputs are released, later fulfilment is harmless
//@ C10,C16,C07 reach=done
VP_SCENARIO(all_drop) {
  unsigned k = vp_pick("k", 3); auto p = pc::make_promise<Box>(), q = pc::make_promise<Box>(); auto f = pc::when_all(std::move(p.second), std::move(q.second));
  if (k == 0) { f = {}; p.first.set_value(Box(1)); q.first.set_value(Box(2)); } else if (k == 1) { p.first.set_value(Box(1)); f = {}; q.first.set_value(Box(2)); } else { auto g = f.next([](std::tuple<pc::future<Box>, pc::future<Box>> t) { return std::get<0>(t).get().get(); }); p.first.set_value(Box(1)); { auto x = std::move(q.first); } VP_ASSERT(g.get() == 1); }
  VP_REACH("done");
}
// the same shared state twice
//@ C10 reach=done
VP_SCENARIO(all_same) { auto p = pc::make_promise<int>(); auto s = p.second.share(); int n = 0; auto f = pc::when_all(s, s); f.notify([&] { n++; }); VP_ASSERT(!f.is_ready()); p.first.set_value(3); VP_ASSERT(f.is_ready() && n == 1); auto t = f.get(); VP_ASSERT(std::get<0>(t).get() == 3 && std::get<1>(t).get() == 3); VP_REACH("done"); }
// concurrent: two fulfilling threads and a waiting or observing main
//@ C10,C02,C04 reach=done cost=20
VP_SCENARIO(all_conc) {
  unsigned how = vp_pick("how", 3); bool vec = vp_pick2("vec"); auto p = pc::make_promise<int>(), q = pc::make_promise<int>(); std::vector<pc::future<int>> v; 
  int da = 0, db = 0;   // written by the producers, read as soon as the combined future is ready
  auto body = [&](auto f, auto&& first, auto&& second) { std::thread t([&p, &da] { da = 1; p.first.set_value(5); }), u([&q, &db, how] { db = 2; fill(q.first, how, 6); }); auto r = f.get(); VP_ASSERT(da == 1 && db == 2); VP_ASSERT(first(r).is_ready() && second(r).is_ready()); VP_ASSERT(first(r).get() == 5); VP_ASSERT(outcome(second(r)) == expect(how, 6)); t.join(); u.join(); VP_REACH("done"); };
  if (vec) { v.reserve(2); v.push_back(std::move(p.second)); v.push_back(std::move(q.second)); body(pc::when_all(std::move(v)), [](auto& r) -> auto& { return r[0]; }, [](auto& r) -> auto& { return r[1]; }); } else body(pc::when_all(std::move(p.second), std::move(q.second)), [](auto& r) -> auto& { return std::get<0>(r); }, [](auto& r) -> auto& { return std::get<1>(r); });
}
// when_all is called while the inputs are being fulfilled; an observer never sees it ready early; it runs its continuation once
//@ C10,C03 reach=rdy,not cost=20
VP_SCENARIO(all_conc_make) {
  std::atomic<int> n{0}; auto p = pc::make_promise<int>(), q = pc::make_promise<int>(); std::thread t([x = std::move(p.first)]() mutable { x.set_value(5); }); bool main_sets = vp_pick2("m"); if (!main_sets) q.first.set_value(6);
  auto f = pc::when_all(std::move(p.second), std::move(q.second)); f.notify([&] { ++n; }); if (main_sets) { VP_ASSERT(!f.is_ready()); VP_ASSERT(n == 0); q.first.set_value(6); }
  if (f.is_ready()) { auto r = f.get(); VP_ASSERT(std::get<0>(r).is_ready() && std::get<1>(r).is_ready()); VP_ASSERT(std::get<0>(r).get() == 5 && std::get<1>(r).get() == 6); VP_REACH("rdy"); } else VP_REACH("not");
  t.join(); VP_ASSERT(n == 1);
}
// the result is dropped while an input is fulfilled
//@ C10,C16 reach=done cost=10
VP_SCENARIO(all_conc_drop) {
  auto p = pc::make_promise<Box>(), q = pc::make_promise<Box>(); auto f = pc::when_all(std::move(p.second), std::move(q.second)); q.first.set_value(Box(2)); std::thread t([x = std::move(p.first)]() mutable { x.set_value(Box(1)); }); f = {}; t.join(); VP_REACH("done");
}
