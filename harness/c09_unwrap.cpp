#include "h.h"
// C09: implicit unwrapping.
struct In { pc::promise<int> p; pc::future<int> f; int how; In() { auto x = pc::make_promise<int>(); p = std::move(x.first); f = std::move(x.second); how = 0; } };
static void fill(pc::promise<int>& p, unsigned how, int v) { if (how == 0) p.set_value(v); else if (how == 1) p.set_exception(std::make_exception_ptr(Err{v & 0xff})); else { auto x = std::move(p); } }
static int expect(unsigned how, int v) { return how == 0 ? v : how == 1 ? OUT_ERR(v & 0xff) : OUT_BROKEN; }

// all producers x inner kind x order
//@ C09,C16 reach=done,invalid,throws
VP_SCENARIO(un_seq) {
  unsigned prod = vp_pick("producer", 8); bool ish = vp_pick2("inner_shared"); unsigned mode = vp_pick("mode", 4) /* inner ready before, after, invalid, throws */, how = vp_pick("how", 3); int v = vp_int("v"), runs = 0, tail = 0; Queue q;
  auto in = pc::make_promise<int>(); pc::shared_future<int> ins; if (ish) ins = in.second.share(); if (mode == 0) fill(in.first, how, v);
  auto giveU = [&]() -> pc::future<int> { runs++; if (mode == 3) throw Err{55}; if (mode == 2) return {}; return std::move(in.second); };
  auto giveS = [&]() -> pc::shared_future<int> { runs++; if (mode == 3) throw Err{55}; if (mode == 2) return {}; return std::move(ins); };
  auto src = pc::make_promise<int>(); auto vs = pc::make_promise<void>(); pc::shared_future<int> ss; pc::shared_future<void> vss; auto trig = [&] {};
  auto check = [&](auto f, auto&& go) {
    VP_ASSERT(!f.is_ready()); f.notify([&] { tail++; }); go(); VP_ASSERT(runs == 1);
    if (mode == 1) { VP_ASSERT(!f.is_ready()); VP_ASSERT(tail == 0); fill(in.first, how, v); }
    VP_ASSERT(f.is_ready()); VP_ASSERT(tail == 1); int o = outcome(f); VP_ASSERT(o == (mode == 2 ? OUT_BROKEN : mode == 3 ? OUT_ERR(55) : expect(how, v))); if (mode == 2) VP_REACH("invalid"); else if (mode == 3) VP_REACH("throws"); else VP_REACH("done");
  };
  auto go = [&] { src.first.set_value(1); }; auto gov = [&] { vs.first.set_value(); }; (void)trig;
  switch (prod) {
    case 0: if (ish) check(src.second.then([&](pc::future<int>) { return giveS(); }), go); else check(src.second.then([&](pc::future<int>) { return giveU(); }), go); break;
    case 1: if (ish) check(src.second.next([&](int) { return giveS(); }), go); else check(src.second.next([&](int) { return giveU(); }), go); break;
    case 2: ss = src.second.share(); if (ish) check(ss.then([&](pc::shared_future<int>) { return giveS(); }), go); else check(ss.then([&](pc::shared_future<int>) { return giveU(); }), go); break;
    case 3: ss = src.second.share(); if (ish) check(ss.next([&](int) { return giveS(); }), go); else check(ss.next([&](int) { return giveU(); }), go); break;
    case 4: if (ish) check(vs.second.next([&] { return giveS(); }), gov); else check(vs.second.next([&] { return giveU(); }), gov); break;
    case 5: vss = vs.second.share(); if (ish) check(vss.next([&] { return giveS(); }), gov); else check(vss.next([&] { return giveU(); }), gov); break;
    case 6: if (ish) { pc::packaged_task<pc::shared_future<int>()> t(giveS); check(t.get_future(), [&] { t(); }); } else { pc::packaged_task<pc::future<int>()> t(giveU); check(t.get_future(), [&] { t(); }); } break;
    default: if (ish) { auto f = pc::async(QExec{&q}, giveS); check(std::move(f), [&] { q.run(0); }); } else { auto f = pc::async(QExec{&q}, giveU); check(std::move(f), [&] { q.run(0); }); } break;
  }
}
// a failing parent never calls the function and forwards the error
//@ C09,C08 reach=done
VP_SCENARIO(un_parent_err) {
  unsigned k = vp_pick("k", 7); int runs = 0; pc::future<int> f;
  if (k >= 3) {   // void parents
    auto vp = pc::make_promise<void>(); auto fn = [&] { runs++; return pc::make_ready_future(1); }; pc::future<void> fv; int r = 0;
    if (k == 3) f = vp.second.next(fn); else if (k == 4) f = vp.second.share().next(fn); else if (k == 5) fv = vp.second.next([&] { runs++; return pc::make_ready_future(); }); else fv = vp.second.share().next([&] { runs++; return pc::make_ready_future().share(); }).next([&] { runs++; });
    vp.first.set_exception(std::make_exception_ptr(Err{8})); if (k < 5) VP_ASSERT(outcome(f) == OUT_ERR(8)); else { VP_ASSERT(fv.is_ready()); try { fv.get(); } catch (const Err& e) { r = e.v; } VP_ASSERT(r == 8); } VP_ASSERT(runs == 0); VP_REACH("done"); return;
  }
  auto pr = pc::make_promise<int>(); if (k == 0) f = pr.second.next([&](int) { runs++; return pc::make_ready_future(1); }); else if (k == 1) { auto s = pr.second.share(); f = s.next([&](int) { runs++; return pc::make_ready_future(1); }); } else f = pr.second.next([&](int) { runs++; return pc::make_ready_future(1); }).next([&](int) { runs++; return pc::make_ready_future(2); });
  pr.first.set_exception(std::make_exception_ptr(Err{8})); VP_ASSERT(outcome(f) == OUT_ERR(8)); VP_ASSERT(runs == 0); VP_REACH("done");
}
// nested unwrapping and continuations on the unwrapped future
//@ C09,C03 reach=done
VP_SCENARIO(un_nested) {
  bool late = vp_pick2("late"); int v = vp_int("v"), n = 0; auto in = pc::make_promise<int>(); auto src = pc::make_promise<int>(); if (!late) in.first.set_value(v);
  auto f = src.second.next([&](int) { return pc::make_ready_future(1).next([&](int) { return std::move(in.second); }); }); auto g = f.next([&](int x) { n++; return x; }).then([](pc::future<int> x) { return x; });
  src.first.set_value(0); if (late) { VP_ASSERT(!g.is_ready()); in.first.set_value(v); } VP_ASSERT(g.is_ready()); VP_ASSERT(g.get() == v); VP_ASSERT(n == 1); VP_REACH("done");
}
// other value types
//@ C09,C16 reach=done
VP_SCENARIO(un_types) {
  unsigned k = vp_pick("k", 4); bool late = vp_pick2("late"); int v = vp_int("v"); auto src = pc::make_promise<int>();
  if (k == 0) { auto in = pc::make_promise<Box>(); auto f = src.second.next([&](int) { return std::move(in.second); }); if (!late) in.first.set_value(Box(v)); src.first.set_value(1); if (late) in.first.set_value(Box(v)); VP_ASSERT(f.get().get() == v); }
  else if (k == 1) { auto in = pc::make_promise<void>(); auto f = src.second.next([&](int) { return std::move(in.second); }); if (!late) in.first.set_value(); src.first.set_value(1); if (late) { VP_ASSERT(!f.is_ready()); in.first.set_value(); } VP_ASSERT(f.is_ready()); f.get(); }
  else if (k == 2) { int x = 0; auto in = pc::make_promise<int&>(); auto f = src.second.next([&](int) { return std::move(in.second); }); if (!late) in.first.set_value(x); src.first.set_value(1); if (late) in.first.set_value(x); VP_ASSERT(&f.get() == &x); }
  else { auto in = pc::make_promise<CBox>(); auto s = in.second.share(); auto f = src.second.next([&](int) { return s; }); if (!late) in.first.set_value(CBox(v)); src.first.set_value(1); if (late) in.first.set_value(CBox(v)); VP_ASSERT(f.get().get() == v); VP_ASSERT(s.get().get() == v); }
  VP_REACH("done");
}
// dropping the outer future releases the inner one (and cancels its producer); the inner one outlives nothing
//@ C09,C07,C16 reach=done
VP_SCENARIO(un_drop) {
  unsigned when = vp_pick("when", 2); bool ish = vp_pick2("shared"); auto in = pc::make_promise<int>(); auto src = pc::make_promise<int>(); pc::future<int> f; pc::shared_future<int> fs;
  if (ish) { auto s = in.second.share(); fs = src.second.next([s = std::move(s)](int) mutable { return std::move(s); }); } else f = src.second.next([x = std::move(in.second)](int) mutable { return std::move(x); });
  VP_ASSERT(in.first.is_awaiten()); if (when == 0) { f = {}; fs = {}; VP_ASSERT(!in.first.is_awaiten()); VP_ASSERT(!src.first.is_awaiten()); src.first.set_value(1); } else { src.first.set_value(1); VP_ASSERT(in.first.is_awaiten()); f = {}; fs = {}; VP_ASSERT(!in.first.is_awaiten()); }
  in.first.set_value(3); VP_REACH("done");
}
// inner and outer fulfilled by different threads, a third waits
//@ C09,C02,C04 reach=done cost=30
VP_SCENARIO(un_conc) {
  unsigned how = vp_pick("how", 3); auto in = pc::make_promise<int>(); auto src = pc::make_promise<int>(); auto f = src.second.next([x = std::move(in.second)](int) mutable { return std::move(x); });
  std::thread t([p = std::move(in.first), how]() mutable { fill(p, how, 3); }), u([p = std::move(src.first)]() mutable { p.set_value(1); });
  int o = outcome(f); VP_ASSERT(o == expect(how, 3)); VP_REACH("done"); t.join(); u.join();
}
// inner and outer raced, with a continuation attached by the main thread meanwhile
//@ C09,C03 reach=done cost=30
VP_SCENARIO(un_conc_cont) {
  bool ish = vp_pick2("shared"); std::atomic<int> n{0}; auto in = pc::make_promise<int>(); pc::packaged_task<pc::future<int>()> t; pc::packaged_task<pc::shared_future<int>()> ts;
  auto body = [&](auto f, auto& tk) { std::thread a([p = std::move(in.first)]() mutable { p.set_value(3); }), b([&] { tk(); }); auto g = f.next([&](int v) { ++n; return v; }); VP_ASSERT(g.get() == 3); VP_ASSERT(n == 1); a.join(); b.join(); VP_REACH("done"); };
  if (ish) { ts = pc::packaged_task<pc::shared_future<int>()>([s = in.second.share()] { return s; }); body(ts.get_future(), ts); } else { t = pc::packaged_task<pc::future<int>()>([f = std::move(in.second)]() mutable { return std::move(f); }); body(t.get_future(), t); }
}
// the outer is dropped while the inner is fulfilled
//@ C09,C07,C16 reach=done cost=10
VP_SCENARIO(un_drop_conc) {
  auto in = pc::make_promise<Box>(); auto src = pc::make_promise<int>(); auto f = src.second.next([x = std::move(in.second)](int) mutable { return std::move(x); }); src.first.set_value(1);
  std::thread t([p = std::move(in.first)]() mutable { p.set_value(Box(4)); }); f = {}; t.join(); VP_REACH("done");
}
