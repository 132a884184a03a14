#include "h.h"
// C03: attached functions run exactly once, never early, never lost.

// kinds of attachment: 0 notify, 1 then, 2 next, 3 notify via executor, 4 then via executor
//@ C03,C16 reach=notify,then,next,xnotify,xthen cost=10
VP_SCENARIO(cont_vs_set) {
  unsigned k = vp_pick("attach", 5), out = vp_pick("store", 3); auto pr = pc::make_promise<int>(); auto f = std::move(pr.second); Queue q; int n = 0; bool set = false;
  std::thread t([&, p = std::move(pr.first)]() mutable { set = true; if (out == 0) p.set_value(5); else if (out == 1) p.set_exception(std::make_exception_ptr(Err{6})); else { auto x = std::move(p); } });
  int want = out == 0 ? 5 : out == 1 ? OUT_ERR(6) : OUT_BROKEN; pc::future<int> g;
  if (k == 0) { f.notify([&] { VP_ASSERT(set && f.is_ready()); n++; }); VP_REACH("notify"); }
  else if (k == 1) { g = f.then([&](pc::future<int> x) { VP_ASSERT(set && x.is_ready()); n++; VP_ASSERT(outcome(x) == want); return 1; }); VP_REACH("then"); }
  else if (k == 2) { g = f.next([&](int x) { VP_ASSERT(set && x == 5 && out == 0); n++; return 1; }); VP_REACH("next"); }
  else if (k == 3) { f.notify(QExec{&q}, [&] { VP_ASSERT(set && f.is_ready()); n++; }); VP_REACH("xnotify"); }
  else { g = f.then(QExec{&q}, [&](pc::future<int> x) { VP_ASSERT(set && x.is_ready()); n++; VP_ASSERT(outcome(x) == want); return 1; }); VP_REACH("xthen"); }
  t.join();
  if (k >= 3) { VP_ASSERT(q.n == 1 && n == 0); q.run_all(); }
  VP_ASSERT(n == (k == 2 && out != 0 ? 0 : 1));
  if (k == 0 || k == 3) { VP_ASSERT(outcome(f) == want); VP_ASSERT(n == 1); }
  else { VP_ASSERT(!f.valid() && g.is_ready()); VP_ASSERT(outcome(g) == (k == 2 ? (out == 0 ? 1 : want) : 1)); }
}
// several functions on one future, attached before, during and after fulfilment
//@ C03,C16 reach=done cost=10
VP_SCENARIO(cont_many) {
  auto pr = pc::make_promise<int>(); auto f = std::move(pr.second); int a = 0, b = 0, c = 0; bool pre = vp_pick2("pre");
  if (pre) f.notify([&] { a++; });
  std::thread t([p = std::move(pr.first)]() mutable { p.set_value(5); });
  f.notify([&] { b++; }); f.notify([&] { c++; });
  t.join(); VP_ASSERT(a == pre && b == 1 && c == 1); int d = 0; f.notify([&] { d++; }); VP_ASSERT(d == 1); VP_ASSERT(f.get() == 5); VP_ASSERT(a == pre && b == 1 && c == 1 && d == 1); VP_REACH("done");
}
// two threads attach to copies of one shared_future while a third fulfils it
//@ C03,C22 reach=done cost=40 opts='--sims 150'
VP_SCENARIO(cont_two_attachers) {
  auto pr = pc::make_promise<int>(); pc::shared_future<int> f = pr.second.share(); int a = 0, b = 0;
  std::thread t([&a, f]() mutable { f.notify([&a, f] { VP_ASSERT(f.is_ready()); a++; }); });
  std::thread u([p = std::move(pr.first)]() mutable { p.set_value(5); });
  f.notify([&b] { b++; });
  t.join(); u.join(); VP_ASSERT(a == 1 && b == 1); VP_REACH("done");
}
// two attachers racing, the future is fulfilled afterwards
//@ C03,C22 reach=done cost=10
VP_SCENARIO(cont_push_race) {
  auto pr = pc::make_promise<int>(); pc::shared_future<int> f = pr.second.share(); int a = 0, b = 0, c = 0;
  f.notify([&c] { c++; });
  std::thread t([&a, f]() mutable { f.notify([&a] { a++; }); });
  f.notify([&b] { b++; });
  t.join(); VP_ASSERT(a == 0 && b == 0 && c == 0); pr.first.set_value(5); VP_ASSERT(a == 1 && b == 1 && c == 1); VP_REACH("done");
}
// every sequential order of attaching and fulfilling
//@ C03,C01 reach=done cost=4
VP_SCENARIO(cont_sequences) {
  auto pr = pc::make_promise<int>(); pc::shared_future<int> f = pr.second.share(); int n[5] = {}; bool att[5] = {}; bool set = false; int v = 7; std::vector<pc::future<int>> keep;
  for (int i = 0; i < 5; i++) {
    unsigned op = vp_pick("op", 4);
    if (op == 0) { if (!set) { pr.first.set_value(v); set = true; } }
    else {
      att[i] = true;
      if (op == 1) f.notify([&n, i] { n[i]++; }); else if (op == 2) keep.push_back(f.then([&n, i](pc::shared_future<int> x) { n[i]++; VP_ASSERT(x.get() == 7); return i; })); else keep.push_back(f.next([&n, i](const int& x) { n[i]++; VP_ASSERT(x == 7); return i; }));
    }
    for (int j = 0; j <= i; j++) VP_ASSERT(n[j] == (att[j] && set));
  }
  if (!set) { pr.first.set_value(v); } for (int j = 0; j < 5; j++) VP_ASSERT(n[j] == att[j]);
  for (auto& g : keep) VP_ASSERT(g.is_ready()); VP_REACH("done");
}
// a continuation that attaches further work, reads the future or drops it while the stack is being run
//@ C03,C16 reach=done cost=6
VP_SCENARIO(cont_reentrant) {
  auto pr = pc::make_promise<int>(); pc::shared_future<int> f = pr.second.share(); int n = 0, m = 0, o = 0; unsigned k = vp_pick("k", 3);
  f.notify([&] { o++; });
  f.notify([&] { n++; VP_ASSERT(f.is_ready() && f.get() == 3); if (k == 0) f.notify([&] { m++; }); else if (k == 1) { auto g = f.next([&](const int&) { m++; return 0; }); VP_ASSERT(g.is_ready()); } else { auto s = f; m += s.get() == 3; } });
  f.notify([&] { o++; });
  pr.first.set_value(3); VP_ASSERT(n == 1 && m == 1 && o == 2); VP_REACH("done");
}
// chain of continuations crossing threads
//@ C03,C08 reach=done cost=8
VP_SCENARIO(cont_chain_race) {
  auto pr = pc::make_promise<int>(); auto f = std::move(pr.second); int n1 = 0, n2 = 0;
  std::thread t([p = std::move(pr.first)]() mutable { p.set_value(5); });
  pc::future<int> g = f.next([&](int x) { n1++; return x + 1; }); pc::future<int> h = g.then([&](pc::future<int> x) { n2++; return x.get() + 1; });
  t.join(); VP_ASSERT(n1 == 1 && n2 == 1 && h.is_ready()); VP_ASSERT(h.get() == 7); VP_REACH("done");
}
