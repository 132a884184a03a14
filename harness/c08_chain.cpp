#include "h.h"
// C08, C09, C07, C10, C11: any chain of continuations, unwrappings and compositions, fulfilled at any point, is equivalent to
// calling the functions one after another; a chain nobody awaits is not run beyond its last detached link.
struct Dead { int* d; explicit Dead(int* x) : d(x) {} Dead(Dead&& o) noexcept : d(o.d) { o.d = nullptr; } ~Dead() { if (d) ++*d; } };
namespace {
constexpr int N = 4;
struct Chain {
  Queue q; pc::future<int> cur; pc::promise<int> inner[N]; bool inn[N] = {}; int ran[N] = {}, dead[N] = {}, fns = 0;
  void stage(int i, unsigned k, int d) {
    int* r = &ran[i]; int* dd = &dead[i];
    switch (k) {
    case 0: cur = cur.then([r, d, x = Dead(dd)](pc::future<int> f) { ++*r; return (int)(f.get() + (unsigned)d); }); break;
    case 1: cur = cur.next(QExec{&q}, [r, d, x = Dead(dd)](int v) { ++*r; return (int)((unsigned)v + d); }); break;
    case 2: cur = cur.next([r, d, x = Dead(dd)](int v) { ++*r; return pc::make_ready_future((int)((unsigned)v + d)); }); break;
    case 3: cur = cur.then(QExec{&q}, [this, i, r, d, x = Dead(dd)](pc::future<int> f) { ++*r; int v = f.get(); auto p = pc::make_promise<int>(); inner[i] = std::move(p.first); inn[i] = true; auto t = p.second.next([v, d](int w) { return (int)((unsigned)v + d + w); }).share(); return t; }).next([](const int& v) { return v; }); break;
    case 4: cur = cur.share().next([r, d, x = Dead(dd)](const int& v) { ++*r; return (int)((unsigned)v + d); }); break;
    case 5: cur = cur.then([r, d, x = Dead(dd)](pc::promise<int> p, pc::future<int> f) { ++*r; try { p.set_value((int)(f.get() + (unsigned)d)); } catch (...) { p.set_exception(std::current_exception()); } }); break;
    case 6: cur = cur.next([r, d, x = Dead(dd)](int) -> int { ++*r; throw Err{d}; }); break;
    case 7: cur = cur.then([r, d, x = Dead(dd)](pc::future<int> f) { ++*r; int o = outcome(f); return o >= 1000000 ? d : o; }); break;   // recovers
    case 8: cur = pc::when_all(std::move(cur)).next([r, d, x = Dead(dd)](std::tuple<pc::future<int>> t) { ++*r; return (int)(std::get<0>(t).get() + (unsigned)d); }); break;
    case 9: cur = pc::when_any(std::move(cur)).next([r, d, x = Dead(dd)](pc::when_any_result<std::tuple<pc::future<int>>> t) { ++*r; VP_ASSERT(t.index == 0); return (int)(std::get<0>(t.futures).get() + (unsigned)d); }); break;
    default: cur = cur.detach(); break;
    }
  }
  // the reference: value or 1000000 + error in o
  int model(int i, unsigned k, int d, int o, bool& ran) {
    bool bad = o >= 1000000; ran = true;
    switch (k) {
    case 0: case 3: case 5: case 8: case 9: return bad ? o : o + d;
    case 1: case 2: case 4: if (bad) ran = false; return bad ? o : o + d;
    case 6: if (bad) { ran = false; return o; } return OUT_ERR(d);
    case 7: return bad ? d : o;
    default: ran = false; return o;
    }
  }
  void drain() { for (bool go = true; go;) { go = false; for (int i = 0; i < q.n; i++) if (q.t[i]) { Task* t = q.t[i]; q.t[i] = nullptr; t->run(); delete t; go = true; } for (int i = 0; i < N; i++) if (inn[i]) { inn[i] = false; inner[i].set_value(0); go = true; } } }
};
}
template <int n> static void chainModel() {
  unsigned when = vp_pick("when", 3), k[N]; bool fail = vp_pick2("fail"); int v = vp_int("v"); VP_ASSUME(v >= 0 && v < 1000); Chain c; auto pr = pc::make_promise<int>(); c.cur = std::move(pr.second);
  auto set = [&] { if (fail) pr.first.set_exception(std::make_exception_ptr(Err{500})); else pr.first.set_value(v); };
  if (when == 0) set();
  for (int i = 0; i < n; i++) { k[i] = vp_pick("kind", 11); c.stage(i, k[i], 10 + i); VP_ASSERT(c.cur.valid()); if (when == 1 && i == n - 2) { set(); c.drain(); } }
  if (when == 2) { for (int i = 0; i < n; i++) VP_ASSERT(c.ran[i] == 0); VP_ASSERT(!c.cur.is_ready()); set(); }
  c.drain(); VP_ASSERT(c.cur.is_ready()); int o = fail ? OUT_ERR(500) : v;
  for (int i = 0; i < n; i++) { bool r; o = c.model(i, k[i], 10 + i, o, r); VP_ASSERT(c.ran[i] == r); VP_ASSERT(c.dead[i] == (k[i] < 10)); }
  VP_ASSERT(outcome(c.cur) == o); if (o >= 1000000) VP_REACH("error"); else VP_REACH("value");
}
//@ C08,C09,C03,C10,C11 reach=value,error cost=10
VP_SCENARIO(chain_model) { chainModel<2>(); }
//@ C08,C09,C03,C10,C11 reach=value,error cost=100 tier=thorough
VP_SCENARIO(chain_model3) { chainModel<3>(); }
// the end of the chain is dropped before the source is fulfilled: only what precedes a detached link runs (inputs of when_all and
// when_any are not cancelled with its result, so these are left out)
template <int n> static void chainDrop() {
  unsigned k[N]; int last = -1; Chain c; auto pr = pc::make_promise<int>(); c.cur = std::move(pr.second);
  for (int i = 0; i < n; i++) { k[i] = vp_pick("kind", 9); if (k[i] == 8) { k[i] = 10; last = i; } c.stage(i, k[i], 10 + i); }
  VP_ASSERT(pr.first.is_awaiten()); c.cur = {}; VP_ASSERT(pr.first.is_awaiten() == (last >= 0));
  for (int i = 0; i < n; i++) if (k[i] < 10) VP_ASSERT(c.dead[i] == (i > last));
  pr.first.set_value(1); c.drain(); int o = 1;
  for (int i = 0; i < n; i++) { bool r; o = c.model(i, k[i], 10 + i, o, r); VP_ASSERT(c.ran[i] == (r && i < last)); if (k[i] < 10) VP_ASSERT(c.dead[i] == 1); }
  VP_REACH(last < 0 ? "cut" : "det");
}
//@ C07,C16 reach=cut,det cost=10
VP_SCENARIO(chain_drop) { chainDrop<3>(); }
//@ C07,C16 reach=cut,det cost=100 tier=thorough
VP_SCENARIO(chain_drop4) { chainDrop<4>(); }
