#include "h.h"
#include <array>
// Larger sizes than the interleaved scenarios can afford: many continuations, inputs, tasks, links and large latch counts.
template <class P> void fill(P& p, bool e, int v) { if (e) p.set_exception(std::make_exception_ptr(Err{v})); else p.set_value(v); }
//@ C03,C22,C16,C18 reach=done
VP_SCENARIO(big_cont) {
  constexpr unsigned N = 11; unsigned before = vp_pick("before", N + 1), rot = vp_pick("kinds", 5); bool thr = vp_pick2("one_throws"); int v = vp_int("v"), n[N] = {}, seen[N] = {}; bool caught = false; auto p = pc::make_promise<int>(); auto s = p.second.share(); std::vector<pc::future<int>> gs; gs.reserve(N);
  auto at = [&](unsigned i) { auto c = s; switch ((i + rot) % 5) { case 0: c.notify([&n, i] { n[i]++; }); break; case 1: gs.push_back(c.then([&n, &seen, i](pc::shared_future<int> x) { n[i]++; seen[i] = x.get(); return (int)i; })); break; case 2: gs.push_back(c.next([&n, &seen, i](const int& x) { n[i]++; seen[i] = x; return (int)i; })); break; case 3: c.notify([&n, i, b = CBox(3)] { n[i] += b.get() == 3; }); break; default: s.notify([&n, i] { n[i]++; }); } };
  for (unsigned i = 0; i < before; i++) { if (thr && i == before / 2) s.notify([] { throw Err{1}; }); at(i); } for (int x : n) VP_ASSERT(x == 0);
  try { p.first.set_value(v); } catch (const Err&) { caught = true; } VP_ASSERT(caught == (thr && before > 0)); for (unsigned i = 0; i < N; i++) VP_ASSERT(n[i] == (i < before)); for (unsigned i = before; i < N; i++) at(i);
  for (unsigned i = 0; i < N; i++) { VP_ASSERT(n[i] == 1); if ((i + rot) % 5 == 1 || (i + rot) % 5 == 2) VP_ASSERT(seen[i] == v); } for (auto& g : gs) VP_ASSERT(g.is_ready()); VP_ASSERT(s.get() == v); VP_REACH("done");
}
//@ C10,C16 reach=done cost=3
VP_SCENARIO(big_all) {
  unsigned n = 4 + vp_pick("n", 4), start = vp_pick("start", 7), ready = vp_pick("ready", 8), bad = vp_pick("err", 8); bool sh = vp_pick2("shared"); VP_ASSUME(start < n && ready <= n && bad <= n); int note = 0, v = vp_int("v"); std::vector<pc::promise<int>> ps; std::vector<pc::future<int>> fs; std::vector<pc::shared_future<int>> ss; ps.reserve(7); fs.reserve(7); ss.reserve(7);
  for (unsigned i = 0; i < n; i++) { auto pr = pc::make_promise<int>(); ps.push_back(std::move(pr.first)); if (sh) ss.push_back(pr.second.share()); else fs.push_back(std::move(pr.second)); } for (unsigned i = 0; i < ready; i++) fill(ps[i], i == bad, v ^ (int)i);
  auto go = [&](auto f) { f.notify([&] { note++; }); unsigned left = n - ready; for (unsigned k = 0; k < n; k++) { unsigned i = (start + k) % n; if (i < ready) continue; VP_ASSERT(!f.is_ready() && note == 0); fill(ps[i], i == bad, v ^ (int)i); left--; VP_ASSERT(f.is_ready() == (left == 0)); } VP_ASSERT(f.is_ready() && note == 1); auto r = f.get(); VP_ASSERT(r.size() == n); for (unsigned i = 0; i < n; i++) { VP_ASSERT(r[i].is_ready()); VP_ASSERT(outcome(r[i]) == (i == bad ? OUT_ERR(v ^ (int)i) : (v ^ (int)i))); } };
  if (sh) go(pc::when_all(ss.begin(), ss.end())); else go(pc::when_all(fs.begin(), fs.end())); VP_REACH("done");
}
//@ C11,C16 reach=done cost=3
VP_SCENARIO(big_any) {
  unsigned n = 4 + vp_pick("n", 4), win = vp_pick("first", 7), when = vp_pick("when", 3); bool sh = vp_pick2("shared"), e = vp_pick2("err"); VP_ASSUME(win < n); int note = 0, v = vp_int("v"); std::vector<pc::promise<int>> ps; std::vector<pc::future<int>> fs; std::vector<pc::shared_future<int>> ss; ps.reserve(7); fs.reserve(7); ss.reserve(7);
  for (unsigned i = 0; i < n; i++) { auto pr = pc::make_promise<int>(); ps.push_back(std::move(pr.first)); if (sh) ss.push_back(pr.second.share()); else fs.push_back(std::move(pr.second)); } if (when == 0) fill(ps[win], e, v);
  auto go = [&](auto f) { f.notify([&] { note++; }); VP_ASSERT(f.is_ready() == (when == 0)); if (when) fill(ps[win], e, v); VP_ASSERT(f.is_ready() && note == 1); if (when == 2) for (unsigned k = 1; k < n; k++) { unsigned i = (win + k) % n; fill(ps[i], false, (int)i); VP_ASSERT(note == 1); } auto r = f.get(); VP_ASSERT(r.index == win); VP_ASSERT(r.futures.size() == n); for (unsigned i = 0; i < n; i++) if (i == win) VP_ASSERT(outcome(r.futures[i]) == (e ? OUT_ERR(v) : v)); else { VP_ASSERT(r.futures[i].valid()); VP_ASSERT(r.futures[i].is_ready() == (when == 2)); if (when != 2) fill(ps[i], false, (int)i); VP_ASSERT(outcome(r.futures[i]) == (int)i); } VP_ASSERT(note == 1); };
  if (sh) go(pc::when_any(ss.begin(), ss.end())); else go(pc::when_any(fs.begin(), fs.end())); VP_REACH("done");
}
// five inputs of different types
//@ C10,C11 reach=done cost=2
VP_SCENARIO(big_tuple) {
  unsigned start = vp_pick("start", 5), ready = vp_pick("ready", 6); bool any = vp_pick2("any"); int v = vp_int("v"), x = 0, note = 0; auto a = pc::make_promise<int>(); auto b = pc::make_promise<Box>(); auto c = pc::make_promise<void>(); auto d = pc::make_promise<int&>(); auto e = pc::make_promise<CBox>(); auto es = e.second.share();
  auto set = [&](unsigned i) { if (i == 0) a.first.set_value(v); else if (i == 1) b.first.set_value(Box(v)); else if (i == 2) c.first.set_value(); else if (i == 3) d.first.set_value(x); else e.first.set_value(CBox(v)); };
  auto chk = [&](auto& t) { VP_ASSERT(std::get<0>(t).get() == v); VP_ASSERT(std::get<1>(t).get().get() == v); VP_ASSERT(err([&] { std::get<2>(t).get(); }) == NONE); VP_ASSERT(&std::get<3>(t).get() == &x); VP_ASSERT(std::get<4>(t).get().get() == v); };
  for (unsigned i = 0; i < ready; i++) set(i); unsigned win = 99;
  if (any) { auto f = pc::when_any(std::move(a.second), std::move(b.second), std::move(c.second), std::move(d.second), es); f.notify([&] { note++; }); VP_ASSERT(f.is_ready() == (ready > 0)); if (!ready) { set(start); win = start; } VP_ASSERT(f.is_ready() && note == 1); for (unsigned i = ready; i < 5; i++) if (i != win) set(i); auto r = f.get(); VP_ASSERT(ready ? r.index < ready : r.index == win); chk(r.futures); }
  else { auto f = pc::when_all(std::move(a.second), std::move(b.second), std::move(c.second), std::move(d.second), es); f.notify([&] { note++; }); for (unsigned k = 0; k < 5; k++) { unsigned i = (start + k) % 5; if (i >= ready) { VP_ASSERT(!f.is_ready()); set(i); } } VP_ASSERT(f.is_ready() && note == 1); auto r = f.get(); chk(r); }
  VP_REACH("done");
}
// any initial count and any split of it
//@ C14 reach=zero,left
VP_SCENARIO(big_latch) {
  ptrdiff_t n = (ptrdiff_t)__vp_nondet("n", 64), k = (ptrdiff_t)__vp_nondet("k", 64), m = (ptrdiff_t)__vp_nondet("m", 64); VP_ASSUME(n > 0 && k >= 0 && k <= n && m >= 0 && m <= n - k); pc::latch l(n); VP_ASSERT(!l.is_ready()); l.count_down(k); VP_ASSERT(l.is_ready() == (k == n)); if (k == n) { l.wait(); VP_REACH("zero"); return; } l.count_down(m); VP_ASSERT(l.is_ready() == (k + m == n)); if (k + m < n) { VP_REACH("left"); l.count_down(n - k - m); } VP_ASSERT(l.is_ready()); l.wait();
}
// a chain of ten links, one of which fails, one of which recovers; or the end is dropped
//@ C08,C07,C16 reach=done,dropped
VP_SCENARIO(big_chain) {
  constexpr unsigned N = 10; unsigned bad = vp_pick("bad", N + 1), rec = vp_pick("recover", N + 1); bool drop = vp_pick2("drop"), root = vp_pick2("root_fails"); int v = vp_int("v"), ran[N] = {}; CBox live(1); auto p = pc::make_promise<int>(); pc::future<int> f = std::move(p.second);
  for (unsigned i = 0; i < N; i++) if (i == rec) f = f.then([&ran, i, live](pc::future<int> x) { ran[i]++; int o = outcome(x); return o; }); else f = f.next([&ran, i, bad, live](int x) { ran[i]++; if (i == bad) throw Err{(int)i}; return x; });
  if (drop) { f = {}; VP_ASSERT(!p.first.is_awaiten()); p.first.set_value(1); for (int x : ran) VP_ASSERT(x == 0); VP_REACH("dropped"); return; }
  if (root) p.first.set_exception(std::make_exception_ptr(Err{50})); else p.first.set_value(v); int want = root ? OUT_ERR(50) : v; bool failed = root;
  for (unsigned i = 0; i < N; i++) { if (i == rec) { VP_ASSERT(ran[i] == 1); failed = false; } else { VP_ASSERT(ran[i] == !failed); if (!failed && i == bad) { failed = true; want = OUT_ERR((int)i); } } }
  VP_ASSERT(f.is_ready()); int o = outcome(f); VP_ASSERT(o == want); VP_REACH("done");
}
// unwrapping through several levels, the innermost fulfilled last or first
//@ C09,C16 reach=done
VP_SCENARIO(big_unwrap) {
  constexpr unsigned N = 5; unsigned pos = vp_pick("inner_at", N + 1), how = vp_pick("how", 3), sh = vp_pick("shared_at", N + 1); int v = vp_int("v"); auto in = pc::make_promise<int>(); pc::promise<int> go[N]; pc::future<int> cur = std::move(in.second);
  for (unsigned i = 0; i < N; i++) { auto pr = pc::make_promise<int>(); go[i] = std::move(pr.first); if (i == sh) { auto s = pr.second.next([s = cur.share()](int) { return s; }); cur = s.next([](const int& x) { return x; }); } else cur = pr.second.next([c = std::move(cur)](int) mutable { return std::move(c); }); }
  auto fin = [&] { if (how == 0) in.first.set_value(v); else if (how == 1) in.first.set_exception(std::make_exception_ptr(Err{v})); else { pc::promise<int> d(std::move(in.first)); } };
  for (unsigned i = 0; i < N; i++) { if (i == pos) fin(); VP_ASSERT(!cur.is_ready()); go[i].set_value(0); } if (pos == N) { VP_ASSERT(!cur.is_ready()); fin(); } VP_ASSERT(cur.is_ready()); int o = outcome(cur); VP_ASSERT(o == (how == 0 ? v : how == 1 ? OUT_ERR(v) : OUT_BROKEN)); VP_REACH("done");
}
// a longer queue: FIFO and exactly once, through one worker that joins late
//@ C12,C16 reach=done cost=5
VP_SCENARIO(big_pool) {
  constexpr int N = 8; int order[N + 1] = {}, n = 0, alive = 0; struct L { int* a; L(int* a) : a(a) { ++*a; } L(L&& o) noexcept : a(o.a) { o.a = nullptr; } ~L() { if (a) --*a; } };
  { pc::static_thread_pool pool(0); for (int i = 0; i < N; i++) post(pool.executor(), [&order, &n, i, l = L(&alive)] { order[n++] = i; }); VP_ASSERT(n == 0 && alive == N); std::thread w([&] { pool.attach(); }); w.detach(); struct J { pc::static_thread_pool& p; ~J() { p.wait(); } }; { pc::latch done(1); post(pool.executor(), [&] { done.count_down(); }); done.wait(); } VP_ASSERT(n == N && alive == 0); J{pool}; }
  for (int i = 0; i < N; i++) VP_ASSERT(order[i] == i); VP_REACH("done");
}
// more inputs than fit in a byte
template <class X> static void wide(X&& x) { constexpr unsigned N = 259; unsigned w = vp_pick("which", 4), last = w == 0 ? 0 : w == 1 ? 2 : w == 2 ? 255 : N - 1; std::vector<pc::promise<unsigned>> ps; std::vector<pc::future<unsigned>> fs; ps.reserve(N); fs.reserve(N); for (unsigned i = 0; i < N; i++) { auto pr = pc::make_promise<unsigned>(); ps.push_back(std::move(pr.first)); fs.push_back(std::move(pr.second)); } x(N, last, ps, fs); VP_REACH("done"); }
//@ C10 reach=done cost=3
VP_SCENARIO(wide_all) {
  wide([](unsigned N, unsigned last, auto& ps, auto& fs) { auto f = pc::when_all(fs.begin(), fs.end()); for (unsigned i = 0; i < N; i++) if (i != last) { ps[i].set_value(i); VP_ASSERT(!f.is_ready()); } ps[last].set_value(last); VP_ASSERT(f.is_ready()); auto r = f.get(); VP_ASSERT(r.size() == N); for (unsigned i = 0; i < N; i++) VP_ASSERT(r[i].is_ready() && r[i].get() == i); });
}
//@ C11 reach=done cost=3
VP_SCENARIO(wide_any) {
  wide([](unsigned N, unsigned last, auto& ps, auto& fs) { auto f = pc::when_any(fs.begin(), fs.end()); VP_ASSERT(!f.is_ready()); ps[last].set_value(last); VP_ASSERT(f.is_ready()); for (unsigned i = 0; i < N; i += 7) if (i != last) ps[i].set_value(i); auto r = f.get(); VP_ASSERT(r.index == last); VP_ASSERT(r.futures.size() == N); for (unsigned i = 0; i < N; i++) VP_ASSERT(r.futures[i].is_ready() == (i == last || i % 7 == 0)); VP_ASSERT(r.futures[last].get() == last); });
}
//@ C03,C16 reach=done cost=3
VP_SCENARIO(wide_cont) {
  constexpr unsigned N = 259; unsigned n = 0, late = 0; bool drop = vp_pick2("drop"); { auto p = pc::make_promise<int>(); for (unsigned i = 0; i < N; i++) p.second.notify([&n, b = CBox(1)] { n += b.get(); }); if (drop) p.second = {}; p.first.set_value(1); VP_ASSERT(n == (drop ? 0 : N)); if (!drop) { p.second.notify([&] { late++; }); VP_ASSERT(late == 1); } VP_ASSERT(n == (drop ? 0 : N)); } VP_REACH("done");
}
//@ C12,C16 reach=done cost=3
VP_SCENARIO(wide_pool) {
  constexpr unsigned N = 259; unsigned n = 0, alive = 0; bool run = vp_pick2("run"); struct L { unsigned* a; L(unsigned* a) : a(a) { ++*a; } L(L&& o) noexcept : a(o.a) { o.a = nullptr; } ~L() { if (a) --*a; } }; std::vector<pc::future<unsigned>> fs; fs.reserve(N);
  { pc::static_thread_pool pool(0); for (unsigned i = 0; i < N; i++) fs.push_back(pc::async(pool.executor(), [&n, i, l = L(&alive)] { VP_ASSERT(n == i); n++; return i; })); VP_ASSERT(alive == N && n == 0); if (run) { pool.wait(); pool.attach(); VP_ASSERT(n == N && alive == 0); } else pool.stop(); } VP_ASSERT(alive == 0); for (unsigned i = 0; i < N; i++) { VP_ASSERT(fs[i].is_ready()); VP_ASSERT(err([&] { VP_ASSERT(fs[i].get() == i); }) == (run ? (int)NONE : (int)BROKEN)); } VP_ASSERT(n == (run ? N : 0)); VP_REACH("done");
}
