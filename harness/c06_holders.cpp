#include "h.h"
// C06, C07: whoever holds the result - the future, any number of shared copies, a detached chain, a continuation - decides
// between running, breaking and cancelling; compared with a model after every history.
struct Dead { int* d; explicit Dead(int* x) : d(x) {} Dead(Dead&& o) noexcept : d(o.d) { o.d = nullptr; } ~Dead() { if (d) ++*d; } };
struct Holders {
  pc::future<int> u, g; pc::shared_future<int> s[2]; bool detached = false; int notes = 0, expnotes = 0, tail = 0; bool then = false;
  bool alive() const { return u.valid() || s[0].valid() || s[1].valid() || detached || g.valid(); }
  bool op(unsigned o) {   // false: not applicable here
    if (o == 0) { if (!u.valid()) return false; s[0] = u.share(); VP_ASSERT(!u.valid()); }
    else if (o == 1) { if (!s[0].valid() || s[1].valid()) return false; s[1] = s[0]; }
    else if (o == 2) { if (u.valid()) u = {}; else if (s[0].valid()) s[0] = {}; else return false; }
    else if (o == 3) { if (!s[1].valid()) return false; s[1] = {}; }
    else if (o == 4) { if (u.valid()) u = u.detach(); else if (s[0].valid()) s[0] = s[0].detach(); else return false; detached = true; }
    else if (o == 5) { if (u.valid()) u.notify([this] { notes++; }); else if (s[0].valid()) s[0].notify([this] { notes++; }); else return false; expnotes++; }
    else { if (then) return false; if (u.valid()) g = u.then([this](pc::future<int> x) { tail++; return outcome(x); }); else if (s[1].valid()) g = s[1].then([this](pc::shared_future<int> x) { tail++; return outcome(x); }); else return false; then = true; }
    return true;
  }
  void check(int out) {   // the result is there
    bool a = alive(); (void)a;
    if (u.valid()) { VP_ASSERT(u.is_ready()); VP_ASSERT(outcome(u) == out); }
    for (auto& x : s) if (x.valid()) { VP_ASSERT(x.is_ready()); VP_ASSERT(outcome(x) == out); VP_ASSERT(outcome(x) == out); }
    if (then) { VP_ASSERT(tail == 1); VP_ASSERT(g.is_ready()); VP_ASSERT(outcome(g) == out); }
    VP_ASSERT(notes == expnotes);
  }
  void clear() { u = {}; g = {}; s[0] = {}; s[1] = {}; }
};
//@ C06,C07,C16 reach=ran,broken,cancelled,undone cost=20
VP_SCENARIO(hold_history) {
  unsigned prod = vp_pick("prod", 8), end = vp_pick("end", 4); Queue q; int ran = 0, dead = 0, can = 0; Holders h;
  { pc::promise<int> p; pc::packaged_task<int()> t; auto parent = pc::make_promise<int>(); auto fn = [&] { return [&ran, d = Dead(&dead)](auto&&...) { ran++; return 7; }; };
    bool isp = prod == 0 || prod == 1 || prod == 6 || prod == 7;
    if (prod == 0) { auto x = pc::make_promise<int>(); p = std::move(x.first); h.u = std::move(x.second); }
    else if (prod == 1) h.u = p.get_future();
    else if (prod == 2) { t = pc::packaged_task<int()>([&ran, d = Dead(&dead)] { ran++; return 7; }); h.u = t.get_future(); }
    else if (prod == 3) h.u = pc::async(QExec{&q}, fn());
    else if (prod == 4) h.u = std::move(parent.second).then(QExec{&q}, [&ran, d = Dead(&dead)](pc::future<int>) { ran++; return 7; });
    else if (prod == 5) h.u = std::move(parent.second).next(QExec{&q}, [&ran, d = Dead(&dead)](int) { ran++; return 7; });
    else if (prod == 6) { auto x = pc::make_promise<int>(pc::canceler_arg, [&can] { can++; }); p = std::move(x.first); h.u = std::move(x.second); }
    else { h.u = std::move(parent.second).then([&p](pc::promise<int> x, pc::future<int>) { p = std::move(x); }); parent.first.set_value(1); VP_ASSERT(p.is_awaiten()); }
    for (int i = 0; i < 3; i++) { unsigned o = vp_pick("op", 7); VP_ASSUME(h.op(o)); if (isp) VP_ASSERT(p.is_awaiten() == h.alive()); }
    bool a = h.alive(); if (!a && !isp) { VP_ASSERT(dead == 1); } VP_ASSERT(can == (prod == 6 && !a));
    if (prod == 4 || prod == 5) { parent.first.set_value(1); VP_ASSERT(q.n == (a ? 1 : 0)); }
    VP_ASSERT(ran == 0 && h.notes == 0 && h.tail == 0);
    if (end == 0) { if (isp) p.set_value(7); else if (prod == 2) t(); else if (q.n) q.run(0); VP_ASSERT(ran == (a && !isp)); if (a) { h.check(7); VP_REACH("ran"); } else VP_REACH("cancelled"); }
    else if (end == 1) { if (isp) { auto x = std::move(p); } else if (prod == 2) t = {}; else q.clear(); VP_ASSERT(ran == 0); if (!isp) VP_ASSERT(dead == 1); if (a) { h.check(OUT_BROKEN); VP_REACH("broken"); } }
    else if (end == 2) { bool det = h.detached; h.clear(); if (!det && !isp) { VP_ASSERT(dead == 1); } if (isp) VP_ASSERT(p.is_awaiten() == det); if (isp) p.set_exception(std::make_exception_ptr(Err{2})); else if (prod == 2) t(); else if (q.n) q.run(0); VP_ASSERT(ran == (!isp && det)); VP_ASSERT(can == (prod == 6 && !det)); VP_REACH("undone"); }
    else { h.clear(); }
    if (prod == 6 && end < 2) VP_ASSERT(can == !a);
  }
  q.clear(); h.clear(); VP_ASSERT(dead == (prod >= 2 && prod <= 5)); VP_ASSERT(can <= 1);
}
