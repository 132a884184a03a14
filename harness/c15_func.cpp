#include "h.h"
#include <functional>
// C15: unique_function calls and owns exactly the stored callable.
using UF = pc::unique_function<int(int)>;
static int g_live = 0;    // live (not moved-from) stored callables
static int g_objs = 0;    // callable objects, moved-from ones included
struct Obj { Obj() noexcept { g_objs++; } Obj(const Obj&) noexcept { g_objs++; } ~Obj() { g_objs--; } };
struct Small : Obj { Box b; explicit Small(int v) : b(v) { g_live++; } Small(Small&& o) noexcept : b(std::move(o.b)) {} ~Small() { if (b.p) g_live--; } int operator()(int x) { return b.get() + x; } };
struct Large : Obj { Box b; long pad[6]; explicit Large(int v) : b(v) { g_live++; for (auto& p : pad) p = v; } Large(Large&& o) noexcept : b(std::move(o.b)) { for (int i = 0; i < 6; i++) pad[i] = o.pad[i]; } ~Large() { if (b.p) g_live--; } int operator()(int x) { return b.get() + x + (int)(pad[0] - pad[5]); } };
struct Thr : Obj { Box b; explicit Thr(int v) : b(v) { g_live++; } Thr(Thr&& o) noexcept(false) : b(std::move(o.b)) {} ~Thr() { if (b.p) g_live--; } int operator()(int x) const { return b.get() + x; } };
struct Edge : Obj { Box b; long pad[4]; explicit Edge(int v) : b(v) { g_live++; for (auto& p : pad) p = v; } Edge(Edge&& o) noexcept : b(std::move(o.b)) { for (int i = 0; i < 4; i++) pad[i] = o.pad[i]; } ~Edge() { if (b.p) g_live--; } int operator()(int x) { return b.get() + x + (int)(pad[0] - pad[3]); } };   // exactly fills the buffer
struct alignas(32) Align : Obj { Box b; explicit Align(int v) : b(v) { g_live++; } Align(Align&& o) noexcept : b(std::move(o.b)) {} ~Align() { if (b.p) g_live--; } int operator()(int x) { volatile uintptr_t a = (uintptr_t)this; VP_ASSERT((a & 31) == 0); return b.get() + x; } };
struct CountCopy { int* copies; Box b; CountCopy(int* c, int v) : copies(c), b(v) {} CountCopy(CountCopy&&) = default; CountCopy(const CountCopy& o) : copies(o.copies), b(o.b.get()) { ++*copies; } int operator()(int x) { return b.get() + x; } };
static int fn(int x) { return x + 3; }
static UF make(unsigned kind, int v) {
  switch (kind) {
    case 0: return UF{};
    case 1: return UF{Small(v)};
    case 2: return UF{Large(v)};
    case 3: return UF{Thr(v)};
    default: return UF{Edge(v)};
  }
}
static int callOut(UF& f, int x) { try { return f(x); } catch (const std::bad_function_call&) { return -12345; } }

// two objects, a history of operations, compared with a model after every step; moved-from objects are only assigned or destroyed
//@ C15,C16 reach=done cost=20
VP_SCENARIO(func_history) {
  g_live = g_objs = 0; int v = vp_int("v"), w = vp_int("w"), x = vp_int("x");
  { unsigned ka = vp_pick("ka", 5), kb = vp_pick("kb", 5); UF f[2] = {make(ka, v), make(kb, w)}; struct M { int k; int v; } m[2] = {{(int)ka, v}, {(int)kb, w}};   // k: -1 moved-from, 0 empty, 1 callable
    auto check = [&] { int live = 0; for (int i = 0; i < 2; i++) if (m[i].k >= 0) { VP_ASSERT((bool)f[i] == (m[i].k != 0)); VP_ASSERT((f[i] == nullptr) == (m[i].k == 0)); VP_ASSERT(callOut(f[i], x) == (m[i].k ? (int)((unsigned)m[i].v + x) : -12345)); live += m[i].k != 0; } VP_ASSERT(g_live == live); };
    check();
    for (int step = 0; step < 2; step++) {
      unsigned op = vp_pick("op", 6), i = 0, j = 1;
      if (op == 0) { f[i] = std::move(f[j]); m[i] = m[j]; m[j].k = -1; }
      else if (op == 1) { f[j] = std::move(f[i]); m[j] = m[i]; m[i].k = -1; }
      else if (op == 2) { std::swap(f[i], f[j]); std::swap(m[i], m[j]); }
      else if (op == 3) { f[i] = UF{}; m[i].k = 0; }
      else if (op == 4) { unsigned k = vp_pick("k", 5); f[i] = make(k, 77); m[i] = {(int)k, 77}; }
      else { UF t(std::move(f[i])); M mt = m[i]; m[i].k = -1; if (mt.k >= 0) VP_ASSERT(callOut(t, x) == (mt.k ? (int)((unsigned)mt.v + x) : -12345)); f[j] = std::move(t); m[j] = mt; }
      // a moved-from operand stays moved-from
      check();
    }
  }
  VP_ASSERT(g_live == 0); VP_ASSERT(g_objs == 0); VP_REACH("done");
}
//@ C15 reach=done
VP_SCENARIO(func_kinds) {
  unsigned k = vp_pick("k", 14); int x = vp_int("x"), v = vp_int("v"); struct P { int m; int add(int y) const { return m + y; } int half() { return m; } }; P p{v}; g_live = g_objs = 0;
  { if (k == 0) { UF f(fn); VP_ASSERT(f && f(x) == x + 3); UF g(std::move(f)); VP_ASSERT(g(x) == x + 3); } else if (k == 1) { UF f(&fn); VP_ASSERT(f(x) == x + 3); }
    else if (k == 2) { int (*np)(int) = nullptr; UF f(np); VP_ASSERT(!f); VP_ASSERT(callOut(f, x) == -12345); }
    else if (k == 3) { pc::unique_function<int(const P&, int)> f(&P::add); VP_ASSERT(f(p, x) == (int)((unsigned)v + x)); }
    else if (k == 4) { pc::unique_function<int(P*)> f(&P::half); VP_ASSERT(f(&p) == v); int (P::*np)() = nullptr; pc::unique_function<int(P*)> e(np); VP_ASSERT(!e); f = std::move(e); VP_ASSERT(!f); }
    else if (k == 5) { pc::unique_function<int(P&)> f(&P::m); VP_ASSERT(f(p) == v); pc::unique_function<int(std::reference_wrapper<P>)> g(&P::m); VP_ASSERT(g(std::ref(p)) == v); pc::unique_function<int(P*)> h(&P::m); VP_ASSERT(h(&p) == v); }
    else if (k == 6) { Small s(v); UF f(std::ref(s)); VP_ASSERT(f(x) == (int)((unsigned)v + x)); *s.b.p = 5; VP_ASSERT(f(1) == 6); UF g(std::move(f)); VP_ASSERT(g(2) == 7); }
    else if (k == 7) { std::function<int(int)> e; UF f(e); VP_ASSERT(!f); std::function<int(int)> n = [v](int y) { return v ^ y; }; UF g(n); VP_ASSERT(g(x) == (v ^ x)); VP_ASSERT((bool)n); }
    else if (k == 8) { pc::unique_function<long(int)> e; UF f(std::move(e)); VP_ASSERT(!f); pc::unique_function<long(int)> n([v](int y) { return (long)(v ^ y); }); UF g(std::move(n)); VP_ASSERT(g(x) == (v ^ x)); }
    else if (k == 9) { struct alignas(64) { struct { alignas(UF) char pad[alignof(UF)]; UF f; } a, b; } s; s.a.f = UF(Align{v}); VP_ASSERT(s.a.f(x) == (int)((unsigned)v + x)); s.b.f = std::move(s.a.f); VP_ASSERT(s.b.f(x) == (int)((unsigned)v + x)); }
    else if (k == 10) { int copies = 0; CountCopy c(&copies, v); UF f(std::move(c)); UF g(std::move(f)); g = std::move(g), VP_ASSERT(copies == 0); }
    else if (k == 11) { int copies = 0; CountCopy c(&copies, v); UF f(c); VP_ASSERT(copies == 1); UF g(std::move(f)); UF h; h = std::move(g); VP_ASSERT(copies == 1); VP_ASSERT(h(x) == (int)((unsigned)v + x)); VP_ASSERT(c(x) == h(x)); }
    else if (k == 12) { pc::unique_function<void(int)> f(Small{v}); f(x); pc::unique_function<void(int)> g(Large{v}); g(x); }
    else { UF f = nullptr; VP_ASSERT(!f && f == nullptr); UF g; VP_ASSERT(!g); pc::unique_function<void()> h; int r = 0; try { h(); } catch (const std::bad_function_call&) { r = 1; } VP_ASSERT(r == 1); } }
  VP_ASSERT(g_live == 0); VP_ASSERT(g_objs == 0); VP_REACH("done");
}
// references, move-only arguments and results pass through unchanged, for inline and heap-stored callables
//@ C15 reach=done
VP_SCENARIO(func_pass) {
  unsigned k = vp_pick("k", 7); bool big = vp_pick2("big"); int v = vp_int("v"); long pad[6] = {1, 2, 3, 4, 5, 6}; int o = v;
  auto both = [&](auto small, auto use) { if (big) use([small = std::move(small), pad](auto&&... a) mutable -> decltype(auto) { VP_ASSERT(pad[5] == 6); return small(std::forward<decltype(a)>(a)...); }); else use(std::move(small)); };
  if (k == 0) both([](Box b) { return Box(b.get() ^ 1); }, [&](auto c) { pc::unique_function<Box(Box)> f(std::move(c)); VP_ASSERT(f(Box(v)).get() == (v ^ 1)); VP_ASSERT(f(Box(3)).get() == 2); });
  else if (k == 1) both([&o](int& r) { VP_ASSERT(&r == &o); r++; return 0; }, [&](auto c) { pc::unique_function<int(int&)> f(std::move(c)); f(o); VP_ASSERT(o == (int)(v + 1u)); });
  else if (k == 2) both([](const int& r) -> const int& { return r; }, [&](auto c) { pc::unique_function<const int&(const int&)> f(std::move(c)); const int& r = f(o); VP_ASSERT(&r == &o); });
  else if (k == 3) both([n = 0](int y) mutable { return n += y; }, [&](auto c) { UF f(std::move(c)); VP_ASSERT(f(1) == 1); UF g(std::move(f)); VP_ASSERT(g(v) == (int)(v + 1u)); VP_ASSERT(g(1) == (int)(v + 2u)); });
  else if (k == 4) both([](int y) -> int { throw Err{y}; }, [&](auto c) { UF f(std::move(c)); int r = 0; try { f(v); } catch (const Err& e) { r = e.v == v; } VP_ASSERT(r == 1); VP_ASSERT((bool)f); });
  // called as the lvalue it is, as often as asked
  else if (k == 6) { struct Q { Box b; int operator()(int x) & { return b.get() ^ x; } int operator()(int x) && { Box t(std::move(b)); return t.get() ^ x ^ 1; } }; struct QL { Q q; long pad[6]; int operator()(int x) & { return q(x); } int operator()(int x) && { return std::move(q)(x); } }; UF f; if (big) f = UF(QL{Q{Box(v)}, {}}); else f = UF(Q{Box(v)}); VP_ASSERT(f(1) == (v ^ 1)); VP_ASSERT(f(2) == (v ^ 2)); UF g(std::move(f)); VP_ASSERT(g(3) == (v ^ 3)); VP_ASSERT(g(0) == v); }
  else both([](Box&& b) { return b.get(); }, [&](auto c) { pc::unique_function<int(Box&&)> f(std::move(c)); Box b(v); VP_ASSERT(f(std::move(b)) == v); VP_ASSERT(b.get() == v); });
  VP_REACH("done");
}
// a throwing constructor of the stored callable leaves nothing behind
struct ThrowOnMove { Box b; bool armed; ThrowOnMove(int v, bool a) : b(v), armed(a) {} ThrowOnMove(ThrowOnMove&& o) noexcept(false) : b(std::move(o.b)), armed(o.armed) { if (armed) throw Err{9}; } ThrowOnMove(const ThrowOnMove& o) : b(o.b.get()), armed(o.armed) { if (armed) throw Err{8}; } int operator()(int x) const { return b.get() + x; } };
//@ C15,C18,C16 reach=threw,ok
VP_SCENARIO(func_ctor_throws) {
  bool a = vp_pick2("armed"), cp = vp_pick2("copy"); int v = vp_int("v"); UF f(Small{1}); ThrowOnMove t(v, a); bool thrown = false;
  try { if (cp) f = UF(t); else f = UF(std::move(t)); } catch (const Err& e) { thrown = true; VP_ASSERT(e.v == (cp ? 8 : 9)); } VP_ASSERT(thrown == a); VP_ASSERT(f(2) == (a ? 3 : (int)(v + 2u))); if (cp) VP_ASSERT(t(0) == v); if (a) VP_REACH("threw"); else VP_REACH("ok");
}
// assigning or swapping an object with itself must not destroy the callable twice
//@ C15 reach=done
VP_SCENARIO(func_self) {
  g_live = g_objs = 0; { unsigned k = vp_pick("kind", 5); UF f = make(k, 4); UF& r = f; if (vp_pick2("swap")) std::swap(f, r); else f = std::move(r); if (k) VP_ASSERT(f(1) == 5); VP_ASSERT((bool)f == (k != 0)); } VP_ASSERT(g_live == 0); VP_ASSERT(g_objs == 0); VP_REACH("done");
}
