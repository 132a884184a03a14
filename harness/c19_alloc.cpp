#include "h.h"
// C19: a custom allocator gets back exactly the memory it gave.
struct Arena { int blocks = 0, copies = 0; std::size_t bytes = 0; int total = 0; int fail = -1; void* ptr[12] = {}; std::size_t size[12] = {};
  void* get(std::size_t n) { if (fail == 0) { fail = -1; throw std::bad_alloc(); } if (fail > 0) fail--; void* p = ::operator new(n); ptr[total] = p; size[total++] = n; blocks++; bytes += n; return p; }
  void put(void* p, std::size_t n) { bool found = false; for (int i = 0; i < total; i++) if (ptr[i] == p && size[i] == n) { found = true; ptr[i] = nullptr; break; } VP_ASSERT_MSG(found, "memory returned to an allocator that did not give it, or with another size, or twice"); blocks--; bytes -= n; ::operator delete(p); } };
template <class T> struct A { using value_type = T; Arena* a = nullptr; A() {} explicit A(Arena* a) : a(a) {} A(const A& o) : a(o.a) {} A& operator=(const A& o) { a = o.a; return *this; } ~A() { *const_cast<Arena* volatile*>(&a) = nullptr; }   /* a destroyed allocator is unusable */ template <class U> A(const A<U>& o) : a(o.a) {} T* allocate(std::size_t n) { VP_ASSERT_MSG(a, "an allocator that is not the given one is used"); return static_cast<T*>(a->get(n * sizeof(T))); } void deallocate(T* p, std::size_t n) { a->put(p, n * sizeof(T)); } template <class U> bool operator==(const A<U>& o) const { return a == o.a; } template <class U> bool operator!=(const A<U>& o) const { return a != o.a; } };
// stateful allocators in two arenas must never be mixed
//@ C19,C16 reach=done cost=10
VP_SCENARIO(alloc_history) {
  Arena r[2]; int v = vp_int("v"), n = 0; unsigned first = vp_pick("ctor", 3);
  { pc::promise<Box> p; pc::future<Box> f; pc::shared_future<Box> s; 
    if (first == 0) { auto pr = pc::make_promise<Box>(A<Box>(&r[0])); p = std::move(pr.first); f = std::move(pr.second); } else if (first == 1) { p = pc::promise<Box>(std::allocator_arg, A<Box>(&r[0])); f = p.get_future(); } else { p = pc::promise<Box>(std::allocator_arg, A<char>(&r[0])); f = p.get_future(); }
    VP_ASSERT(r[0].blocks == 1); auto other = pc::make_promise<int>(A<int>(&r[1])); VP_ASSERT(r[1].blocks == 1); bool set = false, dead = false;
    for (int i = 0; i < 3; i++) { unsigned op = vp_pick("op", 8);
      if (op == 0) { if (f.valid()) f.notify([&] { n++; }); }
      else if (op == 1) { int b = r[0].total; bool rdy = set || dead; if (f.valid()) { f = f.detach(); if (!rdy) { VP_ASSERT(r[0].total > b); VP_ASSERT(r[0].blocks >= 2); } } else if (s.valid()) { s = s.detach(); if (!rdy) VP_ASSERT(r[0].total > b); } }
      else if (op == 2) { if (!set && !dead) { p.set_value(Box(v)); set = true; } }
      else if (op == 3) { f = {}; s = {}; }
      else if (op == 4) { if (f.valid()) s = f.share(); }
      else if (op == 5) { if (!dead) { auto x = std::move(p); dead = true; } }
      else if (op == 6) { if (set || dead) { if (f.valid()) f.wait(); if (s.valid()) s.wait(); } }
      else { if (!dead) { pc::promise<Box> q(std::move(p)); p = std::move(q); } }
      VP_ASSERT(r[1].blocks == 1); }
    if (f.valid() && set) VP_ASSERT(f.get().get() == v); if (s.valid() && set) VP_ASSERT(s.get().get() == v); other.first.set_value(1); }
  VP_ASSERT(r[0].blocks == 0 && r[0].bytes == 0); VP_ASSERT(r[1].blocks == 0 && r[1].bytes == 0); VP_REACH("done");
}
// references, void and exceptions
//@ C19 reach=done
VP_SCENARIO(alloc_kinds) {
  Arena r; unsigned k = vp_pick("k", 4), fin = vp_pick("fin", 3); int x = 0, n = 0;
  auto go = [&](auto pr, auto set) { VP_ASSERT(r.blocks == 1); pr.second.notify([&] { n++; }); auto d = pr.second.detach(); VP_ASSERT(r.blocks == 2); if (fin == 0) set(pr.first); else if (fin == 1) pr.first.set_exception(std::make_exception_ptr(Err{1})); else { auto y = std::move(pr.first); } VP_ASSERT(n == 1); VP_ASSERT(r.blocks == 1); d.wait(); VP_ASSERT(r.blocks == 1); if (fin == 0) d.get(); else err([&] { d.get(); }); VP_ASSERT(!d.valid()); };
  if (k == 0) go(pc::make_promise<int>(A<int>(&r)), [](auto& p) { p.set_value(4); }); else if (k == 1) go(pc::make_promise<void>(A<int>(&r)), [](auto& p) { p.set_value(); }); else if (k == 2) go(pc::make_promise<int&>(A<int>(&r)), [&](auto& p) { p.set_value(x); }); else go(pc::make_promise<Box>(A<Box>(&r)), [](auto& p) { p.set_value(Box(4)); });
  VP_ASSERT(r.blocks == 0); VP_REACH("done");
}
// the detached node keeps the state alive until the result is set, then everything goes back
//@ C19,C07 reach=done
VP_SCENARIO(alloc_detach_drop) {
  Arena r; bool set = vp_pick2("set"), next = vp_pick2("next"); int n = 0; { auto pr = pc::make_promise<int>(A<int>(&r)); { auto d = pr.second.detach(); if (next) { auto g = d.next([&](int) { n++; }).detach(); } } VP_ASSERT(pr.first.is_awaiten()); VP_ASSERT(r.blocks == 2); if (set) pr.first.set_value(3); else { auto x = std::move(pr.first); } VP_ASSERT(r.blocks <= 1); VP_ASSERT(n == (set && next)); }  VP_ASSERT(r.blocks == 0); VP_REACH("done");
}
// the allocator fails
//@ C19,C18 reach=threw,ok
VP_SCENARIO(alloc_fails) {
  Arena r; bool t = false; int v = vp_int("v"); unsigned k = vp_pick("k", 3); r.fail = vp_pick("fail", 3); { pc::promise<int> p; pc::future<int> f; try { auto pr = pc::make_promise<int>(A<int>(&r)); p = std::move(pr.first); f = std::move(pr.second); if (k == 0) f = f.detach(); else if (k == 1) { p.set_value(v); f = f.detach(); } else { p.set_value(v); f.wait(); } } catch (const std::bad_alloc&) { t = true; } r.fail = -1; if (f.valid()) { if (k == 0 && !f.is_ready()) p.set_value(v); VP_ASSERT(f.get() == v); } }
  VP_ASSERT(r.blocks == 0 && r.bytes == 0); if (t) VP_REACH("threw"); else VP_REACH("ok");
}
// two threads: the detached node is freed by the fulfilling thread
struct NoCount { static void* get(std::size_t n) { return ::operator new(n); } };
template <class T> struct B { using value_type = T; int tag = 0; B() {} explicit B(int t) : tag(t) {} template <class U> B(const B<U>& o) : tag(o.tag) {} T* allocate(std::size_t n) { VP_ASSERT(tag == 7); long* p = static_cast<long*>(::operator new(n * sizeof(T) + 16)); p[0] = tag; p[1] = (long)(n * sizeof(T)); return reinterpret_cast<T*>(p + 2); } void deallocate(T* q, std::size_t n) { long* p = reinterpret_cast<long*>(q) - 2; VP_ASSERT(p[0] == tag); VP_ASSERT(p[1] == (long)(n * sizeof(T))); ::operator delete(p); } template <class U> bool operator==(const B<U>& o) const { return tag == o.tag; } template <class U> bool operator!=(const B<U>& o) const { return tag != o.tag; } };
//@ C19,C16 reach=done cost=10
VP_SCENARIO(alloc_conc) {
  unsigned k = vp_pick("k", 4); auto pr = pc::make_promise<Box>(B<Box>(7)); std::thread t([p = std::move(pr.first)]() mutable { p.set_value(Box(4)); }); auto f = std::move(pr.second);
  if (k == 0) { f = f.detach(); f = {}; } else if (k == 1) VP_ASSERT(f.get().get() == 4); else if (k == 2) { auto s = f.share(); auto d = s; d = d.detach(); VP_ASSERT(s.get().get() == 4); } else { f.detach().notify([] {}); } t.join(); VP_REACH("done");
}
// a blocking wait registers its node through the allocator too: the allocator fulfils the promise at the moment it is asked for memory
template <class T> struct H { using value_type = T; std::function<void()>* hook; explicit H(std::function<void()>* h) : hook(h) {} template <class U> H(const H<U>& o) : hook(o.hook) {} T* allocate(std::size_t n) { if (*hook) { auto h = std::move(*hook); *hook = nullptr; h(); } return static_cast<T*>(::operator new(n * sizeof(T))); } void deallocate(T* p, std::size_t) { ::operator delete(p); } template <class U> bool operator==(const H<U>& o) const { return hook == o.hook; } template <class U> bool operator!=(const H<U>& o) const { return hook != o.hook; } };
//@ C19,C04 reach=done
VP_SCENARIO(alloc_wait) {
  std::function<void()> hook; unsigned k = vp_pick("k", 4), fin = vp_pick("fin", 3); int v = vp_int("v"), seen = 0; { auto pr = pc::make_promise<int>(H<int>(&hook)); hook = [&] { seen++; if (fin == 0) pr.first.set_value(v); else if (fin == 1) pr.first.set_exception(std::make_exception_ptr(Err{1})); else { auto x = std::move(pr.first); } };
    auto want = fin == 0 ? v : fin == 1 ? OUT_ERR(1) : OUT_BROKEN; if (k == 0) { pr.second.wait(); VP_ASSERT(pr.second.is_ready()); VP_ASSERT(outcome(pr.second) == want); } else if (k == 1) VP_ASSERT(outcome(pr.second) == want); else { auto s = pr.second.share(); if (k == 2) { s.wait(); VP_ASSERT(s.is_ready()); } VP_ASSERT(outcome(s) == want); } VP_ASSERT(seen == 1); } VP_REACH("done");
}
