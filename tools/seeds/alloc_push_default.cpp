//! flags: -O1
//! needs: a promise made with a stateful allocator and a node pushed through the state (detach) before it is fulfilled
//! breaks: the continuation node is taken from the global heap and not from the allocator of the promise
#include <portable_concurrency/future>
#include <cstddef>
#include <new>
struct arena { int blocks = 0; };
template <typename T> struct alloc {
  using value_type = T;
  arena *a;
  explicit alloc(arena *a) : a(a) {}
  template <typename U> alloc(const alloc<U> &o) : a(o.a) {}
  T *allocate(std::size_t n) { a->blocks++; return static_cast<T *>(::operator new(n * sizeof(T))); }
  void deallocate(T *p, std::size_t) { a->blocks--; ::operator delete(p); }
  template <typename U> bool operator==(const alloc<U> &o) const { return a == o.a; }
  template <typename U> bool operator!=(const alloc<U> &o) const { return a != o.a; }
};
int main() {
  arena a;
  {
    auto pf = pc::make_promise<int>(alloc<int>(&a));
    if (a.blocks != 1)
      return 1;
    auto f = pf.second.detach();
    if (a.blocks != 2)
      return 2;
    pf.first.set_value(4);
    if (f.get() != 4)
      return 3;
  }
  return a.blocks != 0;
}
