// Helpers shared by the scenarios.  Only the public interface of the library is used.
#pragma once
#include "vp.h"
#include <portable_concurrency/execution>
#include <portable_concurrency/functional>
#include <portable_concurrency/future>
#include <portable_concurrency/latch>
#include <portable_concurrency/thread_pool>
#include <portable_concurrency/timed_waiter>
#include <atomic>
#include <future>
#include <memory>
#include <thread>
#include <tuple>
#include <vector>

// A move-only value owning memory: a lost, duplicated or stale copy shows as a leak, double free, use after free or -777.
struct Box {
  int* p;
  explicit Box(int v) : p(new int(v)) {}
  Box(Box&& o) noexcept : p(o.p) { o.p = nullptr; }
  Box& operator=(Box&& o) noexcept { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
  Box(const Box&) = delete; Box& operator=(const Box&) = delete;
  ~Box() { delete p; }
  int get() const { return p ? *p : -777; }
};
struct CBox {   // copyable
  int* p;
  explicit CBox(int v) : p(new int(v)) {}
  CBox(CBox&& o) noexcept : p(o.p) { o.p = nullptr; }
  CBox(const CBox& o) : p(o.p ? new int(*o.p) : nullptr) {}
  CBox& operator=(CBox o) noexcept { std::swap(p, o.p); return *this; }
  ~CBox() { delete p; }
  int get() const { return p ? *p : -777; }
};
struct Err { int v; };

// 0: no exception, n+1 with n = future_errc of a std::future_error, -1: any other exception
enum { NONE = 0, BROKEN = 1 + (int)std::future_errc::broken_promise, ALREADY = 1 + (int)std::future_errc::promise_already_satisfied, RETRIEVED = 1 + (int)std::future_errc::future_already_retrieved, NOSTATE = 1 + (int)std::future_errc::no_state, OTHER = -1 };
template <class F> int err(F&& f) {
  try { f(); return NONE; }
  catch (const std::future_error& e) { return 1 + e.code().value(); }
  catch (...) { return OTHER; }
}
inline int ferr(std::exception_ptr e) { return err([&] { std::rethrow_exception(e); }); }
// the outcome of a future of int: its value, or 1000000 + Err value, or 2000000 + future_errc, or 3000000
template <class F> int outcome(F& f) {
  try { return f.get(); }
  catch (const Err& e) { return 1000000 + e.v; }
  catch (const std::future_error& e) { return 2000000 + e.code().value(); }
  catch (...) { return 3000000; }
}
constexpr int OUT_BROKEN = 2000000 + (int)std::future_errc::broken_promise;
inline int OUT_ERR(int v) { return 1000000 + v; }

// An executor collecting tasks; they are run (or dropped) by the scenario.
struct Task { virtual ~Task() = default; virtual void run() = 0; };
template <class F> struct TaskOf final : Task { F f; explicit TaskOf(F&& x) : f(std::move(x)) {} void run() override { f(); } };
struct Queue {
  Task* t[6] = {}; int n = 0;
  ~Queue() { clear(); }
  void clear() { for (int i = 0; i < n; i++) { delete t[i]; t[i] = nullptr; } n = 0; }
  void run(int i) { t[i]->run(); }
  void run_all() { for (int i = 0; i < n; i++) t[i]->run(); }
  void drop(int i) { Task* x = t[i]; t[i] = nullptr; delete x; }
};
struct QExec { Queue* q; };
template <class F> void post(QExec e, F&& f) { e.q->t[e.q->n++] = new TaskOf<std::decay_t<F>>(std::move(f)); }
// An executor starting one thread per task.
struct Threads { std::thread t[4]; int n = 0; void join() { for (int i = 0; i < n; i++) if (t[i].joinable()) t[i].join(); } ~Threads() { join(); } };
struct TExec { Threads* q; };
template <class F> void post(TExec e, F&& f) { e.q->t[e.q->n++] = std::thread(std::move(f)); }
// An executor dropping every task, and one refusing it with an exception.
struct DropExec {};
template <class F> void post(DropExec, F&& f) { std::decay_t<F> x(std::move(f)); }
struct ThrowExec {};
template <class F> void post(ThrowExec, F&&) { throw Err{77}; }
namespace portable_concurrency {
template <> struct is_executor<QExec> : std::true_type {};
template <> struct is_executor<TExec> : std::true_type {};
template <> struct is_executor<DropExec> : std::true_type {};
template <> struct is_executor<ThrowExec> : std::true_type {};
}
