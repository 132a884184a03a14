#!/usr/bin/env python3
"""Edits that keep the behaviour: every check has to stay quiet on them.  python3 tools/refactors.py [batch ...]"""
import os, shutil, subprocess, sys
B = {}
def r(batch, file, *subs): B.setdefault(batch, []).append((file, subs))
PC, OCS, SS, TH, FU, SF, PR, PT, WA, WN, UT, CQ, TW, SUF, EI, FS = ("portable_concurrency.cpp", "once_consumable_stack.hpp", "shared_state.h", "then.hpp", "future.hpp", "shared_future.hpp", "promise.h", "packaged_task.h", "when_all.h", "when_any.h", "utils.h", "closable_queue.hpp", "timed_waiter.h", "small_unique_function.hpp", "either.h", "future_sequence.h")
# --- 1
r("a", OCS, ("""  while (!head_.compare_exchange_strong(node->next, node.get(),
                                        std::memory_order_acq_rel)) {
    if (node->next == consumed_marker()) {
      node->next = nullptr;
      return false;
    }
  }
  node.release();
  return true;""", """  for (;;) {
    if (head_.compare_exchange_weak(node->next, node.get(),
                                    std::memory_order_acq_rel,
                                    std::memory_order_acquire))
      break;
    if (node->next != consumed_marker())
      continue;
    node->next = nullptr;
    return false;
  }
  (void)node.release();
  return true;"""))
r("a", PC, ("""  std::unique_lock<std::mutex> lk{mtx};
  cv.wait(lk, [&] { return ready; });""", """  std::unique_lock<std::mutex> lk{mtx};
  while (!ready)
    cv.wait(lk);"""))
r("a", PC, ("""void latch::count_down_and_wait() {
  std::unique_lock<std::mutex> lock{mutex_};
  ++waiters_;
  assert(counter_ > 0);
  if (--counter_ == 0) {
    --waiters_;
    cv_.notify_all();
    return;
  }
  cv_.wait(lock, [this] { return counter_ == 0; });
  if (--waiters_ == 0)
    cv_.notify_one();
}""", """namespace {
template <typename P>
void wait_registered(std::unique_lock<std::mutex> &lock,
                     std::condition_variable &cv, unsigned &waiters, P pred) {
  ++waiters;
  while (!pred())
    cv.wait(lock);
  --waiters;
  if (waiters == 0)
    cv.notify_one();
}
} // namespace

void latch::count_down_and_wait() {
  std::unique_lock<std::mutex> lock{mutex_};
  assert(counter_ > 0);
  counter_ -= 1;
  if (counter_ == 0) {
    cv_.notify_all();
    return;
  }
  wait_registered(lock, cv_, waiters_, [this] { return counter_ == 0; });
}"""), ("""void latch::wait() const {
  std::unique_lock<std::mutex> lock{mutex_};
  ++waiters_;
  cv_.wait(lock, [this] { return counter_ == 0; });
  if (--waiters_ == 0)
    cv_.notify_one();
}""", """void latch::wait() const {
  std::unique_lock<std::mutex> lock{mutex_};
  wait_registered(lock, cv_, waiters_, [this] { return counter_ == 0; });
}"""))
r("a", CQ, ("""  cv_.wait(lock, [this]() { return closed_ || !queue_.empty(); });
  if (closed_ && queue_.empty())
    return false;
  std::swap(dest, queue_.front());
  queue_.pop();
  return true;""", """  while (queue_.empty()) {
    if (closed_)
      return false;
    cv_.wait(lock);
  }
  dest = std::move(queue_.front());
  queue_.pop();
  return true;"""), ("""  if (closed_)
    return;
  queue_.emplace(std::move(val));
  cv_.notify_one();""", """  if (!closed_) {
    queue_.push(std::move(val));
    cv_.notify_one();
  }"""))
r("a", WA, ("""    if (--operations_remains_ != 0)
      return;
    continuations_.execute();""", """    const std::size_t before = operations_remains_.fetch_sub(1, std::memory_order_acq_rel);
    if (before == 1)
      continuations_.execute();"""))
r("a", WN, ("    if (ready_flag_.test_and_set())\n      return;\n    result_.index = pos;\n    continuations_.execute();", "    bool expected = false;\n    if (ready_flag_.compare_exchange_strong(expected, true)) {\n      result_.index = pos;\n      continuations_.execute();\n    }"), ("  std::atomic_flag ready_flag_ = ATOMIC_FLAG_INIT;", "  std::atomic<bool> ready_flag_{false};"))
r("a", TW, ("""    std::unique_lock<std::mutex> lk{waiter_->mutex};
    return waiter_->cv.wait_for(lk, dur, [&] { return waiter_->notified; })
               ? future_status::ready
               : future_status::timeout;""", """    return wait_until(std::chrono::steady_clock::now() + dur);"""))
r("a", TH, ("""    F func = std::move(self->action.get(in_place_index_t<1>{}));
    self->action.clean();
    shared_state<R> *state = &self->state;
    std::shared_ptr<shared_state<R>> state_sp{std::exchange(self, nullptr),
                                              state};
    func(std::move(state_sp));""", """    F func = take_action(*self);
    std::shared_ptr<shared_state<R>> state_sp{self, &self->state};
    self.reset();
    func(std::move(state_sp));"""), ("  static void run(std::weak_ptr<cnt_state> wself) noexcept {", "  static F take_action(cnt_state &self) noexcept {\n    F res = std::move(self.action.get(in_place_index_t<1>{}));\n    self.action.clean();\n    return res;\n  }\n\n  static void run(std::weak_ptr<cnt_state> wself) noexcept {"))
# --- 2
r("b", SS, ("""    if (!storage_.empty())
      throw_already_satisfied();
    storage_.emplace(in_place_index_t<1>{}, std::forward<U>(u)...);
    this->continuations().execute();""", """    store(in_place_index_t<1>{}, std::forward<U>(u)...);"""), ("""    if (!storage_.empty())
      throw_already_satisfied();
    storage_.emplace(in_place_index_t<3>{}, error);
    this->continuations().execute();""", """    store(in_place_index_t<3>{}, std::move(error));"""), ("private:\n  either<monostate, state_storage_t<T>", """private:
  template <std::size_t I, typename... U>
  void store(in_place_index_t<I> tag, U &&...u) {
    if (storage_.state() != 0)
      throw_already_satisfied();
    storage_.emplace(tag, std::forward<U>(u)...);
    continuations_.execute();
  }

  either<monostate, state_storage_t<T>"""))
r("b", SS, ("""    if (!continuations().executed() && storage_.state() != 2)
      set_exception(make_broken_promise());""", """    if (storage_.state() == 2 || continuations().executed())
      return;
    set_exception(make_broken_promise());"""))
r("b", PC, ("""  auto continuations = stack_.consume();
  // Exception""", """  forward_list<continuation> continuations = stack_.consume();
  // Exception"""), ("""  for (auto &cnt : continuations) {
    try {
      cnt();
    } catch (...) {
      if (!error)
        error = std::current_exception();
    }
  }""", """  for (auto *node = continuations.get(); node != nullptr; node = node->next) {
    try {
      node->val();
    } catch (...) {
      if (error == nullptr)
        error = std::current_exception();
    }
  }"""))
r("b", PC, ("""  while (!stopped.load(std::memory_order_relaxed)) {
    unique_function<void()> task;
    if (!queue.pop(task))
      break;
    task();
  }""", """  for (;;) {
    if (stopped.load(std::memory_order_acquire))
      return;
    unique_function<void()> task;
    const bool got = queue.pop(task);
    if (!got)
      return;
    task();
  }"""), ("  stopped_.store(true, std::memory_order_relaxed);\n  queue_.close();", "  stopped_ = true;\n  queue_.close();"))
r("b", PC, ("""  threads_.reserve(num_threads);
  while (num_threads-- > 0)
    threads_.push_back(std::thread{&static_thread_pool::attach, this});""", """  threads_.reserve(num_threads);
  for (std::size_t i = 0; i != num_threads; ++i)
    threads_.emplace_back([this] { attach(); });"""))
r("b", OCS, ("""  if (!head)
    return;
  for (auto *p = head; p != nullptr;) {
    auto *to_delete = p;
    p = p->next;
    to_delete->deallocate_self();
  }""", """  while (head) {
    auto *next = head->next;
    head->deallocate_self();
    head = next;
  }"""))
r("b", EI, ("""    visit(destroy{});
    state_ = empty_state;""", """    if (state_ == empty_state)
      return;
    visit(destroy{});
    state_ = empty_state;"""))
r("b", FU, ("""  wait();
  auto state = std::move(state_);
  return std::move(state->value_ref());""", """  if (!is_ready())
    wait();
  std::shared_ptr<detail::future_state<T>> state;
  state.swap(state_);
  return std::move(state->value_ref());"""), ("""  auto &state_ref = *state_;
  state_ref.push([captured_state = state_] {});
  return std::move(*this);""", """  future<T> res = std::move(*this);
  res.state_->push([captured_state = res.state_] {});
  return res;"""))
r("b", SUF, ("""  if (this == &rhs)
    return *this;
  if (vtbl_)
    vtbl_->destroy(buffer_);
  if (rhs.vtbl_)
    rhs.vtbl_->move(rhs.buffer_, buffer_);
  vtbl_ = rhs.vtbl_;
  return *this;""", """  if (this != &rhs) {
    this->~small_unique_function();
    new (this) small_unique_function(std::move(rhs));
  }
  return *this;"""))
r("b", PT, ("""    if (func.state() == 0)
      throw_already_satisfied();
    scope_either_cleaner<decltype(func)> claner{func};
    ::portable_concurrency::cxx14_v1::detail::set_state_value(
        state_ptr, func.get(detail::in_place_index_t<1>{}),
        std::forward<A>(a)...);""", """    if (func.empty())
      throw_already_satisfied();
    struct cleaner {
      decltype(func) &f;
      ~cleaner() { f.clean(); }
    } guard{func};
    auto &fn = func.get(detail::in_place_index_t<1>{});
    this_set(state_ptr, fn, std::forward<A>(a)...);"""), ("  future_state<R> *get_future_state() override { return &state; }", """  template <typename Fn>
  static void this_set(std::shared_ptr<shared_state<R>> &s, Fn &fn, A &&...a) {
    ::portable_concurrency::cxx14_v1::detail::set_state_value(
        s, fn, std::forward<A>(a)...);
  }

  future_state<R> *get_future_state() override { return &state; }"""))
# --- 3
r("c", PR, ("""    abandon();
    state_ = std::move(rhs.state_);
    return *this;
  }

  void abandon() {""", """    if (this != &rhs) {
      abandon();
      state_ = std::move(rhs.state_);
    }
    return *this;
  }

  void abandon() {"""), ("""        if (auto state = wstate.lock())
          state->abandon();""", """        std::shared_ptr<shared_state<T>> state = wstate.lock();
        if (state == nullptr)
          return;
        state->abandon();"""))
r("c", TH, ("""  subscriptions.push([wdata = std::weak_ptr<cnt_data_t>{data}] {
    cnt_data_t::schedule(wdata);
  });
  return std::shared_ptr<future_state<R>>{data, &data->state};""", """  std::shared_ptr<future_state<R>> result{data, &data->state};
  std::weak_ptr<cnt_data_t> weak = data;
  data.reset();
  subscriptions.push(
      [wdata = std::move(weak)]() mutable { cnt_data_t::schedule(std::move(wdata)); });
  return result;"""))
r("c", TH, ("""    if (auto error = parent->exception()) {
      state->set_exception(std::move(error));
      return;
    }
    set_state_value(state, std::move(f), std::move(parent->value_ref()));""", """    if (forward_error(*parent, *state))
      return;
    auto &val = parent->value_ref();
    set_state_value(state, std::move(f), std::move(val));"""), ("""// continuation state

""", """// continuation state

"""), ("""template <typename R, typename T, typename F>
auto decorate_unique_then(DirectContinuation""", """template <typename P, typename S> bool forward_error(P &parent, S &state) {
  std::exception_ptr error = parent.exception();
  if (!error)
    return false;
  state.set_exception(error);
  return true;
}

template <typename R, typename T, typename F>
auto decorate_unique_then(DirectContinuation"""))
r("c", SS, ("""        if (auto self = wself.lock())
          self->continuations().execute();
      });""", """        auto locked = wself.lock();
        if (!locked)
          return;
        locked->continuations_.execute();
      });"""))
r("c", PC, ("""  {
    std::lock_guard<std::mutex> lock{mutex_};
    ++attached_threads_;
    ++leaving_threads_;
  }
  process_queue(queue_, stopped_);
  // The pool can be destroyed as soon as the last attached thread is gone so
  // the notifications must happen before the mutex is unlocked.
  std::unique_lock<std::mutex> lock{mutex_};
  if (--attached_threads_ == 0)
    cv_.notify_all();
  cv_.wait(lock, [&] { return attached_threads_ == 0; });
  if (--leaving_threads_ == 0)
    cv_.notify_all();""", """  std::unique_lock<std::mutex> lock{mutex_};
  attached_threads_ += 1;
  leaving_threads_ += 1;
  lock.unlock();
  process_queue(queue_, stopped_);
  lock.lock();
  attached_threads_ -= 1;
  if (attached_threads_ == 0)
    cv_.notify_all();
  while (attached_threads_ != 0)
    cv_.wait(lock);
  leaving_threads_ -= 1;
  if (leaving_threads_ == 0)
    cv_.notify_all();"""), ("""  for (auto &thread : threads_) {
    if (thread.joinable())
      thread.join();
  }
  threads_.clear();""", """  while (!threads_.empty()) {
    if (threads_.back().joinable())
      threads_.back().join();
    threads_.pop_back();
  }"""))
r("c", PC, ("""  state.push([&] {
    std::lock_guard<std::mutex> guard{mtx};
    ready = true;
    cv.notify_one();
  });

  std::unique_lock<std::mutex> lk{mtx};
  cv.wait(lk, [&] { return ready; });""", """  auto wake = [&] {
    std::unique_lock<std::mutex> guard{mtx};
    ready = true;
    cv.notify_all();
  };
  if (state.continuations().executed())
    return;
  state.push(wake);
  std::unique_lock<std::mutex> lk{mtx};
  cv.wait(lk, [&] { return ready; });"""))
r("c", PC, ("  counter_ -= n;\n  if (counter_ > 0)\n    return;\n", "  if ((counter_ -= n) > 0)\n    return;\n"), ("  std::lock_guard<std::mutex> lock{mutex_};\n  return counter_ == 0;", "  mutex_.lock();\n  const bool res = counter_ == 0;\n  mutex_.unlock();\n  return res;"))
r("c", FS, ("    for (auto &f : seq)\n      func(f);", "    for (std::size_t i = 0; i < seq.size(); ++i)\n      func(seq[i]);"))
r("c", UT, ("""    auto res = ::portable_concurrency::cxx14_v1::detail::invoke(
        std::forward<F>(f), std::forward<A>(a)...);
    shared_state<R>::unwrap(state, std::move(res));""", """    shared_state<R>::unwrap(state, ::portable_concurrency::cxx14_v1::detail::invoke(
        std::forward<F>(f), std::forward<A>(a)...));""")) if False else None
r("c", "once_consumable_stack.h", ("""    if (push(node))
      return true;
    val = std::move(node->val);
    return false;""", """    const bool pushed = push(node);
    if (!pushed)
      val = std::move(node->val);
    return pushed;"""))
# --- 4: more helper threads of thought: relaxed where a lock protects, queue container, early returns
r("d", "closable_queue.h", ("#include <queue>", "#include <list>\n#include <queue>"), ("std::queue<T>", "std::queue<T, std::list<T>>"))
r("d", CQ, ("""  std::lock_guard<std::mutex> guard(mutex_);
  closed_ = true;
  cv_.notify_all();""", """  {
    std::lock_guard<std::mutex> guard(mutex_);
    if (closed_)
      return;
    closed_ = true;
    cv_.notify_all();
  }"""))
r("d", OCS, ("""  auto *curr_head = head_.load(std::memory_order_acquire);
  if (curr_head == consumed_marker())
    return false;
  node->next = curr_head;
  while (""", """  node->next = head_.load(std::memory_order_acquire);
  if (node->next == consumed_marker()) {
    node->next = nullptr;
    return false;
  }
  while ("""), ("head_.load(std::memory_order_acquire) == consumed_marker()", "head_.load() == consumed_marker()"), ("head_.exchange(consumed_marker(), std::memory_order_acq_rel)", "head_.exchange(consumed_marker())"))
r("d", TW, ("""      {
        std::lock_guard<std::mutex> lock{waiter->mutex};
        waiter->notified = true;
      }
      waiter->cv.notify_all();
    });
  }
  /**""", """      std::lock_guard<std::mutex> lock{waiter->mutex};
      waiter->notified = true;
      waiter->cv.notify_all();
    });
  }
  /**"""), ("""    return waiter_->cv.wait_until(lk, tp, [&] { return waiter_->notified; })
               ? future_status::ready
               : future_status::timeout;""", """    while (!waiter_->notified) {
      if (waiter_->cv.wait_until(lk, tp) == std::cv_status::timeout)
        return waiter_->notified ? future_status::ready
                                 : future_status::timeout;
    }
    return future_status::ready;"""))
r("d", WA, ("operations_remains_(sequence_traits<Sequence>::size(futures_) + 1) {}", "operations_remains_(1) {\n    operations_remains_ += sequence_traits<Sequence>::size(futures_);\n  }"), ("      state_of(f)->continuations().push([state] { state->notify(); });", "      auto &s = *state_of(f);\n      if (s.continuations().executed()) {\n        state->notify();\n        return;\n      }\n      s.continuations().push([state] { state->notify(); });"))
r("d", TH, ("  ~cnt_action() {\n    if (auto data = wdata.lock())\n      data->abandon();\n  }", "  ~cnt_action() { release(); }\n\n  void release() noexcept {\n    std::shared_ptr<CntState> data = wdata.lock();\n    wdata.reset();\n    if (data)\n      data->abandon();\n  }"))
r("d", SF, ("  wait();\n  return state_->value_ref();", "  if (!is_ready())\n    wait();\n  auto &res = state_->value_ref();\n  return res;"))
r("d", EI, ("    clean();\n    move_from(std::move(rhs), std::make_index_sequence<sizeof...(T)>{});\n    return *this;", "    if (&rhs == this)\n      return *this;\n    clean();\n    move_from(std::move(rhs), std::make_index_sequence<sizeof...(T)>{});\n    return *this;"))
r("d", PT, ("""    func.clean();
    state.abandon();""", """    scope_either_cleaner<decltype(func)> cleaner{func};
    (void)cleaner;
    func.clean();
    state.abandon();"""))
# --- 5: other primitives of the standard library
r("e", "closable_queue.h", ("#include <queue>", "#include <deque>"), ("std::mutex mutex_;", "std::recursive_mutex mutex_;"), ("std::condition_variable cv_;", "std::condition_variable_any cv_;"), ("std::queue<T> queue_;", "std::deque<T> queue_;"))
r("e", CQ, ("std::unique_lock<std::mutex>", "std::unique_lock<std::recursive_mutex>"), ("std::lock_guard<std::mutex>", "std::lock_guard<std::recursive_mutex>"), ("std::lock_guard<std::mutex>", "std::lock_guard<std::recursive_mutex>"), ("  std::swap(dest, queue_.front());\n  queue_.pop();", "  dest = std::move(queue_.front());\n  queue_.pop_front();"), ("queue_.emplace(std::move(val));", "queue_.emplace_back(std::move(val));"))
r("e", "latch.h", ("#include <mutex>", "#include <mutex>\n#include <shared_mutex>"), ("mutable std::mutex mutex_;", "mutable std::shared_timed_mutex mutex_;"), ("std::condition_variable cv_", "std::condition_variable_any cv_"))
r("e", PC, ("latch::~latch() {\n  std::unique_lock<std::mutex>", "latch::~latch() {\n  std::unique_lock<std::shared_timed_mutex>"), ("void latch::count_down_and_wait() {\n  std::unique_lock<std::mutex>", "void latch::count_down_and_wait() {\n  std::unique_lock<std::shared_timed_mutex>"), ("void latch::count_down(ptrdiff_t n) {\n  std::lock_guard<std::mutex>", "void latch::count_down(ptrdiff_t n) {\n  std::lock_guard<std::shared_timed_mutex>"), ("bool latch::is_ready() const noexcept {\n  std::lock_guard<std::mutex>", "bool latch::is_ready() const noexcept {\n  std::shared_lock<std::shared_timed_mutex>"), ("void latch::wait() const {\n  std::unique_lock<std::mutex>", "void latch::wait() const {\n  std::unique_lock<std::shared_timed_mutex>"))
r("e", PC, ("  return std::make_exception_ptr(\n      std::future_error{std::future_errc::broken_promise});", "  static const std::exception_ptr error = std::make_exception_ptr(\n      std::future_error{std::future_errc::broken_promise});\n  return error;"))
r("e", PC, ("  std::mutex mtx;\n  std::condition_variable cv;\n  bool ready = false;", "  std::mutex mtx;\n  std::condition_variable cv;\n  std::atomic<bool> ready{false};"), ("cv.wait(lk, [&] { return ready; });", "cv.wait(lk, [&] { return ready.load(); });"))
r("e", OCS, ("""  auto *curr_head =
      head_.exchange(consumed_marker(), std::memory_order_acq_rel);
  if (curr_head == consumed_marker())""", """  auto *curr_head = head_.load();
  while (!head_.compare_exchange_weak(curr_head, consumed_marker())) {
  }
  if (curr_head == consumed_marker())"""))
r("e", WN, ("std::atomic_flag ready_flag_ = ATOMIC_FLAG_INIT;", "std::atomic<bool> ready_flag_{false};"), ("if (ready_flag_.test_and_set())", "bool expected = false;\n    if (!ready_flag_.compare_exchange_strong(expected, true))"))
r("e", WA, ("    if (--operations_remains_ != 0)\n      return;", "    {\n      std::lock_guard<std::mutex> guard{mutex_};\n      if (--operations_remains_ != 0)\n        return;\n    }"), ("  std::atomic<size_t> operations_remains_;", "  size_t operations_remains_;\n  std::mutex mutex_;"), ("#include <atomic>", "#include <atomic>\n#include <mutex>"))
r("e", EI, ("""    if (state_ == I)
      return f(reinterpret_cast<at_t<I - 1, T...> &>(storage_));
    return visit_backward(in_place_index_t<I - 1>{}, std::forward<F>(f));
  }

  template <typename F, std::size_t I>""", """    return state_ != I
               ? visit_backward(in_place_index_t<I - 1>{}, std::forward<F>(f))
               : f(*static_cast<at_t<I - 1, T...> *>(
                     static_cast<void *>(&storage_)));
  }

  template <typename F, std::size_t I>"""))
r("e", "thread_pool.h", ("std::vector<std::thread> threads_;", "std::list<std::thread> threads_;"), ("#include <atomic>", "#include <atomic>\n#include <list>") )
r("e", PC, ("  threads_.reserve(num_threads);\n", ""), ("      threads_.push_back(std::thread{&static_thread_pool::attach, this});", "      threads_.emplace_back([this] { attach(); });"))
# --- 6: visitors replaced by explicit cases, guards, swaps, local helpers
r("f", PR, ("""    struct {
      std::shared_ptr<shared_state<T>>
      operator()(const std::shared_ptr<shared_state<T>> &val) const {
        return val;
      }
      std::shared_ptr<shared_state<T>>
      operator()(const std::weak_ptr<shared_state<T>> &val) const {
        return val.lock();
      }
      std::shared_ptr<shared_state<T>> operator()(monostate) {
        throw_no_state();
      }
    } visitor;
    return state_.visit(visitor);
  }

  bool is_awaiten""", """    switch (state_.state()) {
    case 1:
      return state_.get(in_place_index_t<1>{});
    case 2:
      return state_.get(in_place_index_t<2>{}).lock();
    default:
      throw_no_state();
    }
  }

  bool is_awaiten"""), ("""    abandon();
    state_ = std::move(rhs.state_);
    return *this;""", """    abandon();
    state_.clean();
    if (!rhs.state_.empty())
      state_ = std::move(rhs.state_);
    return *this;"""), ("""    auto state = get_state();
    state_.emplace(in_place_index_t<2>{}, state);
    return {state};""", """    future<T> res{get_state()};
    state_.emplace(in_place_index_t<2>{}, state_.get(in_place_index_t<1>{}));
    return res;"""))
r("f", PT, ("""  ~packaged_task() {
    if (auto state = get_state(false))
      state->abandon();
  }
""", """  ~packaged_task() { release(); }
"""), ("""    if (auto state = get_state(false))
      state->abandon();
    state_ = std::move(rhs.state_);
    return *this;""", """    release();
    state_ = std::move(rhs.state_);
    return *this;"""), ("""private:
  std::shared_ptr<detail::packaged_task_state<result_type, A...>>
  get_state(""", """private:
  void release() noexcept {
    const auto state = get_state(false);
    if (!state)
      return;
    state->abandon();
  }

  std::shared_ptr<detail::packaged_task_state<result_type, A...>>
  get_state("""), ("""    if (func.state() == 0)
      throw_already_satisfied();
    scope_either_cleaner<decltype(func)> claner{func};
    ::portable_concurrency::cxx14_v1::detail::set_state_value(
        state_ptr, func.get(detail::in_place_index_t<1>{}),
        std::forward<A>(a)...);""", """    if (func.empty())
      throw_already_satisfied();
    struct cleaner {
      decltype(task_state::func) &f;
      ~cleaner() { f.clean(); }
    } guard{func};
    auto &f = func.get(detail::in_place_index_t<1>{});
    ::portable_concurrency::cxx14_v1::detail::set_state_value(
        state_ptr, f, std::forward<A>(a)...);"""))
r("f", WA, ("""    sequence_traits<Sequence>::for_each(state->futures_, [state](auto &f) {
      state_of(f)->continuations().push([state] { state->notify(); });
    });
    state->notify();
    return state;""", """    auto on_ready = [state] { state->notify(); };
    sequence_traits<Sequence>::for_each(state->futures_, [&on_ready](auto &f) {
      auto input = state_of(f);
      input->continuations().push(decltype(on_ready)(on_ready));
    });
    on_ready();
    return state;"""), ("    if (--operations_remains_ != 0)\n      return;\n    continuations_.execute();", "    const auto before = operations_remains_.fetch_sub(1);\n    if (before == 1)\n      continuations_.execute();"))
r("f", WN, ("""    if (ready_flag_.test_and_set())
      return;
    result_.index = pos;
    continuations_.execute();""", """    const bool first = !ready_flag_.test_and_set(std::memory_order_acq_rel);
    if (first) {
      result_.index = pos;
      continuations_.execute();
    }"""))
r("f", SUF, ("""  if (rhs.vtbl_)
    rhs.vtbl_->move(rhs.buffer_, buffer_);
  vtbl_ = rhs.vtbl_;
}
""", """  auto *vtbl = rhs.vtbl_;
  vtbl_ = vtbl;
  if (vtbl == nullptr)
    return;
  vtbl->move(rhs.buffer_, buffer_);
}
"""), ("""  if (vtbl_)
    vtbl_->destroy(buffer_);
  if (rhs.vtbl_)
    rhs.vtbl_->move(rhs.buffer_, buffer_);
  vtbl_ = rhs.vtbl_;
  return *this;""", """  this->~small_unique_function();
  return *new (this) small_unique_function(std::move(rhs));"""))
r("f", PC, ("""  {
    std::lock_guard<std::mutex> lock{mutex_};
    ++attached_threads_;
    ++leaving_threads_;
  }
  process_queue(queue_, stopped_);
  // The pool can be destroyed as soon as the last attached thread is gone so
  // the notifications must happen before the mutex is unlocked.
  std::unique_lock<std::mutex> lock{mutex_};
  if (--attached_threads_ == 0)
    cv_.notify_all();
  cv_.wait(lock, [&] { return attached_threads_ == 0; });
  if (--leaving_threads_ == 0)
    cv_.notify_all();""", """  std::unique_lock<std::mutex> lock{mutex_};
  ++leaving_threads_;
  ++attached_threads_;
  lock.unlock();
  process_queue(queue_, stopped_);
  lock.lock();
  --attached_threads_;
  const bool last = attached_threads_ == 0;
  if (last)
    cv_.notify_all();
  else
    while (attached_threads_ != 0)
      cv_.wait(lock);
  if (--leaving_threads_ == 0)
    cv_.notify_all();"""), ("""  while (!stopped.load(std::memory_order_relaxed)) {
    unique_function<void()> task;
    if (!queue.pop(task))
      break;
    task();
  }""", """  for (;;) {
    if (stopped.load(std::memory_order_acquire))
      return;
    unique_function<void()> task;
    const bool got = queue.pop(task);
    if (!got)
      return;
    task();
  }"""), ("""  queue_.close();
  for (auto &thread : threads_) {
    if (thread.joinable())
      thread.join();
  }
  threads_.clear();""", """  queue_.close();
  std::vector<std::thread> threads;
  threads.swap(threads_);
  for (std::size_t i = threads.size(); i > 0; --i) {
    std::thread &thread = threads[i - 1];
    if (thread.joinable())
      thread.join();
  }"""), ("""  for (auto &cnt : continuations) {
    try {
      cnt();
    } catch (...) {
      if (!error)
        error = std::current_exception();
    }
  }
  if (error)
    std::rethrow_exception(error);""", """  const auto run = [&error](continuation &cnt) noexcept {
    try {
      cnt();
    } catch (...) {
      error = error ? error : std::current_exception();
    }
  };
  auto it = begin(continuations);
  while (it != end(continuations)) {
    run(*it);
    ++it;
  }
  if (!error)
    return;
  std::rethrow_exception(std::move(error));"""))
r("f", CQ, ("""  cv_.wait(lock, [this]() { return closed_ || !queue_.empty(); });
  if (closed_ && queue_.empty())
    return false;
  std::swap(dest, queue_.front());
  queue_.pop();
  return true;""", """  while (queue_.empty()) {
    if (closed_)
      return false;
    cv_.wait(lock);
  }
  T val = std::move(queue_.front());
  queue_.pop();
  lock.unlock();
  dest = std::move(val);
  return true;"""), ("""  queue_.emplace(std::move(val));
  cv_.notify_one();""", """  queue_.push(std::move(val));
  cv_.notify_all();"""))
r("f", TW, ("""  explicit timed_waiter(future<T> &fut) : waiter_{std::make_shared<waiter>()} {
    fut.notify([waiter = waiter_] {
      {
        std::lock_guard<std::mutex> lock{waiter->mutex};
        waiter->notified = true;
      }
      waiter->cv.notify_all();
    });
  }""", """  explicit timed_waiter(future<T> &fut) : waiter_{std::make_shared<waiter>()} {
    subscribe(fut);
  }"""), ("""    fut.notify([waiter = waiter_] {
      {
        std::lock_guard<std::mutex> lock{waiter->mutex};
        waiter->notified = true;
      }
      waiter->cv.notify_all();
    });
  }""", """    subscribe(fut);
  }"""), ("""private:
  std::shared_ptr<waiter> waiter_;""", """private:
  template <typename Future> void subscribe(Future &fut) {
    fut.notify([waiter = waiter_] {
      std::unique_lock<std::mutex> lock{waiter->mutex};
      waiter->notified = true;
      waiter->cv.notify_all();
    });
  }

  std::shared_ptr<waiter> waiter_;"""))
r("f", TH, ("""  data->exec.emplace(in_place_index_t<1>{}, std::forward<E>(exec));
  data->action.emplace(in_place_index_t<1>{}, std::forward<F>(f));
  subscriptions.push([wdata = std::weak_ptr<cnt_data_t>{data}] {
    cnt_data_t::schedule(wdata);
  });
  return std::shared_ptr<future_state<R>>{data, &data->state};""", """  data->action.emplace(in_place_index_t<1>{}, std::forward<F>(f));
  data->exec.emplace(in_place_index_t<1>{}, std::forward<E>(exec));
  auto result = std::shared_ptr<future_state<R>>{data, &data->state};
  subscriptions.push([wdata = std::weak_ptr<cnt_data_t>{data}]() mutable {
    cnt_data_t::schedule(std::move(wdata));
  });
  return result;"""))
r("f", FU, ("  wait();\n  auto state = std::move(state_);\n  return std::move(state->value_ref());", "  wait();\n  std::shared_ptr<detail::future_state<T>> state;\n  state.swap(state_);\n  auto &&res = state->value_ref();\n  return static_cast<std::conditional_t<std::is_reference<T>::value, T, std::remove_reference_t<decltype(res)> &&>>(res);"))
r("f", SS, ("""    if (!continuations().executed() && storage_.state() != 2)
      set_exception(make_broken_promise());""", """    if (continuations().executed())
      return;
    const bool unwrapping = storage_.state() == 2;
    if (unwrapping)
      return;
    set_exception(make_broken_promise());"""), ("""    self->storage_.emplace(in_place_index_t<2>{}, val);
    try {
      val->continuations().push([wself = std::weak_ptr<shared_state>(self)] {
        if (auto self = wself.lock())
          self->continuations().execute();
      });
    }""", """    self->storage_.emplace(in_place_index_t<2>{}, val);
    std::weak_ptr<shared_state> weak = self;
    auto forward = [weak = std::move(weak)] {
      const auto target = weak.lock();
      if (!target)
        return;
      target->continuations_.execute();
    };
    try {
      val->continuations().push(std::move(forward));
    }"""))
def main():
    W = "/tmp/refactor"
    for b in sys.argv[1:] or sorted(B):
        shutil.rmtree(W, ignore_errors=True); subprocess.run(["cp", "-a", "/repo", W], check=True)
        for file, subs in B[b]:
            f = os.path.join(W, "portable_concurrency/bits", file); s = open(f).read()
            for x, y in subs:
                if x not in s: print("TEXT NOT FOUND", b, file, x[:80]); continue
                s = s.replace(x, y, 1)
            open(f, "w").write(s)
        if "--test" in os.environ.get("RF", ""):
            r = subprocess.run("cd %s && sed -i 's#/repo#%s#g' _build/CMakeCache.txt; rm -rf _b && cmake -G Ninja -S . -B _b > /dev/null && ninja -C _b pc_unit_tests > /tmp/refactor.log 2>&1; tail -3 /tmp/refactor.log; timeout 100 _b/test/pc_unit_tests 2>&1 | tail -3" % (W, W), shell=True)
        print("== batch", b, flush=True)
        subprocess.run(["python3", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check.py"), "C01", "--all-props"] + ([] if "ONLY" not in os.environ else ["--only", os.environ["ONLY"]]), env=dict(os.environ, VP_REPO=W))
    shutil.rmtree(W, ignore_errors=True)
main()
