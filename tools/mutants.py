"""Planted changes used to measure the checks: id -> (property, file under portable_concurrency/bits, [(old, new)...])."""
M = {}


def m(id, prop, file, *subs): M[id] = (prop, file, subs)


m("consume_no_release", "C02", "once_consumable_stack.hpp", ("head_.exchange(consumed_marker(), std::memory_order_acq_rel)", "head_.exchange(consumed_marker(), std::memory_order_acquire)"))
m("is_consumed_relaxed", "C02", "once_consumable_stack.hpp", ("return head_.load(std::memory_order_acquire) == consumed_marker()", "return head_.load(std::memory_order_relaxed) == consumed_marker()"))
m("push_load_relaxed", "C02", "once_consumable_stack.hpp", ("auto *curr_head = head_.load(std::memory_order_acquire);", "auto *curr_head = head_.load(std::memory_order_relaxed);"))
m("push_cas_release", "C02", "once_consumable_stack.hpp", ("std::memory_order_acq_rel)) {", "std::memory_order_release)) {"))
m("push_over_marker", "C03", "once_consumable_stack.hpp", ("""    if (node->next == consumed_marker()) {
      node->next = nullptr;
      return false;
    }
""", """    if (node->next == consumed_marker())
      node->next = nullptr;
"""))
m("push_cas_lost_sibling", "C03", "once_consumable_stack.hpp", ("""  while (!head_.compare_exchange_strong(node->next, node.get(),
                                        std::memory_order_acq_rel)) {""", """  while (!head_.compare_exchange_strong(curr_head, node.get(),
                                        std::memory_order_acq_rel)) {
    if (curr_head != consumed_marker())
      continue;
    node->next = curr_head;"""))
m("wait_notify_unlocked", "C04", "portable_concurrency.cpp", ("""    std::lock_guard<std::mutex> guard{mtx};
    ready = true;
    cv.notify_one();""", """    {
      std::lock_guard<std::mutex> guard{mtx};
      ready = true;
    }
    cv.notify_one();"""))
m("wait_no_loop", "C04", "portable_concurrency.cpp", ("cv.wait(lk, [&] { return ready; });", "if (!ready)\n    cv.wait(lk);"))
m("wait_flag_unlocked", "C04", "portable_concurrency.cpp", ("""    std::lock_guard<std::mutex> guard{mtx};
    ready = true;
    cv.notify_one();""", """    ready = true;
    std::lock_guard<std::mutex> guard{mtx};
    cv.notify_one();"""))
m("timed_no_loop", "C05", "timed_waiter.h", ("return waiter_->cv.wait_until(lk, tp, [&] { return waiter_->notified; })\n               ? future_status::ready", "return waiter_->notified || waiter_->cv.wait_until(lk, tp) == std::cv_status::no_timeout\n               ? future_status::ready"))
m("timed_raw_waiter", "C05", "timed_waiter.h", ("""explicit timed_waiter(future<T> &fut) : waiter_{std::make_shared<waiter>()} {
    fut.notify([waiter = waiter_] {""", """explicit timed_waiter(future<T> &fut) : waiter_{std::make_shared<waiter>()} {
    fut.notify([waiter = waiter_.get()] {"""))
m("timed_for_timeout_status", "C05", "timed_waiter.h", ("return waiter_->cv.wait_for(lk, dur, [&] { return waiter_->notified; })\n               ? future_status::ready", "if (waiter_->notified)\n      return future_status::ready;\n    return waiter_->cv.wait_for(lk, dur) == std::cv_status::no_timeout\n               ? future_status::ready"))
m("promise_assign_no_abandon", "C06", "promise.h", ("""    abandon();
    state_ = std::move(rhs.state_);""", """    state_ = std::move(rhs.state_);"""))
m("task_assign_no_abandon", "C06", "packaged_task.h", ("""    if (auto state = get_state(false))
      state->abandon();
    state_ = std::move(rhs.state_);""", """    state_ = std::move(rhs.state_);"""))
m("task_abandon_unstarted_only", "C06", "packaged_task.h", ("""    func.clean();
    state.abandon();""", """    if (!func.empty())
      state.abandon();
    func.clean();"""))
m("cnt_double_run", "C08", "then.hpp", ("CntState::run(std::exchange(wdata, {}));", "CntState::run(wdata);"))
m("cnt_schedule_strong", "C07", "then.hpp", ("""    std::weak_ptr<cnt_state> wstate = std::exchange(self, nullptr);
    post(exec, cnt_action<cnt_state>{std::move(wstate)});""", """    std::weak_ptr<cnt_state> wstate = self;
    post(exec, cnt_action<cnt_state>{std::move(wstate)});"""))
m("cnt_abandon_no_clean", "C07", "then.hpp", ("""    state.abandon();
    action.clean();""", """    state.abandon();"""))
m("cnt_run_keep_action", "C16", "then.hpp", ("""    self->action.clean();
    shared_state<R> *state""", """    shared_state<R> *state"""))
m("all_relaxed_counter", "C10", "when_all.h", ("if (--operations_remains_ != 0)", "if (operations_remains_.fetch_sub(1, std::memory_order_relaxed) != 1)"))
m("all_split_counter", "C10", "when_all.h", ("if (--operations_remains_ != 0)", "auto left = operations_remains_.load() - 1;\n    operations_remains_.store(left);\n    if (left != 0)"))
m("all_read_twice", "C10", "when_all.h", ("if (--operations_remains_ != 0)", "--operations_remains_;\n    if (operations_remains_ != 0)"))
m("all_shared_moved", "C10", "when_all.h", ("when_all_state<Sequence>::make(Sequence{first, last})", "when_all_state<Sequence>::make(\n      Sequence{std::make_move_iterator(first), std::make_move_iterator(last)})"))
m("any_check_executed", "C11", "when_any.h", ("""    if (ready_flag_.test_and_set())
      return;
    result_.index = pos;""", """    if (continuations_.executed())
      return;
    result_.index = pos;"""))
m("any_index_race", "C11", "when_any.h", ("""    if (ready_flag_.test_and_set())
      return;
    result_.index = pos;""", """    if (result_.index > pos)
      result_.index = pos;
    if (ready_flag_.test_and_set())
      return;"""))
m("any_flag_clear", "C11", "when_any.h", ("""    result_.index = pos;
    continuations_.execute();""", """    result_.index = pos;
    continuations_.execute();
    ready_flag_.clear();"""))
m("queue_push_unlocked_closed", "C12", "closable_queue.hpp", ("""  std::lock_guard<std::mutex> guard(mutex_);
  if (closed_)
    return;
  queue_.emplace""", """  if (closed_)
    return;
  std::lock_guard<std::mutex> guard(mutex_);
  queue_.emplace"""))
m("queue_push_after_close", "C12", "closable_queue.hpp", ("  if (closed_)\n    return;", "  if (closed_ && queue_.empty())\n    return;"))
m("queue_close_notify_if_empty", "C13", "closable_queue.hpp", ("  closed_ = true;\n  cv_.notify_all();", "  closed_ = true;\n  if (queue_.empty())\n    cv_.notify_all();"))
m("queue_close_notify_one", "C13", "closable_queue.hpp", ("  closed_ = true;\n  cv_.notify_all();", "  closed_ = true;\n  cv_.notify_one();"))
m("queue_push_notify_if_empty", "C12", "closable_queue.hpp", ("  queue_.emplace(std::move(val));\n  cv_.notify_one();", "  const bool first = queue_.empty();\n  queue_.emplace(std::move(val));\n  if (first)\n    cv_.notify_one();"))
m("queue_pop_if", "C12", "closable_queue.hpp", ("cv_.wait(lock, [this]() { return closed_ || !queue_.empty(); });\n  if (closed_ && queue_.empty())", "if (!closed_ && queue_.empty())\n    cv_.wait(lock);\n  if (queue_.empty())"))
m("pool_stop_no_close", "C13", "portable_concurrency.cpp", ("  stopped_.store(true, std::memory_order_relaxed);\n  queue_.close();", "  queue_.close();\n  stopped_.store(true, std::memory_order_relaxed);"))
m("latch_wait_unregistered", "C14", "portable_concurrency.cpp", ("""void latch::wait() const {
  std::unique_lock<std::mutex> lock{mutex_};
  ++waiters_;
  cv_.wait(lock, [this] { return counter_ == 0; });
  if (--waiters_ == 0)
    cv_.notify_one();""", """void latch::wait() const {
  std::unique_lock<std::mutex> lock{mutex_};
  cv_.wait(lock, [this] { return counter_ == 0; });"""))
m("latch_ready_unlocked", "C14", "portable_concurrency.cpp", ("bool latch::is_ready() const noexcept {\n  std::lock_guard<std::mutex> lock{mutex_};", "bool latch::is_ready() const noexcept {"))
m("latch_leave_unlocked", "C14", "portable_concurrency.cpp", ("""void latch::wait() const {
  std::unique_lock<std::mutex> lock{mutex_};
  ++waiters_;
  cv_.wait(lock, [this] { return counter_ == 0; });
  if (--waiters_ == 0)
    cv_.notify_one();""", """void latch::wait() const {
  std::unique_lock<std::mutex> lock{mutex_};
  ++waiters_;
  cv_.wait(lock, [this] { return counter_ == 0; });
  const bool last = --waiters_ == 0;
  lock.unlock();
  if (last)
    cv_.notify_one();"""))
m("latch_last_notify_one", "C14", "portable_concurrency.cpp", ("  if (--counter_ == 0) {\n    --waiters_;\n    cv_.notify_all();", "  if (--counter_ == 0) {\n    if (--waiters_ > 0)\n      cv_.notify_one();"))
m("func_move_leak", "C15", "small_unique_function.hpp", ("""  if (rhs.vtbl_)
    rhs.vtbl_->move(rhs.buffer_, buffer_);
  vtbl_ = rhs.vtbl_;
}""", """  if (rhs.vtbl_)
    rhs.vtbl_->move(rhs.buffer_, buffer_);
  vtbl_ = rhs.vtbl_;
  rhs.vtbl_ = nullptr;
}"""))
m("func_assign_no_destroy", "C15", "small_unique_function.hpp", ("""  if (vtbl_)
    vtbl_->destroy(buffer_);
  if (rhs.vtbl_)""", """  if (vtbl_ && !rhs.vtbl_)
    vtbl_->destroy(buffer_);
  if (rhs.vtbl_)"""))
m("func_null_check_late", "C15", "small_unique_function.hpp", ("  if (detail::is_null(f))\n    return;\n  new", "  new"))
m("func_storable_throwing_move", "C15", "small_unique_function.hpp", ("std::is_nothrow_move_constructible<F>::value>;", "std::is_move_constructible<F>::value>;"))
m("func_align", "C15", "small_unique_function.hpp", ("bool, alignof(is_storable_helper<F>) <= small_buffer_align &&\n              sizeof", "bool, sizeof"))
m("list_delete_order", "C16", "once_consumable_stack.hpp", ("    p = p->next;\n    to_delete->deallocate_self();", "    to_delete->deallocate_self();\n    p = to_delete->next;"))
m("stack_dtor_head_only", "C16", "once_consumable_stack.hpp", ("    forward_list<T>{head};", "    head->deallocate_self();"))
m("get_future_consumes", "C17", "promise.h", ("""    if (state_.state() == 2u)
      throw_already_retrieved();
    auto state = get_state();
    state_.emplace(in_place_index_t<2>{}, state);""", """    auto state = get_state();
    if (state_.state() == 2u) {
      state_.clean();
      throw_already_retrieved();
    }
    state_.emplace(in_place_index_t<2>{}, state);"""))
m("task_clean_on_success", "C18", "packaged_task.h", ("""    scope_either_cleaner<decltype(func)> claner{func};
    ::portable_concurrency::cxx14_v1::detail::set_state_value(
        state_ptr, func.get(detail::in_place_index_t<1>{}),
        std::forward<A>(a)...);""", """    ::portable_concurrency::cxx14_v1::detail::set_state_value(
        state_ptr, func.get(detail::in_place_index_t<1>{}),
        std::forward<A>(a)...);
    if (!state.exception())
      func.clean();"""))
m("either_state_first", "C18", "either.h", ("    new (&storage_) at_t<I - 1, T...>(std::forward<A>(a)...);\n    state_ = I;", "    state_ = I;\n    new (&storage_) at_t<I - 1, T...>(std::forward<A>(a)...);"))
m("alloc_push_default", "C19", "shared_state.h", ("continuations().push(std::move(cnt),\n                                                               get_allocator());", "continuations().push(std::move(cnt));"))
m("alloc_node_default", "C19", "once_consumable_stack.h", ("node_allocator alloc{std::move(get_allocator())};\n      std::allocator_traits<node_allocator>::destroy(alloc, this);", "std::allocator_traits<Alloc>::destroy(get_allocator(), this);\n      node_allocator alloc{get_allocator()};"))
m("alloc_construct_leak", "C19", "once_consumable_stack.h", ("    std::allocator_traits<node_allocator>::deallocate(nalloc, result, 1);\n    throw;", "    throw;"))
m("coro_resume_ready", "C20", "future.hpp", ("""  state_->push(std::move(handle));
}""", """  state_->push(handle);
  if (is_ready())
    handle.resume();
}"""))
m("coro_shared_ready_drop", "C20", "shared_future.hpp", ("""  state_->push(std::move(handle));
}""", """  if (!is_ready())
    state_->push(std::move(handle));
}"""))
m("coro_exception_swallow", "C20", "promise.h", ("void unhandled_exception() { set_exception(std::current_exception()); }\n  void return_void()", "void unhandled_exception() {\n    if (!is_awaiten())\n      throw;\n    set_value();\n  }\n  void return_void()"))
m("async_ref_args", "C21", "async.h", ("std::tuple<std::decay_t<A>...> args_;", "std::tuple<A...> args_;"))
m("async_call_lvalue", "C21", "async.h", ("std::move(std::get<I>(args_))...", "std::get<I>(args_)..."))
m("shared_next_move", "C22", "then.hpp", ("""    set_state_value(state, std::move(f),
                    static_cast<cref_t<T>>(parent->value_ref()));""", """    set_state_value(state, std::move(f), std::move(parent->value_ref()));"""))
m("shared_next_move_unwrap", "C22", "then.hpp", ("""              std::move(f), static_cast<cref_t<T>>(parent->value_ref()))));""", """              std::move(f), std::move(parent->value_ref()))));"""))
m("unwrap_strong", "C09", "shared_state.h", ("val->continuations().push([wself = std::weak_ptr<shared_state>(self)] {\n        if (auto self = wself.lock())\n          self->continuations().execute();", "val->continuations().push([self] {\n          self->continuations().execute();"))
m("abandon_unwrap", "C09", "shared_state.h", ("if (!continuations().executed() && storage_.state() != 2)", "if (!continuations().executed())"))
m("abandon_unwrap2", "C09", "shared_state.h", ("if (!continuations().executed() && storage_.state() != 2)\n      set_exception(make_broken_promise());", "if (!continuations().executed()) {\n      storage_.clean();\n      set_exception(make_broken_promise());\n    }"))
m("emplace_before_check", "C01", "shared_state.h", ("""    if (!storage_.empty())
      throw_already_satisfied();
    storage_.emplace(in_place_index_t<3>{}, error);""", """    if (this->continuations().executed() && storage_.state() == 3)
      throw_already_satisfied();
    storage_.emplace(in_place_index_t<3>{}, error);"""))
m("get_no_move_state", "C16", "future.hpp", ("""  wait();
  auto state = std::move(state_);
  return std::move(state->value_ref());""", """  wait();
  T res = std::move(state_->value_ref());
  state_ = nullptr;
  return static_cast<T &&>(res);"""))
m("cancel_always", "C07", "promise.h", ("    if (!this->continuations().executed())\n      cancel_action();", "    if (!this->continuations().executed() || this->exception())\n      cancel_action();"))
m("detach_raw", "C07", "shared_future.hpp", ("""  auto &state_ref = *state_;
  state_ref.push([captured_state = state_] {});""", """  if (state_.use_count() == 1)
    state_->push([captured_state = state_] {});"""))
m("notify_exec_lost", "C03", "shared_future.hpp", ("""        post(exec, std::move(notification));
      });""", """        if (exec_ready(exec))
          post(exec, std::move(notification));
      });"""))
m("execute_one_by_one", "C03", "once_consumable_stack.hpp", ("""  auto *curr_head =
      head_.exchange(consumed_marker(), std::memory_order_acq_rel);
  if (curr_head""", """  auto *curr_head = head_.load(std::memory_order_acquire);
  head_.store(consumed_marker(), std::memory_order_release);
  if (curr_head"""))
m("cnt_schedule_early_clean", "C06", "then.hpp", ("""    if (auto data = wdata.lock())
      data->abandon();""", """    if (wdata.use_count() > 1)
      return;
    if (auto data = wdata.lock())
      data->abandon();"""))
m("then_take_exec_copy", "C16", "then.hpp", ("""    E exec = std::move(self->exec.get(in_place_index_t<1>{}));
    self->exec.clean();""", """    E exec = std::move(self->exec.get(in_place_index_t<1>{}));"""))


# ---- second batch -------------------------------------------------------------------------------
OCS, SS, TH, FU, SF, PR, PT, PC, WA, WN, UT, CQ, TW, LA, SUF, EI = ("once_consumable_stack.hpp", "shared_state.h", "then.hpp", "future.hpp", "shared_future.hpp", "promise.h", "packaged_task.h", "portable_concurrency.cpp", "when_all.h", "when_any.h", "utils.h", "closable_queue.hpp", "timed_waiter.h", "latch.h", "small_unique_function.hpp", "either.h")
m("consume_load_store", "C03", OCS, ("head_.exchange(consumed_marker(), std::memory_order_acq_rel);", "head_.load(std::memory_order_acquire);\n  head_.store(consumed_marker(), std::memory_order_release);"))
m("push_race_lost_item", "C03", OCS, ("      node->next = nullptr;\n      return false;", "      node->next = nullptr;\n      return true;"))
m("push_single_retry", "C03", OCS, ("""  while (!head_.compare_exchange_strong(node->next, node.get(),
                                        std::memory_order_acq_rel)) {
    if (node->next == consumed_marker()) {
      node->next = nullptr;
      return false;
    }
  }""", """  if (!head_.compare_exchange_strong(node->next, node.get(),
                                     std::memory_order_acq_rel)) {
    if (node->next == consumed_marker()) {
      node->next = nullptr;
      return false;
    }
    head_.store(node.get(), std::memory_order_release);
  }"""))
m("exec_first_error_stops", "C18", PC, ("""      if (!error)
        error = std::current_exception();
    }""", """      if (!error)
        error = std::current_exception();
      break;
    }"""))
m("set_exception_publish_first", "C02", SS, ("    storage_.emplace(in_place_index_t<3>{}, error);\n    this->continuations().execute();", "    auto &c = this->continuations();\n    if (c.executed())\n      return;\n    storage_.emplace(in_place_index_t<3>{}, std::exception_ptr{});\n    storage_.get(in_place_index_t<3>{}).swap(error);\n    c.execute();"))
m("emplace_check_executed", "C01", SS, ("  template <typename... U> void emplace(U &&...u) {\n    if (!storage_.empty())", "  template <typename... U> void emplace(U &&...u) {\n    if (continuations_.executed())"))
m("set_exception_check_executed", "C09", SS, ("  void set_exception(std::exception_ptr error) {\n    if (!storage_.empty())", "  void set_exception(std::exception_ptr error) {\n    if (continuations_.executed())"))
m("unwrap_push_first", "C09", SS, ("""    self->storage_.emplace(in_place_index_t<2>{}, val);
    try {""", """    try {"""), ("""          self->continuations().execute();
      });
    } catch (...) {""", """          self->continuations().execute();
      });
      if (self->storage_.empty())
        self->storage_.emplace(in_place_index_t<2>{}, val);
    } catch (...) {"""), ("        if (auto self = wself.lock())\n          self->continuations().execute();", "        if (auto self = wself.lock()) {\n          self->continuations().execute();\n        }"))
m("unwrap_ready_fastpath_race", "C09", SS, ("    self->storage_.emplace(in_place_index_t<2>{}, val);\n    try {", "    self->storage_.emplace(in_place_index_t<2>{}, val);\n    if (!val->continuations().executed() && self.use_count() == 1)\n      return;\n    try {"))
m("abandon_no_notify_value", "C06", SS, ("    if (!continuations().executed() && storage_.state() != 2)\n      set_exception(make_broken_promise());", "    if (!continuations().executed() && storage_.state() != 2)\n      storage_.emplace(in_place_index_t<3>{}, make_broken_promise());"))
m("cnt_action_not_consumed", "C06", TH, ("CntState::run(std::exchange(wdata, {}));", "CntState::run(wdata);"))
m("cnt_action_assign_no_abandon", "C06", TH, ("    cnt_action tmp{std::move(rhs)};\n    std::swap(wdata, tmp.wdata);", "    wdata = std::move(rhs.wdata);"))
m("cnt_abandon_order", "C07", TH, ("    state.abandon();\n    action.clean();", "    action.clean();\n    if (exec.empty())\n      state.abandon();"))
m("cnt_schedule_exec_kept", "C16", TH, ("    E exec = std::move(self->exec.get(in_place_index_t<1>{}));\n    self->exec.clean();", "    E exec = std::move(self->exec.get(in_place_index_t<1>{}));"))
m("cnt_schedule_inplace_lock", "C07", TH, ("    std::weak_ptr<cnt_state> wstate = std::exchange(self, nullptr);\n    post(exec, cnt_action<cnt_state>{std::move(wstate)});", "    std::weak_ptr<cnt_state> wstate = self;\n    post(exec, cnt_action<cnt_state>{std::move(wstate)});"))
m("next_error_rethrow", "C08", TH, ("""    if (auto error = parent->exception()) {
      state->set_exception(std::move(error));
      return;
    }
    set_state_value(state, std::move(f));""", """    if (auto error = parent->exception()) {
      state->set_exception(std::make_exception_ptr(std::runtime_error("failed")));
      return;
    }
    set_state_value(state, std::move(f));"""))
m("void_next_unwrap_ignores_error", "C08", TH, ("""    if (auto error = parent->exception()) {
      state->set_exception(std::move(error));
      return;
    }
    try {
      shared_state<R>::unwrap(state, state_of(this_ns::invoke(std::move(f))));""", """    try {
      shared_state<R>::unwrap(state, state_of(this_ns::invoke(std::move(f))));"""))
m("shared_next_unwrap_ignores_error", "C09", TH, ("""    if (auto error = parent->exception()) {
      state->set_exception(std::move(error));
      return;
    }
    try {
      shared_state<R>::unwrap(
          state,
          state_of(this_ns::invoke(
              std::move(f), static_cast""", """    try {
      if (parent->exception())
        throw std::future_error(std::future_errc::broken_promise);
      shared_state<R>::unwrap(
          state,
          state_of(this_ns::invoke(
              std::move(f), static_cast"""))
m("unique_next_parent_kept", "C16", TH, ("""    set_state_value(state, std::move(f), std::move(parent->value_ref()));
  };""", """    static thread_local std::shared_ptr<future_state<T>> last;
    last = parent;
    set_state_value(state, std::move(f), std::move(parent->value_ref()));
  };"""))
m("all_no_selfcount", "C10", WA, ("operations_remains_(sequence_traits<Sequence>::size(futures_) + 1) {}", "operations_remains_(sequence_traits<Sequence>::size(futures_)) {}"), ("    state->notify();\n    return state;", "    if (sequence_traits<Sequence>::size(state->futures_) == 0)\n      state->continuations_.execute();\n    return state;"))
m("all_count_ready_skip", "C10", WA, ("    sequence_traits<Sequence>::for_each(state->futures_, [state](auto &f) {\n", "    sequence_traits<Sequence>::for_each(state->futures_, [state](auto &f) {\n      if (state_of(f)->continuations().executed()) {\n        state->operations_remains_ = state->operations_remains_ - 1;\n        return;\n      }\n"))
m("all_weak_state", "C10", WA, ("continuations().push([state] { state->notify(); });", "continuations().push([w = std::weak_ptr<when_all_state>{state}] {\n        if (auto s = w.lock())\n          s->notify();\n      });"))
m("all_last_ready_check", "C10", WA, ("    if (--operations_remains_ != 0)\n      return;\n", "    if (--operations_remains_ > 0)\n      return;\n    if (continuations_.executed())\n      return;\n"))
m("any_index_after", "C11", WN, ("    result_.index = pos;\n    continuations_.execute();", "    continuations_.execute();\n    result_.index = pos;"))
m("any_test_then_set", "C11", WN, ("    if (ready_flag_.test_and_set())\n      return;\n    result_.index = pos;", "    if (result_.index != static_cast<std::size_t>(-1))\n      return;\n    ready_flag_.test_and_set();\n    result_.index = pos;"))
m("any_weak_state", "C11", WN, ("              [state, pos = idx++] { state->notify(pos); });", "              [w = std::weak_ptr<when_any_state>{state}, pos = idx++] {\n                if (auto s = w.lock())\n                  s->notify(pos);\n              });"))
m("any_stop_subscribing", "C11", WN, ("        state->result_.futures, [state, &idx](auto &f) mutable {\n", "        state->result_.futures, [state, &idx](auto &f) mutable {\n          if (state->continuations_.executed()) {\n            state->result_.index = idx++;\n            return;\n          }\n"))
m("promise_self_share", "C07", PR, ("      bool operator()(const std::weak_ptr<shared_state<T>> &val) const {\n        return !val.expired();\n      }", "      bool operator()(const std::weak_ptr<shared_state<T>> &val) const {\n        return val.use_count() > 0 && !val.lock()->continuations().executed();\n      }"))
m("promise_abandon_unretrieved", "C07", PR, ("      void operator()(const std::shared_ptr<shared_state<T>> &) {}\n      void operator()(monostate) {}", "      void operator()(const std::shared_ptr<shared_state<T>> &s) {\n        if (s.use_count() == 1)\n          s->abandon();\n      }\n      void operator()(monostate) {}"))
m("cancel_copy_action", "C16", PR, ("      : shared_state<T>{}, cancel_action{std::move(action)} {}", "      : shared_state<T>{}, cancel_action{action} {}"))
m("task_run_func_moved", "C21", PT, ("        state_ptr, func.get(detail::in_place_index_t<1>{}),", "        state_ptr, std::decay_t<F>(func.get(detail::in_place_index_t<1>{})),"))
m("task_no_cleaner", "C16", PT, ("    scope_either_cleaner<decltype(func)> claner{func};\n", "    if (executed_)\n      throw_already_satisfied();\n    executed_ = true;\n"), ("  shared_state<R> state;\n};\n\n} // namespace detail", "  shared_state<R> state;\n  bool executed_ = false;\n};\n\n} // namespace detail"))
m("task_abandon_state_only", "C16", PT, ("    func.clean();\n    state.abandon();", "    state.abandon();"))
m("task_swap_copy", "C17", PT, ("std::swap(state_, other.state_); }", "auto tmp = std::move(other.state_);\n    if (!state_.empty())\n      other.state_ = std::move(state_);\n    state_ = std::move(tmp); }"))
m("task_valid_weak", "C17", PT, ("bool valid() const noexcept { return !state_.empty(); }", "bool valid() const noexcept {\n    return state_.state() == 1u ||\n           (state_.state() == 2u &&\n            !state_.get(detail::in_place_index_t<2>{}).expired());\n  }"))
m("set_value_void_swallow", "C08", UT, ("""    ::portable_concurrency::cxx14_v1::detail::invoke(std::forward<F>(f),
                                                     std::forward<A>(a)...);
    state->emplace();
  } catch (...) {""", """    ::portable_concurrency::cxx14_v1::detail::invoke(std::forward<F>(f),
                                                     std::forward<A>(a)...);
    state->emplace();
  } catch (const std::bad_alloc &) {
    throw;
  } catch (...) {"""))
m("set_value_exc_always", "C18", UT, ("""    shared_state<R>::unwrap(state, std::move(res));
  } catch (...) {
    // Result is stored, the exception is thrown by some continuation
    if (state->continuations().executed())
      throw;
""", """    shared_state<R>::unwrap(state, std::move(res));
  } catch (...) {
"""))
m("pool_pop_stop_drop", "C12", PC, ("    if (!queue.pop(task))\n      break;\n    task();", "    if (!queue.pop(task))\n      break;\n    if (stopped.load(std::memory_order_relaxed) && false)\n      break;\n    std::exchange(task, nullptr)();"))
m("pool_task_outlives", "C12", PC, ("  while (!stopped.load(std::memory_order_relaxed)) {\n    unique_function<void()> task;\n", "  unique_function<void()> task;\n  while (!stopped.load(std::memory_order_relaxed)) {\n"))
m("pool_wait_no_leaving", "C13", PC, ("  cv_.wait(lock, [&] { return leaving_threads_ == 0; });", "  cv_.wait(lock, [&] { return attached_threads_ == 0; });"))
m("pool_attach_leave_unlocked", "C13", PC, ("  if (--leaving_threads_ == 0)\n    cv_.notify_all();\n}", "  const bool last = --leaving_threads_ == 0;\n  lock.unlock();\n  if (last)\n    cv_.notify_all();\n}"))
m("pool_attach_notify_one", "C13", PC, ("  if (--attached_threads_ == 0)\n    cv_.notify_all();", "  if (--attached_threads_ == 0)\n    cv_.notify_one();"))
m("pool_attach_count_late", "C13", PC, ("    ++attached_threads_;\n    ++leaving_threads_;\n  }\n  process_queue(queue_, stopped_);", "    ++attached_threads_;\n  }\n  process_queue(queue_, stopped_);\n  {\n    std::lock_guard<std::mutex> lock{mutex_};\n    ++leaving_threads_;\n  }"))
m("pool_stop_after_close", "C12", PC, ("  stopped_.store(true, std::memory_order_relaxed);\n  queue_.close();", "  queue_.close();"))
m("queue_pop_notify_skip", "C13", CQ, ("  if (closed_ && queue_.empty())\n    return false;", "  if (closed_)\n    return false;"))
m("queue_close_unlocked", "C13", CQ, ("  std::lock_guard<std::mutex> guard(mutex_);\n  closed_ = true;\n  cv_.notify_all();", "  {\n    std::lock_guard<std::mutex> guard(mutex_);\n    closed_ = true;\n  }\n  cv_.notify_all();"))
m("queue_pop_no_swap", "C12", CQ, ("  std::swap(dest, queue_.front());\n  queue_.pop();", "  dest = std::move(queue_.front());\n  queue_.pop();"))
m("timed_notify_one", "C05", TW, ("      waiter->cv.notify_all();", "      waiter->cv.notify_one();"))
m("timed_shared_no_lock", "C05", TW, ("""      : waiter_{std::make_shared<waiter>()} {
    fut.notify([waiter = waiter_] {
      {
        std::lock_guard<std::mutex> lock{waiter->mutex};
        waiter->notified = true;
      }""", """      : waiter_{std::make_shared<waiter>()} {
    fut.notify([waiter = waiter_] {
      waiter->notified = true;"""))
m("timed_until_zero", "C05", TW, ("    return waiter_->cv.wait_until(lk, tp, [&] { return waiter_->notified; })\n               ? future_status::ready", "    if (tp <= Clock::now())\n      return future_status::timeout;\n    return waiter_->cv.wait_until(lk, tp, [&] { return waiter_->notified; })\n               ? future_status::ready"))
m("timed_for_zero", "C05", TW, ("    std::unique_lock<std::mutex> lk{waiter_->mutex};\n    return waiter_->cv.wait_for(", "    if (dur <= dur.zero())\n      return future_status::timeout;\n    std::unique_lock<std::mutex> lk{waiter_->mutex};\n    return waiter_->cv.wait_for("))
m("latch_count_if_last_one", "C14", PC, ("  if (--counter_ == 0) {\n    --waiters_;\n    cv_.notify_all();\n    return;\n  }", "  if (--counter_ == 0) {\n    if (--waiters_ != 0)\n      cv_.notify_one();\n    return;\n  }"))
m("latch_count_down_unlocked_notify", "C14", PC, ("  std::lock_guard<std::mutex> lock{mutex_};\n  assert(counter_ >= n);\n  assert(n >= 0);\n  counter_ -= n;\n  if (counter_ > 0)\n    return;", "  std::unique_lock<std::mutex> lock{mutex_};\n  assert(counter_ >= n);\n  assert(n >= 0);\n  counter_ -= n;\n  if (counter_ > 0)\n    return;\n  lock.unlock();"))
m("latch_wait_if", "C14", PC, ("void latch::wait() const {\n  std::unique_lock<std::mutex> lock{mutex_};\n  ++waiters_;\n  cv_.wait(lock, [this] { return counter_ == 0; });", "void latch::wait() const {\n  std::unique_lock<std::mutex> lock{mutex_};\n  ++waiters_;\n  if (counter_ != 0)\n    cv_.wait(lock);"))
m("latch_dtor_no_wait", "C14", PC, ("  cv_.wait(lock, [this] { return waiters_ == 0; });", "  cv_.wait(lock, [this] { return counter_ == 0 || waiters_ == 0; });"))
m("latch_wait_early_return", "C14", PC, ("void latch::wait() const {\n  std::unique_lock<std::mutex> lock{mutex_};\n  ++waiters_;\n", "void latch::wait() const {\n  if (counter_ == 0)\n    return;\n  std::unique_lock<std::mutex> lock{mutex_};\n  ++waiters_;\n"))
m("latch_count_negative", "C14", PC, ("  if (counter_ > 0)\n    return;\n", "  if (counter_ > 0 || waiters_ == 0)\n    return;\n"))
m("func_self_move", "C15", SUF, ("  if (this == &rhs)\n    return *this;\n", ""))
m("func_large_null", "C15", "unique_function.hpp", ("  if (detail::is_null(f))\n    return;\n  func_ =", "  func_ ="))
m("func_large_copy_call", "C15", "unique_function.hpp", ("    return detail::invoke(*func, std::forward<A>(a)...);", "    return detail::invoke(std::move(*func), std::forward<A>(a)...);"))
m("func_arg_copy", "C15", SUF, ("                reinterpret_cast<F &>(buf), std::forward<A>(a)...));\n#else", "                reinterpret_cast<F &>(buf), a...));\n#else"))
m("func_move_empty", "C15", SUF, ("    small_unique_function<R(A...)> &&rhs) noexcept {\n  if (rhs.vtbl_)\n    rhs.vtbl_->move(rhs.buffer_, buffer_);\n  vtbl_ = rhs.vtbl_;\n}", "    small_unique_function<R(A...)> &&rhs) noexcept {\n  if (rhs.vtbl_)\n    rhs.vtbl_->move(rhs.buffer_, buffer_);\n  vtbl_ = rhs.vtbl_;\n  rhs.vtbl_ = nullptr;\n}"))
m("either_assign_self", "C16", EI, ("    clean();\n    new (&storage_) at_t<I - 1, T...>(std::forward<A>(a)...);\n    state_ = I;", "    if (state_ != I)\n      clean();\n    new (&storage_) at_t<I - 1, T...>(std::forward<A>(a)...);\n    state_ = I;"))
m("either_move_leave", "C17", EI, ("                 : false)...};\n    src.clean();", "                 : false)...};"))
m("shared_get_copy_state", "C22", SF, ("  wait();\n  return state_->value_ref();", "  if (state_->continuations().executed())\n    return state_->value_ref();\n  wait();\n  static thread_local std::shared_ptr<detail::future_state<T>> keep;\n  keep = state_;\n  return state_->value_ref();"))
m("shared_then_moves_state", "C22", SF, ("      [f = std::forward<F>(f), parent = state_](", "      [f = std::forward<F>(f), parent = std::move(state_)]("))
m("shared_detach_keep", "C17", SF, ("  state_ref.push([captured_state = state_] {});\n  return std::move(*this);", "  state_ref.push([captured_state = state_] {});\n  return *this;"))
m("future_share_keep", "C17", "shared_future.hpp", ("    : state_(std::move(rhs.state_)) {}", "    : state_(rhs.state_) {}"))
m("future_get_keep_on_error", "C17", FU, ("  wait();\n  auto state = std::move(state_);\n  return std::move(state->value_ref());", "  wait();\n  auto &res = state_->value_ref();\n  auto state = std::move(state_);\n  return std::move(res);"))
m("future_void_get_keep_on_error", "C17", PC, ("  wait();\n  auto state = std::move(state_);\n  state->value_ref();", "  wait();\n  state_->value_ref();\n  state_.reset();"))
m("detach_weak", "C07", FU, ("  state_ref.push([captured_state = state_] {});", "  state_ref.push([captured_state = std::weak_ptr<detail::future_state<T>>(state_)] {});"))
m("make_exc_ref", "C01", "make_future.h", ("template <typename T, typename E> future<T> make_exceptional_future(E error) {\n  promise<T> promise;\n  promise.set_exception(std::make_exception_ptr(error));", "template <typename T, typename E> future<T> make_exceptional_future(E error) {\n  promise<T> promise;\n  try {\n    promise.set_exception(std::make_exception_ptr<const E &>(error));\n  } catch (...) {\n  }"))
m("seq_tuple_reverse", "C10", "future_sequence.h", ("    swallow{((void)(func(std::get<I>(seq))), 0)...};", "    swallow{((void)(func(std::get<sizeof...(I) - 1 - I>(seq))), 0)...};"))
m("seq_tuple_reverse_any", "C11", "future_sequence.h", ("    swallow{((void)(func(std::get<I>(seq))), 0)...};", "    swallow{((void)(func(std::get<sizeof...(I) - 1 - I>(seq))), 0)...};"))
m("coro_await_suspend_default_alloc", "C19", FU, ("  state_->push(std::move(handle));", "  state_->continuations().push(std::move(handle));"))
m("detach_default_alloc", "C19", FU, ("  state_ref.push([captured_state = state_] {});", "  state_ref.continuations().push([captured_state = state_] {});"))
m("wait_default_alloc", "C19", PC, ("  state.push([&] {", "  state.continuations().push([&] {"))
m("alloc_state_default", "C19", PR, ("  auto state = std::allocate_shared<detail::allocated_state<T, Alloc>>(\n      allocator, allocator);\n  auto state_weak", "  auto state = std::allocate_shared<detail::allocated_state<T, Alloc>>(\n      Alloc(), allocator);\n  auto state_weak"))
m("alloc_promise_default", "C19", PR, ("               std::allocate_shared<allocated_state<T, Alloc>>(allocator,\n                                                               allocator)} {}", "               std::make_shared<allocated_state<T, Alloc>>(allocator)} {}"))
m("coro_return_move_twice", "C20", PR, ("  void return_value(T &&val) { set_value(std::move(val)); }", "  void return_value(T &&val) {\n    if (is_awaiten())\n      set_value(static_cast<const T &>(val));\n  }"))
m("coro_shared_suspend_self", "C20", SF, ("  state_->push(std::move(handle));", "  state_->push([handle, keep = state_.get()]() mutable {\n    if (keep->continuations().executed())\n      handle.resume();\n  });"))
m("async_func_copy", "C21", "async.h", ("    return this_ns::invoke(std::move(func_), std::move(std::get<I>(args_))...);", "    auto f = func_;\n    return this_ns::invoke(std::move(f), std::move(std::get<I>(args_))...);"))
m("async_args_forward_order", "C21", "async.h", ("std::move(std::get<I>(args_))...);\n  }", "std::get<I>(args_)...);\n  }"))
m("unwrap_exc_null", "C09", SS, ("        return val->exception();", "        if (val.use_count() > 1)\n          return val->exception();\n        return nullptr;"))
m("unwrap_catch_std", "C18", "then.hpp", ("""              std::move(f), static_cast<cref_t<T>>(parent->value_ref()))));
    } catch (...) {""", """              std::move(f), static_cast<cref_t<T>>(parent->value_ref()))));
    } catch (const std::exception &) {"""))
m("async_func_ref", "C21", "async.h", ("  std::decay_t<F> func_;", "  std::conditional_t<std::is_function<std::remove_reference_t<F>>::value,\n                     std::decay_t<F>, F>\n      func_;"))
m("notify_exec_ref", "C16", "future.hpp", ("      [exec = std::forward<E>(exec),\n       notification", "      [&exec,\n       notification"))
m("all_range_moves_shared", "C10", "when_all.h", ("::make(Sequence{first, last})};", "::make(\n      Sequence{std::make_move_iterator(first), std::make_move_iterator(last)})};"))
m("any_range_moves_shared", "C11", "when_any.h", ("Sequence{first, last}", "Sequence{std::make_move_iterator(first), std::make_move_iterator(last)}"))
m("all_args_move", "C10", "when_all.h", ("Sequence{std::forward<Futures>(futures)...}", "Sequence{std::move(futures)...}"))
m("any_args_move", "C11", "when_any.h", ("Sequence{std::forward<Futures>(futures)...}", "Sequence{std::move(futures)...}"))
m("large_null_check", "C15", "unique_function.hpp", ("  if (detail::is_null(f))\n    return;\n", ""))
m("then_promise_keeps_state", "C07", "future.hpp", ("promise<result_type> p{std::exchange(state, nullptr)};", "promise<result_type> p{state};"))
m("shared_then_promise_keeps_state", "C07", "shared_future.hpp", ("promise<result_type> p{std::exchange(state, nullptr)};", "promise<result_type> p{state};"))
m("then_parent_copy", "C16", "then.hpp", ("set_state_value(state, std::move(f), future<T>{std::move(parent)});", "set_state_value(state, std::move(f),\n                    future<T>{std::shared_ptr<future_state<T>>{parent}});"))
m("next_parent_kept", "C16", "then.hpp", ("    F func = std::move(self->action.get(in_place_index_t<1>{}));\n    self->action.clean();", "    F func = std::move(self->action.get(in_place_index_t<1>{}));"))
m("schedule_exec_kept", "C16", "then.hpp", ("    self->exec.clean();\n", ""))
m("void_get_no_wait", "C04", "portable_concurrency.cpp", ("  wait();\n  auto state = std::move(state_);\n  state->value_ref();", "  if (!is_ready())\n    wait();\n  auto state = std::move(state_);\n  if (state->exception())\n    state->value_ref();"))
m("run_func_lvalue_move", "C21", "packaged_task.h", ("state_ptr, func.get(detail::in_place_index_t<1>{}),", "state_ptr, std::move(func.get(detail::in_place_index_t<1>{})),"))
m("task_abandon_keep_func", "C06", "packaged_task.h", ("    func.clean();\n    state.abandon();", "    if (func.state() != 0)\n      state.abandon();\n    func.clean();"))
m("promise_assign_no_abandon", "C06", "promise.h", ("    abandon();\n    state_ = std::move(rhs.state_);", "    if (!rhs.state_.empty())\n      abandon();\n    state_ = std::move(rhs.state_);"))
m("task_assign_no_abandon", "C06", "packaged_task.h", ("    if (auto state = get_state(false))\n      state->abandon();\n    state_ = std::move(rhs.state_);", "    if (rhs.valid())\n      if (auto state = get_state(false))\n        state->abandon();\n    state_ = std::move(rhs.state_);"))
m("is_awaiten_shared", "C07", "promise.h", ("        return !val.expired();", "        return val.use_count() > 1;"))
m("shared_get_twice_move", "C22", "shared_future.hpp", ("  wait();\n  return state_->value_ref();", "  if (!is_ready())\n    wait();\n  auto state = state_;\n  return state->value_ref();"))
m("cancel_on_exception", "C07", "promise.h", ("    if (!this->continuations().executed())\n      cancel_action();", "    if (!this->continuations().executed() || this->exception())\n      cancel_action();"))
m("cnt_assign_swap", "C07", "then.hpp", ("    cnt_action tmp{std::move(rhs)};\n    std::swap(wdata, tmp.wdata);", "    std::swap(wdata, rhs.wdata);"))
m("detach_only_not_ready", "C07", "future.hpp", ("  state_ref.push([captured_state = state_] {});", "  if (state_.use_count() == 1)\n    state_ref.push([captured_state = state_] {});"))
m("wait_skip_ready_relaxed", "C02", "portable_concurrency.cpp", ("void wait(future_state_base &state) {", "void wait(future_state_base &state) {\n  if (state.continuations().executed())\n    return;"))
m("timed_for_ms", "C05", "timed_waiter.h", ("waiter_->cv.wait_for(lk, dur, [&]", "waiter_->cv.wait_for(lk, std::chrono::duration_cast<std::chrono::milliseconds>(dur), [&]"))
m("timed_until_ms", "C05", "timed_waiter.h", ("waiter_->cv.wait_until(lk, tp, [&]", "waiter_->cv.wait_until(lk, std::chrono::time_point_cast<std::chrono::milliseconds>(tp), [&]"))
m("timed_until_rel", "C05", "timed_waiter.h", ("    return waiter_->cv.wait_until(lk, tp, [&] { return waiter_->notified; })", "    return waiter_->cv.wait_for(lk, tp - Clock::now(), [&] { return waiter_->notified; })"))
m("timed_for_single", "C05", "timed_waiter.h", ("    return waiter_->cv.wait_for(lk, dur, [&] { return waiter_->notified; })", "    if (!waiter_->notified && dur > dur.zero())\n      waiter_->cv.wait_until(lk, std::chrono::steady_clock::now() + dur);\n    return waiter_->notified"))
m("timed_zero_timeout", "C05", "timed_waiter.h", ("    std::unique_lock<std::mutex> lk{waiter_->mutex};\n    return waiter_->cv.wait_for", "    if (dur <= dur.zero())\n      return future_status::timeout;\n    std::unique_lock<std::mutex> lk{waiter_->mutex};\n    return waiter_->cv.wait_for"))
m("timed_past_timeout", "C05", "timed_waiter.h", ("    std::unique_lock<std::mutex> lk{waiter_->mutex};\n    return waiter_->cv.wait_until", "    if (tp <= Clock::now())\n      return future_status::timeout;\n    std::unique_lock<std::mutex> lk{waiter_->mutex};\n    return waiter_->cv.wait_until"))
m("future_wait_for_zero", "C05", "future.hpp", ("  timed_waiter waiter{const_cast<future<T> &>(*this)};\n  return waiter.wait_for(rel_time);", "  if (rel_time <= rel_time.zero())\n    return is_ready() ? future_status::ready : future_status::timeout;\n  timed_waiter waiter{const_cast<future<T> &>(*this)};\n  return waiter.wait_for(rel_time);"))
m("pool_throw_leaves_attach", "C12", "portable_concurrency.cpp", ("  const std::atomic<bool> &stopped\n) noexcept {", "  const std::atomic<bool> &stopped\n) {"))
m("then_promise_swallow", "C18", "future.hpp", ("        promise<result_type> p{std::exchange(state, nullptr)};\n        ::portable_concurrency::detail::invoke(f, std::move(p),\n                                               future<T>{std::move(parent)});", "        promise<result_type> p{std::exchange(state, nullptr)};\n        try {\n          ::portable_concurrency::detail::invoke(f, std::move(p),\n                                                 future<T>{std::move(parent)});\n        } catch (const std::exception &) {\n          // nobody is interested in the result any more\n        }"))
m("pool_swallow", "C12", "portable_concurrency.cpp", ("    task();\n  }", "    try { task(); } catch (...) {}\n  }"))
m("pool_stop_keeps_open", "C13", "portable_concurrency.cpp", ("  stopped_.store(true, std::memory_order_relaxed);\n  queue_.close();\n}", "  stopped_.store(true, std::memory_order_relaxed);\n}"))
