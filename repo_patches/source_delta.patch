From 74cde5ae982f09dc511d2b7a196084390f0e5f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:09 +0000
Subject: [PATCH 01/14] fix: notify latch waiters before releasing the mutex

latch::count_down unlocked the mutex before notifying the waiters. A waiter
released by that very call (or by a spurious wake-up) may destroy the latch
before the notification, which then touches a destroyed condition variable.
---
 .../bits/portable_concurrency.cpp                | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 7d12602..bf6c048 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -117,14 +117,14 @@ void latch::count_down_and_wait() {
 }
 
 void latch::count_down(ptrdiff_t n) {
-  {
-    std::lock_guard<std::mutex> lock{mutex_};
-    assert(counter_ >= n);
-    assert(n >= 0);
-    counter_ -= n;
-    if (counter_ > 0)
-      return;
-  }
+  std::lock_guard<std::mutex> lock{mutex_};
+  assert(counter_ >= n);
+  assert(n >= 0);
+  counter_ -= n;
+  if (counter_ > 0)
+    return;
+  // A released thread is allowed to destroy the latch, so the notification must
+  // happen before the mutex is unlocked.
   cv_.notify_all();
 }
 
-- 
2.43.0


From a161f71bfd679da4dd7c0713a59a63295c370520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:50 +0000
Subject: [PATCH 02/14] fix: release executed thread pool task before waiting
 for the next one

---
 portable_concurrency/bits/portable_concurrency.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index bf6c048..0ab4ed1 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -88,9 +88,14 @@ void process_queue(
   detail::closable_queue<unique_function<void()>> &queue,
   const std::atomic<bool> &stopped
 ) noexcept {
-  unique_function<void()> task;
-  while (!stopped.load(std::memory_order_relaxed) && queue.pop(task))
+  // Executed task must be destroyed before the next pop: that one may block for
+  // arbitrary long time and replaces the previous value under the queue lock.
+  while (!stopped.load(std::memory_order_relaxed)) {
+    unique_function<void()> task;
+    if (!queue.pop(task))
+      break;
     task();
+  }
 }
 
 } // namespace
-- 
2.43.0


From afd5329e4292c25d8536af24f5bf04582ee0d416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:15 +0000
Subject: [PATCH 03/14] fix: wait for user threads attached to the thread pool
 before it is destroyed

---
 .../bits/portable_concurrency.cpp              | 18 ++++++++++++------
 portable_concurrency/bits/thread_pool.h        |  1 +
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 0ab4ed1..c44bf8f 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -190,14 +190,17 @@ void static_thread_pool::attach() {
   {
     std::lock_guard<std::mutex> lock{mutex_};
     ++attached_threads_;
+    ++leaving_threads_;
   }
   process_queue(queue_, stopped_);
-  {
-    std::unique_lock<std::mutex> lock{mutex_};
-    --attached_threads_;
-    cv_.wait(lock, [&] { return attached_threads_ == 0; });
-  }
-  cv_.notify_all();
+  // The pool can be destroyed as soon as the last attached thread is gone so
+  // the notifications must happen before the mutex is unlocked.
+  std::unique_lock<std::mutex> lock{mutex_};
+  if (--attached_threads_ == 0)
+    cv_.notify_all();
+  cv_.wait(lock, [&] { return attached_threads_ == 0; });
+  if (--leaving_threads_ == 0)
+    cv_.notify_all();
 }
 
 void static_thread_pool::stop() { 
@@ -212,6 +215,9 @@ void static_thread_pool::wait() {
       thread.join();
   }
   threads_.clear();
+  // Threads attached by the user can't be joined
+  std::unique_lock<std::mutex> lock{mutex_};
+  cv_.wait(lock, [&] { return leaving_threads_ == 0; });
 }
 
 } // namespace cxx14_v1
diff --git a/portable_concurrency/bits/thread_pool.h b/portable_concurrency/bits/thread_pool.h
index c3410d9..51b4ccd 100644
--- a/portable_concurrency/bits/thread_pool.h
+++ b/portable_concurrency/bits/thread_pool.h
@@ -62,6 +62,7 @@ private:
   detail::closable_queue<unique_function<void()>> queue_;
   std::vector<std::thread> threads_;
   unsigned attached_threads_ = 0;
+  unsigned leaving_threads_ = 0;
   std::mutex mutex_;
   std::condition_variable cv_;
   std::atomic<bool> stopped_{false};
-- 
2.43.0


From 03405c94f322898f77544ef02cef8568859ec95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:52 +0000
Subject: [PATCH 04/14] fix: preserve reference results of callables stored on
 the heap by unique_function

---
 portable_concurrency/bits/unique_function.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/unique_function.hpp b/portable_concurrency/bits/unique_function.hpp
index 9933172..df98fdd 100644
--- a/portable_concurrency/bits/unique_function.hpp
+++ b/portable_concurrency/bits/unique_function.hpp
@@ -33,7 +33,9 @@ unique_function<R(A...)>::unique_function(F &&f, std::false_type) {
   if (detail::is_null(f))
     return;
   func_ = [func = std::make_unique<std::decay_t<F>>(std::forward<F>(f))](
-              A... a) { return detail::invoke(*func, std::forward<A>(a)...); };
+              A... a) -> decltype(auto) {
+    return detail::invoke(*func, std::forward<A>(a)...);
+  };
 }
 
 template <typename R, typename... A>
-- 
2.43.0


From b104f6c2c5ef60f203c24c9b259ad69a95ff896c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:52 +0000
Subject: [PATCH 05/14] fix: self move assignment of unique_function must not
 destroy the stored callable

---
 portable_concurrency/bits/small_unique_function.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/portable_concurrency/bits/small_unique_function.hpp b/portable_concurrency/bits/small_unique_function.hpp
index 0aadd0a..a302af3 100644
--- a/portable_concurrency/bits/small_unique_function.hpp
+++ b/portable_concurrency/bits/small_unique_function.hpp
@@ -123,6 +123,8 @@ small_unique_function<R(A...)>::small_unique_function(
 template <typename R, typename... A>
 small_unique_function<R(A...)> &small_unique_function<R(A...)>::operator=(
     small_unique_function<R(A...)> &&rhs) noexcept {
+  if (this == &rhs)
+    return *this;
   if (vtbl_)
     vtbl_->destroy(buffer_);
   if (rhs.vtbl_)
-- 
2.43.0


From 9c46eb9287dbecb4a3500716865f65e751357584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:17 +0000
Subject: [PATCH 06/14] fix: interruptible shared_future::then must not
 invalidate the future object

---
 portable_concurrency/bits/shared_future.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/shared_future.hpp b/portable_concurrency/bits/shared_future.hpp
index 069745d..0fe53ff 100644
--- a/portable_concurrency/bits/shared_future.hpp
+++ b/portable_concurrency/bits/shared_future.hpp
@@ -191,7 +191,7 @@ shared_future<T>::then(E &&exec, F &&f) {
   detail::continuations_stack &subscriptions = state_->continuations();
   return detail::make_then_state<result_type>(
       subscriptions, std::forward<E>(exec),
-      [f = std::forward<F>(f), parent = std::move(state_)](
+      [f = std::forward<F>(f), parent = state_](
           std::shared_ptr<detail::shared_state<result_type>>
               state) mutable noexcept {
         promise<result_type> p{std::exchange(state, nullptr)};
-- 
2.43.0


From 5dfaf214150032d0e5a6e8be9da926492c7c6ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:08 +0000
Subject: [PATCH 07/14] fix: do not move from an object which a packaged_task
 function returns by reference

---
 portable_concurrency/bits/utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/utils.h b/portable_concurrency/bits/utils.h
index 6df231f..4b4bc6f 100644
--- a/portable_concurrency/bits/utils.h
+++ b/portable_concurrency/bits/utils.h
@@ -14,7 +14,7 @@ void set_state_value(std::shared_ptr<shared_state<R>> &state, F &&f, A &&...a) {
   assert(state);
   bool executed = false;
   try {
-    auto &&res = ::portable_concurrency::cxx14_v1::detail::invoke(
+    auto res = ::portable_concurrency::cxx14_v1::detail::invoke(
         std::forward<F>(f), std::forward<A>(a)...);
     executed = true;
     shared_state<R>::unwrap(state, std::move(res));
-- 
2.43.0


From 124392218a803cf79ddbde41e861884e24f4cebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:50 +0000
Subject: [PATCH 08/14] fix: abandon continuation action replaced by move
 assignment

---
 portable_concurrency/bits/then.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/then.hpp b/portable_concurrency/bits/then.hpp
index bca2740..9ddecd2 100644
--- a/portable_concurrency/bits/then.hpp
+++ b/portable_concurrency/bits/then.hpp
@@ -184,7 +184,9 @@ template <typename CntState> struct cnt_action {
   cnt_action(std::weak_ptr<CntState> wdata) : wdata(std::move(wdata)) {}
   cnt_action(cnt_action &&rhs) noexcept : wdata(std::move(rhs.wdata)) {}
   cnt_action &operator=(cnt_action &&rhs) noexcept {
-    wdata = std::move(rhs.wdata);
+    // Replaced action is destroyed together with tmp
+    cnt_action tmp{std::move(rhs)};
+    std::swap(wdata, tmp.wdata);
     return *this;
   }
 
-- 
2.43.0


From 0f07fd3e9a2617f71eec68e827ffc993f1f8797b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:49 +0000
Subject: [PATCH 09/14] fix: exception from a continuation must not discard the
 remaining ones

---
 .../bits/portable_concurrency.cpp                 | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index c44bf8f..243935d 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -34,8 +34,19 @@ void continuations_stack::push(continuation &&cnt) {
 
 void continuations_stack::execute() {
   auto continuations = stack_.consume();
-  for (auto &cnt : continuations)
-    cnt();
+  // Exception from one of the continuations must not prevent others from being
+  // executed: there may be blocked threads among them.
+  std::exception_ptr error;
+  for (auto &cnt : continuations) {
+    try {
+      cnt();
+    } catch (...) {
+      if (!error)
+        error = std::current_exception();
+    }
+  }
+  if (error)
+    std::rethrow_exception(error);
 }
 
 bool continuations_stack::executed() const { return stack_.is_consumed(); }
-- 
2.43.0


From 1776fb889052cbc51ae30aab1152e32648024960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:49 +0000
Subject: [PATCH 10/14] fix: failure to subscribe for the unwrapped future must
 not terminate the program

---
 portable_concurrency/bits/shared_state.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/portable_concurrency/bits/shared_state.h b/portable_concurrency/bits/shared_state.h
index 78707eb..e69a45d 100644
--- a/portable_concurrency/bits/shared_state.h
+++ b/portable_concurrency/bits/shared_state.h
@@ -100,10 +100,17 @@ public:
       return;
     }
     self->storage_.emplace(in_place_index_t<2>{}, val);
-    val->continuations().push([wself = std::weak_ptr<shared_state>(self)] {
-      if (auto self = wself.lock())
-        self->continuations().execute();
-    });
+    try {
+      val->continuations().push([wself = std::weak_ptr<shared_state>(self)] {
+        if (auto self = wself.lock())
+          self->continuations().execute();
+      });
+    } catch (...) {
+      // There is no subscription, allow the caller to store the failure.
+      if (!self->continuations().executed())
+        self->storage_.clean();
+      throw;
+    }
   }
 
   static void unwrap(std::shared_ptr<shared_state> &self, future<T> &&val) {
-- 
2.43.0


From c9abbd5c29b3b86698e0924f117325a0fc026272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:51 +0000
Subject: [PATCH 11/14] fix: store exception thrown while the function result
 is moved into the future

---
 portable_concurrency/bits/utils.h | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/portable_concurrency/bits/utils.h b/portable_concurrency/bits/utils.h
index 4b4bc6f..2197bd9 100644
--- a/portable_concurrency/bits/utils.h
+++ b/portable_concurrency/bits/utils.h
@@ -12,14 +12,13 @@ namespace detail {
 template <typename R, typename F, typename... A>
 void set_state_value(std::shared_ptr<shared_state<R>> &state, F &&f, A &&...a) {
   assert(state);
-  bool executed = false;
   try {
     auto res = ::portable_concurrency::cxx14_v1::detail::invoke(
         std::forward<F>(f), std::forward<A>(a)...);
-    executed = true;
     shared_state<R>::unwrap(state, std::move(res));
   } catch (...) {
-    if (executed)
+    // Result is stored, the exception is thrown by some continuation
+    if (state->continuations().executed())
       throw;
     state->set_exception(std::current_exception());
   }
@@ -29,14 +28,13 @@ template <typename R, typename F, typename... A>
 std::enable_if_t<!is_future<invoke_result_t<F, A...>>::value>
 set_state_value(std::shared_ptr<shared_state<R &>> &state, F &&f, A &&...a) {
   assert(state);
-  bool executed = false;
   try {
     R &res = ::portable_concurrency::cxx14_v1::detail::invoke(
         std::forward<F>(f), std::forward<A>(a)...);
-    executed = true;
     shared_state<R &>::unwrap(state, res);
   } catch (...) {
-    if (executed)
+    // Result is stored, the exception is thrown by some continuation
+    if (state->continuations().executed())
       throw;
     state->set_exception(std::current_exception());
   }
@@ -57,14 +55,13 @@ template <typename F, typename... A>
 std::enable_if_t<std::is_void<invoke_result_t<F, A...>>::value>
 set_state_value(std::shared_ptr<shared_state<void>> &state, F &&f, A &&...a) {
   assert(state);
-  bool executed = false;
   try {
     ::portable_concurrency::cxx14_v1::detail::invoke(std::forward<F>(f),
                                                      std::forward<A>(a)...);
-    executed = true;
     state->emplace();
   } catch (...) {
-    if (executed)
+    // Result is stored, the exception is thrown by some continuation
+    if (state->continuations().executed())
       throw;
     state->set_exception(std::current_exception());
   }
@@ -73,13 +70,13 @@ set_state_value(std::shared_ptr<shared_state<void>> &state, F &&f, A &&...a) {
 template <typename F, typename... A>
 std::enable_if_t<!std::is_void<invoke_result_t<F, A...>>::value>
 set_state_value(std::shared_ptr<shared_state<void>> &state, F &&f, A &&...a) {
-  bool executed = false;
   try {
     shared_state<void>::unwrap(
         state, state_of(::portable_concurrency::cxx14_v1::detail::invoke(
                    std::forward<F>(f), std::forward<A>(a)...)));
   } catch (...) {
-    if (executed)
+    // Result is stored, the exception is thrown by some continuation
+    if (state->continuations().executed())
       throw;
     state->set_exception(std::current_exception());
   }
-- 
2.43.0


From dc9bdcef0bba83898028365a0b954c394ae6cd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:41 +0000
Subject: [PATCH 12/14] fix: exception from a continuation of a reference task
 must reach the task caller

When a packaged_task<future<T&>()> makes its result ready and one of the
continuations throws, the exception was replaced with the
promise_already_satisfied error.
---
 portable_concurrency/bits/utils.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/portable_concurrency/bits/utils.h b/portable_concurrency/bits/utils.h
index 2197bd9..a4262d0 100644
--- a/portable_concurrency/bits/utils.h
+++ b/portable_concurrency/bits/utils.h
@@ -48,6 +48,9 @@ set_state_value(std::shared_ptr<shared_state<R &>> &state, F &&f,
                             ::portable_concurrency::cxx14_v1::detail::invoke(
                                 std::forward<F>(f), std::forward<A>(a)...));
 } catch (...) {
+  // Result is stored, the exception is thrown by some continuation
+  if (state->continuations().executed())
+    throw;
   state->set_exception(std::current_exception());
 }
 
-- 
2.43.0


From 08d9c0dafdf1cdae77cbe47149937cda2a6aedf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:05 +0000
Subject: [PATCH 13/14] fix: failure to start a thread pool worker must not
 terminate the program

The threads which are already started are joinable when the std::thread
constructor throws, so the vector destructor calls std::terminate.
---
 portable_concurrency/bits/portable_concurrency.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 243935d..c7dcd06 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -188,8 +188,16 @@ future<when_any_result<std::tuple<>>> when_any() {
 
 static_thread_pool::static_thread_pool(std::size_t num_threads) {
   threads_.reserve(num_threads);
-  while (num_threads-- > 0)
-    threads_.push_back(std::thread{&static_thread_pool::attach, this});
+  try {
+    while (num_threads-- > 0)
+      threads_.push_back(std::thread{&static_thread_pool::attach, this});
+  } catch (...) {
+    // Destructor is not going to be called, so the threads which are already
+    // started must be joined here.
+    stop();
+    wait();
+    throw;
+  }
 }
 
 static_thread_pool::~static_thread_pool() {
-- 
2.43.0


From 19957bb63f17819a9f507fefc2f4f324e841a2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:03 +0000
Subject: [PATCH 14/14] fix: co_await on an invalid future must not terminate
 the program

await_ready reports the absence of the shared state by an exception, so it
can't be noexcept.
---
 portable_concurrency/bits/future.h          | 2 +-
 portable_concurrency/bits/future.hpp        | 2 +-
 portable_concurrency/bits/shared_future.h   | 2 +-
 portable_concurrency/bits/shared_future.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/portable_concurrency/bits/future.h b/portable_concurrency/bits/future.h
index 06e388e..d3b0424 100644
--- a/portable_concurrency/bits/future.h
+++ b/portable_concurrency/bits/future.h
@@ -167,7 +167,7 @@ public:
 #if defined(PC_HAS_COROUTINES)
   // Coroutines TS support
   using promise_type = promise<T>;
-  bool await_ready() const noexcept;
+  bool await_ready() const;
   T await_resume();
   void await_suspend(detail::coroutine_handle<> handle);
 #endif
diff --git a/portable_concurrency/bits/future.hpp b/portable_concurrency/bits/future.hpp
index 1d2594c..29a61e0 100644
--- a/portable_concurrency/bits/future.hpp
+++ b/portable_concurrency/bits/future.hpp
@@ -210,7 +210,7 @@ future<T>::future(std::shared_ptr<detail::future_state<T>> &&state) noexcept
     : state_(std::move(state)) {}
 
 #if defined(PC_HAS_COROUTINES)
-template <typename T> bool future<T>::await_ready() const noexcept {
+template <typename T> bool future<T>::await_ready() const {
   return is_ready();
 }
 
diff --git a/portable_concurrency/bits/shared_future.h b/portable_concurrency/bits/shared_future.h
index e840950..81fe1be 100644
--- a/portable_concurrency/bits/shared_future.h
+++ b/portable_concurrency/bits/shared_future.h
@@ -120,7 +120,7 @@ public:
 #if defined(PC_HAS_COROUTINES)
   // Coroutines TS support
   using promise_type = promise<T>;
-  bool await_ready() const noexcept;
+  bool await_ready() const;
   get_result_type await_resume() const;
   void await_suspend(detail::coroutine_handle<> handle) const;
 #endif
diff --git a/portable_concurrency/bits/shared_future.hpp b/portable_concurrency/bits/shared_future.hpp
index 0fe53ff..bd54f0a 100644
--- a/portable_concurrency/bits/shared_future.hpp
+++ b/portable_concurrency/bits/shared_future.hpp
@@ -214,7 +214,7 @@ shared_future<T>::shared_future(
     : state_(std::move(state)) {}
 
 #if defined(PC_HAS_COROUTINES)
-template <typename T> bool shared_future<T>::await_ready() const noexcept {
+template <typename T> bool shared_future<T>::await_ready() const {
   return is_ready();
 }
 
-- 
2.43.0

