#include "h.h"
// C12: static_thread_pool runs accepted tasks once; C13: shutdown terminates.
struct Log { std::mutex m; int ran[4] = {}, dead[4] = {}, order[4] = {}, n = 0; };
// The pools live on the heap, so that a touch after their destruction is a use after free.
// a task: counts its run and the destruction of the (live, i.e. not moved-from) function object
struct Job {
  Log* l; int i;
  Job(Log& l, int i) : l(&l), i(i) {}
  Job(Job&& o) noexcept : l(o.l), i(o.i) { o.l = nullptr; }
  ~Job() { if (l) { std::lock_guard<std::mutex> g(l->m); l->dead[i]++; } }
  void operator()() { std::lock_guard<std::mutex> g(l->m); VP_ASSERT(l->dead[i] == 0); l->ran[i]++; l->order[l->n++] = i; }
};
//@ C12,C13,C16 reach=done cost=10
VP_SCENARIO(pool_drain1) {
  unsigned k = vp_pick("tasks", 4); bool w = vp_pick2("wait_twice"); Log l; { auto hp = std::make_unique<pc::static_thread_pool>(1); auto& pool = *hp; for (unsigned i = 0; i < k; i++) post(pool.executor(), Job(l, i)); pool.wait(); for (unsigned i = 0; i < k; i++) { VP_ASSERT(l.ran[i] == 1); VP_ASSERT(l.order[i] == (int)i); } if (w) pool.wait(); }
  for (unsigned i = 0; i < k; i++) { VP_ASSERT(l.ran[i] == 1); VP_ASSERT(l.dead[i] == 1); } VP_ASSERT(l.n == (int)k); VP_REACH("done");
}
//@ C12,C13,C16 reach=done cost=150
VP_SCENARIO(pool_drain2) {
  unsigned k = 1 + vp_pick("tasks", 2); Log l; { auto hp = std::make_unique<pc::static_thread_pool>(2); auto& pool = *hp; for (unsigned i = 0; i < k; i++) post(pool.executor(), Job(l, i)); pool.wait(); for (unsigned i = 0; i < k; i++) VP_ASSERT(l.ran[i] == 1); }
  for (unsigned i = 0; i < k; i++) { VP_ASSERT(l.ran[i] == 1); VP_ASSERT(l.dead[i] == 1); } VP_REACH("done");
}
// two threads post
//@ C12,C13 reach=done cost=30
VP_SCENARIO(pool_post2) {
  Log l; { auto hp = std::make_unique<pc::static_thread_pool>(1); auto& pool = *hp; std::thread t([&] { post(pool.executor(), Job(l, 0)); post(pool.executor(), Job(l, 1)); }); post(pool.executor(), Job(l, 2)); t.join(); pool.wait(); for (int i = 0; i < 3; i++) VP_ASSERT(l.ran[i] == 1); int a = 0, b = 0; for (int i = 0; i < 3; i++) { if (l.order[i] == 0) a = i; if (l.order[i] == 1) b = i; } VP_ASSERT(a < b); }
  for (int i = 0; i < 3; i++) { VP_ASSERT(l.ran[i] == 1); VP_ASSERT(l.dead[i] == 1); } VP_REACH("done");
}
// posting races with closing: run once or dropped whole
//@ C12,C13,C16 reach=ran,dropped cost=20
VP_SCENARIO(pool_post_close) {
  unsigned how = vp_pick("close", 3); Log l; { auto hp = std::make_unique<pc::static_thread_pool>(1); auto& pool = *hp; std::thread t([&] { post(pool.executor(), Job(l, 0)); post(pool.executor(), Job(l, 1)); }); if (how == 0) pool.wait(); else if (how == 1) pool.stop(); else { pool.stop(); pool.wait(); } t.join(); if (how == 0 || how == 2) VP_ASSERT(l.dead[1] == 1 || l.ran[1] == 0); }
  VP_ASSERT(l.ran[0] <= 1 && l.ran[1] <= l.ran[0]); VP_ASSERT(l.dead[0] == 1 && l.dead[1] == 1); if (l.ran[0]) VP_REACH("ran"); else VP_REACH("dropped");
}
// stop: a worker that is inside a task starts no further one
//@ C12,C06,C13 reach=done cost=20
VP_SCENARIO(pool_stop_in_task) {
  Log l; int r0, r1; { auto hp = std::make_unique<pc::static_thread_pool>(1); auto& pool = *hp; auto f0 = pc::async(pool.executor(), [&] { pool.stop(); return 5; }); auto f1 = pc::async(pool.executor(), [j = Job(l, 1)]() mutable { j(); return 6; }); r0 = outcome(f0); VP_ASSERT(r0 == 5); pool.wait(); VP_ASSERT(l.ran[1] == 0); auto f2 = pc::async(pool.executor(), [j = Job(l, 2)]() mutable { j(); return 7; }); r1 = outcome(f2); VP_ASSERT(r1 == OUT_BROKEN); VP_ASSERT(l.dead[2] == 1);
    std::thread u; f0 = std::move(f1); { struct G { pc::future<int>& f; ~G() {} } g{f0}; } f0.notify([] {}); f0.detach(); }
  VP_ASSERT(l.ran[1] == 0 && l.ran[2] == 0 && l.dead[1] == 1 && l.dead[2] == 1); VP_REACH("done");
}
// destruction with queued tasks: each has run once or its future is broken; nothing hangs
//@ C12,C13,C06,C16 reach=ran,dropped cost=20
VP_SCENARIO(pool_destroy) {
  bool stop = vp_pick2("stop"); Log l; pc::future<int> f[2]; { auto hp = std::make_unique<pc::static_thread_pool>(1); auto& pool = *hp; for (int i = 0; i < 2; i++) f[i] = pc::async(pool.executor(), [j = Job(l, i)]() mutable { j(); return j.i + 40; }); if (stop) pool.stop(); }
  for (int i = 0; i < 2; i++) { VP_ASSERT(f[i].is_ready()); VP_ASSERT(l.dead[i] == 1); VP_ASSERT(l.ran[i] <= 1); VP_ASSERT(outcome(f[i]) == (l.ran[i] ? 40 + i : OUT_BROKEN)); } VP_ASSERT(l.ran[1] <= l.ran[0]); if (l.ran[1]) VP_REACH("ran"); if (!l.ran[0]) VP_REACH("dropped");
}
// futures obtained from the pool are delivered while it lives
//@ C12,C02,C04 reach=done cost=20
VP_SCENARIO(pool_result) {
  int a = vp_int("a"); bool th = vp_pick2("throw"); auto hp = std::make_unique<pc::static_thread_pool>(1); auto& pool = *hp; auto f = pc::async(pool.executor(), [a, th] { if (th) throw Err{7}; return a; }); auto g = f.next(pool.executor(), [](int x) { return x ^ 1; }); VP_ASSERT(outcome(g) == (th ? OUT_ERR(7) : (a ^ 1))); VP_REACH("done");
}
// a finished task object is released at once and outside the pool's locks
//@ C12,C16 reach=done cost=20
VP_SCENARIO(pool_release) {
  unsigned k = vp_pick("k", 2); Log l; { auto hp = std::make_unique<pc::static_thread_pool>(1); auto& pool = *hp; auto p = pc::make_promise<int>();
    // the task forgets to fulfil the promise it owns: it is broken as soon as the task is finished, not when the pool gets something else to do
    if (k == 0) { post(pool.executor(), [x = std::move(p.first)] {}); VP_ASSERT(outcome(p.second) == OUT_BROKEN); }
    // ... and a continuation on the same pool is scheduled by that
    else { auto g = p.second.then(pool.executor(), [](pc::future<int> f) { return outcome(f) == OUT_BROKEN ? 1 : 2; }); post(pool.executor(), [x = std::move(p.first)] {}); VP_ASSERT(g.get() == 1); } }
  VP_REACH("done");
}
//@ C13 reach=done cost=20
VP_SCENARIO(pool_lifetime) {
  unsigned n = vp_pick("workers", 3), how = vp_pick("how", 4); { auto hp = std::make_unique<pc::static_thread_pool>(n); auto& pool = *hp; if (how & 1) pool.stop(); if (how & 2) { pool.wait(); pool.stop(); pool.wait(); } } VP_REACH("done");
}
// a task that posts further tasks while the pool shuts down
//@ C13,C12 reach=done cost=20
VP_SCENARIO(pool_repost) {
  unsigned how = vp_pick("how", 2); Log l; { auto hp = std::make_unique<pc::static_thread_pool>(1); auto& pool = *hp; post(pool.executor(), [&, j = Job(l, 0)]() mutable { j(); post(pool.executor(), Job(l, 1)); }); if (how) pool.wait(); } VP_ASSERT(l.ran[1] <= l.ran[0] && l.ran[0] <= 1); VP_ASSERT(l.dead[0] == 1); VP_ASSERT(l.dead[1] <= 1); if (how) VP_ASSERT(l.ran[0] == 1 && l.dead[1] == 1); VP_REACH("done");
}
// an attached thread leaves only when the pool is told to finish, helps with the work and never touches the destroyed pool
//@ C13,C12 reach=done cost=20
VP_SCENARIO(pool_attach0) {
  unsigned how = vp_pick("how", 3); Log l; std::atomic<int> stage{0}; std::thread t; { auto hp = std::make_unique<pc::static_thread_pool>(0); auto& pool = *hp; post(pool.executor(), Job(l, 0)); pc::latch in(1); post(pool.executor(), [&] { in.count_down(); }); t = std::thread([&] { pool.attach(); VP_ASSERT(stage.load() >= 1); }); in.wait(); VP_ASSERT(l.ran[0] == 1); stage = 1; if (how == 1) pool.stop(); if (how == 2) pool.wait(); } stage = 2; t.join(); VP_ASSERT(l.ran[0] == 1 && l.dead[0] == 1); VP_REACH("done");
}
//@ C13,C12 reach=done cost=60
VP_SCENARIO(pool_attach1) {
  unsigned how = vp_pick("how", 3); Log l; std::thread t; { auto hp = std::make_unique<pc::static_thread_pool>(1); auto& pool = *hp; pc::latch in(2); post(pool.executor(), [&] { in.count_down_and_wait(); }); post(pool.executor(), [&] { in.count_down_and_wait(); }); t = std::thread([&] { pool.attach(); }); in.wait(); if (how == 1) pool.stop(); if (how == 2) pool.wait(); } t.join(); VP_REACH("done");
}
// a task which exits via an exception terminates the program (it is neither swallowed nor passed to the attached thread)
//@ C12 reach=terminated
VP_SCENARIO(pool_task_throws) {
  __vp_expect_terminate(); int k = (int)vp_pick2("k"); int ran = 0; pc::static_thread_pool pool(0); auto ex = pool.executor();
  if (k) post(ex, [&] { ran++; });
  post(ex, [] { throw Err{3}; }); post(ex, [&] { ran += 10; });
  try { pool.attach(); } catch (...) { VP_ASSERT_MSG(false, "the exception of a pool task left attach()"); }
  VP_ASSERT_MSG(false, "the exception of a pool task was swallowed");
}
// stop() alone releases an idle attached thread (and the workers); work posted afterwards is dropped
//@ C13,C12 reach=w0,w1 cost=15
VP_SCENARIO(pool_stop_idle) {
  unsigned w = (unsigned)vp_pick2("workers"); Log l; auto pool = std::make_unique<pc::static_thread_pool>(w); auto ex = pool->executor(); pc::latch in(w + 2);
  for (unsigned i = 0; i < w + 1; i++) post(ex, [&] { in.count_down_and_wait(); });
  std::thread t([x = pool.get()] { x->attach(); }); in.count_down_and_wait();   // every thread is inside a task now
  pool->stop(); t.join(); post(ex, Job(l, 0)); VP_ASSERT(l.ran[0] == 0);
  pool.reset(); VP_ASSERT(l.ran[0] == 0 && l.dead[0] == 1); if (w) VP_REACH("w1"); else VP_REACH("w0");
}
