//! flags: -O1 -fsanitize=thread
//! needs: a task posted by one thread while another one stops the pool
//! breaks: post() reads the closed flag without synchronisation (data race with stop()/wait()): a task may be accepted after the pool is closed and then never be run nor reported
#include <portable_concurrency/thread_pool>
#include <portable_concurrency/functional>
#include <thread>
int main() {
  for (int i = 0; i < 200; ++i) {
    pc::static_thread_pool pool{1};
    auto exec = pool.executor();
    std::thread t([&] { for (int k = 0; k < 20; ++k) post(exec, [] {}); });
    std::this_thread::yield();
    pool.stop();
    t.join();
  }
}
