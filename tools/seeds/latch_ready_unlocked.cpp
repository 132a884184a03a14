//! flags: -O1 -fsanitize=thread
//! needs: a thread polling is_ready() while another one counts down, with no other synchronisation
//! breaks: is_ready() reads the counter without synchronisation: what was done before count_down() is not visible to the poller
#include <portable_concurrency/latch>
#include <thread>
int main() {
  for (int i = 0; i < 200; ++i) {
    pc::latch l{1};
    int data = 0;
    std::thread t([&] { data = i + 1; l.count_down(); });
    while (!l.is_ready())
      std::this_thread::yield();
    bool bad = data != i + 1;
    t.join();
    if (bad)
      return 1;
  }
}
