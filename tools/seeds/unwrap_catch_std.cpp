//! flags: -O1
//! needs: shared_future::next with a function that returns a future and throws something not derived from std::exception
//! breaks: the exception does not become the result of the continuation, the program is terminated
#include <portable_concurrency/future>
struct failure { int code; };
int main() {
  pc::promise<int> p;
  auto s = p.get_future().share();
  auto f = s.next([](int v) -> pc::future<int> {
    if (v == 3)
      throw failure{5};
    return pc::make_ready_future(v);
  });
  p.set_value(3);
  try { f.get(); return 1; } catch (const failure &e) { return e.code != 5; } catch (...) { return 2; }
}
