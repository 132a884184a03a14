//! flags: -O1
//! needs: shared_future::next with a function that takes the value by value and returns a future, other copies still in use
//! breaks: the continuation moves the value out of the shared state, other holders see a moved-from value
#include <portable_concurrency/future>
#include <string>
int main() {
  pc::promise<std::string> p;
  pc::shared_future<std::string> a = p.get_future().share(), b = a;
  auto f = a.next([](std::string s) { return pc::make_ready_future(s.size()); });
  const std::string v(100, 'x');
  p.set_value(v);
  return f.get() != 100 || b.get() != v;
}
