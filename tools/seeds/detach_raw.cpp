//! flags: -O1
//! needs: a copied shared_future is detached and afterwards every holder is dropped before the promise is fulfilled
//! breaks: the detached computation is cancelled: continuations attached to it do not run
#include <portable_concurrency/future>
int main() {
  auto pf = pc::make_promise<int>();
  int runs = 0;
  {
    pc::shared_future<int> s = pf.second.share();
    pc::shared_future<int> copy = s;
    s.notify([&] { ++runs; });
    s.detach();
  }
  if (!pf.first.is_awaiten())
    return 1;
  pf.first.set_value(5);
  return runs != 1;
}
