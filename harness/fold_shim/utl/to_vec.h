// Model of utl::to_vec for witness units: same result, but without the growth
// checks of push_back, so that the optimiser can unroll it.
#pragma once
#include <iterator>
#include <vector>
namespace utl {
template <typename C, typename F>
auto to_vec(C&& c, F&& f) {
  using T = std::decay_t<decltype(f(*std::begin(c)))>;
  std::vector<T> r(static_cast<std::size_t>(std::distance(std::begin(c), std::end(c))));
  auto o = r.begin();
  for (auto&& x : c) *o++ = f(x);
  return r;
}
}  // namespace utl
