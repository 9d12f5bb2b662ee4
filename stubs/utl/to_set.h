#pragma once
#include <set>
#include <type_traits>
namespace utl {
template <typename C, typename F>
auto to_set(C&& c, F&& f) -> std::set<std::decay_t<decltype(f(*std::begin(c)))>> {
  std::set<std::decay_t<decltype(f(*std::begin(c)))>> s;
  for (auto&& x : c) { s.insert(f(x)); }
  return s;
}
}  // namespace utl
