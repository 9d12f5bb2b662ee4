#pragma once
#include <algorithm>
#include <iterator>
#include <vector>
#include <type_traits>
namespace utl {
template <typename C, typename F>
auto to_vec(C&& c, F&& f) -> std::vector<std::decay_t<decltype(f(*std::begin(c)))>> {
  std::vector<std::decay_t<decltype(f(*std::begin(c)))>> v;
  v.reserve(static_cast<std::size_t>(std::distance(std::begin(c), std::end(c))));
  for (auto&& x : c) { v.push_back(f(x)); }
  return v;
}
template <typename It, typename F>
auto to_vec(It s, It e, F&& f) -> std::vector<std::decay_t<decltype(f(*s))>> {
  std::vector<std::decay_t<decltype(f(*s))>> v;
  for (auto it = s; it != e; ++it) { v.push_back(f(*it)); }
  return v;
}
template <typename C>
auto to_vec(C&& c) -> std::vector<std::decay_t<decltype(*std::begin(c))>> {
  return {std::begin(c), std::end(c)};
}
}  // namespace utl
