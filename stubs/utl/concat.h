#pragma once
#include <algorithm>
#include <iterator>
#include <vector>
namespace utl {
template <typename A, typename B>
void concat(A& a, B const& b) {
  a.insert(std::end(a), std::begin(b), std::end(b));
}
template <typename A, typename B, typename Fn>
void concat(A& a, B const& b, Fn fn) {
  for (auto const& x : b) { a.push_back(fn(x)); }
}
}  // namespace utl
