#pragma once
#include <iterator>
#include <tuple>
#include <utility>
#include "utl/verify.h"
namespace utl {
template <typename A, typename B>
auto zip(A&& a, B&& b) {
  using ai = decltype(std::begin(a));
  using bi = decltype(std::begin(b));
  struct range {
    struct iterator {
      auto operator*() { return std::tuple<decltype(*a_), decltype(*b_)>{*a_, *b_}; }
      iterator& operator++() { ++a_; ++b_; return *this; }
      bool operator!=(iterator const& o) const { return a_ != o.a_; }
      ai a_; bi b_;
    };
    iterator begin() { return {std::begin(a_), std::begin(b_)}; }
    iterator end() { return {std::end(a_), std::end(b_)}; }
    A a_; B b_;
  };
  return range{std::forward<A>(a), std::forward<B>(b)};
}
}  // namespace utl
