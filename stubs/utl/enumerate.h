#pragma once
#include <cstddef>
#include <iterator>
#include <tuple>
#include <utility>
namespace utl {
template <typename C>
auto enumerate(C&& c) {
  using it_t = decltype(std::begin(c));
  struct range {
    struct iterator {
      auto operator*() { return std::tuple<std::size_t, decltype(*it_)>{i_, *it_}; }
      iterator& operator++() { ++i_; ++it_; return *this; }
      bool operator!=(iterator const& o) const { return it_ != o.it_; }
      std::size_t i_; it_t it_;
    };
    iterator begin() { return {0U, std::begin(c_)}; }
    iterator end() { return {0U, std::end(c_)}; }
    C c_;
  };
  return range{std::forward<C>(c)};
}
}  // namespace utl
