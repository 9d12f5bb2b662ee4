#pragma once
#include <iterator>
#include <tuple>
#include <utility>
namespace utl {
template <typename C>
struct pairwise_range {
  using it_t = decltype(std::begin(std::declval<C&>()));
  struct iterator {
    using ref = decltype(*std::declval<it_t&>());
    using iterator_category = std::input_iterator_tag;
    using difference_type = std::ptrdiff_t;
    using value_type = std::tuple<ref, ref>;
    using pointer = value_type*;
    using reference = value_type;
    iterator operator++(int) { auto c = *this; ++*this; return c; }
    std::tuple<ref, ref> operator*() const { return std::tuple<ref, ref>{*a_, *b_}; }
    iterator& operator++() { ++a_; ++b_; return *this; }
    bool operator!=(iterator const& o) const { return b_ != o.b_; }
    bool operator==(iterator const& o) const { return b_ == o.b_; }
    it_t a_, b_;
  };
  iterator begin() const {
    auto b = b_; if (b != e_) { ++b; }
    return {b_, b};
  }
  iterator end() const { return {e_, e_}; }
  it_t b_, e_;
};
template <typename C>
auto pairwise(C& c) { return pairwise_range<C>{std::begin(c), std::end(c)}; }
template <typename C>
auto pairwise(C const& c) { return pairwise_range<C const>{std::begin(c), std::end(c)}; }
}  // namespace utl
