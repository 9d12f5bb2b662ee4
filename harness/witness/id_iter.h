// id_iterator over a container whose iterators are pointers (a pointer is no class with member types);
// the real id_iterator is decided separately (property P08).
#pragma once
#include "soro/utls/container/id_iterator.h"
namespace soro::utls {
template <typename T, typename C> struct id_iterator<T const*, C> {
  using value_type = soro::remove_pointer_t<typename C::value_type>; using reference = value_type const&; using pointer = value_type const*;
  using difference_type = std::ptrdiff_t; using iterator_category = std::random_access_iterator_tag;
  id_iterator() = default;
  id_iterator(T const* it, C const* c) : it_{it}, c_{c} {}
  reference get(T const i) const { if constexpr (std::is_pointer_v<typename C::value_type>) { return *(*c_)[i]; } else { return (*c_)[i]; } }
  reference operator*() const { return get(*it_); }
  pointer operator->() const { return &get(*it_); }
  id_iterator& operator++() { ++it_; return *this; } id_iterator& operator--() { --it_; return *this; }
  id_iterator operator+(difference_type d) const { return {it_ + d, c_}; } id_iterator operator-(difference_type d) const { return {it_ - d, c_}; }
  difference_type operator-(id_iterator const& o) const { return it_ - o.it_; }
  bool operator==(id_iterator const& o) const { return it_ == o.it_; }
  T const* it_; C const* c_;
};
template <typename T, typename V> id_iterator(T const*, V const*) -> id_iterator<T const*, V>;
}  // namespace soro::utls
