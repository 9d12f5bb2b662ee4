// Fixed-capacity association with the interface of std::map that the repository uses, searched linearly.  Witness units only.
#pragma once
#include <cstddef>
#include <functional>
#include <utility>
template <typename K, typename V, int C = 4>
struct small_map {
  using value_type = std::pair<K, V>; using key_type = K; using mapped_type = V; using size_type = std::size_t;
  using iterator = value_type*; using const_iterator = value_type const*; using reference = value_type&; using const_reference = value_type const&;
  value_type d[C]{}; int n = 0;
  value_type* begin() { return d; } value_type* end() { return d + n; }
  value_type const* begin() const { return d; } value_type const* end() const { return d + n; }
  value_type const* cbegin() const { return d; } value_type const* cend() const { return d + n; }
  size_type size() const { return static_cast<size_type>(n); } bool empty() const { return n == 0; }
  value_type* find(K const& k) { int i = 0; while (i < n && !(d[i].first == k)) ++i; return d + i; }
  value_type const* find(K const& k) const { int i = 0; while (i < n && !(d[i].first == k)) ++i; return d + i; }
  bool contains(K const& k) const { return find(k) != end(); }
  size_type count(K const& k) const { return contains(k) ? 1U : 0U; }
  V& at(K const& k) { auto i = find(k); if (i == end()) __builtin_trap(); return i->second; }
  V const& at(K const& k) const { auto i = find(k); if (i == end()) __builtin_trap(); return i->second; }
  V& operator[](K const& k) { auto i = find(k); if (i == end()) { if (n >= C) witness_capacity_exceeded(); i->first = k; ++n; } return i->second; }
  template <typename A, typename B> std::pair<value_type*, bool> emplace(A const& a, B const& b) { auto i = find(a); if (i != end()) return {i, false}; (*this)[a] = b; return {end() - 1, true}; }
  template <typename A, typename B> std::pair<value_type*, bool> try_emplace(A const& a, B const& b) { return emplace(a, b); }
  template <typename A, typename B> std::pair<value_type*, bool> insert_or_assign(A const& a, B const& b) { auto i = find(a); bool const f = i == end(); (*this)[a] = b; return {find(a), f}; }
  std::pair<value_type*, bool> insert(value_type const& v) { return emplace(v.first, v.second); }
  void clear() { n = 0; }
};
