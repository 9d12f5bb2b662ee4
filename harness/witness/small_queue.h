// Fixed-capacity queue, stack and set with the interfaces the repository uses.  Witness units only.
#pragma once
#include <compare>
#include <cstddef>
#include <utility>
// a pair that is copied member by member, which the optimiser follows better than a copy of both at once
template <typename A, typename B>
struct small_pair {
  A first{}; B second{};
  constexpr small_pair() {} constexpr small_pair(A const& a, B const& b) : first(a), second(b) {}
  constexpr small_pair(small_pair const& o) : first(o.first), second(o.second) {}
  constexpr small_pair& operator=(small_pair const& o) { first = o.first; second = o.second; return *this; }
  friend constexpr bool operator==(small_pair const& a, small_pair const& b) { return a.first == b.first && a.second == b.second; }
  friend constexpr bool operator<(small_pair const& a, small_pair const& b) { return a.first < b.first || (a.first == b.first && a.second < b.second); }
};
template <typename A, typename B> small_pair(A, B) -> small_pair<A, B>;
template <typename T, int C = 12>
struct small_queue {
  using value_type = T; T d[C]{}; int h = 0, n = 0;
  bool empty() const { return h == n; } std::size_t size() const { return static_cast<std::size_t>(n - h); }
  T& front() { return d[h]; } T const& front() const { return d[h]; } T& back() { return d[n - 1]; } T const& back() const { return d[n - 1]; }
  void pop() { if (h == n) __builtin_trap(); ++h; }
  void push(T const& x) { if (n >= C) witness_capacity_exceeded(); d[n++] = x; }
  template <typename... A> void emplace(A&&... a) { push(T(std::forward<A>(a)...)); }
};
template <typename T, typename X = void, int C = 12>
struct small_stack {
  using value_type = T; T d[C]{}; int n = 0;
  bool empty() const { return n == 0; } std::size_t size() const { return static_cast<std::size_t>(n); }
  T& top() { return d[n - 1]; } T const& top() const { return d[n - 1]; }
  void pop() { if (n == 0) __builtin_trap(); --n; }
  void push(T const& x) { if (n >= C) witness_capacity_exceeded(); d[n++] = x; }
  template <typename... A> void emplace(A&&... a) { push(T(std::forward<A>(a)...)); }
};
// a set of small numbers
template <typename T>
struct small_set {
  using value_type = T;
  struct iterator { unsigned long v; bool operator==(iterator const&) const = default; T operator*() const { return static_cast<T>(v); } };
  using const_iterator = iterator;
  unsigned long m = 0;
  static unsigned long bit(T const& x) { if (x >= 64) witness_capacity_exceeded(); return 1UL << x; }
  iterator end() const { return {64}; } iterator cend() const { return {64}; }
  bool empty() const { return m == 0; } std::size_t size() const { return static_cast<std::size_t>(__builtin_popcountl(m)); }
  iterator find(T const& x) const { return m & bit(x) ? iterator{static_cast<unsigned long>(x)} : end(); }
  bool contains(T const& x) const { return m & bit(x); }
  std::size_t count(T const& x) const { return contains(x) ? 1U : 0U; }
  std::pair<iterator, bool> insert(T const& x) { bool const f = !contains(x); m |= bit(x); return {iterator{static_cast<unsigned long>(x)}, f}; }
  template <typename... A> std::pair<iterator, bool> emplace(A&&... a) { return insert(T(std::forward<A>(a)...)); }
  std::size_t erase(T const& x) { std::size_t const f = count(x); m &= ~bit(x); return f; }
  void clear() { m = 0; } void reserve(std::size_t) {}
};
