// Fixed-capacity sequence with the interface of std::vector, without heap traffic, so that the optimiser can
// reason about its contents.  Used in witness units only.
#pragma once
#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <numeric>
#include <queue>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
extern "C" void witness_capacity_exceeded();  // a limit of the harness, not of the code
#define FV_REQ(x) do { if (!(x)) __builtin_trap(); } while (0)  // undefined for a real container
// assigns member by member: a block copy hides from the optimiser which member has which value
struct fv_any { template <typename T> constexpr operator T() const; };
template <typename T, typename... A> constexpr int fv_arity() { if constexpr (sizeof...(A) > 8) return -1; else if constexpr (requires { T{A{}..., fv_any{}}; }) return fv_arity<T, A..., fv_any>(); else return static_cast<int>(sizeof...(A)); }
template <typename T> struct fv_is_pair : std::false_type {};
template <typename A, typename B> struct fv_is_pair<std::pair<A, B>> : std::bool_constant<std::is_trivially_copyable_v<A> && std::is_trivially_copyable_v<B>> {};
template <typename T> constexpr void fv_assign(T& a, T const& b) {
#ifdef FV_COPY_EACH
  if constexpr (fv_is_pair<T>::value) { fv_assign(a.first, b.first); fv_assign(a.second, b.second); return; }
  else if constexpr (std::is_aggregate_v<T> && std::is_trivially_copyable_v<T> && std::is_copy_assignable_v<T> && !std::is_empty_v<T> && sizeof(T) > 4 && sizeof(T) <= 64) {
    constexpr int k = fv_arity<T>();
    if constexpr (k == 2) { auto& [p0, p1] = a; auto const& [q0, q1] = b; p0 = q0; p1 = q1; return; }
    else if constexpr (k == 3) { auto& [p0, p1, p2] = a; auto const& [q0, q1, q2] = b; p0 = q0; p1 = q1; p2 = q2; return; }
    else if constexpr (k == 4) { auto& [p0, p1, p2, p3] = a; auto const& [q0, q1, q2, q3] = b; p0 = q0; p1 = q1; p2 = q2; p3 = q3; return; }
    else if constexpr (k == 5) { auto& [p0, p1, p2, p3, p4] = a; auto const& [q0, q1, q2, q3, q4] = b; p0 = q0; p1 = q1; p2 = q2; p3 = q3; p4 = q4; return; }
    else a = b;
  } else a = b;
#else
  a = b;
#endif
}
template <typename T> requires(!std::is_const_v<T> && !std::is_reference_v<T>) constexpr void fv_assign(T& a, T&& b) {
  if constexpr (std::is_trivially_copyable_v<T> && std::is_copy_assignable_v<T>) fv_assign(a, static_cast<T const&>(b));
  else a = static_cast<T&&>(b);
}
template <typename T, int C = 16>
struct fv {
  using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t;
  using iterator = T*; using const_iterator = T const*; using reference = T&; using const_reference = T const&;
  using pointer = T*; using const_pointer = T const*;
  using reverse_iterator = std::reverse_iterator<T*>; using const_reverse_iterator = std::reverse_iterator<T const*>;
  constexpr fv() = default;
#ifdef FV_COPY_EACH  // one load and store per element, which the optimiser follows better than a block copy
  constexpr fv(fv const& o) : n(o.n) { for (int i = 0; i < C; ++i) fv_assign(d[i], o.d[i]); }
  constexpr fv& operator=(fv const& o) { n = o.n; for (int i = 0; i < C; ++i) fv_assign(d[i], o.d[i]); return *this; }
#endif
  constexpr explicit fv(size_type k) : n(static_cast<int>(k)) {}
  constexpr fv(size_type k, T const& x) { for (size_type i = 0; i < k; ++i) push_back(x); }
  constexpr fv(std::initializer_list<T> l) { for (auto const& x : l) push_back(x); }
  template <typename It> requires (!std::is_integral_v<It>) constexpr fv(It a, It b) { for (; a != b; ++a) push_back(*a); }
  template <typename It, typename X> requires (!std::is_integral_v<It>) constexpr fv(It a, It b, X const&) { for (; a != b; ++a) push_back(*a); }
  constexpr T* begin() { return d; } constexpr T* end() { return d + n; }
  constexpr T const* begin() const { return d; } constexpr T const* end() const { return d + n; }
  constexpr T const* cbegin() const { return d; } constexpr T const* cend() const { return d + n; }
  constexpr reverse_iterator rbegin() { return reverse_iterator(end()); } constexpr reverse_iterator rend() { return reverse_iterator(begin()); }
  constexpr const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); } constexpr const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
  constexpr size_type size() const { return static_cast<size_type>(n); } constexpr bool empty() const { return n == 0; }
  constexpr T& front() { FV_REQ(n > 0); return d[0]; } constexpr T const& front() const { FV_REQ(n > 0); return d[0]; }
  constexpr T& back() { FV_REQ(n > 0); return d[n - 1]; } constexpr T const& back() const { FV_REQ(n > 0); return d[n - 1]; }
  constexpr T& operator[](size_type i) { FV_REQ(i < size()); return d[i]; } constexpr T const& operator[](size_type i) const { FV_REQ(i < size()); return d[i]; }
  constexpr T& at(size_type i) { FV_REQ(i < size()); return d[i]; } constexpr T const& at(size_type i) const { FV_REQ(i < size()); return d[i]; }
  constexpr T* data() { return d; } constexpr T const* data() const { return d; }
  constexpr void push_back(T const& x) { if (n >= C) witness_capacity_exceeded(); fv_assign(d[n++], x); }
  template <typename... A> constexpr T& emplace_back(A&&... a) { if (n >= C) witness_capacity_exceeded(); fv_assign(d[n], T(std::forward<A>(a)...)); return d[n++]; }
  constexpr void pop_back() { FV_REQ(n > 0); --n; }
  constexpr void reserve(size_type) {}
  constexpr void resize(size_type k) { for (int i = n; i < static_cast<int>(k); ++i) d[i] = T{}; n = static_cast<int>(k); }
  constexpr void clear() { n = 0; }
  constexpr T* erase(T const* a, T const* b) {
    int i = static_cast<int>(a - d), k = static_cast<int>(b - a);
    FV_REQ(i >= 0 && k >= 0 && i + k <= n);
    if (k > 0) { for (int j = i; j + k < n; ++j) fv_assign(d[j], d[j + k]); n -= k; }
    return d + i;
  }
  constexpr T* erase(T const* a) { return erase(a, a + 1); }
  constexpr T* insert(T const* p, T const& x) { int i = static_cast<int>(p - d); for (int j = n; j > i; --j) fv_assign(d[j], d[j - 1]); fv_assign(d[i], x); ++n; return d + i; }
  template <typename It> requires requires(It i) { *i; ++i; } constexpr T* insert(T const* p, It a, It b) { int i = static_cast<int>(p - d); FV_REQ(i == n); for (; a != b; ++a) push_back(*a); return d + i; }
  T d[C]{};
  int n = 0;
};
// the same for elements without default constructor
template <typename T, int C = 16>
struct fvn {
  using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t;
  using iterator = T*; using const_iterator = T const*; using reference = T&; using const_reference = T const&;
  fvn() {}
  fvn(fvn const& o) { for (int i = 0; i < o.n; ++i) push_back(o.d[i]); }
  fvn(std::initializer_list<T> l) { for (auto const& x : l) push_back(x); }
  fvn& operator=(fvn const& o) { if (this == &o) return *this; n = 0; for (int i = 0; i < o.n; ++i) push_back(o.d[i]); return *this; }
  ~fvn() {}
  T* begin() { return d; } T* end() { return d + n; } T const* begin() const { return d; } T const* end() const { return d + n; }
  T const* cbegin() const { return d; } T const* cend() const { return d + n; }
  size_type size() const { return static_cast<size_type>(n); } bool empty() const { return n == 0; }
  T& front() { FV_REQ(n > 0); return d[0]; } T const& front() const { FV_REQ(n > 0); return d[0]; }
  T& back() { FV_REQ(n > 0); return d[n - 1]; } T const& back() const { FV_REQ(n > 0); return d[n - 1]; }
  T& operator[](size_type i) { FV_REQ(i < size()); return d[i]; } T const& operator[](size_type i) const { FV_REQ(i < size()); return d[i]; }
  T& at(size_type i) { FV_REQ(i < size()); return d[i]; } T const& at(size_type i) const { FV_REQ(i < size()); return d[i]; }
  void push_back(T const& x) { if (n >= C) witness_capacity_exceeded(); new (static_cast<void*>(d + n)) T(x); ++n; }
  template <typename... A> T& emplace_back(A&&... a) { if (n >= C) witness_capacity_exceeded(); new (static_cast<void*>(d + n)) T(std::forward<A>(a)...); return d[n++]; }
  void pop_back() { FV_REQ(n > 0); --n; }
  void reserve(size_type) {} void clear() { n = 0; }
  template <typename It> T* insert(T const* p, It a, It b) { int i = static_cast<int>(p - d); FV_REQ(i == n); for (; a != b; ++a) push_back(*a); return d + i; }
  union { T d[C]; };
  int n = 0;
};
template <typename T, int C> using fvx = std::conditional_t<std::is_default_constructible_v<T>, fv<T, C>, fvn<T, C>>;
template <typename T, int C> constexpr bool operator==(fv<T, C> const& a, fv<T, C> const& b) { if (a.n != b.n) return false; for (int i = 0; i < a.n; ++i) if (!(a.d[i] == b.d[i])) return false; return true; }
namespace std { template <typename T, typename A = void> using fixed_vec = ::fv<T>; }
namespace soro { template <typename T, typename A = void> using fixed_vec = ::fv<T>; }
// element with a constant key that decides control flow and a symbolic payload
struct KV {
  int k = 0; int64_t p = 0;
  constexpr KV() {}
  constexpr KV(int a, int64_t b) : k(a), p(b) {}
  constexpr KV(KV const& o) : k(o.k), p(o.p) {}
  constexpr KV& operator=(KV const& o) { k = o.k; p = o.p; return *this; }
  friend constexpr bool operator==(KV const& a, KV const& b) { return a.k == b.k; } friend constexpr auto operator<=>(KV const& a, KV const& b) { return a.k <=> b.k; } };
constexpr bool same(KV const& a, KV const& b) { return a.k == b.k && a.p == b.p; }
template <typename C, typename D> constexpr bool same_seq(C const& a, D const& b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }
