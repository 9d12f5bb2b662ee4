#pragma once
#include "cista/cista_stub.h"
// member-wise comparison through structured bindings, like the real macro
namespace cista::stub {
struct any_field { template <typename T> constexpr operator T&() const&; template <typename T> constexpr operator T&&() const&&; };
template <std::size_t> using af = any_field;
template <typename T, std::size_t... I> constexpr bool brace(std::index_sequence<I...>) { return requires { T{af<I>{}...}; }; }
template <typename T, std::size_t N = 24> constexpr std::size_t arity() {
  if constexpr (brace<T>(std::make_index_sequence<N>{})) { return N; }
  else if constexpr (N == 0) { return 0; }
  else { return arity<T, N - 1>(); }
}
template <typename T> constexpr auto tie_of(T const& t) {
  constexpr auto n = arity<T>();
  static_assert(n > 0 && n < 24);
  if constexpr (n == 1) { auto const& [a0] = t; return std::tie(a0); }
  else if constexpr (n == 2) { auto const& [a0,a1] = t; return std::tie(a0,a1); }
  else if constexpr (n == 3) { auto const& [a0,a1,a2] = t; return std::tie(a0,a1,a2); }
  else if constexpr (n == 4) { auto const& [a0,a1,a2,a3] = t; return std::tie(a0,a1,a2,a3); }
  else if constexpr (n == 5) { auto const& [a0,a1,a2,a3,a4] = t; return std::tie(a0,a1,a2,a3,a4); }
  else if constexpr (n == 6) { auto const& [a0,a1,a2,a3,a4,a5] = t; return std::tie(a0,a1,a2,a3,a4,a5); }
  else if constexpr (n == 7) { auto const& [a0,a1,a2,a3,a4,a5,a6] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6); }
  else if constexpr (n == 8) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7); }
  else if constexpr (n == 9) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7,a8] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7,a8); }
  else if constexpr (n == 10) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7,a8,a9] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9); }
  else if constexpr (n == 11) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10); }
  else if constexpr (n == 12) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11); }
  else if constexpr (n == 13) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12); }
  else if constexpr (n == 14) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13); }
  else if constexpr (n == 15) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14); }
  else if constexpr (n == 16) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15); }
  else if constexpr (n == 17) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16); }
  else if constexpr (n == 18) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17); }
  else if constexpr (n == 19) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18); }
  else if constexpr (n == 20) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19); }
  else if constexpr (n == 21) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19,a20] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19,a20); }
  else if constexpr (n == 22) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19,a20,a21] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19,a20,a21); }
  else if constexpr (n == 23) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19,a20,a21,a22] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19,a20,a21,a22); }
}
}  // namespace cista::stub
#define CISTA_COMPARABLE()                                                                   \
  template <typename T> bool operator==(T const& o) const { return cista::stub::tie_of(*this) == cista::stub::tie_of(o); } \
  template <typename T> bool operator<(T const& o) const { return cista::stub::tie_of(*this) < cista::stub::tie_of(o); }   \
  template <typename T> bool operator<=(T const& o) const { return cista::stub::tie_of(*this) <= cista::stub::tie_of(o); } \
  template <typename T> bool operator>(T const& o) const { return cista::stub::tie_of(*this) > cista::stub::tie_of(o); }   \
  template <typename T> bool operator>=(T const& o) const { return cista::stub::tie_of(*this) >= cista::stub::tie_of(o); }
