// The algorithms of the standard library as plain loops, which the optimiser follows better than the unrolled ones.
// Include after every standard header; the names are mapped by macros.  Witness units only.
#pragma once
namespace std {
template <typename I, typename P> constexpr bool w_all_of(I a, I b, P p) { for (; a != b; ++a) if (!p(*a)) return false; return true; }
template <typename I, typename P> constexpr bool w_any_of(I a, I b, P p) { for (; a != b; ++a) if (p(*a)) return true; return false; }
template <typename I, typename P> constexpr bool w_none_of(I a, I b, P p) { for (; a != b; ++a) if (p(*a)) return false; return true; }
template <typename I, typename V> constexpr I w_find(I a, I b, V const& v) { for (; a != b; ++a) if (*a == v) return a; return b; }
template <typename I, typename P> constexpr I w_find_if(I a, I b, P p) { for (; a != b; ++a) if (p(*a)) return a; return b; }
template <typename I, typename V> constexpr I w_remove(I a, I b, V const& v) { I o = a; for (; a != b; ++a) if (!(*a == v)) { if (o != a) *o = *a; ++o; } return o; }
template <typename I> constexpr I w_unique(I a, I b) { if (a == b) return b; I o = a; for (++a; a != b; ++a) if (!(*o == *a)) { ++o; if (o != a) *o = *a; } return ++o; }
template <typename I, typename P> constexpr I w_unique(I a, I b, P p) { if (a == b) return b; I o = a; for (++a; a != b; ++a) if (!p(*o, *a)) { ++o; if (o != a) *o = *a; } return ++o; }
template <typename I, typename P> constexpr void w_sort(I a, I b, P p) {
  if (a == b) return;
  using T = std::remove_cvref_t<decltype(*a)>;
  for (I i = a + 1; i != b; ++i) {
    if constexpr (std::is_default_constructible_v<T>) { T x; fv_assign(x, *i); I j = i; while (j != a && p(x, *(j - 1))) { fv_assign(*j, *(j - 1)); --j; } fv_assign(*j, x); }
    else { auto x = *i; I j = i; while (j != a && p(x, *(j - 1))) { *j = *(j - 1); --j; } *j = x; }
  }
}
template <typename I> constexpr void w_sort(I a, I b) { w_sort(a, b, [](auto const& x, auto const& y) { return x < y; }); }
}  // namespace std
#define all_of w_all_of
#define any_of w_any_of
#define none_of w_none_of
#define find_if w_find_if
#define unique w_unique
#define sort w_sort
