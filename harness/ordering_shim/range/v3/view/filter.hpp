// Eager models of the views the repository uses, over the fixed-capacity sequence.
#pragma once
namespace ranges {
template <typename F> struct w_filter { F f; template <typename C> friend auto operator|(C&& c, w_filter const& w) { std::witness_vec<std::decay_t<decltype(*std::begin(c))>> r; for (auto&& x : c) if (w.f(x)) r.push_back(x); return r; } };
template <typename F> struct w_transform { F f; template <typename C> friend auto operator|(C&& c, w_transform const& w) { std::witness_vec<std::decay_t<decltype(w.f(*std::begin(c)))>> r; for (auto&& x : c) r.push_back(w.f(x)); return r; } };
struct w_to { template <typename C> friend auto operator|(C&& c, w_to) { return std::forward<C>(c); } };
namespace views { template <typename F> auto filter(F f) { return w_filter<F>{f}; } template <typename F> auto transform(F f) { return w_transform<F>{f}; } }
template <template <typename...> typename C> auto to() { return w_to{}; }
template <template <typename...> typename C, typename R> auto to(R&& r) { return std::forward<R>(r); }
}
