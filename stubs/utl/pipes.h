#pragma once
#include <algorithm>
#include <iterator>
#include <map>
#include <set>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
namespace utl {
// minimal eager pipeline
template <typename V> struct pipe_range { std::vector<V> v_;
  auto begin() { return v_.begin(); } auto end() { return v_.end(); }
  auto begin() const { return v_.begin(); } auto end() const { return v_.end(); } };
template <typename C> auto all(C const& c) {
  using V = std::decay_t<decltype(*std::begin(c))>;
  pipe_range<V> r; for (auto const& x : c) { r.v_.push_back(x); } return r; }
template <typename F> struct for_each_t { F f_; };
template <typename F> for_each_t<F> for_each(F f) { return {std::move(f)}; }
template <typename F> struct remove_if_t { F f_; };
template <typename F> remove_if_t<F> remove_if(F f) { return {std::move(f)}; }
template <typename F> struct transform_t { F f_; };
template <typename F> transform_t<F> transform(F f) { return {std::move(f)}; }
struct vec_t {}; inline vec_t vec() { return {}; }
struct iterable_t {}; inline iterable_t iterable() { return {}; }
template <typename V, typename F> void operator|(pipe_range<V> r, for_each_t<F> f) { for (auto&& x : r.v_) { f.f_(x); } }
template <typename V, typename F> pipe_range<V> operator|(pipe_range<V> r, remove_if_t<F> f) {
  pipe_range<V> o; for (auto&& x : r.v_) { if (!f.f_(x)) { o.v_.push_back(x); } } return o; }
template <typename V, typename F> auto operator|(pipe_range<V> r, transform_t<F> f) {
  pipe_range<std::decay_t<decltype(f.f_(*r.v_.begin()))>> o; for (auto&& x : r.v_) { o.v_.push_back(f.f_(x)); } return o; }
template <typename V> std::vector<V> operator|(pipe_range<V> r, vec_t) { return std::move(r.v_); }
template <typename V> pipe_range<V> operator|(pipe_range<V> r, iterable_t) { return r; }
}  // namespace utl
