#pragma once
#include <coroutine>
#include <cstddef>
#include <iterator>
#include <new>
#include <type_traits>
#include "soro/utls/coroutine/coro_namespace.h"
extern "C" void witness_capacity_exceeded();
#ifndef EAGER_CAP
#define EAGER_CAP 16
#endif
namespace soro::utls {
template <typename V> void eager_copy(V* d, V const& v) { new (d) V(v); }
template <typename T> struct eager_seq {
  using V = std::remove_cvref_t<T>;
  static constexpr int C = EAGER_CAP;
  struct promise_type {
    eager_seq* out = nullptr;
    eager_seq get_return_object() noexcept { return eager_seq{this}; }
    std::suspend_never initial_suspend() const noexcept { return {}; }
    std::suspend_never final_suspend() const noexcept { return {}; }
    std::suspend_never yield_value(V const& v) { out->add(v); return {}; }
    std::suspend_never yield_value(eager_seq const& s) { each<0>(s, out); return {}; }
    template <int I> static void each(eager_seq const& s, eager_seq* o) { if constexpr (I < C) { if (I < s.n) { o->add(s.d[I]); each<I + 1>(s, o); } } }  // no loop: easier to reduce
    void return_void() noexcept {}
    void unhandled_exception() noexcept {}
  };
  explicit eager_seq(promise_type* p) : none{} { p->out = this; }
  ~eager_seq() {}
  eager_seq(eager_seq const&) = delete;
  void add(V const& v) { if (n >= C) witness_capacity_exceeded(); eager_copy(&d[n++], v); }
  using iterator = V*;
  V* begin() { return d; } V* end() { return d + n; }
  V const* begin() const { return d; } V const* end() const { return d + n; }
  union { char none; V d[C]; };  // values are never destroyed
  int n = 0;
};
template <typename T> using generator = eager_seq<T>;
}  // namespace soro::utls
