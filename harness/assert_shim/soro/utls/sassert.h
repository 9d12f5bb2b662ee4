// Stand-in for the project's assertion header in witness units: a failed
// assertion is recorded in a flag, so that IR-level dataflow can decide it.
#pragma once
#include <utility>
namespace soro::utls {
inline bool g_witness_failed = false;
template <typename... A> constexpr void sassert(bool const b, A&&...) { if (!b) g_witness_failed = true; }
template <typename... A> constexpr void expect(bool const b, A&&...) { if (!b) g_witness_failed = true; }
template <typename... A> constexpr void ensure(bool const b, A&&...) { if (!b) g_witness_failed = true; }
template <typename F> void sasserts(F&& f) { f(); }
template <typename F> void expects(F&& f) { f(); }
template <typename F> void ensures(F&& f) { f(); }
}  // namespace soro::utls
