// Model of utl's log macro for witness units: what is logged is not looked at.
#pragma once
namespace utl {
enum class log_level { debug, info, warn, error, emrg };
constexpr auto const debug = log_level::debug; constexpr auto const info = log_level::info; constexpr auto const warn = log_level::warn;
constexpr auto const err = log_level::error; constexpr auto const emrg = log_level::emrg;
struct log { template <typename T> log const& operator<<(T const&) const { return *this; } };
}  // namespace utl
#define uLOG(lvl) utl::log{}
