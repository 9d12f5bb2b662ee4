#pragma once
#include <cstring>
#include <iostream>
#include <mutex>
#include <sstream>
#include <string>
#include <chrono>
#include <iomanip>
#include <string_view>
namespace utl {
enum class log_level { debug, info, warn, error, emrg };
constexpr auto const debug = log_level::debug;
constexpr auto const info = log_level::info;
constexpr auto const warn = log_level::warn;
constexpr auto const err = log_level::error;
constexpr auto const emrg = log_level::emrg;
struct log {
  explicit log(log_level, char const*, int) {}
  ~log() { std::clog << ss_.str() << '\n'; }
  template <typename T>
  log& operator<<(T const& t) { ss_ << t; return *this; }
  log& operator<<(std::ostream& (*f)(std::ostream&)) { ss_ << f; return *this; }
  std::ostringstream ss_;
};
}  // namespace utl
#define uLOG(lvl) utl::log(lvl, __FILE__, __LINE__)
