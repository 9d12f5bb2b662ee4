// Stand-in for motis-project/utl (absent from this sandbox). Only the interface
// soro-s uses, so that its sources can be parsed, type-checked and analysed.
#pragma once
#include <stdexcept>
#include <string>
#include <string_view>
#include <filesystem>
#include "fmt/format.h"
#include "fmt/ostream.h"
#include "fmt/std.h"
namespace utl {
template <typename... Args>
[[nodiscard]] std::runtime_error fail(std::string_view fmt_str, Args&&... args) {
  return std::runtime_error{fmt::vformat(fmt_str, fmt::make_format_args(args...))};
}
template <typename Msg, typename... FmtArgs>
constexpr void verify(bool condition, Msg&& msg, FmtArgs&&... args) {
  if (!condition) {
    throw std::runtime_error{fmt::vformat(std::string_view{msg}, fmt::make_format_args(args...))};
  }
}
template <typename Exception, typename Msg, typename... FmtArgs>
void verify_ex(bool condition, Msg&& msg, FmtArgs&&... args) {
  if (!condition) {
    throw Exception{fmt::vformat(std::string_view{msg}, fmt::make_format_args(args...))};
  }
}
}  // namespace utl
