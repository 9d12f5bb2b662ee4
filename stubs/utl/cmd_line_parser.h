#pragma once
#include <filesystem>
#include <sstream>
#include <string>
namespace utl {
template <char... C> struct fixed_name {};
struct name_tag {};
template <typename T, typename... Tags>
struct cmd_line_flag {
  cmd_line_flag() = default;
  cmd_line_flag(T t) : t_{std::move(t)} {}
  template <typename U> requires std::is_convertible_v<U, T>
  cmd_line_flag(U const& u) : t_(u) {}
  operator T() const { return t_; }
  T const& val() const { return t_; }
  T& val() { return t_; }
  T t_{};
};
template <typename T> T parse(int, char const**) { return T{}; }
template <typename T> T parse(int, char**) { return T{}; }
template <typename T> std::string description() { return {}; }
template <typename T> std::string print_flags(T const&) { return {}; }
struct long_ {}; struct short_ {}; struct desc_ {}; struct required_ {}; struct help_ {};
}  // namespace utl
#define UTL_LONG(s) ::utl::long_
#define UTL_SHORT(s) ::utl::short_
#define UTL_DESC(s) ::utl::desc_
#define UTL_REQUIRED ::utl::required_
#define UTL_HELP ::utl::help_
