#pragma once
#include <cstring>
#include <string>
#include <string_view>
namespace utl {
struct cstr {
  constexpr cstr() = default;
  constexpr cstr(char const* s, std::size_t n) : str{s}, len{n} {}
  constexpr cstr(std::string_view s) : str{s.data()}, len{s.size()} {}
  cstr(std::string const& s) : str{s.data()}, len{s.size()} {}
  std::string to_str() const { return {str, len}; }
  std::string_view view() const { return {str, len}; }
  char const* c_str() const { return str; }
  char const* str{nullptr};
  std::size_t len{0U};
};
}  // namespace utl
