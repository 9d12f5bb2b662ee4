#pragma once
#include <string>
#include <string_view>
#include <cstdio>
#include "utl/logging.h"
namespace utl {
struct scoped_timer final {
  explicit scoped_timer(std::string name) : name_{std::move(name)} {}
  scoped_timer(scoped_timer const&) = delete;
  scoped_timer& operator=(scoped_timer const&) = delete;
  ~scoped_timer() {}
  void print(std::string_view) const {}
  std::string name_;
};
struct manual_timer final {
  explicit manual_timer(std::string name) : name_{std::move(name)} {}
  void stop_and_print() const {}
  std::string name_;
};
}  // namespace utl
