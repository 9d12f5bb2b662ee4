#pragma once
#include <vector>
#include <string>
#include <sstream>
#include "utl/parser/line_range.h"
#include "utl/pipes.h"
namespace utl {
template <typename T, typename Name> struct csv_col { T& val() { return v_; } T const& val() const { return v_; } T& operator*() { return v_; } T v_{}; };
struct csv_name {};
template <typename Row> struct csv_t {};
template <typename Row> csv_t<Row> csv() { return {}; }
template <typename R, typename Row> pipe_range<Row> operator|(line_range<R> const&, csv_t<Row>) { return {}; }
}
#define UTL_NAME(s) ::utl::csv_name
