#pragma once
#include "utl/parser/buf_reader.h"
namespace utl {
template <typename R> struct line_range { explicit line_range(R r) : r_{r} {} R r_; };
template <typename R> line_range(R) -> line_range<R>;
}
