#pragma once
#include "utl/parser/cstr.h"
namespace utl {
struct buf_reader { explicit buf_reader(cstr s) : s_{s} {} cstr s_; };
}
