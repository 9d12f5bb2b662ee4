// Model of the coroutine sequences for witness units: a sequence is the list of the values its body yields.
// That the real sequences deliver exactly these values, once and in order, is decided separately (property P09).
#pragma once
#include "soro/utls/coroutine/generator.h"
namespace soro::utls { template <typename T> using recursive_generator = eager_seq<T>; }
