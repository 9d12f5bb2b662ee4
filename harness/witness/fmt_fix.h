// The installed fmt is older than the one the project uses; let it accept what the project formats.
#pragma once
#include "fmt/format.h"
#include "fmt/ostream.h"
#include "fmt/std.h"
#include <iomanip>
#include <iostream>
#include <type_traits>
template <typename E> requires std::is_enum_v<E>
struct fmt::formatter<E> : fmt::formatter<long long> {
  template <typename Ctx> auto format(E const e, Ctx& ctx) const { return fmt::formatter<long long>::format(static_cast<long long>(e), ctx); }
};
