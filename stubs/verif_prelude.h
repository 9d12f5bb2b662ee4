// Force-included before every analysed translation unit.
#pragma once
#include "/opt/vp/soro/prelude.h"
#include <string_view>
#include <type_traits>
#include <iostream>
#include <map>
#include <mutex>
#include <set>
#include <thread>
#include <optional>
#include <filesystem>
#include <sstream>
#include <functional>
#include <numeric>
#include <charconv>
#include "fmt/format.h"
#include "fmt/ostream.h"
#include "fmt/std.h"
template <typename E> requires std::is_enum_v<E>
struct fmt::formatter<E> : fmt::formatter<long long> {
  template <typename Ctx> auto format(E const e, Ctx& ctx) const { return fmt::formatter<long long>::format(static_cast<long long>(e), ctx); }
};
namespace cereal {
template <typename Archive, typename S> requires std::is_same_v<S, std::string_view>
inline std::string save_minimal(Archive const&, S const& s) { return std::string{s}; }
}
