#pragma once
#include <cstddef>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
namespace guess {
struct guesser {
  struct match { bool operator<(match const& o) const { return cos_sim > o.cos_sim; } std::size_t index{}; float cos_sim{}; };
  explicit guesser(std::vector<std::pair<std::string, float>> const&) {}
  std::vector<match> guess_match(std::string_view, unsigned = 10) const { return {}; }
};
}
