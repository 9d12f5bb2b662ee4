#pragma once
#include <utility>
namespace utl {
template <typename Map, typename K, typename F>
auto& get_or_create(Map& m, K const& k, F&& f) {
  auto it = m.find(k);
  if (it != m.end()) { return it->second; }
  return m.emplace(k, f()).first->second;
}
}  // namespace utl
