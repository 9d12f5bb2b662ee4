#pragma once
#include <algorithm>
#include <functional>
namespace utl {
template <typename C, typename Cmp = std::less<>, typename Eq = std::equal_to<>>
void erase_duplicates(C& c, Cmp&& cmp = Cmp{}, Eq&& eq = Eq{}) {
  std::sort(std::begin(c), std::end(c), cmp);
  c.erase(std::unique(std::begin(c), std::end(c), eq), std::end(c));
}
}  // namespace utl
