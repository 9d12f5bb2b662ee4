#pragma once
#include <atomic>
#include <cstddef>
#include <thread>
#include <vector>
#include <mutex>
#include <exception>
namespace utl {
template <typename F>
void parallel_for_run(std::size_t n, F&& f) {
  std::atomic<std::size_t> next{0U};
  std::vector<std::thread> ts;
  for (auto i = 0U; i < 4U; ++i) {
    ts.emplace_back([&] {
      for (auto j = next++; j < n; j = next++) { f(j); }
    });
  }
  for (auto& t : ts) { t.join(); }
}
template <typename C, typename F>
void parallel_for(C& c, F&& f) {
  parallel_for_run(c.size(), [&](auto const i) { f(c[i]); });
}
template <typename C, typename F>
void parallel_for(char const*, C& c, std::size_t, F&& f) { parallel_for(c, f); }
}  // namespace utl
