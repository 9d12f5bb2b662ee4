#pragma once
#include "soro/timetable/timetable.h"
namespace soro::runtime {
struct timestamp { relative_time arrival_{0}, departure_{0}; infra::element::ptr element_{nullptr}; };
struct timestamps { soro::vector<timestamp> times_; soro::vector<soro::size_t> halt_indices_; };
inline timestamps runtime_calculation(tt::train const& t, infra::infrastructure const&, infra::type_set const& r) {
  timestamps x;
  if (r.contains(infra::type::MAIN_SIGNAL)) for (auto const& s : t.signals_) { timestamp y; y.arrival_ = s.first; y.departure_ = s.second; x.times_.push_back(y); }
  return x;
}
}  // namespace soro::runtime
