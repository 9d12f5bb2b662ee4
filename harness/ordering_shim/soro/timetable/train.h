// Lean model of a train: its trips, its path and the times at the ends of its path.
#pragma once
#include "soro/base/time.h"
#include "soro/infrastructure/interlocking/interlocking_route.h"
#include "soro/timetable/interval.h"
#include "cista/reflection/comparable.h"
namespace soro::tt {
struct train {
  using id = uint32_t; using ptr = soro::ptr<train>;
  static constexpr id INVALID = std::numeric_limits<id>::max();
  struct trip {
    bool operator==(trip const& o) const { return train_id_ == o.train_id_ && anchor_ == o.anchor_; }
    bool operator<(trip const& o) const { return train_id_ < o.train_id_ || (train_id_ == o.train_id_ && anchor_ < o.anchor_); }
    id train_id_{INVALID}; absolute_time anchor_{soro::INVALID<absolute_time>};
  };
  soro::vector<absolute_time> departures(interval const& i) const { soro::vector<absolute_time> r; for (auto const& a : anchors_) if (i.start_ <= a && a <= i.end_) r.push_back(a); return r; }
  soro::vector<absolute_time> departures() const { return anchors_; }
  relative_time first_departure() const { return dep_; }
  relative_time last_arrival() const { return arr_; }
  id id_{INVALID};
  soro::vector<infra::interlocking_route::id> path_;
  soro::vector<absolute_time> anchors_;
  relative_time dep_{0}, arr_{0};
  soro::vector<std::pair<relative_time, relative_time>> signals_;  // arrival and departure at the main signals
};
}  // namespace soro::tt
namespace fmt { template <> struct formatter<soro::tt::train::trip> { constexpr auto parse(format_parse_context& c) { return c.begin(); } template <typename C> auto format(soro::tt::train::trip const&, C& c) const { return c.out(); } }; }
