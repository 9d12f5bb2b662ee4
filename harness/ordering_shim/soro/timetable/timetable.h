#pragma once
#include "soro/timetable/train.h"
#include "soro/infrastructure/infrastructure.h"
namespace soro::tt {
struct base_timetable { soro::vector<train> trains_; interval interval_; };
struct timetable {
  timetable() = default; timetable(timetable const&) = delete;
  base_timetable const* operator->() const { return &t_; } base_timetable const& operator*() const { return t_; }
  base_timetable t_;
};
}  // namespace soro::tt
