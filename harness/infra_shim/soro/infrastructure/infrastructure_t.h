#pragma once
#include "soro/infrastructure/graph/graph.h"
#include "soro/infrastructure/interlocking/interlocking_route.h"
#include "soro/infrastructure/station/station_route.h"
#include "soro/infrastructure/station/station_route_graph.h"
namespace soro::infra {
struct default_values { si::speed stationary_speed_limit_{si::INVALID<si::speed>}; };
struct infrastructure_t {
  struct lean_graph {
    template <typename T> T const& element_data(node::ptr const n) const;
    soro::vector<section> sections_;
    soro::vector<soro::vector<section::id>> element_id_to_section_ids_;
  } graph_;
  default_values defaults_;
  node const* model_nodes_ = nullptr;
  soro::vector<station_route::ptr> station_routes_{};
  struct { soro::vector<interlocking_route> routes_; soro::vector<interlocking_route::ids> starting_at_, ending_at_; } interlocking_;
};
}  // namespace soro::infra
