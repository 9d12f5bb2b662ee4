// Lean model of the infrastructure for witness units about orderings: interlocking routes and which of them exclude each other.
#pragma once
#include "soro/infrastructure/graph/graph.h"
#include "soro/infrastructure/graph/type_set.h"
#include "soro/infrastructure/interlocking/interlocking_route.h"
#include "soro/infrastructure/exclusion/exclusion_set.h"
namespace soro::infra {
struct infrastructure_t {
  struct { soro::vector<interlocking_route> routes_; } interlocking_;
  struct { soro::vector<interlocking_route::ids> exclusion_sets_; soro::vector<exclusion_set::ids> irs_to_exclusion_sets_; } exclusion_;
};
struct infrastructure {
  infrastructure() = default;
  infrastructure(infrastructure const&) = delete;
  infrastructure_t const* operator->() const { return &t_; }
  infrastructure_t const& operator*() const { return t_; }
  infrastructure_t t_;
};
}  // namespace soro::infra
