// Lean model of the infrastructure for witness units: only the tables the analysed functions look into.
#pragma once
#include "soro/infrastructure/graph/graph.h"
#include "soro/infrastructure/infrastructure_t.h"
namespace soro::infra {
struct infrastructure {
  using optional_ptr = soro::optional<infrastructure const*>;
  explicit infrastructure(infrastructure_t const* p) : p_{p} {}
  infrastructure(infrastructure const&) = delete;
  infrastructure_t const* operator->() const { return p_; }
  infrastructure_t const& operator*() const { return *p_; }
  infrastructure_t const* p_;
};
}  // namespace soro::infra
