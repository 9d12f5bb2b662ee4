// Lean model of an interlocking route: only its identity matters for orderings.
#pragma once
#include "soro/base/soro_types.h"
#include <limits>
namespace soro::infra {
struct interlocking_route {
  using id = uint32_t; using ids = soro::vector<id>; using ptr = soro::ptr<interlocking_route>;
  static constexpr id INVALID = std::numeric_limits<id>::max();
  static constexpr bool valid(id const i) { return i != INVALID; }
  interlocking_route() {}
  interlocking_route(interlocking_route const& o) : id_(o.id_) {}
  interlocking_route& operator=(interlocking_route const& o) { id_ = o.id_; return *this; }
  bool operator==(interlocking_route const& o) const { return id_ == o.id_; }
  id id_{INVALID};
};
}  // namespace soro::infra
