// Lean model of the vehicle data for witness units that only ask what kind of train it is.
#pragma once
#include "soro/rolling_stock/ctc.h"
#include "soro/rolling_stock/freight.h"
#include "soro/si/units.h"
namespace soro::rs {
struct train_physics {
  rs::CTC ctc() const { return ctc_; }
  rs::FreightTrain freight() const { return freight_; }
  si::length length() const { return length_; }
  si::length length_{si::ZERO<si::length>};
  rs::CTC ctc_{rs::CTC::NO};
  rs::FreightTrain freight_{rs::FreightTrain::NO};
};
}  // namespace soro::rs
