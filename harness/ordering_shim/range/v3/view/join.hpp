#pragma once
#include "range/v3/view/filter.hpp"
