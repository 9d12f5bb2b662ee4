#pragma once
#include "utl/pipes.h"
