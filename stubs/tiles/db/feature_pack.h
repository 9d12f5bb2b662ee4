#pragma once
#include "tiles/tiles_stub.h"
