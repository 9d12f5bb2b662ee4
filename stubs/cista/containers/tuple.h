#pragma once
#include "cista/cista_stub.h"
