#pragma once
#include "all_sys.h"
#include <basicmath.h>
using namespace basicmath;
