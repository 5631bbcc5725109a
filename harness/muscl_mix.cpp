#include "muscl.hpp"
CPC("-mix-1d", Mix1, 2, VanLeerLimiter, "vanleer")
CPC("-mix-2d", Mix2, 2, NoLimiter2, "central")
