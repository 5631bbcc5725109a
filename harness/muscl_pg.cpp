#include "muscl.hpp"
CPC("-1d", PG1, 1, MinModLimiter, "minmod")
CPC("-2d", PG2, 1, VanLeerLimiter, "vanleer")
