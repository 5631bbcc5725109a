#include "muscl.hpp"
CPC("-3d", PG3, 1, MinModLimiter, "minmod")
