#include "muscl.hpp"
#include "fub/equations/perfect_gas/MusclHancockMethod.hpp"
namespace { auto muscl_godunov3 = [](const PG3& eq) { return MusclHancock<PG3>(eq); }; }
METHOD("muscl-godunov-1d", PG1, 1, opts(1e-6), 4, 2, muscl_godunov<PG1>, godunov<PG1>)
METHOD("muscl-godunov-2d", PG2, 1, opts(1e-6), 4, 1, muscl_godunov<PG2>, godunov<PG2>)
METHOD("muscl-godunov-3d", PG3, 1, opts(1e-6), 3, 1, muscl_godunov3, godunov<PG3>)
