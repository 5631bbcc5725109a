#include "fub/core/type_traits.hpp"
#include "fub/equations/IdealGasMix.hpp"
#include "muscl.hpp"
#include "fub/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp"
#include "fub/equations/ideal_gas_mix/MusclHancockCharactersticMethod.hpp"
namespace {
using I1 = IdealGasMix<1>; using I2 = IdealGasMix<2>; using I3 = IdealGasMix<3>;
Opt prim_opts() { Opt o = opts(1e-9); o.agree = false; return o; }
Opt char_opts() { return opts(1e-9); }
template <int D> auto prim = [](const IdealGasMix<D>& eq) { return ideal_gas::MusclHancockPrimitive<D>(eq); };
template <int D> auto charac = [](const IdealGasMix<D>& eq) { return ideal_gas::MusclHancockCharacteristic<D>(eq); };
}
METHOD("ideal-primitives-1d", I1, 1, prim_opts(), 3, 1, prim<1>, hll<I1>)
METHOD("ideal-primitives-2d", I2, 1, prim_opts(), 3, 1, prim<2>, hll<I2>)
METHOD("ideal-primitives-3d", I3, 1, prim_opts(), 2, 1, prim<3>, hll<I3>)
METHOD("ideal-characteristics-1d", I1, 1, char_opts(), 3, 1, charac<1>, hll<I1>)
METHOD("ideal-characteristics-2d", I2, 1, char_opts(), 3, 1, charac<2>, hll<I2>)
METHOD("ideal-characteristics-3d", I3, 1, char_opts(), 2, 1, charac<3>, hll<I3>)
