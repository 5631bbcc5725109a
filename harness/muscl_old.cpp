#include "muscl.hpp"
#include "fub/equations/perfect_gas/MusclHancockPrimMethod.hpp"
#include "fub/equations/perfect_gas/MusclHancockCharactersticMethod.hpp"
namespace {
Opt array_only() { Opt o = opts(1e-10); o.scalar = false; return o; }
template <int D> auto prim = [](const PerfectGas<D>& eq) { return perfect_gas::MusclHancockPrim<D>(eq); };
template <int D> auto charac = [](const PerfectGas<D>& eq) { return perfect_gas::MusclHancockCharacteristic<D>(eq); };
auto charac_minmod = [](const PG1& eq) {
  struct Limiter {
    double operator()(double a, double b) const { return a * b <= 0 ? 0.0 : a > 0 ? std::min(a, b) : std::max(a, b); }
    Array1d operator()(Array1d a, Array1d b) const { Array1d r; for (int i = 0; i < W; ++i) r[i] = (*this)(a[i], b[i]); return r; }
  };
  return perfect_gas::MusclHancockCharacteristic<1>(eq, Limiter{});
};
}
METHOD("primitives-1d", PG1, 1, array_only(), 4, 4, prim<1>, hllem<PG1>)
METHOD("primitives-2d", PG2, 1, array_only(), 4, 2, prim<2>, hllem<PG2>)
METHOD("primitives-3d", PG3, 1, array_only(), 4, 1, prim<3>, hllem<PG3>)
METHOD("characteristics-1d", PG1, 1, opts(1e-10), 4, 4, charac<1>, hllem<PG1>)
METHOD("characteristics-2d", PG2, 1, opts(1e-10), 4, 2, charac<2>, hllem<PG2>)
METHOD("characteristics-3d", PG3, 1, opts(1e-10), 4, 1, charac<3>, hllem<PG3>)
METHOD("characteristics-minmod-1d", PG1, 1, opts(1e-10), 4, 1, charac_minmod, hllem<PG1>)
