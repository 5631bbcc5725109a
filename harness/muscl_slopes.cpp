#include "muscl.hpp"
namespace {
Opt slopes(double tol, bool masked) { Opt o = opts(tol); o.masked = masked; return o; }
template <typename Eq> auto water = [](const Eq& eq) { return Hll<Eq, ShallowWaterSignalVelocities>(eq, ShallowWaterSignalVelocities{}); };
template <typename S> auto muscl_water = [](const ShallowWater& eq) { return MusclHancock<ShallowWater, Hll<ShallowWater, ShallowWaterSignalVelocities>, S>(eq, water<ShallowWater>(eq)); };
Opt advect() { Opt o = slopes(1e-12, false); o.mirror = false; return o; }
}
METHOD("muscl-hll-minmod-2d", PG2, 1, slopes(1e-10, true), 4, 2, (muscl_hll<PG2, MinMod>), hll<PG2>)
METHOD("muscl-hll-vanleer-2d", PG2, 1, slopes(1e-10, true), 4, 2, (muscl_hll<PG2, VanLeer>), hll<PG2>)
METHOD("muscl-hll-central-1d", PG1, 1, slopes(1e-10, true), 4, 2, (muscl_hll<PG1, NoLimiter>), hll<PG1>)
METHOD("muscl-hll-vanleer-mix-1d", Mix1, 2, slopes(1e-10, true), 4, 2, (muscl_hll<Mix1, VanLeer>), hll<Mix1>)
METHOD_("muscl-hll-none-2d", PG2, 1, slopes(1e-10, true), 4, 1, (muscl_hll<PG2, NoGradient>), hll<PG2>)
SCENARIO("no-gradient", "all pairs of nearby states x directions x 3 time steps", 1) { auto& A = adapter<PG2>(0); auto m = muscl_hll<PG2, NoGradient>(A.eq); auto f = hll<PG2>(A.eq); extrema<PG2>(ctx, A, m, f, slopes(1e-10, true), true); }
SCENARIO("upwind-limiter", "all pairs of nearby states x directions x 3 time steps", 1) { auto& A = adapter<PG1>(0); auto m = muscl2<PG1, PrimitiveGradient, PrimitiveReconstruction, UpwindLimiter>(A.eq); auto f = hllem<PG1>(A.eq); extrema<PG1>(ctx, A, m, f, slopes(1e-10, true), true); }
METHOD("muscl-shallow-water", ShallowWater, 2, slopes(1e-10, false), 4, 3, muscl_water<MinMod>, water<ShallowWater>)
METHOD("muscl-burgers", Burgers1d, 1, slopes(1e-12, false), 5, 10, muscl_godunov<Burgers1d>, godunov<Burgers1d>)
METHOD("muscl-burgers-vanleer", Burgers1d, 1, slopes(1e-12, false), 5, 10, (muscl_godunov<Burgers1d, VanLeer>), godunov<Burgers1d>)
METHOD("muscl-advection", Advection2d, 6, advect(), 5, 3, muscl_godunov<Advection2d>, godunov<Advection2d>)
// a step of a scalar law does not create new extrema
template <typename Eq, typename Make> void monotone(mc::Ctx& ctx, int variants, Make make, double cfl) {
  auto& A = adapter<Eq>(ctx.choose(variants));
  auto m = make(A.eq);
  const int values = ctx.thorough() ? 5 : 4, dir = ctx.choose(Eq::Rank());
  const double u[] = {-1.0, 0.5, 1.0, 0.0, -0.5};
  std::vector<Complete<Eq>> s(5, A.pool[0]);
  for (auto& q : s) { const double x = u[ctx.choose(values)]; ForEachComponent([x](double& y) { y = x; }, q); }
  double sm = 0;
  for (auto& q : s) sm = std::max(sm, smax_of(A, q, dir));
  if (sm == 0) return;
  const double dx = 0.5, dt = ctx.pick({0.25, 0.5, 1.0}) * cfl * dx / sm;
  Caller<Eq, decltype(m), 4> call{A, m, static_cast<Direction>(dir)};
  const V a = call.scalar({s[0], s[1], s[2], s[3]}, static_cast<Direction>(dir), dt, dx), b = call.scalar({s[1], s[2], s[3], s[4]}, static_cast<Direction>(dir), dt, dx);
  const double v = flat(s[2])[0] + dt / dx * (a[0] - b[0]);
  const double lo = std::min({flat(s[1])[0], flat(s[2])[0], flat(s[3])[0]}), hi = std::max({flat(s[1])[0], flat(s[2])[0], flat(s[3])[0]});
  ctx.check(v >= lo - 1e-12 && v <= hi + 1e-12, "new-extremum", v, " not between ", lo, " and ", hi, " from ", flat(s[0])[0], " ", flat(s[1])[0], " ", flat(s[2])[0], " ", flat(s[3])[0], " ", flat(s[4])[0], " dt/dx ", dt / dx, " dir ", dir);
  ctx.transition(2); ctx.validated(); ctx.state(mc::Hash().add(v));
}
#define MONO "all rows of 5 cells with 4 (thorough: 5) values x 3 time steps"
SCENARIO("monotone-advection", MONO, 1) { monotone<Advection2d>(ctx, 6, muscl_godunov<Advection2d>, 1.0); }
SCENARIO("monotone-advection-vanleer", MONO, 1) { monotone<Advection2d>(ctx, 6, muscl_godunov<Advection2d, VanLeer>, 1.0); }
SCENARIO("monotone-burgers", MONO, 1) { monotone<Burgers1d>(ctx, 1, muscl_godunov<Burgers1d>, 0.5); }
