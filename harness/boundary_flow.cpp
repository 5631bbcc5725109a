// Boundaries that prescribe a flow: mass flows, pressures and valves, and the
// averages they rest on. 1d and 2d, on the single-process AMReX double.
#include "inc/amrex_common.hpp"
#include "fub/AMReX/boundary_condition/BoundarySet.hpp"
#include "fub/AMReX/boundary_condition/ConstantBoundary.hpp"
#include "fub/AMReX/boundary_condition/ReflectiveBoundary.hpp"
#include "fub/AMReX/AverageState.hpp"
#include "fub/AMReX/MultiFabUtilities.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/PerfectGasMix.hpp"
#include "fub/equations/IdealGasMix.hpp"
#include "fub/equations/ideal_gas_mix/mechanism/Burke2012.hpp"
#include "fub/AMReX/boundary_condition/IsentropicPressureBoundary.hpp"
#include "fub/AMReX/boundary_condition/IsentropicPressureExpansion.hpp"
#include "fub/AMReX/boundary_condition/MassflowBoundary.hpp"
#include "fub/AMReX/boundary_condition/PressureValveBoundary.hpp"
#include "fub/equations/perfect_gas_mix/PlenaControl.hpp"
#include "fub/AMReX/boundary_condition/GenericPressureValveBoundary.hpp"
#include "fub/equations/RequireMassflow.hpp"
#include "fub/NewtonIteration.hpp"
#include <boost/log/core.hpp>
using namespace fub;
namespace ax = ::amrex;
namespace fa = ::fub::amrex;
using ax::IntVect;

static double other_process = 0; // what the other processes add to a sum
extern "C" int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) {
  if (t != MPI_DOUBLE) { std::memcpy(r, s, std::size_t(n) * sizeof(int)); return 0; }
  for (int i = 0; i < n; ++i) static_cast<double*>(r)[i] = static_cast<const double*>(s)[i] + (op == MPI_SUM ? other_process : 0);
  return 0;
}
extern "C" int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm) { return 0; }

namespace {
struct NoTags { void TagCellsForRefinement(ax::TagBoxArray&, const fa::GriddingAlgorithm&, int, Duration) const {} };
struct Zero { void InitializeData(fa::PatchLevel& pl, const fa::GriddingAlgorithm&, int, Duration) const { pl.data.setVal(1.0); } };
struct NoBc { void FillBoundary(ax::MultiFab&, const fa::GriddingAlgorithm&, int) {} void FillBoundary(ax::MultiFab&, const fa::GriddingAlgorithm&, int, Direction) {} };
template <class Eq> std::shared_ptr<fa::GriddingAlgorithm> grid_for(const Eq& eq, IntVect n, int max_grid) {
  boost::log::core::get()->set_logging_enabled(false);
  ax::Geometry::ResetDefault();
  fa::CartesianGridGeometry g;
  for (int d = 0; d < D; ++d) { g.cell_dimensions[d] = n[d]; g.periodicity[d] = 0; }
  double lo[3] = {0, -1, 0.5}, hi[3] = {2, 1, 1};
  g.coordinates = ax::RealBox(lo, hi);
  fa::PatchHierarchyOptions o;
  o.max_number_of_levels = 1; o.refine_ratio = IntVect(2); o.blocking_factor = IntVect(2); o.max_grid_size = IntVect(max_grid);
  auto grid = std::make_shared<fa::GriddingAlgorithm>(fa::PatchHierarchy(eq, g, o), Zero{}, NoTags{}, NoBc{});
  grid->InitializeHierarchy(0.0);
  return grid;
}
void set_time(fa::GriddingAlgorithm& g, double t) { g.GetPatchHierarchy().GetPatchLevel(0).time_point = Duration(t); }
// all components of one cell
std::vector<double> cell(const ax::FArrayBox& f, const IntVect& p) { std::vector<double> v; for (int c = 0; c < f.nComp(); ++c) v.push_back(f(p, c)); return v; }
template <class S> std::vector<double> flat(const S& s) { std::vector<double> v; ForEachComponent([&](double x) { v.push_back(x); }, s); return v; }
template <class S> void put(ax::FArrayBox& f, const IntVect& p, const S& s) { const auto v = flat(s); for (int c = 0; c < f.nComp(); ++c) f(p, c) = v[std::size_t(c)]; }
template <class S> void take(S& s, const std::vector<double>& v) { std::size_t k = 0; ForEachComponent([&](double& x) { x = v[k++]; }, s); }
std::string show(const std::vector<double>& v) { std::string s; for (double x : v) s += mc::cat(x, " "); return s; }
bool close(double a, double b, double tol, double floor = 0) { return std::abs(a - b) <= tol * std::max({std::abs(a), std::abs(b), floor}); }

// cells of `mf`, valid or ghost, beyond `side` of the domain and nowhere else are filled
// expected(cell) is asked for each of them; corners (outside in more than one direction) may be filled or not
template <class F> void judge(mc::Ctx& ctx, const std::vector<ax::FArrayBox>& before, const ax::MultiFab& mf, const ax::Box& dom, int dir, int side, F good) {
  for (int k = 0; k < mf.size(); ++k) ax::ForEachCell(mf[k].box(), [&](const IntVect& p) {
    bool beyond = side == 0 ? p[dir] < dom.smallEnd(dir) : p[dir] > dom.bigEnd(dir), corner = false;
    for (int d = 0; d < D; ++d) if (d != dir && (p[d] < dom.smallEnd(d) || p[d] > dom.bigEnd(d))) corner = true;
    if (beyond && corner) return;
    const auto v = cell(mf[k], p);
    if (beyond) { good(k, p, v); return; }
    const auto w = cell(before[std::size_t(k)], p);
    if (std::memcmp(v.data(), w.data(), v.size() * sizeof(double)) != 0) ctx.check(false, "other-cell-changed", "box ", k, " cell ", p, ": ", show(v), " before ", show(w));
  });
  ctx.transition();
}
std::vector<ax::FArrayBox> snapshot(const ax::MultiFab& mf) {
  std::vector<ax::FArrayBox> s;
  for (int k = 0; k < mf.size(); ++k) { s.emplace_back(mf[k].box(), mf.nComp()); ax::ForEachCell(mf[k].box(), [&](const IntVect& p) { for (int c = 0; c < mf.nComp(); ++c) s.back()(p, c) = mf[k](p, c); }); }
  return s;
}
IntVect mirror(IntVect p, const ax::Box& dom, int dir, int side) { p[dir] = side == 0 ? 2 * dom.smallEnd(dir) - 1 - p[dir] : 2 * dom.bigEnd(dir) + 1 - p[dir]; return p; }
IntVect extents() { IntVect n(4); n[0] = 8; return n; }

// ------------------------------------------------------------ averages
SCENARIO("averages", "all boxes of cells x 3 distributions over patches x 3 ghost cell widths x contributions of other processes", 2) {
  PerfectGas<D> eq{};
  const IntVect n = extents();
  const int max_grid = ctx.pick({8, 4, 2}), ghosts = ctx.pick({0, 1, 3});
  auto grid = grid_for(eq, n, max_grid);
  const auto& level = grid->GetPatchHierarchy().GetPatchLevel(0);
  const int ncomp = level.data.nComp();
  ax::MultiFab mf(level.box_array, level.distribution_mapping, ncomp, ghosts);
  auto value = [&](const IntVect& p, int c) { double x = 1 + c; for (int d = 0; d < D; ++d) x += (0.25 + 0.5 * d + 0.125 * c) * p[d] * p[d]; return x; };
  const ax::Box dom = grid->GetPatchHierarchy().GetGeometry(0).Domain();
  for (int k = 0; k < mf.size(); ++k) ax::ForEachCell(mf[k].box(), [&](const IntVect& p) { for (int c = 0; c < ncomp; ++c) mf[k](p, c) = level.box_array[k].contains(p) ? value(p, c) : 1e6; });
  other_process = ctx.pick({0.0, 0.75});
  const auto comps = [&] { std::vector<double> v; return v; };
  (void)comps;
  ax::ForEachCell(dom, [&](const IntVect& lo) {
    ax::ForEachCell(dom, [&](const IntVect& hi) {
      for (int d = 0; d < D; ++d) if (hi[d] < lo[d]) return;
      const ax::Box box(lo, hi);
      std::vector<double> mean(std::size_t(ncomp), 0.0), sum(std::size_t(ncomp), 0.0);
      ax::ForEachCell(box, [&](const IntVect& p) { for (int c = 0; c < ncomp; ++c) sum[std::size_t(c)] += value(p, c); });
      for (int c = 0; c < ncomp; ++c) mean[std::size_t(c)] = sum[std::size_t(c)] / double(box.numPts()) + other_process;
      Complete<PerfectGas<D>> s(eq);
      fa::AverageState(s, mf, grid->GetPatchHierarchy().GetGeometry(0), box);
      const auto v = flat(s);
      std::vector<double> acc(std::size_t(ncomp), 0.0);
      fa::AccumulateState(mf, box, acc, [](std::vector<double>& a, span<const double> b) { for (std::ptrdiff_t i = 0; i < b.size(); ++i) a[std::size_t(i)] += b[i]; });
      for (int c = 0; c < ncomp; ++c) {
        const std::size_t i = std::size_t(c);
        if (!close(v[i], mean[i], 1e-13)) ctx.check(false, "average-state-wrong", "box ", lo, hi, " component ", c, " ", v[i], " expected ", mean[i]);
        if (!close(acc[i], sum[i], 1e-13)) ctx.check(false, "accumulated-state-wrong", "box ", lo, hi, " component ", c, " ", acc[i], " expected ", sum[i]);
        const double m = fa::GetMeanValueInBox(mf, box, c);
        if (!close(m, mean[i], 1e-13)) ctx.check(false, "mean-value-wrong", "box ", lo, hi, " component ", c, " ", m, " expected ", mean[i]);
      }
      ctx.transition(3);
    });
  });
  // layers of cells at a side
  for (int dir = 0; dir < D; ++dir) for (int side = 0; side < 2; ++side) for (int w = 1; w < 4; ++w) {
    const ax::Box b = fa::GetInnerBox(dom, side, Direction(dir), w);
    ax::ForEachCell(dom, [&](const IntVect& p) {
      const bool in = side == 0 ? p[dir] < dom.smallEnd(dir) + w : p[dir] > dom.bigEnd(dir) - w;
      if (b.contains(p) != in) ctx.check(false, "inner-box-wrong", "side ", side, " width ", w, " cell ", p);
    });
  }
  ctx.state(mc::Hash().add(max_grid).add(ghosts).h);
  ctx.validated();
  other_process = 0;
}

// ------------------------------------------------------------ mass flows into a reactive mixture
Complete<IdealGasMix<D>> gas(IdealGasMix<D>& eq, int mix, double T, double rho, double mach) {
  FlameMasterReactor& r = eq.GetReactor();
  std::vector<double> y(std::size_t(r.GetNSpecies()), 0.0);
  if (mix == 0) { y[Burke2012::sN2] = 0.75; y[Burke2012::sO2] = 0.25; }
  else { y[Burke2012::sN2] = 0.5; y[Burke2012::sO2] = 0.375; y[Burke2012::sH2] = 0.125; }
  r.SetMassFractions(span<const double>(y));
  r.SetTemperature(T);
  r.SetDensity(rho);
  Complete<IdealGasMix<D>> s(eq);
  eq.CompleteFromReactor(s);
  Array<double, D, 1> u = Array<double, D, 1>::Constant(0.0);
  u[0] = mach * s.speed_of_sound;
  eq.CompleteFromReactor(s, u);
  return s;
}
// turn the velocity into direction dir
template <class S> void turn(S& s, int dir) { if (dir != 0) std::swap(s.momentum[0], s.momentum[dir]); }
// the mass flux of the HLLE solver between two states of equal density and speed of sound, in units of density * speed of sound
double hlle(double l, double r) {
  const double roe = 0.5 * (l + r), sl = std::min(l, roe) - 1, sr = std::max(r, roe) + 1;
  if (sl >= 0) return l;
  if (sr <= 0) return r;
  return (sr * l - sl * r) / (sr - sl);
}
const Burke2012 burke{};
SCENARIO("mass-flow", "2 mixtures x 2 temperatures x 11 Mach numbers x 11 mass flows x both sides and all directions, uniform or varying inner states", 2) {
  IdealGasMix<D> eq(burke);
  const double machs[] = {-2.5, -1.5, -1.0, -0.5, -0.125, 0.0, 0.25, 0.5, 1.0, 1.5, 2.5};
  const int side = ctx.choose(2), dir = ctx.choose(D), varying = ctx.choose(3), mix = ctx.choose(2), hot = ctx.thorough() ? ctx.choose(2) : varying & 1, thorough_grid = ctx.thorough() ? ctx.choose(2) : mix;
  const IntVect n = extents();
  auto grid = grid_for(eq, n, thorough_grid ? 4 : 8);
  const auto& level = grid->GetPatchHierarchy().GetPatchLevel(0);
  const ax::Geometry& geom = grid->GetPatchHierarchy().GetGeometry(0);
  const ax::Box dom = geom.Domain();
  const int ghosts = 2;
  ax::MultiFab mf(level.box_array, level.distribution_mapping, level.data.nComp(), ghosts);
  ax::Box inner = dom; // the average is taken over two layers of cells next to the side
  if (side == 0) inner.setBig(dir, dom.smallEnd(dir) + 1); else inner.setSmall(dir, dom.bigEnd(dir) - 1);
  for (double mach : machs) for (double flow : machs) {
    Complete<IdealGasMix<D>> a = gas(eq, mix, hot ? 1500 : 320, 0.75, mach + (varying == 2 ? 0.25 : 0)), b = gas(eq, varying ? 1 - mix : mix, hot ? 1500 : 320, varying ? 1.25 : 0.75, mach), far = gas(eq, 1 - mix, 700, 2.0, 0.1);
    turn(a, dir); turn(b, dir); turn(far, dir);
    const double nan = std::numeric_limits<double>::quiet_NaN();
    for (int k = 0; k < mf.size(); ++k) ax::ForEachCell(mf[k].box(), [&](const IntVect& p) {
      if (inner.contains(p)) { int parity = 0; for (int d = 0; d < D; ++d) parity += p[d]; put(mf[k], p, parity % 2 ? a : b); }
      else if (dom.contains(p)) put(mf[k], p, far);
      else for (int c = 0; c < mf.nComp(); ++c) mf[k](p, c) = nan;
    });
    Conservative<IdealGasMix<D>> mean(eq);
    mean.density = 0.5 * (a.density + b.density);
    mean.momentum = 0.5 * (a.momentum + b.momentum);
    mean.energy = 0.5 * (a.energy + b.energy);
    mean.species = 0.5 * (a.species + b.species);
    Complete<IdealGasMix<D>> in(eq);
    eq.CompleteFromCons(in, mean);
    const double scale = in.density * in.speed_of_sound, u = in.momentum[dir] / scale;
    fa::MassflowBoundaryOptions opt;
    opt.surface_area = 0.5; opt.required_massflow = flow * scale * opt.surface_area; opt.side = side; opt.dir = Direction(dir); opt.coarse_inner_box = inner;
    fa::MassflowBoundary<D> bc(eq, opt);
    const auto before = snapshot(mf);
    const int call = ctx.thorough() ? ctx.choose(2) : 0;
    if (D > 1) { bc.FillBoundary(mf, *grid, 0, Direction((dir + 1) % D)); judge(ctx, before, mf, dom, dir, side, [&](int k, const IntVect& p, const std::vector<double>& v) { const auto w = cell(before[std::size_t(k)], p); if (std::memcmp(v.data(), w.data(), v.size() * sizeof(double))) ctx.check(false, "filled-in-another-direction", p); }); }
    if (call) bc.FillBoundary(mf, *grid, 0); else bc.FillBoundary(mf, *grid, 0, Direction(dir));
    // a subsonic boundary cannot impose a flow that is faster than sound out of the domain ... unless the inner state has it already
    const bool reachable = side == 0 ? (flow >= u || flow > -1) : (flow <= u || flow < 1);
    judge(ctx, before, mf, dom, dir, side, [&](int k, const IntVect& p, const std::vector<double>& v) {
      Complete<IdealGasMix<D>> s(eq);
      take(s, v);
      const std::string what = mc::cat("box ", k, " cell ", p, " inner Mach ", u, " required ", flow, " side ", side, ": ", show(v));
      if (!close(s.density, in.density, 1e-12) || !close(s.temperature, in.temperature, 1e-12) || !close(s.pressure, in.pressure, 1e-12)) ctx.check(false, "thermodynamic-state-changed", what);
      for (int i = 0; i < s.species.size(); ++i) if (!close(s.species[i], in.species[i], 1e-12, 1e-8)) ctx.check(false, "composition-changed", what);
      for (int d = 0; d < D; ++d) if (d != dir && s.momentum[d] != 0) ctx.check(false, "transverse-velocity", what);
      const double g = s.momentum[dir] / scale, f = side == 0 ? hlle(g, u) : hlle(u, g);
      if (reachable && std::abs(g) < 1e6 && !(std::abs(f - flow) < 1e-9)) ctx.check(false, "mass-flow-missed", "flux ", f, " ", what);
      if (!(std::abs(g) < 1e3)) return; // the internal energy is lost in the kinetic energy
      Complete<IdealGasMix<D>> again(eq);
      eq.CompleteFromCons(again, s);
      const auto w = flat(again);
      for (std::size_t i = 0; i < v.size(); ++i) if (!close(v[i], w[i], 1e-6, 1e-2)) ctx.check(false, "inconsistent-state", what, " expected ", show(w));
    });
  }
  ctx.state(mc::Hash().add(side).add(dir).add(varying).add(mix).add(hot).h);
  ctx.validated();
}
#if AMREX_SPACEDIM == 1
// ------------------------------------------------------------ pressures
SCENARIO("isentropic-pressure", "2 mixtures x 2 temperatures x 5 Mach numbers x 7 outer pressures x both sides, cell dependent inner states", 2) {
  IdealGasMix<1> eq(burke);
  const int side = ctx.choose(2), mix = ctx.choose(2), hot = ctx.choose(2), boxes = ctx.choose(2);
  const double mach = ctx.pick({-1.25, -0.5, 0.0, 0.25, 1.5});
  auto grid = grid_for(eq, extents(), boxes ? 4 : 8);
  const auto& level = grid->GetPatchHierarchy().GetPatchLevel(0);
  const ax::Box dom = grid->GetPatchHierarchy().GetGeometry(0).Domain();
  ax::MultiFab mf(level.box_array, level.distribution_mapping, level.data.nComp(), 3);
  auto state = [&](int i) { return gas(eq, (mix + i) % 2, (hot ? 1500 : 320) + 10 * i, 0.75 + 0.0625 * i, mach); };
  for (double ratio : {0.25, 0.9, 0.99, 1.0, 1.01, 1.2, 4.0}) {
    for (int k = 0; k < mf.size(); ++k) ax::ForEachCell(mf[k].box(), [&](const IntVect& p) { if (dom.contains(p)) put(mf[k], p, state(p[0])); else for (int c = 0; c < mf.nComp(); ++c) mf[k](p, c) = -1; });
    const double outer = ratio * state(side ? 7 : 0).pressure;
    const double efficiency = boxes ? 1.0 : ratio > 1 ? 0.5 : 0.75;
    fa::IsentropicPressureBoundaryOptions opt; opt.outer_pressure = outer; opt.efficiency = efficiency; opt.direction = Direction::X; opt.side = side;
    fa::IsentropicPressureBoundary bc = boxes ? fa::IsentropicPressureBoundary(eq, outer, Direction::X, side) : fa::IsentropicPressureBoundary(eq, opt);
    const auto before = snapshot(mf);
    bc.FillBoundary(mf, *grid, 0, Direction::X);
    judge(ctx, before, mf, dom, 0, side, [&](int k, const IntVect& p, const std::vector<double>& v) {
      Complete<IdealGasMix<1>> s(eq), in = state(mirror(p, dom, 0, side)[0]), rest(eq), want(eq);
      take(s, v);
      const std::string what = mc::cat("box ", k, " cell ", p, " Mach ", mach, " ratio ", ratio, ": ", show(v));
      eq.SetReactorStateFromComplete(in);
      eq.CompleteFromReactor(rest);
      eq.GetReactor().SetPressureIsentropic(outer);
      eq.CompleteFromReactor(want);
      if (!close(s.pressure, outer, 1e-6)) ctx.check(false, "outer-pressure-missed", what);
      if (!close(s.temperature, want.temperature, 1e-9) || !close(s.density, want.density, 1e-9)) ctx.check(false, "not-isentropic", what, " expected ", show(flat(want)));
      for (int i = 0; i < s.species.size(); ++i) if (!close(s.species[i] / s.density, in.species[i] / in.density, 1e-10, 1e-8)) ctx.check(false, "composition-changed", what);
      // the specific enthalpy difference accelerates or decelerates the flow
      const double dh = (rest.energy + rest.pressure) / rest.density - (want.energy + want.pressure) / want.density, u0 = in.momentum[0] / in.density, u = s.momentum[0] / s.density;
      // signed squares of velocities add up
      const double work = 2 * efficiency * dh, want_u2 = std::copysign(u0 * u0, u0) + work, u2 = std::copysign(u * u, u);
      if (!(std::abs(u2 - want_u2) <= 1e-6 * (u0 * u0 + std::abs(work)) + 1e-3)) ctx.check(false, "velocity-wrong", "u ", u, " inner ", u0, " expected square ", want_u2, " ", what);
      if (!close(s.energy, want.energy + 0.5 * s.density * u * u, 1e-9, 1e3)) ctx.check(false, "inconsistent-energy", what);
    });
  }
  ctx.state(mc::Hash().add(side).add(mix).add(hot).add(mach).add(boxes).h);
  ctx.validated();
}
SCENARIO("isentropic-expansion", "mixtures with 0..2 species x 4 velocities x 5 outer pressures x both sides", 2) {
  const int ns = ctx.choose(3), side = ctx.choose(2), boxes = ctx.choose(2);
  PerfectGasMix<1> eq(PerfectGasConstants{287.0, 1.4}, ns, 0);
  eq.Msq = ctx.pick({1.0, 0.25}); eq.Msqinv = 1 / eq.Msq;
  const double u = ctx.pick({-0.5, 0.0, 0.25, 1.5});
  auto grid = grid_for(eq, extents(), boxes ? 4 : 8);
  const auto& level = grid->GetPatchHierarchy().GetPatchLevel(0);
  const ax::Box dom = grid->GetPatchHierarchy().GetGeometry(0).Domain();
  ax::MultiFab mf(level.box_array, level.distribution_mapping, level.data.nComp(), 2);
  auto state = [&](int i) {
    Array<double, 1, 1> v; v[0] = u + 0.125 * i;
    Array<double, -1, 1> Y(ns), c(0);
    for (int s = 0; s < ns; ++s) Y[s] = 0.25 * (s + 1) - 0.015625 * i;
    return eq.CompleteFromPrim(1 + 0.125 * i, v, 1 + 0.0625 * i, Y, c);
  };
  for (double outer : {0.5, 0.9, 1.0, 1.125, 2.0}) {
    for (int k = 0; k < mf.size(); ++k) ax::ForEachCell(mf[k].box(), [&](const IntVect& p) { if (dom.contains(p)) put(mf[k], p, state(p[0])); else for (int c = 0; c < mf.nComp(); ++c) mf[k](p, c) = -1; });
    fa::IsentropicPressureExpansion<PerfectGasMix<1>> bc(eq, outer, Direction::X, side);
    const auto before = snapshot(mf);
    if (boxes) bc.FillBoundary(mf, *grid, 0); else bc.FillBoundary(mf, *grid, 0, Direction::X);
    judge(ctx, before, mf, dom, 0, side, [&](int k, const IntVect& p, const std::vector<double>& v) {
      Complete<PerfectGasMix<1>> s(eq), in = state(mirror(p, dom, 0, side)[0]);
      take(s, v);
      const std::string what = mc::cat("box ", k, " cell ", p, " outer ", outer, ": ", show(v));
      const double u0 = in.momentum[0] / in.density, u1 = s.momentum[0] / s.density, g = eq.gamma / (eq.gamma - 1);
      if (!close(s.pressure, outer, 1e-12)) ctx.check(false, "outer-pressure-missed", what);
      if (!close(s.pressure / std::pow(s.density, eq.gamma), in.pressure / std::pow(in.density, eq.gamma), 1e-10)) ctx.check(false, "not-isentropic", what);
      for (int i = 0; i < ns; ++i) if (!close(s.species[i] / s.density, in.species[i] / in.density, 1e-12)) ctx.check(false, "composition-changed", what);
      const double h0 = g * in.pressure / in.density + 0.5 * eq.Msq * u0 * u0, h1 = g * s.pressure / s.density;
      // where the pressure is above the stagnation pressure the flow is reversed by the same amount
      if (!close(std::abs(h0 - h1), 0.5 * eq.Msq * u1 * u1, 1e-8, 1e-2)) ctx.check(false, "stagnation-enthalpy-changed", what, " ", h0 - h1);
      if (std::abs(h0 - h1) > 1e-6 && (h0 > h1) != (u1 > 0)) ctx.check(false, "flows-against-the-pressure", what);
      if (!close(s.energy, s.pressure / (eq.gamma - 1) + 0.5 * eq.Msq * s.density * u1 * u1, 1e-12) || !close(s.speed_of_sound, std::sqrt(eq.gamma * s.pressure / s.density), 1e-12)) ctx.check(false, "inconsistent-state", what);
    });
  }
  ctx.state(mc::Hash().add(ns).add(side).add(boxes).add(u).add(eq.Msq).h);
  ctx.validated();
}
// ------------------------------------------------------------ the valve that switches between air and fuel
SCENARIO("fuel-valve", "sequences of 4 fills x 3 time increments x 2 mean pressures x 3 intervals x 3 offsets", 2) {
  IdealGasMix<1> eq(burke);
  auto grid = grid_for(eq, extents(), ctx.flip() ? 4 : 8);
  auto& level = grid->GetPatchHierarchy().GetPatchLevel(0);
  const ax::Box dom = grid->GetPatchHierarchy().GetGeometry(0).Domain();
  ax::MultiFab mf(level.box_array, level.distribution_mapping, level.data.nComp(), 2);
  const auto a = gas(eq, 0, 320, 0.75, 0.25), low = gas(eq, 1, 320, 0.75, 0.0), high = gas(eq, 1, 1500, 1.5, 0.0);
  fa::PressureValveOptions opt;
  opt.equivalence_ratio = ctx.pick({1.0, 0.5});
  opt.pressure_value_which_closes_boundary = 0.5 * (low.pressure + high.pressure);
  opt.change_to_fuel_at_interval = Duration(ctx.pick({0.0, 0.2, 0.5}));
  opt.change_to_fuel_time_offset = Duration(ctx.pick({0.0, 0.15, 0.5}));
  opt.massflow_boundary.surface_area = 1; opt.massflow_boundary.required_massflow = 0.5 * a.density * a.speed_of_sound;
  opt.massflow_boundary.coarse_inner_box = ax::Box(IntVect(0), IntVect(1));
  fa::PressureValveBoundary bc(eq, opt);
  fa::MassflowBoundary<1> flow(eq, opt.massflow_boundary);
  bool fuel = false; double last = std::numeric_limits<double>::lowest(), t = 0;
  for (int step = 0; step < (ctx.thorough() ? 5 : 4); ++step) {
    t += ctx.pick({0.0, 0.1, 0.4});
    const bool pressure = ctx.flip();
    set_time(*grid, t);
    for (int k = 0; k < mf.size(); ++k) {
      ax::ForEachCell(level.data[k].box(), [&](const IntVect& p) { put(level.data[k], p, pressure ? (p[0] % 4 == 0 ? low : high) : (p[0] % 4 == 0 ? high : low)); });
      ax::ForEachCell(mf[k].box(), [&](const IntVect& p) { if (dom.contains(p)) put(mf[k], p, a); else for (int c = 0; c < mf.nComp(); ++c) mf[k](p, c) = -1; });
    }
    // the model of the valve
    if (fuel) { if (pressure) fuel = false; }
    else { const double next = last < 0 ? opt.change_to_fuel_time_offset.count() : last + opt.change_to_fuel_at_interval.count(); if (next < t) { fuel = true; last = next; } }
    ax::MultiFab plain(level.box_array, level.distribution_mapping, level.data.nComp(), 2);
    for (int k = 0; k < mf.size(); ++k) ax::ForEachCell(mf[k].box(), [&](const IntVect& p) { for (int c = 0; c < mf.nComp(); ++c) plain[k](p, c) = mf[k](p, c); });
    flow.FillBoundary(plain, *grid, 0);
    const auto before = snapshot(mf);
    bc.FillBoundary(mf, *grid, 0, Direction::X);
    ctx.check(bc.GetValve().state == (fuel ? fa::PressureValveState::open_fuel : fa::PressureValveState::open_air), "valve-in-wrong-state", "step ", step, " time ", t, " should be ", fuel ? "fuel" : "air");
    ctx.check(bc.GetValve().last_fuel.count() == last, "time-of-last-fuel", bc.GetValve().last_fuel.count(), " expected ", last);
    judge(ctx, before, mf, dom, 0, 0, [&](int k, const IntVect& p, const std::vector<double>& v) {
      Complete<IdealGasMix<1>> s(eq), base(eq);
      take(s, v); take(base, cell(plain[k], p));
      const std::string what = mc::cat("box ", k, " cell ", p, fuel ? " fuel: " : " air: ", show(v));
      if (!close(s.pressure, base.pressure, 1e-10) || !close(s.momentum[0] / s.density, base.momentum[0] / base.density, 1e-10)) ctx.check(false, "pressure-or-velocity-changed", what);
      if (!close(s.temperature, fuel ? base.temperature : 300.0, 1e-10)) ctx.check(false, "temperature-wrong", what);
      std::vector<double> x(Burke2012::sEnd, 0.0), m(Burke2012::sEnd);
      for (int i = 0; i < Burke2012::sEnd; ++i) m[std::size_t(i)] = eq.GetReactor().GetMolarMasses()[i];
      double sum = 0;
      // moles: inner state for fuel, 21:79 for air
      if (fuel) for (std::size_t i = 0; i < x.size(); ++i) x[i] = base.species[Eigen::Index(i)] / m[i]; else { x[Burke2012::sO2] = 21; x[Burke2012::sN2] = 79; }
      if (fuel) x[Burke2012::sH2] = 2 * opt.equivalence_ratio * x[Burke2012::sO2];
      for (std::size_t i = 0; i < x.size(); ++i) sum += x[i] * m[i];
      for (std::size_t i = 0; i < x.size(); ++i) if (!close(s.species[Eigen::Index(i)] / s.density, x[i] * m[i] / sum, 1e-10, 1e-6)) ctx.check(false, "composition-wrong", "species ", i, " ", s.species[Eigen::Index(i)] / s.density, " expected ", x[i] * m[i] / sum, " ", what);
    });
    ctx.state(mc::Hash().add(fuel).add(last).add(t).h);
  }
  ctx.validated();
}
#endif
// ------------------------------------------------------------ valves that open and close
struct Call { double p, pc, t; int level; };
template <class Eq> struct Inflow {
  std::shared_ptr<std::vector<Call>> calls;
  void operator()(Eq& eq, Complete<Eq>& s, const perfect_gas_mix::gt::PlenumState& c, double p, Duration t, const ax::MultiFab&, const fa::GriddingAlgorithm&, int level) const {
    calls->push_back({p, c.pressure, t.count(), level});
    Array<double, Eq::Rank(), 1> v = Array<double, Eq::Rank(), 1>::Constant(0.25);
    Array<double, -1, 1> Y(1), k(0); Y[0] = 0.5;
    s = eq.CompleteFromPrim(1 + double(calls->size()), v, 2.0 + t.count(), Y, k);
  }
};
using Mix = PerfectGasMix<D>;
template <class Valve> void valve(mc::Ctx& ctx, int kind) {
  Mix eq(PerfectGasConstants{287.0, 1.4}, 1, 0);
  const int side = ctx.choose(2), dir = ctx.choose(D), boxes = ctx.choose(2), copies = ctx.choose(2);
  const IntVect n = extents();
  auto grid = grid_for(eq, n, boxes ? 2 : 8);
  const auto& level = grid->GetPatchHierarchy().GetPatchLevel(0);
  const ax::Box dom = grid->GetPatchHierarchy().GetGeometry(0).Domain();
  ax::MultiFab mf(level.box_array, level.distribution_mapping, level.data.nComp(), 2);
  auto control = std::make_shared<perfect_gas_mix::gt::ControlState>();
  auto calls = std::make_shared<std::vector<Call>>();
  fa::GenericPressureValveBoundaryOptions opt; opt.dir = Direction(dir); opt.side = side;
  auto bc = std::make_unique<Valve>(eq, control, Inflow<Mix>{calls}, opt);
  ctx.check(!bc->GetTimePointWhenOpened() && bc->GetSharedControlState() == control, "initially-open");
  std::optional<double> opened;
  std::size_t count = 0;
  double t = 0;
  const ax::Box layer = fa::GetInnerBox(dom, side, Direction(dir), 1);
  for (int step = 0; step < (ctx.thorough() ? 4 : 3); ++step) {
    const double p = ctx.pick({0.875, 1.0, 1.0625, 1.25}), pc = step == 2 ? ctx.pick({1.0, 1.125}) : 1.0;
    const bool sec = kind == 3 ? ctx.flip() : true;
    t += 0.125;
    set_time(*grid, t);
    control->compressor.pressure = pc; control->compressor.SEC_Mode = sec;
    for (int k = 0; k < mf.size(); ++k) ax::ForEachCell(mf[k].box(), [&](const IntVect& q) {
      if (!dom.contains(q) || !level.box_array[k].contains(q)) { for (int c = 0; c < mf.nComp(); ++c) mf[k](q, c) = dom.contains(q) ? 1e3 : -1; if (!dom.contains(q)) return; }
      Array<double, D, 1> v; for (int d = 0; d < D; ++d) v[d] = 0.125 * (d + 1) + 0.0625 * q[d];
      Array<double, -1, 1> Y(1), c(0); Y[0] = 0.25;
      // the mean over the layer is p
      const double here = layer.contains(q) ? p + (D > 1 ? (q[1 - dir] % 2 ? 0.25 : -0.25) : 0.0) : 5.0;
      put(mf[k], q, eq.CompleteFromPrim(1 + 0.125 * q[0], v, here, Y, c));
    });
    if (copies && step == 1) { auto other = std::make_unique<Valve>(*bc); bc = std::move(other); }
    // the model of the valve
    const bool klein = kind == 1 || (kind == 3 && sec);
    if (kind == 0) { if (!opened && p <= pc) opened = t; else if (p > 1.1 * pc) opened.reset(); }
    else if (klein) { if (!opened && p <= pc) opened = t; else if (p > pc) opened.reset(); }
    else opened = t;
    const bool blocked = kind == 2 || (kind == 3 && !sec) ? false : p > pc;
    const auto before = snapshot(mf);
    if (D > 1 && step == 0) { bc->FillBoundary(mf, *grid, 0, Direction(1 - dir)); ctx.check(calls->empty() && !bc->GetTimePointWhenOpened(), "acts-in-another-direction"); }
    if (ctx.thorough() && ctx.flip()) bc->FillBoundary(mf, *grid, 0); else bc->FillBoundary(mf, *grid, 0, Direction(dir));
    const auto o = bc->GetTimePointWhenOpened();
    ctx.check(bool(o) == bool(opened) && (!o || o->count() == *opened), "opened-at-the-wrong-time", "step ", step, " inner ", p, " compressor ", pc, " opened ", o ? o->count() : -1, " expected ", opened ? *opened : -1);
    if (!blocked) {
      ctx.check(calls->size() == ++count, "inflow-not-asked-once", calls->size(), " expected ", count);
      const Call c = calls->back();
      ctx.check(c.p == p && c.pc == pc && c.t == t - *opened && c.level == 0, "inflow-asked-wrongly", "pressure ", c.p, " expected ", p, " time ", c.t, " expected ", t - *opened);
    } else ctx.check(calls->size() == count, "inflow-asked-while-closed");
    judge(ctx, before, mf, dom, dir, side, [&](int k, const IntVect& q, const std::vector<double>& v) {
      std::vector<double> w;
      if (blocked) {
        IntVect m = mirror(q, dom, dir, side);
        w = cell(before[std::size_t(k)], m);
        w[std::size_t(1 + dir)] *= -1;
      } else {
        Array<double, D, 1> u = Array<double, D, 1>::Constant(0.25);
        Array<double, -1, 1> Y(1), c(0); Y[0] = 0.5;
        w = flat(eq.CompleteFromPrim(1 + double(count), u, 2.0 + t - *opened, Y, c));
      }
      for (std::size_t i = 0; i < v.size(); ++i) if (!close(v[i], w[i], 1e-14, 1e-2)) ctx.check(false, blocked ? "not-reflected" : "not-the-inflow-state", "box ", k, " cell ", q, ": ", show(v), " expected ", show(w));
    });
    ctx.state(mc::Hash().add(bool(opened)).add(blocked).add(t).add(kind).h);
  }
  ctx.validated();
}
SCENARIO("valve-reduced", "sequences of inner and compressor pressures, both sides, all directions, patches, copies", 2) { valve<fa::PressureValveBoundary_ReducedModelDemo<Mix, Inflow<Mix>>>(ctx, 0); }
SCENARIO("valve-klein", "sequences of inner and compressor pressures, both sides, all directions, patches, copies", 2) { valve<fa::PressureValveBoundary_Klein<Mix, Inflow<Mix>>>(ctx, 1); }
SCENARIO("valve-deflagration", "sequences of inner and compressor pressures, both sides, all directions, patches, copies", 2) { valve<fa::DeflagrationValve<Mix, Inflow<Mix>>>(ctx, 2); }
SCENARIO("valve-switch", "sequences of pressures and modes, both sides, all directions, patches, copies", 2) { valve<fa::SwitchDeflagrationToSECValve<Mix, Inflow<Mix>>>(ctx, 3); }

#if AMREX_SPACEDIM == 1
// ------------------------------------------------------------ required mass flows by a single wave
// is (rho1, u1, p1) connected to (rho, u, p) by one wave that runs to the left?
bool on_left_wave(double g, double rho, double u, double p, double r1, double u1, double p1, double tol) {
  if (p1 > p) { // Rankine-Hugoniot conditions
    const double dv = 1 / rho - 1 / r1;
    if (dv < 0) return false;
    return close(u1 - u, -std::sqrt((p1 - p) * dv), tol, 1e-3) && close((p1 / r1 - p / rho) / (g - 1), 0.5 * (p1 + p) * dv, tol, 1e-3);
  }
  const double a = std::sqrt(g * p / rho), a1 = std::sqrt(g * p1 / r1);
  return close(p1 / std::pow(r1, g), p / std::pow(rho, g), tol) && close(u1 + 2 * a1 / (g - 1), u + 2 * a / (g - 1), tol, 1e-3);
}
template <class Eq> Eq make_eq();
template <> PerfectGas<1> make_eq() { return {}; }
template <> PerfectGas<2> make_eq() { return {}; }
template <> PerfectGas<3> make_eq() { return {}; }
template <> PerfectGasMix<2> make_eq() { return PerfectGasMix<2>(PerfectGasConstants{287.0, 1.4}, 2, 1); }
template <class Eq> Complete<Eq> prim_state(const Eq& eq, double rho, const Array<double, Eq::Rank(), 1>& u, double p) {
  Primitive<Eq> w(eq);
  w.density = rho; w.velocity = u; w.pressure = p;
  if constexpr (std::is_same_v<Eq, PerfectGasMix<2>>) { w.species[0] = 0.25; w.species[1] = 0.5; w.passive_scalars[0] = -2; }
  Complete<Eq> q(eq);
  CompleteFromPrim(eq, q, w);
  return q;
}
template <class Eq> void single_wave(mc::Ctx& ctx) {
  constexpr int R = Eq::Rank();
  Eq eq = make_eq<Eq>();
  const double rho = ctx.pick({1.0, 0.125, 5.0}), p = ctx.pick({1.0, 0.1, 460.0}), mach = ctx.pick({-1.5, -0.75, 0.0, 0.3, 0.95, 1.5});
  const int dir = ctx.choose(R);
  const double g = 1.4, a = std::sqrt(g * p / rho);
  Array<double, R, 1> u;
  for (int d = 0; d < R; ++d) u[d] = d == dir ? mach * a : 0.5 * (d + 1) * a;
  const auto q = prim_state(eq, rho, u, p);
  // the flux of mass behind the wave as a function of the pressure behind it
  double best = -1e300;
  for (int i = 1; i < 4000; ++i) {
    const double p1 = p * i / 4000.0, r1 = rho * std::pow(p1 / p, 1 / g), u1 = u[dir] + 2 * (a - std::sqrt(g * p1 / r1)) / (g - 1);
    best = std::max(best, r1 * u1);
  }
  best = std::max(best, rho * u[dir]);
  for (double flow : {-3.0, -1.0, -0.5, -0.1, 0.0, 0.1, 0.25, 0.4, 0.5, 0.55, 0.7, 1.0, 2.0}) for (double area : {1.0, 0.25}) {
    const double required = flow * rho * a * area;
    Complete<Eq> x(eq);
    bool thrown = false;
    try { RequireMassflow_SolveExactRiemannProblem{}(eq, x, q, required, area, Direction(dir)); } catch (const std::runtime_error&) { thrown = true; }
    const std::string what = mc::cat("rho ", rho, " p ", p, " Mach ", mach, " flow ", flow, " area ", area);
    if (thrown) { // only where no pressure (up to the search range) gives the required flow
      ctx.check(flow * rho * a > 0.9 * best - 1e-12 || flow < -1, "reachable-flow-refused", what, " largest ", best / (rho * a));
      continue;
    }
    ctx.check(flow * rho * a <= best * (1 + 1e-6) + 1e-9, "unreachable-flow-accepted", what);
    Primitive<Eq> w(eq);
    PrimFromComplete(eq, w, x);
    ctx.check(std::abs(w.density * w.velocity[dir] - flow * rho * a) <= 1e-9 * rho * a, "mass-flow-missed", what, " ", w.density * w.velocity[dir] / (rho * a));
    ctx.check(on_left_wave(g, rho, u[dir], p, w.density, w.velocity[dir], w.pressure, 1e-8), "not-connected-by-one-wave", what, " rho ", w.density, " u ", w.velocity[dir], " p ", w.pressure);
    if (mach < 1) ctx.check(w.velocity[dir] <= std::sqrt(g * w.pressure / w.density) * (1 + 1e-6), "supersonic-branch", what);
    for (int d = 0; d < R; ++d) if (d != dir) ctx.check(close(w.velocity[d], u[d], 1e-12), "transverse-velocity-changed", what);
    const auto y = flat(prim_state(eq, w.density, w.velocity, w.pressure)), z = flat(x);
    for (std::size_t i = 0; i < y.size(); ++i) if (!close(y[i], z[i], 1e-12, 1e-8)) ctx.check(false, "inconsistent-state", what, ": ", show(z), " expected ", show(y));
    // the conservative form is the same
    Conservative<Eq> c(eq), cx(eq);
    c = q;
    RequireMassflow_SolveExactRiemannProblem{}(eq, cx, c, required, area, Direction(dir));
    const auto k = flat(cx);
    const double scale = *std::max_element(z.begin(), z.begin() + 2);
    for (std::size_t i = 0; i < k.size(); ++i) if (!close(k[i], z[i], 1e-9, scale)) ctx.check(false, "conservative-form-differs", what, ": ", show(k), " expected ", show(z));
    ctx.transition(2);
  }
  ctx.state(mc::Hash().add(rho).add(p).add(mach).add(dir).h);
  ctx.validated();
}
SCENARIO("single-wave-1d", "54 states x 13 flows x 2 areas", 1) { single_wave<PerfectGas<1>>(ctx); }
SCENARIO("single-wave-2d", "54 states x 2 directions x 13 flows x 2 areas", 1) { single_wave<PerfectGas<2>>(ctx); }
SCENARIO("single-wave-3d", "54 states x 3 directions x 13 flows x 2 areas", 1) { single_wave<PerfectGas<3>>(ctx); }
SCENARIO("single-wave-mixture", "54 states x 2 directions x 13 flows x 2 areas", 1) { single_wave<PerfectGasMix<2>>(ctx); }
template <class Eq> void left_state(mc::Ctx& ctx) {
  constexpr int R = Eq::Rank();
  Eq eq = make_eq<Eq>();
  const double rho = ctx.pick({1.0, 0.125, 5.0}), p = ctx.pick({1.0, 0.1, 460.0}), u = ctx.pick({-1.5, 0.0, 0.3, 3.0});
  const int dir = ctx.choose(R);
  for (double ratio : {0.25, 0.9, 1.0, 1.1, 2.0, 16.0}) { // pressure in front of the wave / behind it
    Primitive<Eq> w(eq);
    w.density = -1; w.pressure = -1;
    for (int d = 0; d < R; ++d) w.velocity[d] = 0.5 * (d + 1);
    RequireMassflow_SolveExactRiemannProblem{}(eq, w, rho, u, p, ratio * p, Direction(dir));
    ctx.check(w.pressure == ratio * p, "pressure-missed");
    ctx.check(on_left_wave(1.4, w.density, w.velocity[dir], w.pressure, rho, u, p, 1e-8), "not-connected-by-one-wave", "ratio ", ratio, " rho ", w.density, " u ", w.velocity[dir]);
    for (int d = 0; d < R; ++d) if (d != dir) ctx.check(w.velocity[d] == 0.5 * (d + 1), "transverse-velocity-changed");
    ctx.transition();
  }
  ctx.state(mc::Hash().add(rho).add(p).add(u).add(dir).h);
  ctx.validated();
}
SCENARIO("state-before-wave", "36 states x directions x 6 pressure ratios, 1d to 3d", 1) {
  switch (ctx.choose(3)) { case 0: left_state<PerfectGas<1>>(ctx); break; case 1: left_state<PerfectGas<2>>(ctx); break; default: left_state<PerfectGas<3>>(ctx); }
}
// ------------------------------------------------------------ the root finder behind it
SCENARIO("newton", "5 functions x 6 roots x 7 initial guesses x 3 tolerances x 3 iteration limits", 1) {
  const int fn = ctx.choose(5);
  const double root = ctx.pick({1e-3, 0.5, 1.0, 3.0, 100.0, 1e4}), guess = ctx.pick({1e-6, 0.01, 0.5, 1.0, 5.0, 1e3, 1e6}), tol = ctx.pick({1e-7, 1e-3, 1.0});
  const int limit = ctx.pick({0, 3, 5000});
  int evaluations = 0;
  auto f = [&](double x) -> double {
    ++evaluations;
    switch (fn) { case 0: return x - root; case 1: return x * x - root * root; case 2: return std::sqrt(x) - std::sqrt(root); case 3: return std::log(x / root); default: return std::cbrt(x) - std::cbrt(root) + 1e-2 * (x - root) / root; }
  };
  auto df = [&](double x) -> double {
    switch (fn) { case 0: return 1; case 1: return 2 * x; case 2: return 0.5 / std::sqrt(x); case 3: return 1 / x; default: return 1 / (3 * std::cbrt(x * x)) + 1e-2 / root; }
  };
  bool thrown = false; double x = 0;
  try { x = NewtonIteration(f, df, guess, tol, limit); } catch (const std::runtime_error&) { thrown = true; }
  ctx.check(evaluations <= limit + 1, "too-many-iterations", evaluations, " limit ", limit);
  if (!thrown) ctx.check(std::abs(f(x)) <= tol && x > 0, "not-a-root", "f(", x, ") = ", f(x), " tolerance ", tol);
  else ctx.check(evaluations == limit + 1, "gives-up-too-early", evaluations, " limit ", limit);
  const double start = f(guess);
  if (std::abs(start) <= tol) ctx.check(!thrown && x == guess, "leaves-a-root");
  if (limit == 5000 && tol * 1e3 > 1e-12 * (1 + root * root)) ctx.check(!thrown, "root-not-found", "function ", fn, " root ", root, " guess ", guess);
  ctx.state(mc::Hash().add(fn).add(root).add(guess).add(tol).add(limit).h);
  ctx.transition(evaluations);
  ctx.validated();
}
#endif
} // namespace
