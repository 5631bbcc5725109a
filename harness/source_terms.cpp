// Source terms: reactions, ignition, varying cross sections and diffusion, each
// compared cell by cell with its own law. 1d and 2d, on the AMReX double.
#include "inc/amrex_common.hpp"
#include "fub/equations/PerfectGasMix.hpp"
#include "fub/equations/IdealGasMix.hpp"
#include "fub/equations/ideal_gas_mix/mechanism/Burke2012.hpp"
#include "fub/equations/ideal_gas_mix/KineticSourceTerm.hpp"
#include "fub/equations/perfect_gas_mix/ArrheniusKinetics.hpp"
#include "fub/equations/perfect_gas_mix/IgnitionDelayKinetics.hpp"
#include <boost/log/core.hpp>
#if AMREX_SPACEDIM == 1
#include "fub/AMReX/AxialSourceTerm.hpp"
#include "fub/AMReX/DiffusionSourceTerm.hpp"
#include "fub/AMReX/IgniteDetonation.hpp"
#endif
using namespace fub;
namespace ax = ::amrex;
namespace fa = ::fub::amrex;
using ax::IntVect;

extern "C" int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op, MPI_Comm) {
  std::memcpy(r, s, std::size_t(n) * (t == MPI_DOUBLE ? sizeof(double) : sizeof(int)));
  return 0;
}
extern "C" int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm) { return 0; }

namespace {
// cells [a, b] of level 0 are refined
struct Tags { int a = 0, b = -1; void TagCellsForRefinement(ax::TagBoxArray& t, const fa::GriddingAlgorithm&, int level, Duration) const {
  if (level > 0) return;
  for (int k = 0; k < t.size(); ++k) ax::ForEachCell(t.box(k), [&](const IntVect& p) { if (a <= p[0] && p[0] <= b) t[k](p) = ax::TagBox::SET; });
} };
struct Zero { void InitializeData(fa::PatchLevel& pl, const fa::GriddingAlgorithm&, int, Duration) const { pl.data.setVal(1.0); } };
// at every side of the domain the cells are mirrored
IntVect mirror(IntVect p, const ax::Box& dom, int dir) { if (p[dir] < dom.smallEnd(dir)) p[dir] = 2 * dom.smallEnd(dir) - 1 - p[dir]; else if (p[dir] > dom.bigEnd(dir)) p[dir] = 2 * dom.bigEnd(dir) + 1 - p[dir]; return p; }
IntVect mirror(IntVect p, const ax::Box& dom) { for (int d = 0; d < D; ++d) p = mirror(p, dom, d); return p; }
struct MirrorBc {
  void FillBoundary(ax::MultiFab& mf, const fa::GriddingAlgorithm& g, int level) { for (int d = 0; d < D; ++d) FillBoundary(mf, g, level, Direction(d)); }
  void FillBoundary(ax::MultiFab& mf, const fa::GriddingAlgorithm& g, int level, Direction dir) {
    const int d = int(dir);
    if (d >= D) return;
    const ax::Box dom = g.GetPatchHierarchy().GetGeometry(level).Domain();
    for (int k = 0; k < mf.size(); ++k) ax::ForEachCell(mf[k].box(), [&](const IntVect& p) { const IntVect q = mirror(p, dom, d); if (q != p) for (int c = 0; c < mf.nComp(); ++c) mf[k](p, c) = mf[k](q, c); });
  }
};
struct Extent { int nx = 8, ny = 4, max_grid = 8, ghosts = 2, a = 0, b = -1; };
template <class Eq> fa::IntegratorContext context(const Eq& eq, const Extent& e) {
  boost::log::core::get()->set_logging_enabled(false);
  ax::Geometry::ResetDefault();
  fa::CartesianGridGeometry g;
  const int n[3] = {e.nx, e.ny, e.ny};
  for (int d = 0; d < D; ++d) { g.cell_dimensions[d] = n[d]; g.periodicity[d] = 0; }
  double lo[3] = {0.5, -1, 0.5}, hi[3] = {2.5, 1, 1};
  g.coordinates = ax::RealBox(lo, hi);
  fa::PatchHierarchyOptions o;
  o.max_number_of_levels = e.b >= e.a ? 2 : 1; o.refine_ratio = IntVect(2); o.blocking_factor = IntVect(2); o.max_grid_size = IntVect(e.max_grid); o.n_error_buf = IntVect(0); o.n_proper = 1; o.grid_efficiency = 1.0;
  auto grid = std::make_shared<fa::GriddingAlgorithm>(fa::PatchHierarchy(eq, g, o), Zero{}, Tags{e.a, e.b}, MirrorBc{});
  grid->InitializeHierarchy(0.0);
  fa::IntegratorContextOptions opt; opt.scratch_gcw = e.ghosts; opt.flux_gcw = 0;
  static Limit limit;
  fa::IntegratorContext made(grid, fa::HyperbolicMethod{fa::FluxMethodAdapter(execution::seq, QFlux{&limit}), fa::ForwardIntegrator<execution::SequentialTag>(), fa::Reconstruction(execution::seq, QEq{})}, opt);
  made.ResetHierarchyConfiguration();
  return made;
}
template <class S> std::vector<double> flat(const S& s) { std::vector<double> v; ForEachComponent([&](double x) { v.push_back(x); }, s); return v; }
template <class S> void take(S& s, const std::vector<double>& v) { std::size_t k = 0; ForEachComponent([&](double& x) { x = v[k++]; }, s); }
std::vector<double> cell(const ax::FArrayBox& f, const IntVect& p) { std::vector<double> v; for (int c = 0; c < f.nComp(); ++c) v.push_back(f(p, c)); return v; }
void put(ax::FArrayBox& f, const IntVect& p, const std::vector<double>& v) { for (int c = 0; c < f.nComp(); ++c) f(p, c) = v[std::size_t(c)]; }
std::string show(const std::vector<double>& v) { std::string s; for (double x : v) s += mc::cat(x, " "); return s; }
bool close(const std::vector<double>& a, const std::vector<double>& b, double tol, double floor) { for (std::size_t i = 0; i < b.size(); ++i) if (!(std::abs(a[i] - b[i]) <= tol * std::max(std::abs(b[i]), floor))) return false; return a.size() == b.size(); }

// ------------------------------------------------------------ the dimensionless one-step reaction
using Mix = PerfectGasMix<D>;
// prescribed density, velocity, temperature and composition (mole fractions of all but the last species), where the density is a power of two
struct Prim { double rho, u, T, X[3], c; };
Complete<Mix> mixture(const Mix& eq, const Prim& w) {
  Complete<Mix> s(eq);
  s.density = w.rho;
  double kin = 0;
  for (int d = 0; d < D; ++d) { s.momentum[d] = w.rho * w.u * (d + 1); kin += 0.5 * s.momentum[d] * s.momentum[d] / w.rho; }
  s.pressure = w.rho * w.T;
  s.energy = s.pressure / (eq.gamma - 1) + eq.Msq * kin;
  for (int i = 0; i < eq.n_species; ++i) s.species[i] = w.rho * w.X[i];
  for (int i = 0; i < eq.n_passive_scalars; ++i) s.passive_scalars[i] = w.rho * (w.c + i);
  s.speed_of_sound = std::sqrt(eq.gamma * w.T);
  return s;
}
Prim palette(const IntVect& p, int shift) {
  static const double T[] = {0.5, 1.25, 1.0, 3.0, 1.5, 1.125, 2.0}, F[] = {0.25, 1.0, 0.0, 0.5, 0.0625, 4e-6, 0.75, 0.125, 3e-7}, rho[] = {1.0, 0.5, 2.0, 4.0};
  int k = p[0] + 7 * (D > 1 ? p[D - 1] : 0) + 5 * shift + 1000;
  Prim w{};
  w.rho = rho[k % 4]; w.T = T[k % 7]; w.u = 0.25 * (k % 5 - 2);
  w.X[0] = F[k % 9]; w.X[1] = (1 - w.X[0]) * (k % 3) * 0.5; w.X[2] = (1 - w.X[0] - w.X[1]) * (k % 2 ? 0.5 : 1.0);
  w.c = 0.125 * (k % 6);
  return w;
}
// all cells but those beyond the sides of the domain are set, those beyond are set to something else
template <class Init> void fill(fa::IntegratorContext& ctx, int level, Init init) {
  ax::MultiFab& mf = ctx.GetScratch(level);
  const ax::Box dom = ctx.GetGeometry(level).Domain();
  for (int k = 0; k < mf.size(); ++k) ax::ForEachCell(mf[k].box(), [&](const IntVect& p) { put(mf[k], p, dom.contains(p) ? init(p) : init(p + IntVect(1))); });
}
SCENARIO("arrhenius", "1..3 species x 0..2 passive scalars x boxes of 2..8 cells x 0..3 ghost cells x 3 parameter sets x 3 time steps x 7 shifts of a palette of 252 states", 2) {
  const int ns = ctx.range(1, 3), np = ctx.choose(3), set = ctx.choose(3);
  Extent e; e.max_grid = ctx.pick({8, 4, 2}); e.ghosts = ctx.pick({2, 1, 3}); e.nx = ctx.pick({8, 16, 6});
  Mix eq(PerfectGasConstants{287.0, 1.25}, ns, np);
  if (set == 2) { eq.Msq = 0.25; eq.Msqinv = 4; }
  perfect_gas_mix::ArrheniusKineticsOptions o;
  if (set > 0) { o.Q = 2.5; o.EA = 4; o.B = 0.5; o.T_switch = 1.25; }
  perfect_gas_mix::ArrheniusKinetics<D> term(eq, o);
  fa::IntegratorContext c = context(eq, e);
  ctx.check(term.ComputeStableDt(c, 0).count() >= 1e300, "restricts-the-time-step");
  const ax::Box dom = c.GetGeometry(0).Domain();
  for (double dt : {0.0078125, 0.5, 4.0}) for (int shift = 0; shift < (ctx.thorough() ? 7 : 3); ++shift) {
    auto prim = [&](const IntVect& p) { Prim w = palette(p, shift); if (ns == 1) w.X[1] = w.X[2] = 0; if (ns == 2) w.X[2] = 0; return w; };
    fill(c, 0, [&](const IntVect& p) { return flat(mixture(eq, prim(p))); });
    ctx.check(bool(term.AdvanceLevel(c, 0, Duration(dt), IntVect(0))), "refused");
    const ax::MultiFab& mf = c.GetScratch(0);
    for (int k = 0; k < mf.size(); ++k) ax::ForEachCell(mf[k].box(), [&](const IntVect& p) {
      Prim w = prim(mirror(p, dom));
      const double X0 = w.X[0];
      double next = X0;
      if (w.T >= o.T_switch) next = X0 >= 1e-5 ? X0 * std::exp(-o.B * dt * std::exp(o.EA * (1 - 1 / w.T))) : std::min(X0, 1.4901161193847656e-8); // what little is left is burnt at once
      const double burnt = X0 - next;
      w.X[0] = next; w.X[1] += burnt;
      Complete<Mix> s = mixture(eq, w);
      s.energy += o.Q * w.rho * burnt;
      s.pressure += (eq.gamma - 1) * o.Q * w.rho * burnt;
      s.speed_of_sound = std::sqrt(eq.gamma * s.pressure / s.density);
      const auto v = cell(mf[k], p);
      if (!close(v, flat(s), 1e-12, 1e-3)) ctx.check(false, "reaction-wrong", "box ", k, " cell ", p, " time step ", dt, " shift ", shift, ": ", show(v), " expected ", show(flat(s)));
      // exactly: an inert cell stays as it is
      if (w.T < o.T_switch && !(v[0] == w.rho && std::abs(v[std::size_t(D) + 2] - w.rho * X0) <= 1e-15 * w.rho)) ctx.check(false, "inert-cell-burns", "cell ", p, ": ", show(v));
    });
    ctx.transition();
  }
  ctx.state(mc::Hash().add(ns).add(np).add(set).add(e.max_grid).add(e.ghosts).add(e.nx).h);
  ctx.validated();
}
// ------------------------------------------------------------ ignition delay
SCENARIO("ignition-delay", "2..3 species x 0..1 passive scalars x boxes of 2..8 cells x ghost cells treated or filled x 3 parameter sets x 3 time steps x 7 shifts x one or two levels", 2) {
  const int ns = ctx.range(2, 3), np = ctx.choose(2), set = ctx.choose(3);
  Extent e; e.max_grid = ctx.pick({8, 4, 2}); e.ghosts = ctx.pick({2, 1}); e.nx = ctx.pick({8, 14});
  if (ctx.flip()) { e.a = 2; e.b = 3; }
  const int ngrow = ctx.choose(2);
  Mix eq(PerfectGasConstants{287.0, 1.25}, ns, np);
  perfect_gas_mix::IgnitionDelayKinetics<D> term(eq);
  auto& o = term.options;
  if (set == 1) { o.R2_A = 0.5; o.tau = 0.5; o.Yinit = 0.875; o.R_C = 3; }
  if (set == 2) { o.R_B = 0.5; o.R_C = 2; o.R_E = 1.0; o.E = 0.9; o.C = 2; o.Tdiff = 1.5; o.Yign = 0.4; eq.Msq = 0.25; eq.Msqinv = 4; term = perfect_gas_mix::IgnitionDelayKinetics<D>(eq); auto& q = term.options; q.R_B = 0.5; q.R_C = 2; q.R_E = 1.0; q.E = 0.9; q.C = 2; q.Tdiff = 1.5; q.Yign = 0.4; }
  fa::IntegratorContext c = context(eq, e);
  const int levels = c.GetPatchHierarchy().GetNumberOfLevels();
  ctx.check(levels == (e.b < e.a ? 1 : 2) && term.ComputeStableDt(c, 0).count() >= 1e300, "setup");
  for (double dt : {0.0078125, 0.25, 1.0}) for (int shift = 0; shift < (ctx.thorough() ? 7 : 3); ++shift) {
    auto prim = [&](const IntVect& p) { Prim w = palette(p, shift); if (ns == 2) w.X[2] = 0; return w; };
    auto want = [&](const IntVect& p) {
      Prim w = prim(p);
      double X[4] = {w.X[0], w.X[1], ns == 2 ? 1 - w.X[0] - w.X[1] : w.X[2], 0};
      const auto& t = term.options;
      const double rate = -std::log(t.Yign / t.Yinit / t.tau) + std::pow(w.T, t.R_B) * std::exp(t.R_C * (1 - t.R_E / w.T)) + t.R2_A * std::exp(t.R2_C * (1 - t.R2_E / w.T));
      const double radicals = (1 - std::exp(-rate * dt)) * X[0];
      X[0] -= radicals; X[1] += radicals;
      const bool on = X[0] <= t.Yign * (1 - X[2]);
      const double f = on ? 1 - std::exp(-std::exp(t.C * (1 - t.E / w.T)) * dt) : 0;
      const double made = f * (X[0] + X[1]);
      X[2] += made; X[0] -= f * X[0]; X[1] -= f * X[1];
      w.T += t.Tdiff * made;
      for (int i = 0; i < 3; ++i) w.X[i] = X[i];
      return flat(mixture(eq, w));
    };
    for (int l = 0; l < levels; ++l) fill(c, l, [&](const IntVect& p) { return flat(mixture(eq, prim(p))); });
    for (int l = 0; l < levels; ++l) {
      ctx.check(bool(term.AdvanceLevel(c, l, Duration(dt), IntVect(ngrow ? e.ghosts : 0))), "refused");
      const ax::MultiFab& mf = c.GetScratch(l);
      const ax::Box dom = c.GetGeometry(l).Domain();
      for (int k = 0; k < mf.size(); ++k) ax::ForEachCell(mf[k].box(), [&](const IntVect& q) {
        const IntVect p = mirror(q, dom);
        // ghost cells that no box of this level covers come from the coarser level
        const auto s = mf.boxArray().contains(p) ? want(p) : want(ax::coarsen(p, IntVect(2)));
        const auto v = cell(mf[k], q);
        if (!close(v, s, 1e-12, 1e-3)) ctx.check(false, "reaction-wrong", "level ", l, " box ", k, " cell ", q, " time step ", dt, " shift ", shift, ": ", show(v), " expected ", show(s));
      });
      ctx.transition();
    }
  }
  ctx.state(mc::Hash().add(ns).add(np).add(set).add(e.max_grid).add(e.ghosts).add(e.nx).add(levels).add(ngrow).h);
  ctx.validated();
}
// ------------------------------------------------------------ detailed chemistry at constant volume
const Burke2012 burke{};
std::vector<double> mass_fractions(const IdealGasMix<D>& eq, int mix) {
  std::vector<double> y(std::size_t(eq.GetReactor().GetNSpecies()), 0.0);
  if (mix == 0) { y[Burke2012::sN2] = 0.75; y[Burke2012::sO2] = 0.25; }
  else if (mix == 1) { y[Burke2012::sN2] = 0.5; y[Burke2012::sO2] = 0.375; y[Burke2012::sH2] = 0.125; }
  else { y[Burke2012::sN2] = 0.75; y[Burke2012::sO2] = 0.21875; y[Burke2012::sH2] = 0.03125; }
  return y;
}
Complete<IdealGasMix<D>> gas(IdealGasMix<D>& eq, int mix, double T, double rho, double u) {
  FlameMasterReactor& r = eq.GetReactor();
  const std::vector<double> y = mass_fractions(eq, mix);
  r.SetMassFractions(span<const double>(y));
  r.SetTemperature(T);
  r.SetDensity(rho);
  Complete<IdealGasMix<D>> s(eq);
  Array<double, D, 1> v;
  for (int d = 0; d < D; ++d) v[d] = u * (d + 1);
  eq.CompleteFromReactor(s, v);
  return s;
}
SCENARIO("chemistry", "mixtures with and without fuel x cold, igniting and hot x boxes of 2..8 cells x 1..2 ghost cells x 3 time steps", 2) {
  Extent e; e.max_grid = ctx.pick({8, 4, 2}); e.ghosts = ctx.pick({1, 2}); if (D > 1) e.ny = 2;
  const double dt = ctx.pick({1e-6, 2e-5, 3e-4});
  const int shift = ctx.choose(3);
  IdealGasMix<D> eq(burke), own(burke);
  ideal_gas::KineticSourceTerm<D> term(eq);
  fa::IntegratorContext c = context(eq, e);
  ctx.check(term.ComputeStableDt(c, 0).count() >= 1e300 && term.ComputeStableDt(0).count() >= 1e300, "restricts-the-time-step");
  auto init = [&](const IntVect& p) {
    static const double T[] = {300, 1200, 900, 1600, 2200};
    const int k = p[0] + (D > 1 ? 3 * p[D - 1] : 0) + 4 * shift + 100;
    return gas(own, k % 3, T[k % 5], 0.25 * (1 + k % 2), 50.0 * (k % 4 - 1));
  };
  fill(c, 0, [&](const IntVect& p) { return flat(init(p)); });
  ctx.check(bool(term.AdvanceLevel(c, 0, Duration(dt), IntVect(0))), "refused");
  const ax::MultiFab& mf = c.GetScratch(0);
  const ax::Box dom = c.GetGeometry(0).Domain();
  std::map<int, std::vector<double>> done;
  for (int k = 0; k < mf.size(); ++k) ax::ForEachCell(mf[k].box(), [&](const IntVect& q) {
    const IntVect p = mirror(q, dom);
    const int key = p[0] + (D > 1 ? 100 * p[D - 1] : 0);
    const auto a = init(p);
    if (!done.count(key)) {
      FlameMasterReactor r(burke);
      std::vector<double> y(a.species.data(), a.species.data() + a.species.size());
      for (double& x : y) x /= a.density;
      r.SetMassFractions(span<const double>(y));
      r.SetTemperature(a.temperature);
      r.SetDensity(a.density);
      r.Advance(dt);
      std::vector<double> w{r.GetTemperature(), r.GetPressure()};
      for (double x : r.GetMassFractions()) w.push_back(x);
      done[key] = w;
    }
    const auto& w = done[key];
    Complete<IdealGasMix<D>> s(eq);
    take(s, cell(mf[k], q));
    const std::string what = mc::cat("box ", k, " cell ", q, " time step ", dt, ": ", show(flat(s)), " before ", show(flat(a)), " expected ", show(w));
    auto near_ = [](double x, double y, double tol, double floor = 0) { return std::abs(x - y) <= tol * std::max(std::abs(y), floor); };
    if (!near_(s.density, a.density, 1e-12)) ctx.check(false, "density-changed", what);
    for (int d = 0; d < D; ++d) if (!near_(s.momentum[d], a.momentum[d], 1e-12)) ctx.check(false, "momentum-changed", what);
    if (!near_(s.energy, a.energy, 1e-4, 1e5)) ctx.check(false, "energy-changed", what);
    if (!near_(s.temperature, w[0], 1e-9) || !near_(s.pressure, w[1], 1e-9)) ctx.check(false, "temperature-wrong", what);
    for (int i = 0; i < s.species.size(); ++i) if (!near_(s.species[i] / s.density, w[std::size_t(i) + 2], 1e-9, 1e-6)) ctx.check(false, "composition-wrong", what);
  });
  ctx.transition();
  ctx.state(mc::Hash().add(e.max_grid).add(e.ghosts).add(dt).add(shift).h);
  ctx.validated();
}
#if AMREX_SPACEDIM == 1
// ------------------------------------------------------------ tubes of varying diameter
SCENARIO("cross-section", "4 shapes x 2 mixtures x 3 velocities x 3 time steps x boxes of 2..8 cells x one or two levels x original, copy or moved term", 2) {
  const int shape = ctx.choose(4), mix = ctx.choose(2), life = ctx.choose(4);
  Extent e; e.max_grid = ctx.pick({8, 4, 2}); e.ghosts = ctx.pick({2, 1});
  if (ctx.flip()) { e.a = 2; e.b = 5; }
  IdealGasMix<1> eq(burke), own(burke);
  auto diameter = [shape](double x) { return shape == 0 ? 0.5 : shape == 1 ? 0.25 + x : shape == 2 ? std::exp(-x) : 1 + (x - 1.5) * (x - 1.5); };
  fa::IntegratorContext c = context(eq, e);
  fa::AxialSourceTerm term(eq, diameter, c.GetGriddingAlgorithm());
  Extent other; other.nx = 4; other.max_grid = 2;
  if (life == 1) { fa::AxialSourceTerm copy(term); term = std::move(copy); }
  if (life == 2) { fa::IntegratorContext d = context(eq, other); fa::AxialSourceTerm t(eq, [](double) { return 1.0; }, d.GetGriddingAlgorithm()); const fa::AxialSourceTerm& r = term; t = r; term = std::move(t); }
  if (life == 3) { fa::IntegratorContext d = context(eq, other); term.ResetHierarchyConfiguration(d.GetGriddingAlgorithm()); } // an outdated hierarchy
  ctx.check(term.ComputeStableDt(c, 0).count() >= 1e300, "restricts-the-time-step");
  for (double u : {-100.0, 0.0, 50.0, 400.0}) for (double dt : {1e-5, 1e-3, 4e-3}) for (int l = 0; l < c.GetPatchHierarchy().GetNumberOfLevels(); ++l) {
    auto init = [&](const IntVect& p) { return gas(own, (mix + p[0] + 4) % 2, 300 + 40 * (p[0] + 4), 0.5 + 0.125 * ((p[0] + 4) % 3), u + 10 * (p[0] % 2)); };
    fill(c, l, [&](const IntVect& p) { return flat(init(p)); });
    const ax::MultiFab& mf = c.GetScratch(l);
    std::vector<ax::FArrayBox> before;
    for (int k = 0; k < mf.size(); ++k) { before.emplace_back(mf[k].box(), mf.nComp()); ax::ForEachCell(mf[k].box(), [&](const IntVect& p) { put(before.back(), p, cell(mf[k], p)); }); }
    ctx.check(bool(term.AdvanceLevel(c, l, Duration(dt), IntVect(0))), "refused");
    const double dx = c.GetGeometry(l).CellSize(0);
    for (int k = 0; k < mf.size(); ++k) ax::ForEachCell(mf[k].box(), [&](const IntVect& p) {
      const auto v = cell(mf[k], p);
      if (!mf.boxArray()[k].contains(p)) { if (v != cell(before[std::size_t(k)], p)) ctx.check(false, "ghost-cell-changed", "level ", l, " cell ", p); return; }
      const auto a = init(p);
      Complete<IdealGasMix<1>> s(eq);
      take(s, v);
      const double x = 0.5 + (p[0] + 0.5) * dx, va = a.momentum[0] / a.density;
      // the change of the logarithm of the diameter from this cell to the next one, seen by the flow
      const double rate = va * (diameter(x + dx) - diameter(x)) / dx / diameter(x + 0.5 * dx);
      const double rho = a.density * std::exp(-rate * dt), pr = a.pressure * std::exp(-a.gamma * rate * dt);
      const std::string what = mc::cat("level ", l, " box ", k, " cell ", p, " time step ", dt, ": ", show(v), " before ", show(flat(a)), " expected density ", rho, " pressure ", pr);
      auto near_ = [](double y, double z, double tol) { return std::abs(y - z) <= tol * std::abs(z) + 1e-300; };
      if (!near_(s.density, rho, 1e-10) || !near_(s.pressure, pr, 1e-9)) ctx.check(false, "cross-section-wrong", what);
      if (std::abs(s.momentum[0] / s.density - va) > 1e-10 * 400) ctx.check(false, "velocity-changed", what);
      for (int i = 0; i < s.species.size(); ++i) if (std::abs(s.species[i] / s.density - a.species[i] / a.density) > 1e-10) ctx.check(false, "composition-changed", what);
      Complete<IdealGasMix<1>> again(eq);
      own.CompleteFromCons(again, s);
      if (!close(v, flat(again), 1e-6, 1e-3)) ctx.check(false, "inconsistent-state", what);
    });
    ctx.transition();
  }
  ctx.state(mc::Hash().add(shape).add(mix).add(life).add(e.max_grid).add(e.ghosts).add(e.b).h);
  ctx.validated();
}
// ------------------------------------------------------------ ignition of a tube
SCENARIO("ignition", "sequences of 3 or 4 steps x 3 time increments x 3 states of the gas at the probe x 4 schedules x 4 or 8 layouts (boxes, refinement, probe and ignition position)", 2) {
  // how the tube is cut into boxes, whether its middle is refined, and where the probe is: a cell in the middle, or beyond the last or first cell
  struct Layout { int max_grid; bool two; double probe; };
  const std::vector<Layout> layouts{{16, false, 1.40625}, {4, true, 1.40625}, {2, false, 3.0}, {4, false, 0.0}, {2, true, 1.40625}, {16, true, 3.0}, {2, false, 1.40625}, {16, true, 0.0}};
  const Layout lay = layouts[std::size_t(ctx.choose(ctx.thorough() ? 8 : 4))];
  Extent e; e.nx = 16; e.max_grid = lay.max_grid; e.ghosts = 2;
  const bool two = lay.two;
  if (two) { e.a = 6; e.b = 9; }
  IdealGasMix<1> eq(burke), own(burke);
  fa::IgniteDetonationOptions o;
  struct Plan { double offset, interval; };
  const Plan plan = ctx.pick({Plan{0.25, 0.5}, Plan{0.0, 0.5}, Plan{0.0, 0.0}, Plan{0.5, 0.125}});
  o.offset = Duration(plan.offset); o.ignite_interval = Duration(plan.interval);
  o.measurement_position = lay.probe;
  o.ignite_position = o.measurement_position > 2 ? 0.875 : 1.5; o.ramp_width = 0.375; o.temperature_low = 400; o.temperature_high = 1500; o.equivalence_ratio_criterium = 0.75;
  fa::IgniteDetonation term(eq, 2, o);
  fa::IntegratorContext c = context(eq, e);
  const int levels = c.GetPatchHierarchy().GetNumberOfLevels();
  ctx.check(term.ComputeStableDt(c, 0).count() >= 1e300, "restricts-the-time-step");
  bool ever[2] = {false, false}; double last[2] = {0, 0}, t = 0;
  for (int step = 0; step < (ctx.thorough() ? 4 : 3); ++step) {
    t += ctx.pick({0.0625, 0.25, 0.75});
    const int probe = ctx.choose(3); // air, lean or stoichiometric at the probe
    for (int l = 0; l < levels; ++l) {
      const double dx = c.GetGeometry(l).CellSize(0), x0 = 0.5 + dx, x1 = 2.5 - dx, xm = std::clamp(o.measurement_position, x0, x1), xi = std::clamp(o.ignite_position, x0, x1);
      const bool fine = levels > 1 && 1.25 <= xm && xm < 1.75;
      // the probe reads the finest cell there
      const double h = 2.0 / 16 / (fine ? 2 : 1);
      const int at = int(std::floor((xm - 0.5) / h));
      auto init = [&](int level, int i) {
        const bool here = (level == (fine ? 1 : 0)) && i == at;
        const int k = here ? (probe == 0 ? 0 : probe == 1 ? 2 : 3) : (i + 20) % 2;
        static std::map<std::array<int, 3>, std::vector<double>> known;
        const std::array<int, 3> key{k, i, here};
        Complete<IdealGasMix<1>> s(own);
        if (known.count(key)) { take(s, known[key]); return s; }
        FlameMasterReactor& r = own.GetReactor();
        std::vector<double> y(std::size_t(r.GetNSpecies()), 0.0);
        if (k == 3) { y[Burke2012::sH2] = 2; y[Burke2012::sO2] = 1; y[Burke2012::sN2] = 4; }
        else if (k == 2) { y[Burke2012::sH2] = 1; y[Burke2012::sO2] = 1; y[Burke2012::sN2] = 4; }
        else if (k == 1) { y[Burke2012::sH2] = here ? 0.0 : 2.5; y[Burke2012::sO2] = 1; y[Burke2012::sN2] = 4; }
        else { y[Burke2012::sO2] = 1; y[Burke2012::sN2] = 4; }
        r.SetMoleFractions(span<const double>(y));
        r.SetTemperature(300 + 50 * ((i + 20) % 16));
        r.SetDensity(0.5 + 0.0625 * ((i + 20) % 3));
        own.CompleteFromReactor(s, Array<double, 1, 1>::Constant(0.0));
        known[key] = flat(s);
        return s;
      };
      for (int m = 0; m < levels; ++m) {
        ax::MultiFab& mf = c.GetScratch(m);
        // cells beyond the boxes hold something else: only the cells of the boxes are up to date
        for (int k = 0; k < mf.size(); ++k) ax::ForEachCell(mf[k].box(), [&](const IntVect& p) { put(mf[k], p, flat(init(mf.boxArray()[k].contains(p) ? m : 7, mf.boxArray()[k].contains(p) ? p[0] : p[0] + 1))); });
      }
      c.SetTimePoint(Duration(t), l);
      const double next = ever[l] ? last[l] + plan.interval : plan.offset;
      const bool fires = next < t && probe == 2;
      ctx.check(bool(term.AdvanceLevel(c, l, Duration(0.0625), IntVect(0))), "refused");
      if (fires) { ever[l] = true; last[l] = next; }
      const double after = ever[l] ? last[l] + plan.interval : plan.offset;
      ctx.check(std::abs(term.GetNextIgnitionTimePoint(l).count() - after) < 1e-15, "next-ignition-wrong", "level ", l, " is ", term.GetNextIgnitionTimePoint(l).count(), " expected ", after, " at time ", t);
      for (int m = 0; m < levels; ++m) {
        const ax::MultiFab& mf = c.GetScratch(m);
        for (int k = 0; k < mf.size(); ++k) ax::ForEachCell(mf[k].box(), [&](const IntVect& p) {
          const bool inside = mf.boxArray()[k].contains(p);
          const auto a = inside ? init(m, p[0]) : init(7, p[0] + 1);
          const auto v = cell(mf[k], p);
          const double x = 0.5 + (p[0] + 0.5) * dx;
          const std::string what = mc::cat("level ", m, " of ", l, " box ", k, " cell ", p, " x ", x, " time ", t, " step ", step);
          if (!fires || m != l || !inside || x >= xi + o.ramp_width) { if (v != flat(a)) ctx.check(false, fires ? "cell-beyond-the-ramp-changed" : "ignited-without-reason", what); return; }
          Complete<IdealGasMix<1>> s(own);
          take(s, v);
          if (std::abs(s.density - a.density) > 1e-12) ctx.check(false, "density-changed", what);
          double T = a.temperature;
          if (x >= xi - o.ramp_width) T = std::max(T, o.temperature_high + (o.temperature_low - o.temperature_high) * std::abs(x - xi) / o.ramp_width);
          if (std::abs(s.temperature - T) > 1e-9 * T) ctx.check(false, "ramp-temperature-wrong", what, " is ", s.temperature, " expected ", T);
          std::vector<double> y(a.species.data(), a.species.data() + a.species.size());
          for (double& z : y) z /= a.density;
          if (x < xi - o.ramp_width) { // behind the ramp the gas is burnt
            static std::map<std::vector<double>, std::vector<double>> burnt;
            auto& z = burnt[flat(a)];
            if (z.empty()) {
              FlameMasterReactor r(burke);
              r.SetMassFractions(span<const double>(y)); r.SetDensity(a.density); r.SetTemperature(2000.0); r.Advance(1.0);
              z.assign(r.GetMassFractions().begin(), r.GetMassFractions().end());
            }
            y = z;
          }
          for (int i = 0; i < s.species.size(); ++i) if (std::abs(s.species[i] / s.density - y[std::size_t(i)]) > 1e-7) ctx.check(false, "composition-wrong", what, " species ", i, " is ", s.species[i] / s.density, " expected ", y[std::size_t(i)]);
        });
      }
      ctx.transition();
      ctx.state(mc::Hash().add(step).add(l).add(fires).add(t).add(last[l]).h);
    }
  }
  ctx.validated();
}
// ------------------------------------------------------------ viscosity, heat conduction and diffusion of species
SCENARIO("diffusion", "0..2 species x 0..1 passive scalars x boxes of 2..16 cells x 2..4 ghost cells x 3 parameter sets x 3 time steps x original, copied, assigned or moved term", 2) {
  const int ns = ctx.choose(3), np = ctx.choose(2), set = ctx.choose(3), life = ctx.choose(4);
  Extent e; e.max_grid = ctx.pick({16, 4, 2}); e.ghosts = ctx.pick({2, 3, 4}); e.nx = ctx.pick({16, 10});
  using Eq = PerfectGasMix<1>;
  Eq eq(PerfectGasConstants{287.0, 1.25}, ns, np);
  fa::DiffusionSourceTermOptions o;
  if (set) { o.mul = 2; o.reynolds = 40; o.schmidt = set == 1 ? 0.5 : 2; o.prandtl = 0.75; }
  fa::IntegratorContext c = context(eq, e);
  fa::DiffusionSourceTerm<Eq> first(eq, o);
  fa::DiffusionSourceTerm<Eq> copy(first);
  fa::DiffusionSourceTerm<Eq> assigned(eq);
  assigned = first;
  fa::DiffusionSourceTerm<Eq> again(eq, o);
  fa::DiffusionSourceTerm<Eq> moved(std::move(again));
  fa::DiffusionSourceTerm<Eq>& term = life == 0 ? first : life == 1 ? copy : life == 2 ? assigned : moved;
  ctx.check(term.ComputeStableDt(c, 0).count() >= 1e300, "restricts-the-time-step");
  const int n = e.nx; const double dx = 2.0 / n;
  const int nc = 3 + ns + np; // conservative components come first
  using V = std::vector<double>;
  auto fluxes = [&](const std::vector<V>& u) { // at the faces 0..n, mirrored at the ends
    std::vector<V> f(std::size_t(n) + 1, V(std::size_t(nc), 0.0));
    for (int i = 1; i < n; ++i) {
      const V &a = u[std::size_t(i - 1)], &b = u[std::size_t(i)];
      V& g = f[std::size_t(i)];
      const double ua = a[1] / a[0], ub = b[1] / b[0], nu = 4.0 / 3.0 * o.mul / o.reynolds;
      const double ha = eq.gamma * (a[2] / a[0] - 0.5 * ua * ua), hb = eq.gamma * (b[2] / b[0] - 0.5 * ub * ub);
      g[1] = -nu * (ub - ua) / dx;
      g[2] = -nu * 0.5 * (ua + ub) * (ub - ua) / dx - o.mul / o.reynolds / o.prandtl * (hb - ha) / dx;
      for (int s = 0; s < ns; ++s) g[std::size_t(3 + s)] = -o.mul / o.reynolds / o.schmidt * (b[std::size_t(3 + s)] / b[0] - a[std::size_t(3 + s)] / a[0]) / dx;
    }
    return f;
  };
  for (double dt : {0.001, 0.01, 0.03}) for (int shift = 0; shift < (ctx.thorough() ? 7 : 3); ++shift) {
    auto init = [&](const IntVect& p) { Prim w = palette(p, shift); return flat(mixture(eq, w)); };
    ax::MultiFab& mf = c.GetScratch(0);
    const ax::Box dom = c.GetGeometry(0).Domain();
    for (int k = 0; k < mf.size(); ++k) ax::ForEachCell(mf[k].box(), [&](const IntVect& p) { put(mf[k], p, init(mirror(p, dom))); });
    ctx.check(bool(term.AdvanceLevel(c, 0, Duration(dt), IntVect(0))), "refused");
    std::vector<V> u, h, w;
    for (int i = 0; i < n; ++i) u.push_back(init(IntVect(i)));
    auto step = [&](const std::vector<V>& from, double tau) { const auto f = fluxes(from); std::vector<V> r = u; for (int i = 0; i < n; ++i) for (int q = 0; q < nc; ++q) r[std::size_t(i)][std::size_t(q)] += tau / dx * (f[std::size_t(i)][std::size_t(q)] - f[std::size_t(i) + 1][std::size_t(q)]); return r; };
    h = step(u, 0.5 * dt); w = step(h, dt);
    for (V& v : w) { v[std::size_t(nc)] = (eq.gamma - 1) * (v[2] - 0.5 * v[1] * v[1] / v[0]); v[std::size_t(nc) + 1] = std::sqrt(eq.gamma * v[std::size_t(nc)] / v[0]); }
    for (int k = 0; k < mf.size(); ++k) ax::ForEachCell(mf[k].box(), [&](const IntVect& p) {
      const bool beyond = !dom.contains(p);
      if (!beyond && !ax::grow(mf.boxArray()[k], e.ghosts - 2).contains(p)) return; // ghost cells between boxes are exchanged later
      if (beyond && !ax::grow(mf.boxArray()[k], e.ghosts - 2).contains(mirror(p, dom))) return;
      const auto v = cell(mf[k], p);
      const V& s = w[std::size_t(mirror(p, dom)[0])];
      if (!close(v, s, 1e-11, 1e-1)) ctx.check(false, "diffusion-wrong", "box ", k, " cell ", p, " time step ", dt, " shift ", shift, ": ", show(v), " expected ", show(s));
    });
    ctx.transition();
  }
  ctx.state(mc::Hash().add(ns).add(np).add(set).add(life).add(e.max_grid).add(e.ghosts).add(e.nx).h);
  ctx.validated();
}
#endif
} // namespace
