// The real AMReX grid management of /repo (PatchHierarchy, GriddingAlgorithm,
// IntegratorContext, level integrators) on a single-process AMReX double,
// compared with an independent dense implementation of the same scheme.
#include "inc/amrex_common.hpp"
#include <filesystem>
#include "fub/AMReX/boundary_condition/BoundarySet.hpp"
#include "fub/AMReX/boundary_condition/ConstantBoundary.hpp"
#include "fub/AMReX/boundary_condition/ReflectiveBoundary.hpp"
#include "fub/AMReX/boundary_condition/TransmissiveBoundary.hpp"
#include <unistd.h>
using namespace fub;
namespace ax = ::amrex;
namespace fa = ::fub::amrex;
using ax::IntVect;

// One process is explored; what the other processes contribute to a reduction is a parameter.
static double other_process = 1e300;
extern "C" int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) {
  if (t != MPI_DOUBLE) { std::memcpy(r, s, std::size_t(n) * sizeof(int)); return 0; }
  for (int i = 0; i < n; ++i) {
    const double x = static_cast<const double*>(s)[i];
    static_cast<double*>(r)[i] = op == MPI_MIN ? std::min(x, other_process) : op == MPI_MAX ? std::max(x, other_process) : x + other_process;
  }
  return 0;
}
extern "C" int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm) { return 0; }

namespace {
struct World {
  mc::Ctx* ctx{};
  std::vector<int> patterns;     // the tag patterns on level 0
  int finer = D > 1 ? 6 : 5;     // how many patterns there are on finer levels
  std::map<int, int> last;       // level -> pattern, until the next time step
  IntVect base{};
};
// A tag pattern on level 0 is a set of quadrants of the domain; on finer levels one of a few rectangles inside of the level.
bool tagged(int level, int pattern, const IntVect& p, const IntVect& n) {
  if (level == 0) {
    int q = 0;
    if (p[0] >= n[0] / 2) q |= 1;
#if AMREX_SPACEDIM > 1
    if (p[1] >= n[1] / 2) q |= 2;
#endif
    return (pattern >> q) & 1;
  }
  switch (pattern) {
  case 0: return false;
  case 1: return true;
  case 2: return p[0] < n[0] / 2;
  case 3: return p[0] >= n[0] / 4 && p[0] < 3 * n[0] / 4;
#if AMREX_SPACEDIM > 1
  case 4: return p[1] < n[1] / 2;
#endif
  default: return p[0] == n[0] - 1;
  }
}
struct Tagger {
  std::shared_ptr<World> w;
  void TagCellsForRefinement(ax::TagBoxArray& tags, const fa::GriddingAlgorithm& grid, int level, Duration) const {
    const auto n = grid.GetPatchHierarchy().GetGeometry(level).Domain().size();
    if (!w->last.count(level)) w->last[level] = level == 0 ? w->patterns[std::size_t(w->ctx->choose(int(w->patterns.size())))] : w->ctx->choose(w->finer);
    const int pat = w->last[level];
    for (ax::MFIter mfi(tags); mfi.isValid(); ++mfi)
      ax::ForEachCell(mfi.validbox(), [&](const IntVect& p) { if (tagged(level, pat, p, n)) tags[mfi](p) = ax::TagBox::SET; });
  }
};
// The data of a finer level average to the data of the coarser one: the grid management knows no equation, so that it
// cannot recompute the derived quantity of covered cells while it makes the initial grids.
IntVect the_ratio(2);
bool unrelated = false; // the levels know nothing of each other
double initial(int level, const IntVect& p, int seed) {
  if (level > 0 && !unrelated) {
    const double sign = p.sum() % 2 ? -1 : 1, amount = 1 + (coarsen(p, the_ratio).sum() + level) % 3;
    return initial(level - 1, coarsen(p, the_ratio), seed) + sign * amount / 16;
  }
  unsigned h = unsigned(seed * 7 + level * 5 + 3);
  for (int d = 0; d < D; ++d) h = h * 13 + unsigned(p[d]) * unsigned(5 + 6 * d);
  return 1 + double((h * 2654435761u >> 16) % 8) / 8;
}
struct Initial {
  int seed;
  void InitializeData(fa::PatchLevel& pl, const fa::GriddingAlgorithm&, int level, Duration) const {
    for (ax::MFIter mfi(pl.data); mfi.isValid(); ++mfi)
      ax::ForEachCell(mfi.validbox(), [&](const IntVect& p) { pl.data[mfi](p, 0) = initial(level, p, seed); pl.data[mfi](p, 1) = 2 * initial(level, p, seed); });
  }
};
struct NoBc { void FillBoundary(ax::MultiFab&, const fa::GriddingAlgorithm&, int) {} void FillBoundary(ax::MultiFab&, const fa::GriddingAlgorithm&, int, Direction) {} };

// ------------------------------------------------------------ the reference
struct Wall { int dir, side, kind; };
double wall_value(int dir, int side) { return 1.25 + 0.25 * dir + 0.125 * side; }
struct Reference {
  std::vector<Dense> u; // per level; `on` marks the cells of the level
  std::vector<ax::Geometry> geom;
  IntVect ratio{};
  bool subcycle = true, strang = false;
  int cycles = 0;
  std::vector<Wall> walls; // in the order in which they are applied
  std::array<int, D> per{};
  int gcw = 2;
  std::vector<int> taken; // how many steps each level has taken since it was made
  std::vector<std::map<std::pair<int, IntVect>, double>> reg; // flux sums on coarse faces, per fine level
  static IntVect unit(int d) { IntVect e(0); e[d] = 1; return e; }
  IntVect wrap(int l, IntVect p) const { for (int d = 0; d < D; ++d) if (per[std::size_t(d)]) { const int n = u[l].dom.length(d); p[d] = ((p[d] % n) + n) % n; } return p; }
  double composite(int l, const IntVect& q) const { // in the domain
    const IntVect p = wrap(l, q);
    if (u[l].on[u[l].at(p)]) return u[l](p);
    return composite(l - 1, ax::coarsen(p, ratio));
  }
  void apply(Dense& e, int dir) const { // the walls of one direction, or all of them
    for (const Wall& w : walls) {
      if (dir >= 0 && w.dir != dir) continue;
      ax::ForEachCell(e.all, [&](const IntVect& p) {
        const int edge = w.side ? e.dom.bigEnd(w.dir) : e.dom.smallEnd(w.dir);
        if (w.side ? p[w.dir] <= edge : p[w.dir] >= edge) return;
        IntVect q = p;
        switch (w.kind) {
        case 0: q[w.dir] = edge; e(p) = e(q); break;                                       // transmissive
        case 1: q[w.dir] = 2 * edge + (w.side ? 1 : -1) - p[w.dir]; e(p) = 3 - e(q); break; // reflective
        default: e(p) = wall_value(w.dir, w.side);                                         // constant
        }
      });
    }
  }
  Dense filled(int l) const { // the level with everything around it
    Dense e(geom[l], gcw);
    ax::ForEachCell(e.dom, [&](const IntVect& p) { e(p) = composite(l, p); });
    apply(e, -1);
    return e;
  }
  bool fine_covers(int l, const IntVect& p) const { // is the coarse cell p of level l covered by level l + 1?
    if (l + 1 >= int(u.size())) return false;
    IntVect f = wrap(l, p); for (int d = 0; d < D; ++d) f[d] *= ratio[d];
    return u[l + 1].on[u[l + 1].at(f)];
  }
  void levels(const fa::PatchHierarchy& h) { // take over a new set of grids
    std::vector<Dense> next;
    for (int l = 0; l < h.GetNumberOfLevels(); ++l) {
      Dense n(h.GetGeometry(l));
      const auto& ba = h.GetPatchLevel(l).box_array;
      for (int k = 0; k < ba.size(); ++k) ax::ForEachCell(ba[k], [&](const IntVect& p) { n.on[n.at(p)] = 1; });
      ax::ForEachCell(n.dom, [&](const IntVect& p) {
        if (!n.on[n.at(p)]) return;
        if (l < int(u.size()) && u[l].on[u[l].at(p)]) n(p) = u[l](p);
        else if (l > 0) n(p) = next[std::size_t(l - 1)](ax::coarsen(p, ratio));
      });
      next.push_back(std::move(n));
    }
    u = std::move(next);
    taken.resize(u.size());
    reg.assign(u.size(), {});
  }
  void average(int l) { // level l + 1 -> level l
    if (l + 1 >= int(u.size())) return;
    ax::ForEachCell(u[l].dom, [&](const IntVect& p) {
      if (!fine_covers(l, p)) return;
      double s = 0; int n = 0;
      ax::ForEachCell(ax::refine(ax::Box(p, p), ratio), [&](const IntVect& q) { s += u[l + 1](q); ++n; });
      u[l](p) = s / n;
    });
  }
  void step(int l, double dt, int sub) {
    ++taken[std::size_t(l)];
    Dense e = filled(l);
    std::vector<std::pair<int, double>> ops;
    const int odd = (cycles % 2 + sub) % 2;
    std::vector<int> dirs; for (int d = 0; d < D; ++d) dirs.push_back(odd ? D - 1 - d : d);
    if (!strang || D == 1) for (int d : dirs) ops.emplace_back(d, dt);
    else {
      for (int k = 0; k + 1 < D; ++k) ops.emplace_back(dirs[k], dt / 2);
      for (int k = 0; k < 2; ++k) ops.emplace_back(dirs[D - 1], dt / 2);
      for (int k = D - 2; k >= 0; --k) ops.emplace_back(dirs[k], dt / 2);
    }
    double vol = 1; for (int d = 0; d < D; ++d) vol *= geom[l].CellSize(d);
    std::array<int, D> count{};
    for (auto [d, tau] : ops) {
      if (count[std::size_t(d)]++ > 0) apply(e, d);
      const double dx = geom[l].CellSize(d);
      Dense n = e;
      std::map<IntVect, double> fl;
      auto flux = [&](const IntVect& face) { return numeric_flux(e(face - unit(d)), e(face), d); };
      ax::ForEachCell(e.all, [&, d = d, tau = tau](const IntVect& p) { if (e.has(p - unit(d)) && e.has(p + unit(d))) n(p) = e(p) + tau / dx * (flux(p) - flux(p + unit(d))); });
      const double area = vol / dx;
      // the faces between this level and the next coarser one
      if (l > 0) ax::ForEachCell(e.dom, [&](const IntVect& p) {
        if (!u[l].inside(p - unit(d))) return;
        const bool here = u[l].on[u[l].at(p)], there = u[l].on[u[l].at(p - unit(d))];
        if (here == there) return;
        IntVect c = ax::coarsen(p, ratio);
        reg[l][{d, c}] += flux(p) * tau * area;
      });
      // the faces between this level and the next finer one
      if (l + 1 < int(u.size())) ax::ForEachCell(e.dom, [&](const IntVect& p) {
        if (u[l].inside(p - unit(d)) && fine_covers(l, p) != fine_covers(l, p - unit(d))) reg[l + 1][{d, p}] -= flux(p) * tau * area;
      });
      e = n;
    }
    ax::ForEachCell(e.dom, [&](const IntVect& p) { if (u[l].on[u[l].at(p)]) u[l](p) = e(p); });
  }
  void advance(int l, double dt, int sub) {
    const bool fine = l + 1 < int(u.size());
    if (fine) {
      reg[l + 1].clear();
      const int r = subcycle ? ratio.max() : 1;
      for (int k = 0; k < r; ++k) advance(l + 1, dt / r, k);
    }
    step(l, dt, sub);
    if (fine) {
      double vol = 1; for (int d = 0; d < D; ++d) vol *= geom[l].CellSize(d);
      for (auto& [key, f] : reg[l + 1]) {
        const auto& [d, p] = key;
        const IntVect lo = wrap(l, p - unit(d)), hi = wrap(l, p);
        if (u[l].on[u[l].at(lo)]) u[l](lo) -= f / vol;
        if (u[l].on[u[l].at(hi)]) u[l](hi) += f / vol;
      }
      average(l);
    }
  }
  double total() const { double s = 0; for (double x : u[0].v) s += x; return s; }
  bool closed() const { return walls.empty(); }
};

template <class Context> using LevelInt = DimensionalSplitLevelIntegrator<D, Context, AnySplitMethod>;
template <class Context> using Fine = SubcycleFineFirstSolver<LevelInt<Context>>;
template <class Context> using Flat = NoSubcycleSolver<LevelInt<Context>>;

struct Setup { IntVect n{}; int levels = 2, bf = 2, max_grid = 8, err = 0, tag = 0, freq = 1; bool subcycle = true, strang = false; IntVect ratio{}; int steps = 2, seed = 0; bool copies = false, retry = false, checkpoint = false; std::vector<Wall> walls; std::vector<int> patterns; int finer = D > 1 ? 6 : 5; };

fa::HyperbolicMethod method(int tag, Limit* limit) {
  QFlux f{limit};
  QEq q{};
  switch (tag) {
  case 0: return {fa::FluxMethodAdapter(execution::seq, f), fa::ForwardIntegrator<execution::SequentialTag>(), fa::Reconstruction(execution::seq, q)};
  case 1: return {fa::FluxMethodAdapter(execution::simd, f), fa::ForwardIntegrator<execution::SimdTag>(), fa::Reconstruction(execution::simd, q)};
  case 2: return {fa::FluxMethodAdapter(execution::openmp, f), fa::ForwardIntegrator<execution::OpenMpTag>(), fa::Reconstruction(execution::openmp, q)};
  default: return {fa::FluxMethodAdapter(f), fa::EulerForwardTimeIntegrator(), fa::Reconstruction(q)};
  }
}
fa::AnyBoundaryCondition boundary(const Setup& s) {
  if (s.walls.empty()) return NoBc{};
  fa::BoundarySet set;
  for (const Wall& w : s.walls) {
    const Direction dir = Direction(w.dir);
    fub::Complete<QEq> state; state.mass = wall_value(w.dir, w.side); state.twice = 2 * state.mass;
    switch (w.kind) {
    case 0: set.conditions.push_back(fa::TransmissiveBoundary{dir, w.side}); break;
    case 1: if (s.tag == 0 || s.tag == 3) set.conditions.push_back(fa::ReflectiveBoundary(execution::seq, QEq{}, dir, w.side)); else set.conditions.push_back(fa::ReflectiveBoundary(execution::openmp, QEq{}, dir, w.side)); break;
    default: set.conditions.push_back(fa::ConstantBoundary<QEq>{dir, w.side, QEq{}, state});
    }
  }
  return set;
}
std::shared_ptr<fa::GriddingAlgorithm> grid_for(const Setup& s, std::shared_ptr<World> w) {
  ax::Geometry::ResetDefault();
  fa::CartesianGridGeometry g;
  for (int d = 0; d < D; ++d) { g.cell_dimensions[d] = s.n[d]; g.periodicity[d] = 1; }
  for (const Wall& w : s.walls) g.periodicity[std::size_t(w.dir)] = 0;
  double lo[3] = {0, -1, 0.5}, hi[3] = {2, 1, 1};
  g.coordinates = ax::RealBox(lo, hi);
  fa::PatchHierarchyOptions o;
  o.max_number_of_levels = s.levels; o.refine_ratio = s.ratio; o.blocking_factor = IntVect(s.bf); o.max_grid_size = IntVect(s.max_grid);
  o.n_error_buf = IntVect(s.err); o.grid_efficiency = 1.0;
  return std::make_shared<fa::GriddingAlgorithm>(fa::PatchHierarchy(QEq{}, g, o), Initial{s.seed}, Tagger{w}, boundary(s));
}
void compare(mc::Ctx& ctx, const fa::PatchHierarchy& h, const Reference& r, const char* when) {
  ctx.check(h.GetNumberOfLevels() == int(r.u.size()), "number-of-levels", when);
  for (int l = 0; l < h.GetNumberOfLevels(); ++l) {
    const auto& mf = h.GetPatchLevel(l).data;
    std::size_t n = 0;
    for (int k = 0; k < mf.size(); ++k) ax::ForEachCell(mf.box(k), [&](const IntVect& p) {
      ++n;
      if (!near(mf[k](p, 0), r.u[l](p))) ctx.check(false, "cell-value", when, " level ", l, " cell ", p, " is ", mf[k](p, 0), " expected ", r.u[l](p));
      if (!near(mf[k](p, 1), 2 * r.u[l](p))) ctx.check(false, "derived-value", when, " level ", l, " cell ", p, " is ", mf[k](p, 1), " expected ", 2 * r.u[l](p));
    });
    std::size_t m = 0; for (char c : r.u[l].on) m += std::size_t(c);
    ctx.check(n == m, "cells-of-level", when, " level ", l, " has ", n, " cells, expected ", m);
  }
}
template <template <class> class Solver>
void run(mc::Ctx& ctx, const Setup& s) {
  auto w = std::make_shared<World>(); w->ctx = &ctx; w->base = s.n; w->patterns = s.patterns; w->finer = s.finer;
  if (s.patterns.empty()) { w->patterns.clear(); for (int i = 0; i < (D > 1 ? 16 : 4); ++i) w->patterns.push_back(i); }
  the_ratio = s.ratio; unrelated = false;
  auto grid = grid_for(s, w);
  grid->InitializeHierarchy(0.0);
  Reference ref;
  ref.walls = s.walls; ref.per.fill(1); for (const Wall& x : s.walls) ref.per[std::size_t(x.dir)] = 0;
  ref.gcw = s.strang || D > 2 ? 4 : 2;
  ref.ratio = s.ratio; ref.subcycle = s.subcycle; ref.strang = s.strang;
  for (int l = 0; l < s.levels; ++l) ref.geom.push_back(grid->GetPatchHierarchy().GetGeometry(l));
  { // initial data
    const auto& h = grid->GetPatchHierarchy();
    ref.levels(h);
    for (int l = 0; l < int(ref.u.size()); ++l) ax::ForEachCell(ref.u[l].dom, [&](const IntVect& p) { ref.u[l](p) = initial(l, p, s.seed); });
    for (int l = int(ref.u.size()) - 2; l >= 0; --l) ref.average(l);
    for (int l = 0; l < h.GetNumberOfLevels(); ++l) {
      const auto& mf = h.GetPatchLevel(l).data;
      for (int k = 0; k < mf.size(); ++k) ax::ForEachCell(mf.box(k), [&](const IntVect& p) {
        if (!near(mf[k](p, 0), ref.u[l](p))) ctx.check(false, "initial-value", "level ", l, " cell ", p, " is ", mf[k](p, 0), " expected ", ref.u[l](p));
      });
      if (l > 0) for (int k = 0; k < mf.size(); ++k) // nested in the next coarser level
        ctx.check(h.GetPatchLevel(l - 1).box_array.contains(ax::coarsen(mf.box(k), s.ratio)), "not-nested", "level ", l);
    }
  }
  const double total0 = ref.total();
  const bool wide = s.strang || D > 2;
  fa::IntegratorContextOptions opt; opt.scratch_gcw = wide ? 4 : 2; opt.flux_gcw = wide ? 2 : 1; opt.regrid_frequency = s.freq;
  using S = Solver<fa::IntegratorContext>;
  AnySplitMethod split = GodunovSplitting(); if (s.strang) split = StrangSplitting();
  Limit limit;
  auto make = [&](std::shared_ptr<fa::GriddingAlgorithm> g) { return S(LevelInt<fa::IntegratorContext>(int_constant<D>{}, fa::IntegratorContext(std::move(g), method(s.tag, &limit), opt), split)); };
  S solver = make(grid);
  double t = 0;
  auto advance = [](S& v, double dt) { v.PreAdvanceHierarchy(); auto r = v.AdvanceHierarchy(Duration(dt)); if (r) v.PostAdvanceHierarchy(Duration(dt)); return r; };
  auto stable = [&](const char* when) { // the stable time step size: the smallest one over all levels and their ghost cells
    if (!(s.subcycle || t == 0) || s.tag == 2) return;
    const auto& h = solver.GetGriddingAlgorithm()->GetPatchHierarchy();
    limit.value = 2.0;
    const double is = solver.ComputeStableDt().count();
    limit.value = 1e9;
    double expected = 1e300; int r = 1;
    for (int l = 0; l < h.GetNumberOfLevels(); ++l) {
      if (l > 0 && s.subcycle) r *= s.ratio.max();
      for (int d = 0; d < D; ++d) {
        double largest = 0;
        const Dense e = ref.filled(l);
        const auto& ba = h.GetPatchLevel(l).box_array;
        for (int k = 0; k < ba.size(); ++k) ax::ForEachCell(ax::grow(ba[k], opt.scratch_gcw), [&](const IntVect& p) { largest = std::max(largest, e(p)); });
        expected = std::min(expected, r * 2.0 / largest * ref.geom[std::size_t(l)].CellSize(d));
      }
    }
    ctx.check(near(is, expected), "stable-time-step", when, " is ", is, " expected ", expected);
    other_process = expected / 2;
    limit.value = 2.0;
    const double both = solver.ComputeStableDt().count();
    limit.value = 1e9; other_process = 1e300;
    ctx.check(near(both, expected / 2), "stable-time-step-of-other-process", both, " expected ", expected / 2);
  };
  bool restarted = false;
  bool fresh = false;
  int feedback = 0;
  solver.GetContext().SetPostAdvanceHierarchyFeedback([&](fa::IntegratorContext&, Duration) { ++feedback; });
  for (int k = 0; k < s.steps; ++k) {
    const double dt = k % 2 ? 0.0625 : 0.03125;
    if (s.copies) {
      const auto last = w->last;
      const std::map<int, int> elsewhere{{0, D > 1 ? 6 : 2}, {1, 2}};
      auto stray = [&](S& v) { w->last = elsewhere; ctx.check(bool(advance(v, 0.03125)), "step-refused"); };
      const int what = ctx.choose(7);
      fresh = what != 0 && what != 5; // starts from the grids it is given
      switch (what) {
      case 0: break;
      case 1: { S c(solver); stray(c); break; }                          // a copy goes its own way
      case 2: { S c(solver); stray(solver); solver = c; break; }         // the original goes away, the copy takes its place
      case 3: { S c(solver); stray(solver); solver = std::move(c); break; }
      case 4: { auto b = std::make_shared<fa::GriddingAlgorithm>(*solver.GetGriddingAlgorithm()); stray(solver); solver.ResetHierarchyConfiguration(b); break; }
      case 5: { S c(std::move(solver)); solver = std::move(c); break; }
      case 6: { fa::GriddingAlgorithm b(*solver.GetGriddingAlgorithm()); stray(solver); *solver.GetGriddingAlgorithm() = b; solver.ResetHierarchyConfiguration(solver.GetGriddingAlgorithm()); break; }
      }
      w->last = last;
      compare(ctx, solver.GetGriddingAlgorithm()->GetPatchHierarchy(), ref, "after a copy");
    }
    if (s.checkpoint && !restarted && ctx.flip()) { // write a checkpoint and go on from it
      restarted = true;
      const std::string name = "chk_" + std::to_string(::getpid());
      const auto& h = solver.GetGriddingAlgorithm()->GetPatchHierarchy();
      fa::WriteCheckpointFile(name, h);
      fa::PatchHierarchy back = fa::ReadCheckpointFile(name, fa::MakeDataDescription(QEq{}), h.GetGridGeometry(), h.GetOptions());
      std::filesystem::remove_all(name);
      ctx.check(back.GetNumberOfLevels() == h.GetNumberOfLevels(), "restart-levels");
      for (int l = 0; l < h.GetNumberOfLevels(); ++l) {
        ctx.check(back.GetTimePoint(l) == h.GetTimePoint(l) && back.GetCycles(l) == h.GetCycles(l), "restart-clock", "level ", l);
        ctx.check(back.GetPatchLevel(l).box_array == h.GetPatchLevel(l).box_array, "restart-boxes", "level ", l);
        ctx.check(back.GetPatchLevel(l).level_number == l && h.GetPatchLevel(l).level_number == l, "restart-level-number", "level ", l);
        for (int b = 0; b < h.GetPatchLevel(l).data.size(); ++b) ax::ForEachCell(h.GetPatchLevel(l).box_array[b], [&](const IntVect& p) {
          for (int c = 0; c < 2; ++c) if (!(back.GetPatchLevel(l).data[b](p, c) == h.GetPatchLevel(l).data[b](p, c))) ctx.check(false, "restart-data", "level ", l, " ", p);
        });
      }
      solver = make(std::make_shared<fa::GriddingAlgorithm>(std::move(back), Initial{s.seed}, Tagger{w}, boundary(s)));
    }
    w->last.clear();
    const auto before = solver.GetGriddingAlgorithm()->GetPatchHierarchy().GetBoxArrays();
    if (s.retry) { // the first try is refused by one of the first stable time step computations
      const int who = ctx.choose(9); // a step computation of this process, or another process
      if (who == 8) other_process = limit.small; else limit.countdown = who;
      auto b = std::make_shared<fa::GriddingAlgorithm>(*solver.GetGriddingAlgorithm());
      const auto res = advance(solver, dt);
      limit.countdown = -1; other_process = 1e300;
      ctx.check(who != 8 || !res, "step-not-refused");
      if (!res) {
        const double ratio = res.error().dt.count() / limit.small;
        double r = 1; bool known = false;
        for (std::size_t l = 0; l < std::size_t(s.levels); ++l, r *= s.subcycle ? s.ratio.max() : 1) known = known || near(ratio, r);
        ctx.check(known && res.error().level == (s.subcycle ? 0 : res.error().level), "refused-step", ratio, " level ", res.error().level);
        solver.ResetHierarchyConfiguration(b);
        compare(ctx, solver.GetGriddingAlgorithm()->GetPatchHierarchy(), ref, "after a refused step");
        ctx.check(bool(advance(solver, dt)), "step-refused");
      }
    } else {
      const int called = feedback;
      ctx.check(bool(advance(solver, dt)), "step-refused");
      ctx.check(restarted || feedback == called + 1, "feedback");
    }
    if (k % s.freq != 0) ctx.check(w->last.empty() && before == solver.GetGriddingAlgorithm()->GetPatchHierarchy().GetBoxArrays(), "regrid-frequency", "grids change in step ", k);
    else if (s.levels > 1 && k > 0 && !restarted && !fresh) ctx.check(!w->last.empty(), "regrid-frequency", "no new grids in step ", k);
    const auto& h = solver.GetGriddingAlgorithm()->GetPatchHierarchy();
    ref.levels(h);
    ref.advance(0, dt, 0);
    ++ref.cycles;
    t += dt;
    compare(ctx, h, ref, "after a step");
    if (s.walls.empty() && !near(ref.total(), total0)) ctx.check(false, "reference-not-conservative", ref.total(), " ", total0);
    double sum = 0;
    const auto& mf0 = h.GetPatchLevel(0).data;
    for (int b = 0; b < mf0.size(); ++b) ax::ForEachCell(mf0.box(b), [&](const IntVect& p) { sum += mf0[b](p, 0); });
    ctx.check(!s.walls.empty() || near(sum, total0), "total", "is ", sum, " expected ", total0);
    int n = 1;
    for (int l = 0; l < h.GetNumberOfLevels(); ++l) {
      if (l > 0 && s.subcycle) n *= s.ratio.max();
      ctx.check(near(h.GetTimePoint(l).count(), t), "time-point", "level ", l, " is ", h.GetTimePoint(l).count(), " expected ", t);
      ctx.check(near(solver.GetTimePoint(l).count(), t), "solver-time-point", "level ", l);
      ctx.check(h.GetCycles(l) == ref.taken[std::size_t(l)], "level-cycles", "level ", l, " has taken ", h.GetCycles(l), " expected ", ref.taken[std::size_t(l)]);
      ctx.check(h.GetBoxArrays().size() >= std::size_t(l) && h.GetBoxArrays()[std::size_t(l)] == h.GetPatchLevel(l).box_array, "box-arrays", "level ", l);
    }
    ctx.check(h.GetCycles(0) == k + 1 && solver.GetCycles(0) == k + 1, "cycles", h.GetCycles(0), " expected ", k + 1);
    stable("after a step");
    ctx.transition();
  }
  mc::Hash hash; for (auto& l : ref.u) { for (double x : l.v) hash.add(x); for (char c : l.on) hash.add(c); }
  ctx.state(hash.h);
  ctx.validated();
}
// The grids of all levels from a function that gives every level other values: what counts is the finest level.
void initial_grids(mc::Ctx& ctx, const Setup& s) {
  auto w = std::make_shared<World>(); w->ctx = &ctx; w->base = s.n; w->patterns = s.patterns; w->finer = s.finer;
  if (s.patterns.empty()) for (int i = 0; i < (D > 1 ? 16 : 4); ++i) w->patterns.push_back(i);
  the_ratio = s.ratio; unrelated = true;
  auto grid = grid_for(s, w);
  grid->InitializeHierarchy(0.0);
  const auto& h = grid->GetPatchHierarchy();
  const int n = h.GetNumberOfLevels();
  Reference ref; ref.per.fill(1); ref.ratio = s.ratio;
  for (int l = 0; l < s.levels; ++l) ref.geom.push_back(h.GetGeometry(l));
  ref.levels(h);
  for (int l = 0; l < n; ++l) ax::ForEachCell(ref.u[l].dom, [&](const IntVect& p) { ref.u[l](p) = initial(l, p, s.seed); });
  for (int l = n - 2; l >= 0; --l) ref.average(l);
  for (int l = 0; l < n; ++l) {
    const auto& mf = h.GetPatchLevel(l).data;
    for (int k = 0; k < mf.size(); ++k) ax::ForEachCell(mf.box(k), [&](const IntVect& p) {
      if (!near(mf[k](p, 0), ref.u[l](p))) ctx.check(false, "initial-average", "level ", l, " of ", n, " cell ", p, " is ", mf[k](p, 0), " expected ", ref.u[l](p));
    });
    // what the hierarchy says about its levels
    ctx.check(h.GetRatioToCoarserLevel(l) == (l ? s.ratio : IntVect(1)), "ratio", "level ", l);
    for (int d = 0; d < D; ++d) {
      ctx.check(h.GetRatioToCoarserLevel(l, Direction(d)) == (l ? s.ratio[d] : 1), "ratio-of-direction", "level ", l, " direction ", d);
      int cells = s.n[d]; for (int k = 0; k < l; ++k) cells *= s.ratio[d];
      ctx.check(h.GetGeometry(l).Domain().length(d) == cells && near(h.GetGeometry(l).CellSize(d) * cells, d == 2 ? 0.5 : 2.0), "geometry", "level ", l, " direction ", d);
    }
    ctx.check(h.GetPatchLevel(l).level_number == l && h.GetCycles(l) == 0 && h.GetTimePoint(l).count() == 0, "fresh-level", "level ", l);
    ctx.transition();
  }
  mc::Hash hash; for (auto& l : ref.u) { for (double x : l.v) hash.add(x); for (char c : l.on) hash.add(c); }
  ctx.state(hash.h);
  ctx.validated();
}
IntVect iv(int x, int y, int z) { (void)y; (void)z; return IntVect(AMREX_D_DECL(x, y, z)); }
void go(mc::Ctx& ctx, const Setup& s) { if (s.subcycle) run<Fine>(ctx, s); else run<Flat>(ctx, s); }
} // namespace

namespace {
// tag patterns: nothing, one quadrant, two opposite ones, three, everything
std::vector<int> few(bool more) {
  if (D == 1) return more ? std::vector<int>{} : std::vector<int>{0, 1, 3};
  return more ? std::vector<int>{} : std::vector<int>{0, 1, 9, 7, 15};
}
}
#ifndef WALLS
SCENARIO("two-levels", "all histories of two levels, both solvers and splittings, all box sizes", 2) {
  Setup s; s.n = iv(4, 4, 4); s.ratio = IntVect(2); s.max_grid = ctx.pick({8, 2, 4});
  s.subcycle = ctx.flip(); s.strang = ctx.flip(); if (s.strang) { s.n = iv(8, 4, 4); s.bf = 4; s.max_grid = std::max(4, s.max_grid); }
  s.steps = 2; s.patterns = few(ctx.thorough() || D == 1);
  go(ctx, s);
}
SCENARIO("three-levels", "histories of three levels", 2) {
  Setup s; s.n = iv(8, 8, 8); s.ratio = IntVect(2); s.levels = 3; s.bf = 4; s.max_grid = ctx.pick({16, 4}); s.subcycle = ctx.flip();
  s.steps = 2; s.patterns = few(ctx.thorough()); s.finer = ctx.thorough() ? D > 1 ? 6 : 5 : 3;
  if (!ctx.thorough()) s.patterns = {0, 1, D > 1 ? 9 : 3};
  if (D == 3 && !ctx.thorough()) { s.patterns = {1}; s.n = iv(8, 8, 4); s.bf = 2; s.max_grid = std::max(8, s.max_grid); }
  go(ctx, s);
}
SCENARIO("ratios", "refinement ratios that differ between directions", 2) {
  Setup s; s.n = iv(8, 8, 8); s.bf = 4; s.max_grid = ctx.pick({16, 4}); s.subcycle = ctx.flip();
  switch (ctx.choose(D == 1 ? 1 : 4)) { case 0: s.ratio = IntVect(4); break; case 1: s.ratio = iv(2, 1, 1); break; case 2: s.ratio = iv(1, 2, 4); break; default: s.ratio = iv(4, 2, 2); }
  s.levels = ctx.thorough() ? ctx.pick({2, 3}) : 2; s.steps = 2; s.patterns = few(false); s.finer = 3;
  if (D == 3 && !ctx.thorough()) s.patterns = {1, 9};
  go(ctx, s);
}
SCENARIO("loops", "every way to loop over the cells gives the same result", 2) {
  Setup s; s.n = iv(16, 16, 16); if (D == 3) s.n = iv(8, 8, 16); s.bf = 4; s.max_grid = ctx.pick({16, 4}); s.ratio = IntVect(2); s.tag = ctx.choose(4); s.subcycle = ctx.flip(); s.strang = ctx.flip();
  s.levels = 2; s.steps = 2; s.patterns = {D > 1 ? 9 : 1}; if (ctx.thorough()) s.patterns = {0, 1, 9, 15}; if (D == 1) s.patterns = {0, 1, 2};
  go(ctx, s);
}
SCENARIO("copies", "copies, assignments, moves and resets between the steps", 2) {
  Setup s; s.n = iv(8, 8, 8); s.bf = 4; s.max_grid = 4; s.ratio = IntVect(2); s.subcycle = ctx.flip(); s.levels = ctx.thorough() ? ctx.pick({2, 3}) : 2; s.copies = true;
  s.steps = 2; s.patterns = {0, 1, D > 1 ? 9 : 3}; s.finer = 3;
  if (D == 3 && !ctx.thorough()) { s.patterns = {1}; s.n = iv(8, 4, 4); s.finer = 2; }
  go(ctx, s);
}
SCENARIO("retry", "steps that are refused once and taken again", 2) {
  Setup s; s.n = iv(8, 8, 8); s.bf = 4; s.max_grid = ctx.pick({8, 4}); s.ratio = IntVect(ctx.pick({2, 4})); s.subcycle = ctx.flip(); s.levels = ctx.thorough() ? ctx.pick({2, 3}) : 2; s.retry = true;
  s.steps = 2; s.patterns = {0, 1, D > 1 ? 9 : 3}; s.finer = 3;
  if (D == 3 && !ctx.thorough()) { s.n = iv(8, 4, 4); s.patterns = {1}; s.ratio = IntVect(2); }
  go(ctx, s);
}
SCENARIO("restart", "a checkpoint is written at some step and the run goes on from it", 2) {
  Setup s; s.n = iv(8, 8, 8); s.bf = 4; s.max_grid = ctx.pick({8, 4}); s.ratio = IntVect(2); s.subcycle = ctx.flip(); s.levels = D == 3 && !ctx.thorough() ? 2 : ctx.pick({1, 2, 3}); s.checkpoint = true;
  s.steps = 2; s.patterns = {0, 1, D > 1 ? 9 : 3}; s.finer = 3;
  if (D == 3 && !ctx.thorough()) { s.n = iv(8, 4, 4); s.patterns = {1}; }
  go(ctx, s);
}
SCENARIO("regrid-frequency", "grids are renewed only in every n-th step", 2) {
  Setup s; s.n = iv(8, 8, 8); s.bf = 4; s.max_grid = 4; s.ratio = IntVect(2); s.subcycle = ctx.flip(); s.levels = ctx.thorough() ? ctx.pick({2, 3}) : 2; s.freq = ctx.pick({2, 3});
  s.steps = ctx.thorough() && D < 3 ? 5 : 4; s.patterns = {0, 1, D > 1 ? 9 : 3}; s.finer = 3;
  if (D == 3 && !ctx.thorough()) s.patterns = {1, 9};
  go(ctx, s);
}
SCENARIO("initial-grids", "initial grids of up to three levels whose initial values are unrelated", 2) {
  Setup s; s.n = iv(8, 8, 8); s.bf = 4; s.max_grid = ctx.pick({16, 4}); s.levels = ctx.choose(3) + 1;
  switch (ctx.choose(D == 1 ? 2 : 4)) { case 0: s.ratio = IntVect(2); break; case 1: s.ratio = IntVect(4); break; case 2: s.ratio = iv(1, 2, 4); break; default: s.ratio = iv(4, 2, 2); }
  s.seed = ctx.choose(2); s.patterns = few(ctx.thorough()); s.finer = ctx.thorough() ? D > 1 ? 6 : 5 : 3;
  if (D == 3 && !ctx.thorough()) { if (s.levels == 3 && s.ratio != IntVect(2)) throw mc::Prune{}; s.patterns = {0, 1, 9}; }
  initial_grids(ctx, s);
}
SCENARIO("level-data", "copies of levels with data on cells, nodes and faces", 1) {
  fa::DataDescription desc;
  desc.n_state_components = ctx.choose(3); desc.first_cons_component = 0; desc.n_cons_components = std::min(1, desc.n_state_components);
  desc.n_node_components = ctx.choose(3); desc.n_face_components = ctx.choose(3); desc.dimension = D;
  ax::BoxArray ba(ax::Box(IntVect(0), IntVect(3)));
  ba.maxSize(ctx.pick({4, 2}));
  ax::DistributionMapping dm(ba);
  auto fill = [](ax::MultiFab& m, double base) { for (int k = 0; k < m.size(); ++k) for (int c = 0; c < m.nComp(); ++c) ax::ForEachCell(m.box(k), [&](const IntVect& p) { m[k](p, c) = base + p[0] + 7 * p[D - 1] + 61 * c; }); };
  auto holds = [&](const ax::MultiFab& m, const ax::BoxArray& on, int n, double base, const char* what) {
    ctx.check(m.boxArray() == on && m.nComp() == n && m.size() == ba.size(), "layout", what);
    for (int k = 0; k < m.size(); ++k) for (int c = 0; c < n; ++c) ax::ForEachCell(m.box(k), [&](const IntVect& p) { if (m[k](p, c) != base + p[0] + 7 * p[D - 1] + 61 * c) ctx.check(false, "value", what, " ", p, " ", c); });
  };
  fa::PatchLevel level(2, Duration(0.5), ba, dm, desc);
  level.cycles = 5;
  if (desc.n_state_components) fill(level.data, 0);
  if (level.nodes) fill(*level.nodes, 1000);
  for (int d = 0; d < D; ++d) if (level.faces[std::size_t(d)]) fill(*level.faces[std::size_t(d)], 2000 + 1000 * d);
  auto good = [&](const fa::PatchLevel& l) {
    ctx.check(l.level_number == 2 && l.time_point == Duration(0.5) && l.cycles == 5 && l.box_array == ba && l.distribution_mapping == dm, "attributes");
    ctx.check(l.data.ok() == (desc.n_state_components > 0) && bool(l.nodes) == (desc.n_node_components > 0), "members");
    if (l.data.ok()) holds(l.data, ba, desc.n_state_components, 0, "data");
    if (l.nodes) holds(*l.nodes, ax::convert(ba, IntVect(1)), desc.n_node_components, 1000, "nodes");
    for (int d = 0; d < D; ++d) {
      const auto& f = l.faces[std::size_t(d)];
      ctx.check(bool(f) == (desc.n_face_components > 0), "members");
      if (f) holds(*f, ax::convert(ba, IntVect::TheDimensionVector(d)), desc.n_face_components, 2000 + 1000 * d, "faces");
    }
  };
  // every face array may live in a memory arena of its own
  static struct Pool : ax::Arena { void* alloc(std::size_t n) override { return std::malloc(n); } void free(void* p) override { std::free(p); } } pools[std::size_t(AMREX_SPACEDIM)];
  const bool own = desc.n_face_components > 0 && ctx.flip();
  if (own) for (int d = 0; d < D; ++d) {
    auto& f = level.faces[std::size_t(d)];
    f = std::make_unique<ax::MultiFab>(f->boxArray(), dm, f->nComp(), 0, ax::MFInfo().SetArena(&pools[d]));
    fill(*f, 2000 + 1000 * d);
  }
  fa::PatchLevel copy(level), assigned;
  assigned = level;
  good(copy); good(assigned);
  if (own) for (int d = 0; d < D; ++d) ctx.check(copy.faces[std::size_t(d)]->arena() == &pools[d], "arena", d);
  if (level.nodes) level.nodes->setVal(-1.0); // the copies are independent
  if (desc.n_state_components) level.data.setVal(-1.0);
  for (auto& f : level.faces) if (f) f->setVal(-1.0);
  good(copy); good(assigned);
  fa::PatchLevel moved(std::move(copy));
  good(moved);
  assigned = std::move(moved);
  good(assigned);
  ctx.transition(); ctx.validated();
  mc::Hash h; h.add(desc.n_state_components); h.add(desc.n_node_components); h.add(desc.n_face_components); h.add(ba.size()); ctx.state(h.h);
}
#else
namespace {
// every direction is periodic or has one of three kinds of walls on each side
void walls(mc::Ctx& ctx, Setup& s, bool all) {
  for (int d = 0; d < D; ++d) {
    const int kinds = ctx.choose(all ? 10 : 4);
    if (kinds == 0) continue;
    const int a = all ? (kinds - 1) / 3 : kinds - 1, b = all ? (kinds - 1) % 3 : (kinds + d) % 3;
    s.walls.push_back({d, 0, a}); s.walls.push_back({d, 1, b});
  }
  if (s.walls.empty()) throw mc::Prune{};
  if (ctx.flip()) std::reverse(s.walls.begin(), s.walls.end());
}
}
SCENARIO("one-level", "walls of all kinds on all sides, in both orders, one level in one or many boxes", 2) {
  Setup s; s.n = iv(4, 4, 4); s.ratio = IntVect(2); s.levels = 1; s.subcycle = true;
  s.max_grid = ctx.pick({8, 2}); s.strang = ctx.flip(); if (s.strang) { s.n = iv(8, 4, 4); s.bf = 4; s.max_grid = std::max(4, s.max_grid); }
  s.steps = 2; walls(ctx, s, D < 3 || ctx.thorough());
  go(ctx, s);
}
SCENARIO("two-levels", "walls of all kinds, two levels next to them or not", 2) {
  Setup s; s.n = iv(8, 4, 4); s.bf = 4; s.ratio = IntVect(2); s.levels = 2; s.subcycle = ctx.flip();
  s.max_grid = 4; s.strang = ctx.flip();
  s.steps = 2; s.patterns = {1, D > 1 ? 6 : 2}; if (D == 3) s.patterns = {1};
  walls(ctx, s, ctx.thorough() && D < 3);
  if (D == 3 && !ctx.thorough()) { s.finer = 1; s.subcycle = true; }
  go(ctx, s);
}
SCENARIO("loops", "walls of all kinds, all ways to loop over cells", 2) {
  Setup s; s.n = iv(4, 16, 4); if (D == 1) s.n = iv(16, 0, 0); s.bf = 4; s.ratio = IntVect(2); s.levels = 1; s.tag = ctx.choose(4); s.max_grid = ctx.pick({16, 4});
  s.steps = 1; walls(ctx, s, false);
  go(ctx, s);
}
SCENARIO("uneven-ghosts", "fields with a different ghost cell width in every direction", 2) {
  Setup s; s.n = iv(4, 6, 4); s.bf = 2; s.ratio = IntVect(2); s.levels = 1; s.tag = ctx.choose(4); s.max_grid = ctx.pick({8, 2}); s.patterns = {0};
  IntVect g; for (int d = 0; d < D; ++d) g[d] = ctx.choose(4);
  if (D == 3 && !ctx.thorough() && (s.tag == 1 || s.tag == 2)) throw mc::Prune{};
  walls(ctx, s, D == 1 || (D == 2 && ctx.thorough()));
  const int only = ctx.choose(D + 1) - 1; // one direction or all of them
  auto w = std::make_shared<World>(); w->ctx = &ctx; w->base = s.n; w->patterns = s.patterns;
  the_ratio = s.ratio; unrelated = false;
  auto grid = grid_for(s, w);
  grid->InitializeHierarchy(0.0);
  const auto& h = grid->GetPatchHierarchy();
  const ax::Geometry& geom = h.GetGeometry(0);
  Reference ref; ref.walls = s.walls; ref.per.fill(1); for (const Wall& x : s.walls) ref.per[std::size_t(x.dir)] = 0;
  Dense e(geom, 4);
  ax::ForEachCell(e.dom, [&](const IntVect& p) { e(p) = initial(0, p, s.seed); });
  const ax::BoxArray& ba = h.GetPatchLevel(0).box_array;
  ax::MultiFab mf(ba, h.GetPatchLevel(0).distribution_mapping, 2, g);
  for (int k = 0; k < ba.size(); ++k) ax::ForEachCell(ax::grow(ba[k], g), [&](const IntVect& p) { const double x = e.inside(p) ? e(p) : 77.0; mf[k](p, 0) = x; mf[k](p, 1) = 2 * x; });
  for (double& x : e.v) if (std::isnan(x)) x = 77.0;
  fa::AnyBoundaryCondition bc = boundary(s);
  if (only < 0) bc.FillBoundary(mf, *grid, 0); else bc.FillBoundary(mf, *grid, 0, Direction(only));
  ref.apply(e, only);
  mc::Hash hash;
  for (int k = 0; k < ba.size(); ++k) ax::ForEachCell(ax::grow(ba[k], g), [&](const IntVect& p) {
    hash.add(mf[k](p, 0));
    bool filled = e.inside(p); // a cell around the domain is judged if a wall was applied there last
    if (only < 0) filled = true; else if (p[only] < e.dom.smallEnd(only) || p[only] > e.dom.bigEnd(only)) filled = true;
    for (int d = 0; d < D; ++d) if (d != only && only >= 0 && !e.per[std::size_t(d)] && (p[d] < e.dom.smallEnd(d) || p[d] > e.dom.bigEnd(d))) filled = false;
    if (!filled) return;
    if (!near(mf[k](p, 0), e(p))) ctx.check(false, "ghost-cell", "box ", k, " cell ", p, " is ", mf[k](p, 0), " expected ", e(p), " ghost cells ", g);
    if (!near(mf[k](p, 1), 2 * e(p))) ctx.check(false, "ghost-cell-derived", "box ", k, " cell ", p, " is ", mf[k](p, 1), " expected ", 2 * e(p), " ghost cells ", g);
  });
  ctx.state(hash.h); ctx.transition(); ctx.validated();
}
#endif
