// A model of an integrator context (an AMR hierarchy without any real data)
// which plugs into fub's level integrators and subcycle solvers.  It records
// and judges every operation that the solver performs.
#ifndef VERIF_AMR_MODEL_HPP
#define VERIF_AMR_MODEL_HPP
#include "mc.hpp"

#include <mpi.h>

#include "fub/Direction.hpp"
#include "fub/Duration.hpp"
#include "fub/Meta.hpp"
#include "fub/TimeStepError.hpp"
#include "fub/counter/CounterRegistry.hpp"
#include "fub/ext/outcome.hpp"
#include "fub/solver/DimensionalSplitLevelIntegrator.hpp"
#include "fub/solver/NoSubcycleSolver.hpp"
#include "fub/solver/SplitSystemSourceLevelIntegrator.hpp"
#include "fub/solver/SubcycleFineFirstSolver.hpp"
#include "fub/split_method/GodunovSplitting.hpp"
#include "fub/split_method/StrangSplitting.hpp"
#include "fub/split_method/StrangSplittingLumped.hpp"

// ---------------------------------------------------------------------------
// The communicator is part of the environment: a reduction with one other rank
namespace mpimodel {
struct Remote {
  std::function<double(double local)> contribution; // value of the other rank
  int calls = 0;
};
inline Remote& remote() { static Remote r; return r; }
}
extern "C" int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) {
  auto& rem = mpimodel::remote();
  rem.calls += 1;
  if (t != MPI_DOUBLE || n != 1) { std::fprintf(stderr, "model: unexpected reduction\n"); std::abort(); }
  const double v = s == MPI_IN_PLACE ? *static_cast<double*>(r) : *static_cast<const double*>(s);
  const double o = rem.contribution ? rem.contribution(v) : v;
  double res = v;
  if (op == MPI_MIN) res = std::min(v, o);
  else if (op == MPI_MAX) res = std::max(v, o);
  else if (op == MPI_SUM) res = v + o;
  else std::abort();
  *static_cast<double*>(r) = res;
  return MPI_SUCCESS;
}

namespace amr {
using fub::Direction;
using fub::Duration;

struct Ratio {
  int v;
  int max() const { return v; }
};

struct Level {
  double time = 0;              // physical time of the interior (completed level steps)
  std::ptrdiff_t cycles = 0;
  int ratio = 1;                // to the coarser level
  // state of the running level step
  bool in_step = false;
  double step_dt = 0;
  std::pair<int, int> subcycle{0, 1};
  double advanced[3] = {0, 0, 0}; // per direction, total
  int sweeps[3] = {0, 0, 0};      // in this step
  bool ghosts_fresh = true;       // ghost cells match the interior
  double ghosts_coarse_time = 0;  // time of the coarse data in the ghost cells
  bool bc_applied[3] = {false, false, false};
  bool any_sweep = false;
  // pending operations
  int flux_dir = -1;
  double flux_dt = 0;
  bool flux_computed = false, updated = false, completed = true, accumulated = true;
  int presplit = -1;
  int presplit_count = 0;
  bool scratch_newer = false; // scratch was changed since CopyScratchToData
  double data_time = 0;       // time of the published data
  bool corrected = false, coarsened = false;
  // flux register between this level and the next coarser one
  bool reg_open = false;
  double reg_fine[3] = {0, 0, 0}, reg_coarse[3] = {0, 0, 0};
  std::vector<int> dir_order;
};

struct Opt { int regrid_frequency{1}; };

struct World {
  mc::Ctx* ctx = nullptr;
  int rank = 1;
  int max_levels = 1;
  std::vector<Level> lv;
  Opt opt;
  bool subcycling = true;
  double t0 = 0, dt = 0;
  std::vector<std::string> log;
  bool failed = false;       // an error was injected: nothing may change any more
  int regrids = 0;
  // environment
  std::function<int(int level)> regrid;                                  // returns first changed level
  std::function<double(int level, Direction, double split)> stable_dt;   // local estimate
  std::function<double(int level)> post_error;                           // >0: reject with that dt
  std::function<double(int level)> free_stable_dt;                       // outside of a step
  std::vector<std::vector<int>> orders;                                  // [level step] -> direction order
  std::vector<std::tuple<int, std::ptrdiff_t, int, std::vector<int>>> steps; // level, cycle of level 0, subcycle, order
  int post_hierarchy = 0, pre_hierarchy = 0;
  double post_hierarchy_dt = -1;

  template <typename... Ts> void note(const Ts&... xs) {
    ctx->transition();
    if (log.size() < 400) log.push_back(mc::cat(xs...));
  }
  std::string show() const {
    std::string s;
    for (auto& l : log) s += l + "; ";
    if (s.size() > 2500) s = "..." + s.substr(s.size() - 2500);
    return s;
  }
  template <typename... Ts> void check(bool c, const char* key, const Ts&... xs) {
    if (!c) throw mc::Violation{key, mc::cat(xs..., " | ") + show()};
  }
  void alive(const char* what) { check(!failed, "work-after-rejected-step", what); }
};

template <int R> struct Context {
  static constexpr int Rank = R;
  std::shared_ptr<World> w;
  std::shared_ptr<int> gridding = std::make_shared<int>(0);
  std::shared_ptr<fub::CounterRegistry> counters = std::make_shared<fub::CounterRegistry>();

  explicit Context(std::shared_ptr<World> ww) : w(std::move(ww)) {}

  const std::shared_ptr<int>& GetGriddingAlgorithm() const { return gridding; }
  const std::shared_ptr<fub::CounterRegistry>& GetCounterRegistry() const { return counters; }
  MPI_Comm GetMpiCommunicator() const { return MPI_COMM_WORLD; }
  const Opt& GetOptions() const { return w->opt; }
  bool LevelExists(int l) const { return 0 <= l && l < int(w->lv.size()); }
  Ratio GetRatioToCoarserLevel(int l) const { w->check(l >= 0, "ratio-of-negative-level"); return Ratio{l == 0 ? 1 : ratio(l)}; }
  int ratio(int l) const { w->check(l < w->max_levels, "ratio-of-missing-level", l); return ratios(l); }
  std::function<int(int)> ratios;
  Duration GetTimePoint(int l = 0) const { return Duration(w->lv.at(l).time); }
  std::ptrdiff_t GetCycles(int l = 0) const { return w->lv.at(l).cycles; }
  void ResetHierarchyConfiguration() {}
  template <typename... A> void ResetHierarchyConfiguration(A&&...) {}
  void CopyDataToScratch(int) {}

  void PreAdvanceHierarchy() { w->pre_hierarchy += 1; }
  void PostAdvanceHierarchy(Duration dt) { w->post_hierarchy += 1; w->post_hierarchy_dt = dt.count(); }

  int PreAdvanceLevel(int l, Duration dt, std::pair<int, int> sub) {
    w->alive("PreAdvanceLevel");
    w->note("pre(", l, ",", sub.first, "/", sub.second, ")");
    Level& L = w->lv.at(l);
    w->check(!L.in_step, "level-step-nested");
    L.in_step = true;
    L.step_dt = dt.count();
    L.subcycle = sub;
    L.any_sweep = false;
    L.corrected = L.coarsened = false;
    L.dir_order.clear();
    for (int d = 0; d < 3; ++d) { L.sweeps[d] = 0; L.bc_applied[d] = false; }
    L.presplit_count = 0;
    // the size of a level step
    if (l == 0) w->check(dt.count() == w->dt && sub.first == 0 && sub.second == 1, "coarse-step-size");
    else {
      Level& C = w->lv.at(l - 1);
      const int n = w->subcycling ? ratios(l) : 1;
      w->check(std::abs(dt.count() * n - C.step_dt) <= 1e-13 * C.step_dt, "subcycle-step-size", "level ", l, " dt=", dt.count(), " coarse dt=", C.step_dt);
      w->check(sub.second == n && sub.first >= 0 && sub.first < n, "subcycle-numbering", sub.first, "/", sub.second);
      const double expect = C.time + sub.first * (C.step_dt / n);
      w->check(std::abs(L.time - expect) <= 1e-12, "subcycle-start-time", "level ", l, " t=", L.time, " expected ", expect);
    }
    const int none = w->max_levels;
    int first = none;
    if (w->regrid && sub.first == 0) first = w->regrid(l);
    return first;
  }
  void FillGhostLayerSingleLevel(int l) {
    w->alive("FillGhostLayerSingleLevel");
    w->note("fill(", l, ")");
    w->check(l == 0, "single-level-fill-of-fine-level");
    w->lv.at(l).ghosts_fresh = true;
  }
  void FillGhostLayerTwoLevels(int f, int c) {
    w->alive("FillGhostLayerTwoLevels");
    w->note("fill(", f, "<-", c, ")");
    w->check(c == f - 1 && f >= 1 && LevelExists(f), "two-level-fill-levels");
    w->lv.at(f).ghosts_fresh = true;
    w->lv.at(f).ghosts_coarse_time = interior_time(c);
  }
  // time of the data currently stored in the interior of the scratch
  double interior_time(int l) const {
    const Level& L = w->lv.at(l);
    double t = L.advanced[0];
    return w->t0 + t;
  }
  void ApplyBoundaryCondition(int l, Direction d) {
    w->alive("ApplyBoundaryCondition");
    w->note("bc(", l, ",", int(d), ")");
    w->lv.at(l).bc_applied[int(d)] = true;
  }
  void PreSplitStep(int l, Duration dt, Direction d, std::pair<int, int> count) {
    w->alive("PreSplitStep");
    Level& L = w->lv.at(l);
    w->check(L.in_step, "sweep-outside-of-step");
    w->check(count.first == L.presplit_count, "split-step-counter", count.first, " expected ", L.presplit_count);
    L.presplit_count += 1;
    L.presplit = int(d);
    L.flux_dt = dt.count();
  }
  Duration ComputeStableDt(int l, Direction d) {
    Level& L = w->lv.at(l);
    if (!L.in_step) return Duration(w->free_stable_dt ? w->free_stable_dt(l * 8 + int(d)) : 1e300);
    w->alive("ComputeStableDt");
    w->check(L.completed, "estimate-before-complete-state");
    return Duration(w->stable_dt ? w->stable_dt(l, d, L.flux_dt) : 1e300);
  }
  void ComputeNumericFluxes(int l, Duration dt, Direction dir) {
    w->alive("ComputeNumericFluxes");
    const int d = int(dir);
    w->note("flux(", l, ",", d, ",", dt.count(), ")");
    Level& L = w->lv.at(l);
    w->check(L.in_step, "sweep-outside-of-step");
    w->check(L.presplit == d, "no-pre-split-step");
    L.presplit = -1;
    w->check(L.completed, "flux-from-incomplete-state");
    w->check(!L.flux_computed, "flux-twice");
    if (!L.any_sweep) {
      w->check(L.ghosts_fresh, "flux-with-stale-ghost-cells", "level ", l);
      if (l > 0) w->check(std::abs(L.ghosts_coarse_time - w->lv.at(l - 1).time) <= 1e-12, "flux-with-stale-coarse-ghost-cells", "level ", l, " coarse data of t=", L.ghosts_coarse_time, " needed t=", w->lv.at(l - 1).time);
    }
    if (L.sweeps[d] > 0) w->check(L.bc_applied[d], "repeated-sweep-without-boundary-condition");
    L.bc_applied[d] = false;
    L.flux_computed = true;
    L.flux_dir = d;
    L.flux_dt = dt.count();
    L.any_sweep = true;
    if (L.sweeps[d] == 0) L.dir_order.push_back(d);
  }
  void UpdateConservatively(int l, Duration dt, Direction dir) {
    w->alive("UpdateConservatively");
    const int d = int(dir);
    w->note("update(", l, ",", d, ")");
    Level& L = w->lv.at(l);
    w->check(L.flux_computed && !L.updated && L.flux_dir == d && L.flux_dt == dt.count(), "update-without-matching-flux");
    L.updated = true;
    L.accumulated = false;
    L.completed = false;
    L.sweeps[d] += 1;
    L.advanced[d] += dt.count();
    L.ghosts_fresh = false;
    L.scratch_newer = true;
  }
  void CompleteFromCons(int l, Duration) {
    w->alive("CompleteFromCons");
    w->note("complete(", l, ")");
    w->lv.at(l).completed = true;
  }
  void AccumulateCoarseFineFluxes(int l, double scale, Direction dir) {
    w->alive("AccumulateCoarseFineFluxes");
    const int d = int(dir);
    w->note("accumulate(", l, ",", d, ",", scale, ")");
    Level& L = w->lv.at(l);
    w->check(L.flux_computed && L.flux_dir == d, "accumulate-without-flux");
    w->check(scale == L.flux_dt, "accumulate-scale", scale, " expected ", L.flux_dt);
    L.flux_computed = L.updated = false;
    L.accumulated = true;
    if (l > 0) {
      w->check(L.reg_open, "fine-fluxes-into-closed-register");
      L.reg_fine[d] += scale;
    }
    if (LevelExists(l + 1)) {
      w->check(w->lv[l + 1].reg_open, "coarse-fluxes-into-closed-register");
      w->lv[l + 1].reg_coarse[d] += scale;
    }
  }
  void ResetCoarseFineFluxes(int f, int c) {
    w->alive("ResetCoarseFineFluxes");
    w->note("reset(", f, ",", c, ")");
    w->check(c == f - 1 && LevelExists(f), "reset-levels");
    Level& L = w->lv.at(f);
    L.reg_open = true;
    for (int d = 0; d < 3; ++d) {
      w->check(L.reg_fine[d] == 0 && L.reg_coarse[d] == 0, "collected-fluxes-thrown-away");
    }
  }
  void ApplyFluxCorrection(int f, int c, Duration dt) {
    w->alive("ApplyFluxCorrection");
    w->note("correct(", f, ",", c, ")");
    w->check(c == f - 1 && LevelExists(f), "correct-levels");
    Level& F = w->lv.at(f);
    Level& C = w->lv.at(c);
    w->check(F.reg_open, "correct-with-closed-register");
    w->check(dt.count() == C.step_dt, "correct-dt");
    w->check(C.in_step && !C.corrected && !C.coarsened, "correct-order");
    for (int d = 0; d < R; ++d) {
      w->check(std::abs(F.reg_fine[d] - C.step_dt) <= 1e-12, "fine-fluxes-do-not-cover-coarse-step", "dir ", d, " got ", F.reg_fine[d], " expected ", C.step_dt);
      w->check(std::abs(F.reg_coarse[d] - C.step_dt) <= 1e-12, "coarse-fluxes-do-not-cover-coarse-step", "dir ", d, " got ", F.reg_coarse[d]);
      F.reg_fine[d] = F.reg_coarse[d] = 0;
    }
    F.reg_open = false;
    C.corrected = true;
    C.completed = false;
    C.scratch_newer = true;
  }
  void CoarsenConservatively(int f, int c) {
    w->alive("CoarsenConservatively");
    w->note("coarsen(", f, ",", c, ")");
    w->check(c == f - 1 && LevelExists(f), "coarsen-levels");
    Level& F = w->lv.at(f);
    Level& C = w->lv.at(c);
    w->check(!F.in_step && C.in_step, "coarsen-from-running-level");
    w->check(C.corrected, "coarsen-before-correction");
    for (int d = 0; d < R; ++d)
      w->check(std::abs(F.advanced[d] - C.advanced[d]) <= 1e-12, "coarsen-at-different-times", "dir ", d, " fine ", F.advanced[d], " coarse ", C.advanced[d]);
    C.coarsened = true;
    C.completed = false;
    C.scratch_newer = true;
  }
  void CopyScratchToData(int l) {
    w->alive("CopyScratchToData");
    w->note("publish(", l, ")");
    Level& L = w->lv.at(l);
    w->check(L.completed, "publish-incomplete-state");
    w->check(L.in_step, "publish-outside-of-step");
    L.scratch_newer = false;
    L.data_time = w->t0 + L.advanced[0];
  }
  fub::Result<void, fub::TimeStepTooLarge> PostAdvanceLevel(int l, Duration dt, std::pair<int, int> sub) {
    w->alive("PostAdvanceLevel");
    w->note("post(", l, ",", sub.first, "/", sub.second, ")");
    Level& L = w->lv.at(l);
    w->check(L.in_step && dt.count() == L.step_dt && sub == L.subcycle, "post-advance-arguments");
    w->check(!L.scratch_newer, "step-ends-without-publishing");
    w->check(L.accumulated, "step-ends-without-accumulating");
    if (LevelExists(l + 1)) w->check(L.corrected && L.coarsened, "step-ends-without-synchronisation");
    const double elapsed = L.time - w->t0 + L.step_dt;
    for (int d = 0; d < R; ++d)
      w->check(std::abs(L.advanced[d] - elapsed) <= 1e-12, "direction-advanced-by-wrong-time", "level ", l, " dir ", d, " advanced ", L.advanced[d], " expected ", elapsed);
    w->steps.push_back({l, w->lv[0].cycles, sub.first, L.dir_order});
    L.in_step = false;
    if (w->post_error) {
      const double e = w->post_error(l);
      if (e > 0) { w->failed = true; return fub::TimeStepTooLarge{Duration(e), l}; }
    }
    L.time += dt.count();
    L.cycles += 1;
    return boost::outcome_v2::success();
  }
};
} // namespace amr
#endif
