// Coupling of a system solver and a source term on a level.
#include "mc.hpp"
#include "fub/Direction.hpp"
#include "fub/Duration.hpp"
#include "fub/Meta.hpp"
#include "fub/TimeStepError.hpp"
#include "fub/counter/CounterRegistry.hpp"
#include "fub/ext/outcome.hpp"
#include "fub/solver/SplitSystemSourceLevelIntegrator.hpp"
#include "fub/solver/SubcycleFineFirstSolver.hpp"
#include "fub/split_method/GodunovSplitting.hpp"
#include "fub/split_method/StrangSplittingLumped.hpp"
extern "C" int MPI_Allreduce(const void* s, void* r, int, MPI_Datatype, MPI_Op, MPI_Comm) {
  *static_cast<double*>(r) = *static_cast<const double*>(s); return MPI_SUCCESS;
}
using namespace fub;
using R = Result<void, TimeStepTooLarge>;
namespace {
struct Ev { char who; char what; int level; double dt; int sub; };
struct Log {
  mc::Ctx* ctx;
  std::vector<Ev> ev;
  int fail_at = -1; // index of the event which fails, if it can
  double err_dt = 0; int err_level = -1;
  bool failed = false;
  void add(char who, char what, int level, double dt, int sub) { ev.push_back({who, what, level, dt, sub}); }
  R res(int level, double dt) {
    if (int(ev.size()) - 1 == fail_at) { failed = true; err_dt = 0.25 * dt; err_level = level; return TimeStepTooLarge{Duration(err_dt), level}; }
    return boost::outcome_v2::success();
  }
  std::string show() const {
    std::string s;
    for (auto& e : ev) s += mc::cat(e.who, ".", e.what, "(", e.level, ",", e.dt, ",", e.sub, ") ");
    return s;
  }
};
struct Ratio { int max() const { return 2; } };
struct Options { int regrid_frequency = 1; };
struct SysBase {
  static constexpr int Rank = 1;
  Log* log = nullptr; int nlevels = 1;
  double stable[2] = {1, 1};
  std::shared_ptr<int> grid = std::make_shared<int>(0);
  std::shared_ptr<CounterRegistry> reg = std::make_shared<CounterRegistry>();
  Options opt;
  SysBase& GetContext() { return *this; }
  const SysBase& GetContext() const { return *this; }
  const std::shared_ptr<CounterRegistry>& GetCounterRegistry() const { return reg; }
  const std::shared_ptr<int>& GetGriddingAlgorithm() const { return grid; }
  MPI_Comm GetMpiCommunicator() const { return MPI_COMM_WORLD; }
  const Options& GetOptions() const { return opt; }
  std::ptrdiff_t GetCycles(int = 0) const { return 0; }
  Duration GetTimePoint(int = 0) const { return Duration(0); }
  bool LevelExists(int l) const { return l < nlevels; }
  Ratio GetRatioToCoarserLevel(int) const { return {}; }
  void FillGhostLayerSingleLevel(int) {} void FillGhostLayerTwoLevels(int, int) {}
  void CoarsenConservatively(int, int) {} void CompleteFromCons(int, Duration) {}
  void ComputeNumericFluxes(int, Duration, Direction) {} void CopyDataToScratch(int) {}
  void CopyScratchToData(int) {} void UpdateConservatively(int, Duration, Direction) {}
  void AccumulateCoarseFineFluxes(int, double, Direction) {} void ApplyFluxCorrection(int, int, Duration) {}
  void ResetCoarseFineFluxes(int, int) {}
  Duration ComputeStableDt(int l) { return Duration(stable[l]); }
  void PreAdvanceLevel(int l, Duration dt, std::pair<int, int> s) { log->add('Y', 'p', l, dt.count(), s.first); }
  R PostAdvanceLevel(int l, Duration dt, std::pair<int, int> s) { log->add('Y', 'q', l, dt.count(), s.first); return log->res(l, dt.count()); }
  R AdvanceLevelNonRecursively(int l, Duration dt, std::pair<int, int> s) { log->add('Y', 'A', l, dt.count(), s.first); return log->res(l, dt.count()); }
};
template <int H> struct Sys : SysBase {};
template <> struct Sys<1> : SysBase {
  void PreAdvanceHierarchy() { log->add('Y', 'P', 0, 0, 0); }
  void PostAdvanceHierarchy() { log->add('Y', 'Q', 0, -1, 0); }
};
template <> struct Sys<2> : SysBase {
  void PostAdvanceHierarchy(Duration dt) { log->add('Y', 'Q', 0, dt.count(), 0); }
  template <typename... A> void ResetHierarchyConfiguration(const A&...) { log->add('Y', 'R', 0, 0, int(sizeof...(A))); }
};
struct SrcData { Log* log; double stable[2] = {1, 1}; };
template <int Post> struct SrcPost : virtual SrcData {};
template <> struct SrcPost<1> : virtual SrcData { void PostAdvanceLevel(int l, Duration dt, std::pair<int, int> s) { log->add('S', 'q', l, dt.count(), s.first); } };
template <> struct SrcPost<2> : virtual SrcData { R PostAdvanceLevel(int l, Duration dt, std::pair<int, int> s) { log->add('S', 'q', l, dt.count(), s.first); return log->res(l, dt.count()); } };
template <int PH> struct SrcHier : virtual SrcData {};
template <> struct SrcHier<1> : virtual SrcData { void PreAdvanceHierarchy() { log->add('S', 'P', 0, 0, 0); } void PostAdvanceHierarchy() { log->add('S', 'Q', 0, -1, 0); } };
template <> struct SrcHier<2> : virtual SrcData { void PostAdvanceHierarchy(Duration dt) { log->add('S', 'Q', 0, dt.count(), 0); } };
template <bool Pre> struct SrcPre : virtual SrcData {};
template <> struct SrcPre<true> : virtual SrcData {
  void PreAdvanceLevel(int l, Duration dt, std::pair<int, int> s) { log->add('S', 'p', l, dt.count(), s.first); }
  template <typename... A> void ResetHierarchyConfiguration(const A&...) { log->add('S', 'R', 0, 0, int(sizeof...(A))); }
};
template <bool C> struct SrcStable : virtual SrcData { Duration ComputeStableDt(int l) { return Duration(stable[l]); } };
template <> struct SrcStable<true> : virtual SrcData { Duration ComputeStableDt(SysBase& c, int l) { (void)c; return Duration(stable[l]); } };
template <int Post, int PH, bool Pre, bool C> struct Src : SrcPost<Post>, SrcHier<PH>, SrcPre<Pre>, SrcStable<C> {
  static constexpr int Rank = 1;
  R AdvanceLevel(SysBase& c, int l, Duration dt) {
    SrcData& d = *this;
    d.log->ctx->check(c.log == d.log, "source-gets-foreign-context");
    d.log->add('S', 'A', l, dt.count(), -1);
    return d.log->res(l, dt.count());
  }
};

template <int H, int Post, int PH, bool Pre, bool C> void run(mc::Ctx& ctx) {
  using S = Sys<H>;
  using T = Src<Post, PH, Pre, C>;
  using I = SplitSystemSourceLevelIntegrator<S, T, AnySplitMethod>;
  const int split = ctx.choose(3);
  AnySplitMethod m = split == 0 ? AnySplitMethod(GodunovSplitting()) : split == 1 ? AnySplitMethod(StrangSplitting()) : AnySplitMethod(StrangSplittingLumped());
  const int nl = ctx.range(1, 2);
  Log log{&ctx};
  auto make = [&] {
    S s; s.log = &log; s.nlevels = nl; T t; t.log = &log;
    return std::pair<S, T>(s, t);
  };
  // stable size
  {
    auto [s, t] = make();
    const double v[] = {0.5, 2.0};
    double expect = 1e300;
    for (int l = 0; l < nl; ++l) { s.stable[l] = v[ctx.choose(2)]; t.stable[l] = v[ctx.choose(2)]; expect = std::min(expect, (l + 1) * std::min(s.stable[l], t.stable[l])); }
    I integ(s, t, m);
    for (int l = 0; l < nl; ++l) ctx.check(integ.ComputeStableDt(l).count() == std::min(s.stable[l], t.stable[l]), "stable-step-of-level");
    SubcycleFineFirstSolver<I> solver(integ);
    ctx.check(solver.ComputeStableDt().count() == expect, "stable-step-of-hierarchy");
    if (!(s.stable[0] == 0.5 && t.stable[0] == 0.5 && s.stable[nl - 1] == 0.5 && t.stable[nl - 1] == 0.5)) return;
  }
  const double dt = ctx.pick({1.0, 0.3});
  auto once = [&](int fail_at, R& res) {
    log = Log{&ctx};
    log.fail_at = fail_at;
    auto [s, t] = make();
    SubcycleFineFirstSolver<I> solver(I(s, t, m));
    solver.PreAdvanceHierarchy();
    res = solver.AdvanceHierarchy(Duration(dt));
    if (res) solver.PostAdvanceHierarchy(Duration(dt));
    solver.ResetHierarchyConfiguration(3);
  };
  R res = boost::outcome_v2::success();
  once(-1, res);
  ctx.check(bool(res), "failed-without-reason", log.show());
  const std::vector<Ev> full = log.ev;
  auto count = [&](char who, char what) { int n = 0; for (auto& e : full) n += e.who == who && e.what == what; return n; };
  // hooks of both are called
  const int steps = nl == 1 ? 1 : 3;
  ctx.check(count('Y', 'p') == steps && count('Y', 'q') == steps, "system-level-hooks", log.show());
  ctx.check(count('S', 'p') == (Pre ? steps : 0) && count('S', 'q') == (Post ? steps : 0), "source-level-hooks", log.show());
  ctx.check(count('Y', 'P') == (H == 1) && count('Y', 'Q') == (H > 0), "system-hierarchy-hooks", log.show());
  ctx.check(count('S', 'P') == (PH == 1) && count('S', 'Q') == (PH > 0), "source-hierarchy-hooks", log.show());
  ctx.check(count('Y', 'R') == (H == 2) && count('S', 'R') == Pre, "reset-hooks", log.show());
  for (auto& e : full) {
    if (e.what == 'Q') ctx.check(e.dt == dt || e.dt == -1, "hierarchy-hook-step", log.show());
    if (e.what == 'R') ctx.check(e.sub == 1, "reset-arguments", log.show());
  }
  // level steps: between pre and post of the system the operators advance the level
  double sys = 0, src = 0;
  std::string order;
  bool in[2] = {false, false};
  for (auto& e : full) {
    const double ldt = e.level == 0 ? dt : dt / 2;
    if (e.what == 'p' || e.what == 'q') {
      ctx.check(e.dt == ldt, "level-hook-step", log.show());
    }
    if (e.who == 'Y' && e.what == 'p') { in[e.level] = true; sys = src = 0; order.clear(); }
    if (e.what == 'A') {
      ctx.check(in[e.level], "advance-outside-of-level-step", log.show());
      (e.who == 'Y' ? sys : src) += e.dt;
      if (order.empty() || order.back() != e.who) order += e.who;
    }
    if (e.who == 'Y' && e.what == 'q') {
      in[e.level] = false;
      ctx.close(sys, ldt, 1e-14, "system-not-advanced-by-full-step", log.show());
      ctx.close(src, ldt, 1e-14, "source-not-advanced-by-full-step", log.show());
      ctx.check(order == (split == 0 ? "SY" : "SYS"), "operator-order", log.show());
      order.clear(); sys = src = 0;
    }
  }
  // every place of failure
  for (int f = 0; f < int(full.size()); ++f) {
    const char what = full[f].what, who = full[f].who;
    const bool can = what == 'A' || (what == 'q' && (who == 'Y' || Post == 2));
    if (!can) continue;
    once(f, res);
    ctx.check(log.failed, "harness");
    ctx.check(!res, "failure-is-ignored", who, ".", what, " of level ", full[f].level, ": ", log.show());
    ctx.check(res.error().level == 0 && std::abs(res.error().dt.count() - log.err_dt * (log.err_level ? 2 : 1)) < 1e-15, "failure-reason-changed", res.error().dt.count());
    for (int k = f + 1; k < int(log.ev.size()); ++k) ctx.check(log.ev[k].what == 'R', "work-after-failure", log.show());
    ctx.transition(log.ev.size());
    mc::Hash h; ctx.state(h.add(H * 1000 + Post * 100 + PH * 10 + Pre * 2 + C).add(split).add(nl).add(dt).add(f));
  }
  ctx.validated();
  ctx.sample(log.show());
}
template <int H, int Post, int PH, bool Pre> void r4(mc::Ctx& c) { c.flip() ? run<H, Post, PH, Pre, true>(c) : run<H, Post, PH, Pre, false>(c); }
template <int H, int Post, int PH> void r3(mc::Ctx& c) { c.flip() ? r4<H, Post, PH, true>(c) : r4<H, Post, PH, false>(c); }
template <int H, int Post> void r2(mc::Ctx& c) { switch (c.choose(3)) { case 0: return r3<H, Post, 0>(c); case 1: return r3<H, Post, 1>(c); default: return r3<H, Post, 2>(c); } }
template <int H> void r1(mc::Ctx& c) { switch (c.choose(3)) { case 0: return r2<H, 0>(c); case 1: return r2<H, 1>(c); default: return r2<H, 2>(c); } }
} // namespace
SCENARIO("system-and-source", "every combination of optional hooks of system and source (108 types) x 3 splittings x 1..2 subcycled levels x stable sizes x 2 steps; every fallible operation may fail", 3) {
  switch (ctx.choose(3)) { case 0: return r1<0>(ctx); case 1: return r1<1>(ctx); default: return r1<2>(ctx); }
}
