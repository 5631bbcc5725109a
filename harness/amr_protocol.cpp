// Every level advances by exactly the requested time, with fresh ghost cells,
// conservative synchronisation and the right nesting; rejected steps stop all
// work and come back with a usable coarse step size.
#include "amr_model.hpp"
using namespace amr;

namespace {
struct Setup { int nlevels; std::vector<int> ratios; };

std::shared_ptr<World> make_world(mc::Ctx& ctx, int rank, int nlevels, int maxl, const std::vector<int>& ratios, double t0) {
  auto w = std::make_shared<World>();
  w->ctx = &ctx;
  w->rank = rank;
  w->max_levels = maxl;
  w->t0 = t0;
  for (int l = 0; l < nlevels; ++l) {
    Level L;
    L.time = L.data_time = L.ghosts_coarse_time = t0;
    L.ratio = ratios[l];
    w->lv.push_back(L);
  }
  mpimodel::remote().contribution = nullptr;
  return w;
}

// after a successful step of the whole hierarchy
void judge_success(World& w, const std::vector<int>& ratios, double t1, bool subcycling) {
  int n = 1;
  for (std::size_t l = 0; l < w.lv.size(); ++l) {
    Level& L = w.lv[l];
    w.check(!L.in_step && L.completed && !L.scratch_newer, "level-left-in-the-middle-of-a-step", "level ", l);
    w.check(std::abs(L.time - t1) <= 1e-12, "level-not-at-requested-time", "level ", l, " t=", L.time, " expected ", t1);
    w.check(std::abs(L.data_time - t1) <= 1e-12, "published-data-not-at-requested-time", "level ", l, " t=", L.data_time);
    w.check(L.ghosts_fresh, "stale-ghost-cells-after-step", "level ", l);
    if (l > 0) w.check(std::abs(L.ghosts_coarse_time - t1) <= 1e-12, "stale-coarse-ghost-cells-after-step", "level ", l, " t=", L.ghosts_coarse_time);
    (void)n;
  }
}

void judge_orders(World& w, int rank) {
  for (auto& [level, cycle, sub, order] : w.steps) {
    w.check(int(order.size()) == rank, "direction-missing");
    const bool odd = (cycle + sub) % 2;
    for (int i = 0; i < rank; ++i)
      w.check(order[i] == (odd ? rank - 1 - i : i), "direction-order-does-not-alternate", "level ", level, " cycle ", cycle, " subcycle ", sub);
  }
}

std::uint64_t hash(const World& w) {
  mc::Hash h;
  for (auto& l : w.log) h.add(l);
  return h;
}

template <int R, typename Split, template <typename> class Solver>
void protocol(mc::Ctx& ctx, bool subcycling, bool with_regrid, bool with_errors) {
  const int deep = ctx.thorough() ? 4 : 3;
  const int maxl = with_regrid ? deep : 1 + ctx.choose(deep);
  const int nlevels = with_regrid ? 1 + ctx.choose(deep) : maxl;
  std::vector<int> ratios{1};
  for (int l = 1; l < maxl; ++l) ratios.push_back(with_errors ? ctx.pick({2, 3}) : ctx.pick({2, 4, 3}));
  const double t0 = ctx.pick({0.0, 1.5});
  auto w = make_world(ctx, R, nlevels, maxl, ratios, t0);
  w->subcycling = subcycling;
  Context<R> context(w);
  context.ratios = [ratios](int l) { return ratios.at(l); };
  if (with_regrid) {
    w->regrid = [&, w](int l) {
      const int n = int(w->lv.size());
      // keep, or rebuild levels > l: 0 = no change, 1 = new grids on all finer levels,
      // 2 = drop the finest, 3 = add a level
      const int k = w->regrids < 2 ? ctx.choose(4) : 0;
      auto fresh = [&](int j) {
        Level& F = w->lv[j];
        F = Level{};
        F.ratio = ratios[j];
        F.time = F.data_time = w->lv[l].time;
        F.cycles = w->lv[l].cycles;
        for (int d = 0; d < 3; ++d) F.advanced[d] = w->lv[l].time - w->t0;
        F.ghosts_fresh = false;
      };
      if (k == 0) return maxl;
      if (k == 1) {
        if (l + 1 >= n) throw mc::Prune{};
        w->regrids++;
        for (int j = l + 1; j < n; ++j) fresh(j);
        w->note("regrid(", l + 1, ")");
        return l + 1;
      }
      if (k == 2) {
        if (n - 1 <= l) throw mc::Prune{};
        w->regrids++;
        w->lv.pop_back();
        w->note("drop(", n - 1, ")");
        return n - 1;
      }
      if (n >= maxl) throw mc::Prune{};
      w->regrids++;
      w->lv.push_back(Level{});
      fresh(n);
      w->note("create(", n, ")");
      return n;
    };
  }
  int injected = 0;
  double injected_dt = 0;
  int injected_level = -1;
  if (with_errors) {
    const double slack = ctx.pick({1.0, 2.0}); // exactly the limit is fine
    w->stable_dt = [&, w, slack](int l, Direction, double split) {
      if (injected) return 1e300;
      const int k = ctx.choose(3);
      if (k == 1) { // local rank rejects
        injected = 1; injected_dt = 0.5 * split; injected_level = l; w->note("REJECT-local"); w->failed = true;
        return injected_dt;
      }
      if (k == 2) { // only the other rank rejects
        injected = 2; injected_dt = 0.75 * split; injected_level = l; w->note("REJECT-remote"); w->failed = true;
        mpimodel::remote().contribution = [=](double) { return injected_dt; };
        return 1e300;
      }
      return slack * split;
    };
    w->post_error = [&, w](int l) {
      if (injected || !ctx.flip()) return 0.0;
      injected = 3; injected_dt = 0.3125 * w->lv[l].step_dt; injected_level = l; w->note("REJECT-post");
      return injected_dt;
    };
  }
  using LI = fub::DimensionalSplitLevelIntegrator<R, Context<R>, Split>;
  Solver<LI> solver{LI{fub::int_c<R>, context, Split{}}};
  double t = t0;
  const int nsteps = with_errors ? 1 : (ctx.thorough() && !with_regrid ? 3 : 2);
  for (int s = 0; s < nsteps; ++s) {
    w->dt = s == 0 ? 0.3 : s == 1 ? 0.125 : 0.7;
    solver.PreAdvanceHierarchy();
    auto result = solver.AdvanceHierarchy(Duration(w->dt));
    mpimodel::remote().contribution = nullptr;
    if (injected) {
      w->check(!result, "rejection-not-reported");
      int ratio = 1;
      for (int l = 1; l <= injected_level; ++l) ratio *= ratios[l];
      if (!subcycling) ratio = 1;
      const auto err = result.error();
      w->check(std::abs(err.dt.count() - injected_dt * ratio) <= 1e-13, "suggested-coarse-step", "got ", err.dt.count(), " expected ", injected_dt * ratio, " level ", injected_level);
      if (subcycling) w->check(err.level == 0, "error-level", err.level);
      w->check(err.dt.count() < w->dt, "suggested-step-not-smaller", err.dt.count());
      ctx.state(hash(*w));
      ctx.validated();
      ctx.outcome(mc::cat("rejected kind ", injected));
      return;
    }
    w->check(bool(result), "step-failed-without-reason");
    solver.PostAdvanceHierarchy(Duration(w->dt));
    t += w->dt;
    judge_success(*w, ratios, t, subcycling);
    w->check(w->pre_hierarchy == s + 1 && w->post_hierarchy == s + 1 && w->post_hierarchy_dt == w->dt, "hierarchy-hooks");
  }
  judge_orders(*w, R);
  if (!with_regrid) { // number of level steps
    std::vector<int> count(w->lv.size(), 0);
    for (auto& st : w->steps) count[std::get<0>(st)]++;
    int n = nsteps;
    for (std::size_t l = 0; l < w->lv.size(); ++l) {
      if (l && subcycling) n *= ratios[l];
      w->check(count[l] == n, "number-of-level-steps", "level ", l, " ", count[l], " expected ", n);
    }
  }
  ctx.state(hash(*w));
  ctx.validated();
  ctx.outcome(mc::cat("completed, levels ", w->lv.size()));
  ctx.sample(w->show().substr(0, 500));
}

template <int R, typename Split> void both(mc::Ctx& ctx, bool regrid, bool errors) {
  if (ctx.flip()) protocol<R, Split, fub::SubcycleFineFirstSolver>(ctx, true, regrid, errors);
  else protocol<R, Split, fub::NoSubcycleSolver>(ctx, false, regrid, errors);
}
template <int R> void splits(mc::Ctx& ctx, bool regrid, bool errors) {
  switch (ctx.choose(3)) {
  case 0: return both<R, fub::GodunovSplitting>(ctx, regrid, errors);
  case 1: return both<R, fub::StrangSplitting>(ctx, regrid, errors);
  default: return both<R, fub::StrangSplittingLumped>(ctx, regrid, errors);
  }
}
void ranks(mc::Ctx& ctx, bool regrid, bool errors) {
  switch (ctx.choose(3)) {
  case 0: return splits<1>(ctx, regrid, errors);
  case 1: return splits<2>(ctx, regrid, errors);
  default: return splits<3>(ctx, regrid, errors);
  }
}
} // namespace

#ifdef PROTOCOL
SCENARIO("fixed-hierarchy", "space dim 1..3 x {Godunov,Strang,lumped Strang} x {subcycling,no subcycling} x 1..3 levels x refinement ratios {2,3,4} per level x 2 consecutive steps", 3) {
  ranks(ctx, false, false);
}
SCENARIO("regridding", "as fixed-hierarchy with up to 2 regrids per run at any level step: rebuild finer levels, drop the finest, add a level; 1..3 initial levels", 3) {
  ranks(ctx, true, false);
}
SCENARIO("stable-step-of-hierarchy", "1..3 levels x ratios {2,4} x per-level/direction stable sizes from 3 values x value of another rank", 1) {
  const int n = 1 + ctx.choose(3);
  std::vector<int> ratios{1};
  for (int l = 1; l < n; ++l) ratios.push_back(ctx.pick({2, 4}));
  auto w = make_world(ctx, 2, n, n, ratios, 0.0);
  std::map<int, double> dts;
  w->free_stable_dt = [&](int id) {
    auto it = dts.find(id);
    if (it == dts.end()) it = dts.emplace(id, ctx.pick({1.0, 0.25, 0.4})).first;
    return it->second;
  };
  Context<2> context(w);
  context.ratios = [ratios](int l) { return ratios.at(l); };
  const double other = ctx.pick({1e300, 0.3, 0.01});
  mpimodel::remote().contribution = [=](double) { return other; };
  using LI = fub::DimensionalSplitLevelIntegrator<2, Context<2>, fub::GodunovSplitting>;
  const bool sub = ctx.flip();
  double got;
  if (sub) { fub::SubcycleFineFirstSolver<LI> s{LI{fub::int_c<2>, context}}; got = s.ComputeStableDt().count(); }
  else { fub::NoSubcycleSolver<LI> s{LI{fub::int_c<2>, context}}; got = s.ComputeStableDt().count(); }
  mpimodel::remote().contribution = nullptr;
  double expect = other;
  int total = 1;
  for (int l = 0; l < n; ++l) {
    if (l && sub) total *= ratios[l];
    for (int d = 0; d < 2; ++d) {
      w->check(dts.count(l * 8 + d), "level-or-direction-ignored", "level ", l, " dir ", d);
      expect = std::min(expect, total * dts[l * 8 + d]);
    }
  }
  ctx.close(got, expect, 1e-14, "stable-step-of-hierarchy", "levels ", n);
  ctx.transition(dts.size());
  mc::Hash h;
  for (auto& d : dts) h.add(d.first).add(d.second);
  ctx.state(h.add(other).add(int(sub)));
  ctx.validated();
}
#endif

#ifdef ERRORS
SCENARIO("rejected-level-steps", "space dim 1..3 x 3 splittings x 2 solvers x 1..3 levels x ratios {2,3}; the estimate at any sweep of any level is {rejecting locally, rejecting on another rank, exactly at the limit, larger}, or any finished level step is rejected", 3) {
  ranks(ctx, false, true);
}
#endif
