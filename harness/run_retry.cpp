// Rejected steps: with backups they leave no trace, without they abort.
#include "run_model.hpp"
using namespace runmodel;

SCENARIO("retry-is-transparent", "first 2 (thorough 3) steps: 3 stable sizes, per attempt accept or reject (3 suggestions), up to 3 rejections in a row; outputs none/every cycle/every 2nd/interval", 8) {
  quiet();
  const int maxsteps = ctx.thorough() ? 3 : 2;
  const int out_kind = ctx.choose(4);
  const double cfl = ctx.pick({1.0, 0.5});
  Monitor mon;
  int steps = 0, fails = 0, total_fails = 0;
  // reference: the payload of every accepted state
  Grid ref{0.0, 0, {1.0, -2.0, 3.5}};
  std::vector<double> budget;
  mon.stable_dt = [&](const Grid&) { return steps < maxsteps ? ctx.pick({0.5, 0.3, 0.125}) : 4.0; };
  mon.verdict = [&](const Grid& g, double dt) {
    // whatever happened before: an attempt starts from the last accepted state
    ctx.check(g.t == ref.t && g.cycles == ref.cycles && g.cells == ref.cells, "attempt-from-corrupted-state",
              "t=", g.t, " expected ", ref.t, " after ", total_fails, " rejections;", show(mon.events));
    if (steps < maxsteps && fails < 3) {
      int k = ctx.choose(4);
      if (k > 0) { ++fails; ++total_fails; return k == 1 ? 0.5 * dt : k == 2 ? 0.25 * dt : 0.9 * dt; }
    }
    fails = 0;
    ++steps;
    for (std::size_t i = 0; i < ref.cells.size(); ++i) ref.cells[i] = ref.cells[i] * 0.5 + dt * double(i + 1);
    ref.t += dt;
    ref.cycles += 1;
    mc::Hash h; h.add(ref.t).add(std::int64_t(ref.cycles)).add(out_kind).add(cfl);
    for (double x : ref.cells) h.add(x);
    ctx.state(h);
    return 0.0;
  };
  Solver solver(ref, &mon);
  RecordingOutput out;
  out.next = [&](Duration t) {
    if (out_kind != 3) return Duration(std::numeric_limits<double>::max());
    return Duration((std::floor(t.count() / 0.25 + 1e-9) + 1) * 0.25);
  };
  out.shall = [&](const Grid& g) {
    if (out_kind == 0) return false;
    if (out_kind == 3) return std::abs(g.t / 0.25 - std::round(g.t / 0.25)) < 1e-9;
    return g.cycles % out_kind == 0;
  };
  out.call = [&](const Grid& g) {
    ctx.check(g.t == ref.t && g.cycles == ref.cycles && g.cells == ref.cells, "output-of-unaccepted-state", show(mon.events));
    mon.events.push_back({Ev::output, g.t, g.cycles, 0});
  };
  fub::RunOptions opt;
  opt.final_time = Duration(1.0);
  opt.cfl = cfl;
  fub::RunSimulation(solver, opt, std::chrono::steady_clock::now(), out);
  const std::string h = show(mon.events);
  const Grid& g = *solver.GetGriddingAlgorithm();
  ctx.check(g.t == ref.t && g.cycles == ref.cycles && g.cells == ref.cells, "final-state-differs", h);
  ctx.check(std::abs(g.t - 1.0) <= 1e-12, "final-time-not-reached", h);
  // one more pass: retried steps use the suggestion, are not smaller than needed, and every accepted
  // state is written at most once
  double sugg = -1, t = 0;
  std::set<std::ptrdiff_t> written;
  for (auto& e : mon.events) {
    ctx.transition();
    if (e.kind == Ev::dt) ctx.check(sugg < 0, "estimate-instead-of-suggestion", h);
    if (e.kind == Ev::advance_ok || e.kind == Ev::advance_fail) {
      if (sugg > 0) {
        double lim = std::min({1.0 - t, out.next(Duration(t)).count() - t, cfl * sugg});
        ctx.check(std::abs(e.dt - lim) <= 1e-12, "retry-step-size", "dt=", e.dt, " expected ", lim, h);
      }
      if (e.kind == Ev::advance_fail) sugg = e.suggestion; else { sugg = -1; t = e.t + e.dt; }
    }
    if (e.kind == Ev::post) ctx.check(sugg < 0, "post-step-after-rejection", h);
    if (e.kind == Ev::output) ctx.check(written.insert(e.cycle).second, "state-written-twice", "cycle ", e.cycle, ":", h);
  }
  ctx.validated();
  ctx.outcome(mc::cat(total_fails, " rejections"));
  ctx.sample(h.substr(0, 400));
}

SCENARIO("abort-without-backup", "do_backup=0; first 4 steps accept or reject; output schedule none/every cycle", 1) {
  quiet();
  const int out_kind = ctx.choose(2);
  Monitor mon;
  int accepted = 0;
  bool failed = false;
  mon.stable_dt = [&](const Grid&) { return 0.2; };
  mon.verdict = [&](const Grid& g, double dt) {
    ctx.check(!failed, "continued-after-rejection", show(mon.events));
    if (accepted < 4 && ctx.flip()) { failed = true; return 0.5 * dt; }
    ++accepted;
    ctx.state(mc::Hash().add(accepted).add(out_kind));
    return 0.0;
  };
  Solver solver(Grid{0.0, 0, {1.0}}, &mon);
  int outs = 0;
  RecordingOutput out;
  out.next = [&](Duration) { return Duration(1e300); };
  out.shall = [&](const Grid&) { return out_kind == 1; };
  out.call = [&](const Grid&) { ctx.check(!failed, "output-after-rejection", show(mon.events)); ++outs; mon.events.push_back({Ev::output, 0, 0, 0}); };
  fub::RunOptions opt;
  opt.final_time = Duration(1.0);
  opt.cfl = 1.0;
  opt.do_backup = 0;
  fub::RunSimulation(solver, opt, std::chrono::steady_clock::now(), out);
  ctx.transition(mon.events.size());
  if (failed) {
    ctx.check(mon.events.back().kind == Ev::advance_fail, "work-after-rejection", show(mon.events));
    ctx.outcome("aborted");
  } else {
    ctx.check(std::abs(solver.GetTimePoint().count() - 1.0) < 1e-12, "not-finished", show(mon.events));
    ctx.outcome("finished");
  }
  ctx.validated();
}
