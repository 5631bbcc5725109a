// End time, step limits, cycle limits and call order of fub::RunSimulation.
#include "run_model.hpp"
#include <pybind11/embed.h>
using namespace runmodel;

namespace {
struct Config { double t0; std::ptrdiff_t c0; double final_time; double cfl; std::ptrdiff_t max_cycles; double eps; };

void run(mc::Ctx& ctx, const Config& cfg, int maxsteps, bool with_failures, int out_kind) {
  quiet();
  Monitor mon;
  int steps = 0, fails_here = 0;
  const double span = cfg.final_time - cfg.t0;
  std::vector<double> menu{0.25 * span, 0.4 * span, 0.07 * span, 5.0 * span};
  mon.stable_dt = [&](const Grid&) {
    if (span <= 0) return 1.0;
    return steps < maxsteps ? menu[ctx.choose(4)] : 5.0 * span;
  };
  mon.verdict = [&](const Grid& g, double dt) {
    if (with_failures && steps < maxsteps && fails_here < 2 && dt > 1e-3 * span) {
      int k = ctx.choose(3);
      if (k > 0) {
        ++fails_here;
        return k == 1 ? 0.5 * dt : 0.3 * dt;
      }
    }
    fails_here = 0;
    ++steps;
    ctx.state(mc::Hash().add(g.t).add(std::int64_t(g.cycles)).add(dt).add(cfg.t0).add(cfg.final_time).add(cfg.cfl).add(std::int64_t(cfg.max_cycles)));
    return 0.0;
  };
  Solver solver(Grid{cfg.t0, cfg.c0, {1.0, 2.0, 3.0}}, &mon);
  int outputs = 0;
  RecordingOutput out;
  const double interval = 0.3 * span;
  out.next = [&](Duration t) {
    if (out_kind == 0 || interval <= 0) return Duration(std::numeric_limits<double>::max());
    double k = std::floor((t.count() - cfg.t0) / interval + 1e-9) + 1;
    return Duration(cfg.t0 + k * interval);
  };
  out.shall = [&](const Grid& g) {
    if (out_kind == 0) return false;
    if (out_kind == 2) return g.cycles % 2 == 0;
    double k = (g.t - cfg.t0) / interval;
    return std::abs(k - std::round(k)) < 1e-9;
  };
  out.call = [&](const Grid& g) { mon.events.push_back({Ev::output, g.t, g.cycles, 0}); ++outputs; };
  fub::RunOptions opt;
  opt.final_time = Duration(cfg.final_time);
  opt.cfl = cfg.cfl;
  opt.max_cycles = cfg.max_cycles;
  opt.smallest_time_step_size = Duration(cfg.eps);
  fub::RunSimulation(solver, opt, std::chrono::steady_clock::now(), out);

  // ---- oracle over the recorded history ----
  const std::string h = show(mon.events);
  const Grid& g = *solver.GetGriddingAlgorithm();
  const bool may_run = cfg.t0 + cfg.eps < cfg.final_time && (cfg.max_cycles < 0 || cfg.c0 < cfg.max_cycles);
  const bool done_time = !(g.t + cfg.eps < cfg.final_time);
  const bool done_cycles = cfg.max_cycles >= 0 && g.cycles >= cfg.max_cycles;
  ctx.check(done_time || done_cycles, "stopped-early", h);
  if (!may_run) {
    ctx.check(mon.events.empty(), "ran-without-need", h);
    ctx.outcome("nothing to do");
    return;
  }
  if (cfg.max_cycles >= 0) ctx.check(g.cycles <= cfg.max_cycles, "too-many-cycles", h);
  ctx.check(g.t <= cfg.final_time + 1e-13 * std::abs(cfg.final_time), "overshoot", h);
  double t = cfg.t0;
  std::ptrdiff_t c = cfg.c0;
  double estimate = -1;
  bool have_fail = false;
  Ev last = Ev::post;
  bool first = true;
  for (auto& e : mon.events) {
    switch (e.kind) {
    case Ev::pre:
      ctx.check(last == Ev::post || last == Ev::advance_fail || last == Ev::output, "pre-advance-order", h);
      if (last == Ev::post && !first) ctx.check(!out.shall(Grid{t, c, {}}), "due-output-skipped", "cycle ", c, " t=", t, h);
      first = false;
      ctx.check(t + cfg.eps < cfg.final_time, "step-after-final-time", h);
      ctx.check(cfg.max_cycles < 0 || c < cfg.max_cycles, "step-after-max-cycles", h);
      break;
    case Ev::dt: estimate = e.dt; ctx.check(last == Ev::pre, "estimate-order", h); break;
    case Ev::advance_ok:
    case Ev::advance_fail: {
      ctx.check(last == Ev::dt || (last == Ev::pre && have_fail), "advance-order", h);
      ctx.check(estimate > 0, "no-estimate", h);
      const double lim = std::min({cfg.final_time - t, out.next(Duration(t)).count() - t, cfg.cfl * estimate});
      ctx.check(e.t == t && e.cycle == c, "advance-from-wrong-state", "at t=", e.t, " expected ", t, h);
      ctx.check(e.dt > 0 && e.dt <= lim * (1 + 1e-12), "step-exceeds-limit", "dt=", e.dt, " limit=", lim, h);
      ctx.check(e.dt >= lim * (1 - 1e-12), "step-needlessly-small", "dt=", e.dt, " limit=", lim, h);
      if (e.kind == Ev::advance_ok) {
        t = e.t + e.dt; c = e.cycle + 1; have_fail = false; estimate = -1;
      } else { have_fail = true; estimate = e.suggestion; }
      break;
    }
    case Ev::post: ctx.check(last == Ev::advance_ok, "post-advance-order", h); break;
    case Ev::output:
      ctx.check(last == Ev::post, "output-order", h);
      ctx.check(out.shall(Grid{t, c, {}}) || &e == &mon.events.back(), "output-not-due", "cycle ", c, " t=", t, h);
      break;
    }
    last = e.kind;
    ctx.transition();
  }
  ctx.check(last == Ev::output || last == Ev::post, "history-end", h);
  ctx.check(g.t == t && g.cycles == c, "final-state", h);
  // the last state of a run is always offered to the output
  ctx.check(outputs > 0 && mon.events.back().kind == Ev::output, "no-output-at-end", h);
  ctx.validated();
  ctx.outcome(done_cycles ? "ended by cycle limit" : "ended by final time");
  ctx.sample(h.substr(0, 300));
}
} // namespace

SCENARIO("run-loop", "final time x start time x cfl x cycle limit x output schedule x 4 stable step sizes for each of the first 4 (thorough 6) steps", 8) {
  Config c;
  double ft = ctx.pick({1.0, 0.3});
  int start = ctx.choose(4);
  c.t0 = start == 0 ? 0.0 : start == 1 ? 0.25 * ft : start == 2 ? ft : 1.5 * ft;
  // keep the shards balanced: first choices are cheap
  c.c0 = start == 1 ? 3 : 0;
  c.final_time = ft;
  c.cfl = ctx.pick({1.0, 0.8, 0.5});
  c.max_cycles = ctx.pick<std::ptrdiff_t>({-1, 0, 1, 3, 5});
  c.eps = ctx.pick({1e-12, 1e-3});
  int ok = ctx.choose(3);
  run(ctx, c, ctx.thorough() ? 6 : 4, false, ok);
}
SCENARIO("run-loop-rejections", "final time x cycle limit x output schedule; first 2 (thorough 3) steps: 4 stable sizes, each attempt accepted or rejected (2 suggestions, at most 2 rejections in a row)", 8) {
  Config c;
  c.final_time = ctx.pick({1.0, 0.3});
  c.t0 = ctx.pick({0.0, 0.1});
  c.c0 = 0;
  c.cfl = ctx.pick({1.0, 0.8});
  c.max_cycles = ctx.pick<std::ptrdiff_t>({-1, 2});
  c.eps = 1e-12;
  int ok = ctx.choose(3);
  run(ctx, c, ctx.thorough() ? 3 : 2, true, ok);
}

SCENARIO("options", "every subset of the five options x 2 values each: what is given is taken, everything else keeps its default", 1) {
  static pybind11::scoped_interpreter* interp = new pybind11::scoped_interpreter{};
  (void)interp;
  namespace py = pybind11;
  std::map<std::string, py::object> vm;
  fub::RunOptions want;
  const char* names[] = {"final_time", "max_cycles", "smallest_time_step_size", "cfl", "do_backup"};
  std::string h;
  for (int k = 0; k < 5; ++k) {
    const int v = ctx.choose(3);
    if (!v) continue;
    const double x = v == 1 ? 0.625 : 3.0;
    h += mc::cat(names[k], "=", x, " ");
    if (k == 0) { vm[names[k]] = py::cast(x); want.final_time = Duration(x); }
    if (k == 1) { vm[names[k]] = py::cast(v == 1 ? 0 : 17); want.max_cycles = v == 1 ? 0 : 17; }
    if (k == 2) { vm[names[k]] = py::cast(x * 1e-3); want.smallest_time_step_size = Duration(x * 1e-3); }
    if (k == 3) { vm[names[k]] = py::cast(x); want.cfl = x; }
    if (k == 4) { vm[names[k]] = py::cast(v == 1); want.do_backup = v == 1; }
  }
  if (ctx.flip()) vm["unrelated"] = py::cast(std::string("text"));
  const fub::RunOptions is(vm);
  ctx.check(is.final_time == want.final_time, "final-time-option", h, is.final_time.count());
  ctx.check(is.max_cycles == want.max_cycles, "max-cycles-option", h, is.max_cycles);
  ctx.check(is.smallest_time_step_size == want.smallest_time_step_size, "smallest-step-option", h);
  ctx.check(is.cfl == want.cfl, "cfl-option", h, is.cfl);
  ctx.check(is.do_backup == want.do_backup, "backup-option", h);
  ctx.transition();
  ctx.state(mc::Hash().add(h));
  ctx.validated();
}
SCENARIO("progress-line", "7 fractions of the final time x 4 final times x 4 cycles x 4 step sizes x 5 wall times", 1) {
  const double ft = ctx.pick({1.0, 0.02, 300.0, 1e-5}), frac = ctx.pick({0.0, 0.012, 0.5, 0.555, 0.9975, 1.0, 1e-7}), dt = ctx.pick({0.25, 1e-7, 3.5, 1.0 / 3.0});
  const std::ptrdiff_t cycle = ctx.pick<std::ptrdiff_t>({0, 7, 12345, 1234567});
  using namespace std::chrono;
  const nanoseconds wall = ctx.pick<nanoseconds>({milliseconds(1), seconds(59), seconds(61) + milliseconds(250), hours(3) + minutes(59) + seconds(2), hours(101)});
  const nanoseconds diff = ctx.pick<nanoseconds>({microseconds(3), milliseconds(2500)});
  const std::string l = fub::FormatTimeStepLine(cycle, Duration(frac * ft), Duration(dt), Duration(ft), wall, diff);
  int pct = -1; long cyc = -1, hh = -1, mm = -1; double d = -1, ss = -1, dd = -1;
  ctx.check(std::sscanf(l.c_str(), "[%d%%] %ld: dt = %lfs wall-time: %ldh:%ldm:%lfs (+%lfs)", &pct, &cyc, &d, &hh, &mm, &ss, &dd) == 7, "progress-line-format", l);
  ctx.check(std::abs(pct - 100 * frac) <= 1.0 + 1e-9 && pct >= 0 && pct <= 100, "progress", l, " of ", frac);
  ctx.check(cyc == cycle, "progress-cycle", l);
  ctx.check(std::abs(d - dt) <= 1e-5 * dt, "progress-step-size", l);
  ctx.check(mm < 60 && ss < 60.0 && std::abs(hh * 3600.0 + mm * 60.0 + ss - duration<double>(wall).count()) < 2e-6, "progress-wall-time", l);
  ctx.check(std::abs(dd - duration<double>(diff).count()) <= 1e-5 * dd, "progress-wall-time-difference", l);
  ctx.transition();
  ctx.state(mc::Hash().add(l));
  ctx.validated();
}
