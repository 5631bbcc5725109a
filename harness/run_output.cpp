// Which states of a run are written by fub's output schedules.
#include "run_model.hpp"
#include <pybind11/embed.h>
using namespace runmodel;

namespace {
struct Recorder {
  std::vector<double> intervals;
  std::vector<std::ptrdiff_t> freqs;
  std::vector<std::pair<std::ptrdiff_t, double>> written;
};

// every accepted state (cycle, time) of the run
using States = std::vector<std::pair<std::ptrdiff_t, double>>;
constexpr double tol = 5e-12;

void judge(mc::Ctx& ctx, const Recorder& r, const States& states, double final_time, bool only_when_due, const std::string& h) {
  std::set<std::ptrdiff_t> written;
  for (auto& w : r.written) ctx.check(written.insert(w.first).second, "written-twice", "cycle ", w.first, " ", h);
  for (std::size_t i = 0; i < states.size(); ++i) {
    auto [c, t] = states[i];
    bool due = false;
    for (auto f : r.freqs) due = due || (f != 0 && c % f == 0);
    for (auto d : r.intervals) due = due || std::abs(t - d * std::round(t / d)) < tol;
    const bool is_last = i + 1 == states.size();
    if (due) ctx.check(written.count(c) == 1, is_last ? "due-output-missing-at-end" : "due-output-missing", "cycle ", c, " t=", t, " ", h);
    else if (!(is_last && !only_when_due)) ctx.check(written.count(c) == 0, "written-although-not-due", "cycle ", c, " t=", t, " ", h);
  }
  // no requested time is stepped over, and none is hit twice
  for (double d : r.intervals) {
    for (int k = 1; k * d <= final_time + tol; ++k) {
      int hits = 0;
      for (auto& w : r.written) hits += std::abs(w.second - k * d) < tol;
      ctx.check(hits >= 1, "requested-time-skipped", "t=", k * d, " ", h);
      ctx.check(hits <= 1, "requested-time-written-twice", "t=", k * d, " ", h);
    }
  }
}

void run(mc::Ctx& ctx, fub::BasicOutput<Grid>& out, double final_time, int free_steps, States& states, std::string& h) {
  quiet();
  Monitor mon;
  int steps = 0;
  double rest = ctx.pick({0.05, 0.07, 0.3});
  mon.stable_dt = [&](const Grid&) { return steps < free_steps ? ctx.pick({0.05, 0.09, 0.2, 3.0}) : rest; };
  mon.verdict = [&](const Grid& g, double dt) { ++steps; ctx.check(steps < 400, "no-progress", "t=", g.t, " dt=", dt); return 0.0; };
  Solver solver(Grid{0.0, 0, {}}, &mon);
  fub::RunOptions opt;
  opt.final_time = Duration(final_time);
  opt.cfl = 1.0;
  fub::RunSimulation(solver, opt, std::chrono::steady_clock::now(), out);
  h = mc::cat("final=", final_time, show(mon.events)).substr(0, 1500);
  for (auto& e : mon.events) if (e.kind == Ev::post) states.push_back({e.cycle, e.t});
  ctx.transition(states.size());
  mc::Hash hash;
  for (auto& s : states) hash.add(s.second);
  ctx.state(hash);
  ctx.check(!states.empty() && std::abs(states.back().second - final_time) < tol, "final-time-not-reached", h);
}

const std::vector<std::vector<double>> interval_sets{{}, {0.1}, {0.25}, {0.3}, {1.0 / 3.0}, {0.1, 0.25}, {0.15, 0.5}};
const std::vector<std::vector<std::ptrdiff_t>> freq_sets{{}, {1}, {2}, {3}, {2, 5}, {0}, {0, 2}};
std::vector<Duration> durations(const std::vector<double>& v) {
  std::vector<Duration> r;
  for (double x : v) r.push_back(Duration(x));
  return r;
}
} // namespace

SCENARIO("single-output", "7 interval sets x 7 frequency sets (0 means never) x 4 final times x 3 base steps; first 2 (thorough 4) stable step sizes from 4 values", 7) {
  Recorder r;
  r.intervals = ctx.pick(interval_sets);
  r.freqs = ctx.pick(freq_sets);
  const double ft = ctx.pick({1.0, 0.3, 0.95, 0.5});
  fub::AnyOutput<Grid> out(r.freqs, durations(r.intervals), [&](const Grid& g) { r.written.push_back({g.cycles, g.t}); });
  Grid zero;
  ctx.check(out.ShallOutputNow(zero), "initial-state-not-due");
  States states;
  std::string h;
  run(ctx, out, ft, ctx.thorough() ? 4 : 2, states, h);
  judge(ctx, r, states, ft, false, h);
  ctx.validated();
  ctx.outcome(mc::cat(r.written.size(), " writes"));
  ctx.sample(h.substr(0, 200));
}

SCENARIO("output-collection", "pairs of schedules in one collection (7x5 each, second restricted to 3x3); 3 final times; 3 base steps; first 1 (thorough 3) stable step sizes from 4 values", 7) {
  Recorder r1, r2;
  r1.intervals = ctx.pick(interval_sets);
  r1.freqs = ctx.pick(freq_sets);
  r2.intervals = interval_sets[ctx.choose(3)];
  r2.freqs = freq_sets[ctx.choose(3)];
  const double ft = ctx.pick({1.0, 0.3, 0.5});
  fub::MultipleOutputs<Grid> out;
  out.AddOutput(fub::MakeOutput<Grid>(r1.freqs, durations(r1.intervals), [&](const Grid& g) { r1.written.push_back({g.cycles, g.t}); }));
  out.AddOutput(std::make_unique<fub::AnyOutput<Grid>>(r2.freqs, durations(r2.intervals), [&](const Grid& g) { r2.written.push_back({g.cycles, g.t}); }));
  States states;
  std::string h;
  run(ctx, out, ft, ctx.thorough() ? 3 : 1, states, h);
  judge(ctx, r1, states, ft, true, h);
  judge(ctx, r2, states, ft, true, h);
  ctx.validated();
  ctx.outcome(mc::cat(r1.written.size(), "+", r2.written.size(), " writes"));
}

SCENARIO("time-query", "next output time at 400 rational time points x interval sets, compared with the schedule definition", 1) {
  auto set = ctx.pick(interval_sets);
  fub::AnyOutput<Grid> out(std::vector<std::ptrdiff_t>{}, durations(set), [](const Grid&) {});
  const double t = ctx.choose(400) * 0.0125;
  for (double shift : {0.0, 1e-12, 0.5e-3}) {
    const double now = t + shift;
    double next = out.NextOutputTime(Duration(now)).count();
    double expect = std::numeric_limits<double>::max();
    for (double d : set) {
      double k = std::floor((now + tol) / d) + 1;
      expect = std::min(expect, k * d);
    }
    ctx.check(next > now, "next-output-time-not-in-future", "t=", now, " next=", next);
    if (set.empty()) ctx.check(next > 1e100, "spurious-output-time");
    else ctx.check(std::abs(next - expect) < tol, "next-output-time", "t=", now, " next=", next, " expected ", expect);
    ctx.transition();
    ctx.state(mc::Hash().add(now).add(next));
  }
  ctx.validated();
}

SCENARIO("near-multiples", "5 interval sets (with zero intervals) x 4 smallest step sizes x 6 multiples x 19 offsets around each", 1) {
  const std::vector<std::vector<double>> sets{{0.25}, {0.1}, {1.0 / 3.0, 0.25}, {0.0, 0.1}, {7e-3, 0.0}};
  const auto set = ctx.pick(sets);
  const double smallest = ctx.pick({1e-12, 1e-9, 1e-6, 1e-4});
  struct Nothing : fub::OutputAtFrequencyOrInterval<Grid> { using OutputAtFrequencyOrInterval<Grid>::OutputAtFrequencyOrInterval; void operator()(const Grid&) override {} };
  Nothing out({}, durations(set), Duration(smallest));
  const double base = set[0] > 0 ? set[0] : set[1];
  const int k = ctx.choose(6);
  static const double offs[] = {-30, -3.5, -2.5, -1.75, -1.5, -1.25, -1, -0.5, -0.25, 0, 0.25, 0.5, 1, 1.25, 1.5, 1.75, 2.5, 3.5, 30};
  const double t = k * base + offs[ctx.choose(19)] * smallest;
  if (t <= 0) throw mc::Prune{};
  // distance to the next multiple in front of and behind a time, and the multiple behind it
  auto due = [&](double x) { return out.ShallOutputNow(Grid{x, 1, {}}); };
  const double round = 1e-13;
  bool near = false, clear = true;
  double after = std::numeric_limits<double>::max();
  for (double d : set) if (d > 0) {
    const double dist = std::abs(t - d * std::round(t / d));
    near = near || dist < smallest - round;
    clear = clear && dist > 3 * smallest + round;
    after = std::min(after, (std::floor((t + 3 * smallest) / d) + 1) * d);
  }
  if (near) ctx.check(due(t), "time-within-the-smallest-step-is-not-due", "t=", t, " smallest=", smallest);
  if (clear) ctx.check(!due(t), "time-far-from-multiples-is-due", "t=", t, " smallest=", smallest);
  const double next = out.NextOutputTime(Duration(t)).count();
  ctx.check(next > t + 0.5 * smallest, "step-to-next-output-smaller-than-smallest-step", "t=", t, " next=", next, " smallest=", smallest);
  ctx.check(due(next), "next-output-time-is-not-due", "t=", t, " next=", next, " smallest=", smallest);
  ctx.check(next <= after + 3 * smallest, "output-time-stepped-over", "t=", t, " next=", next, " instead of ", after, " smallest=", smallest);
  // a run which arrives there is not asked to write again right after it
  const double again = out.NextOutputTime(Duration(next)).count();
  ctx.check(again > next + 3 * smallest, "output-repeated-right-away", "t=", next, " next=", again, " smallest=", smallest);
  // and if this time is not due yet, the multiple behind it is the next one
  if (!due(t)) for (double d : set) if (d > 0) ctx.check(next <= std::ceil(t / d) * d + 3 * smallest, "multiple-missed", "t=", t, " next=", next, " interval ", d, " smallest=", smallest);
  ctx.transition();
  ctx.state(mc::Hash().add(t).add(next));
  ctx.validated();
}
SCENARIO("configured-outputs", "option maps: inherited or own frequencies/intervals per output, known/unknown/missing type, 0..3 outputs", 1) {
  static pybind11::scoped_interpreter* interp = new pybind11::scoped_interpreter{};
  namespace py = pybind11;
  struct Probe : fub::OutputAtFrequencyOrInterval<Grid> {
    std::vector<int>* log; int id;
    Probe(const std::map<std::string, py::object>& o, std::vector<int>* l) : OutputAtFrequencyOrInterval<Grid>(o), log(l), id(fub::GetOptionOr(o, "id", -1)) {}
    void operator()(const Grid&) override { log->push_back(id); }
  };
  std::vector<int> log;
  fub::OutputFactory<Grid> factory;
  ctx.check(factory.RegisterOutput<Probe>("probe", &log), "register-failed");
  ctx.check(!factory.RegisterOutput<Probe>("probe", &log), "registered-twice");
  ctx.check(factory.Contains("probe") && !factory.Contains("other"), "contains");
  std::map<std::string, py::object> opts;
  const int gf = ctx.choose(3), gi = ctx.choose(2);
  if (gf) opts["frequencies"] = py::cast(std::vector<int>{gf + 1});
  if (gi) opts["intervals"] = py::cast(std::vector<double>{0.25});
  const int n = ctx.choose(4);
  py::list l;
  struct Want { int id; std::vector<int> f; std::vector<double> iv; };
  std::vector<Want> wants;
  for (int i = 0; i < n; ++i) {
    py::dict d;
    const int type = i == 0 ? ctx.choose(3) : (i == 1 ? ctx.choose(2) : 0);
    if (type < 2) d["type"] = type == 0 ? "probe" : "unknown";
    d["id"] = i;
    Want w{i, {}, {}};
    if (gf) w.f = {gf + 1};
    if (gi) w.iv = {0.25};
    if (ctx.flip()) { d["frequencies"] = std::vector<int>{3 + i}; w.f = {3 + i}; }
    if (i < 2 && ctx.flip()) { d["intervals"] = std::vector<double>{0.4}; w.iv = {0.4}; }
    l.append(d);
    if (type == 0) wants.push_back(w);
  }
  opts["outputs"] = l;
  fub::MultipleOutputs<Grid> out(factory, opts);
  for (int c = 1; c <= 6; ++c) for (double t : {0.1, 0.25, 0.4, 0.5, 2.0}) {
    Grid g{t, c, {}};
    std::vector<int> expect;
    double next = std::numeric_limits<double>::max();
    for (auto& w : wants) {
      bool due = false;
      for (int f : w.f) due = due || c % f == 0;
      for (double d : w.iv) { due = due || std::abs(t - d * std::round(t / d)) < tol; next = std::min(next, (std::floor((t + tol) / d) + 1) * d); }
      if (due) expect.push_back(w.id);
    }
    log.clear();
    ctx.check(out.ShallOutputNow(g) == !expect.empty(), "collection-due", "c=", c, " t=", t);
    out(g);
    ctx.check(log == expect, "collection-invoked-wrong-outputs", "c=", c, " t=", t, " n=", log.size(), " expected ", expect.size());
    double got = out.NextOutputTime(Duration(t)).count();
    ctx.check(next > 1e100 ? got > 1e100 : std::abs(got - next) < tol, "collection-next-time", got, " expected ", next);
    ctx.transition();
    ctx.state(mc::Hash().add(gf).add(gi).add(n).add(c).add(t).add(int(expect.size())));
  }
  ctx.validated();
  ctx.outcome(mc::cat(wants.size(), " active outputs"));
}
