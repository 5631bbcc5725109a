// Mock solver driven by fub::RunSimulation.  The environment (stable time step
// sizes, rejected steps and their suggestions) is decided by the explorer.
#ifndef VERIF_RUN_MODEL_HPP
#define VERIF_RUN_MODEL_HPP
#include "mc.hpp"
#include "fub/core/type_traits.hpp"
#include "fub/RunSimulation.hpp"
#include "fub/output/AsOutput.hpp"
#include "fub/output/MultipleOutputs.hpp"
#include <boost/log/core.hpp>
#include <functional>

namespace runmodel {
using fub::Duration;

struct Grid {
  double t = 0;
  std::ptrdiff_t cycles = 0;
  std::vector<double> cells; // payload: must survive rejected steps unchanged
  Duration GetTimePoint() const { return Duration(t); }
  std::ptrdiff_t GetCycles() const { return cycles; }
};

enum class Ev { pre, dt, advance_ok, advance_fail, post, output };
struct Event {
  Ev kind;
  double t;
  std::ptrdiff_t cycle;
  double dt; // advance: the step; dt: the estimate; fail: the step
  double suggestion = 0;
  int tag = 0;
};

struct Monitor {
  std::vector<Event> events;
  std::function<double(const Grid&)> stable_dt;
  // returns 0 for success, otherwise the suggested dt of the rejection
  std::function<double(const Grid&, double dt)> verdict;
  std::function<void(const char*)> on_event;
};

// Deep copying solver, as a hierarchy solver is.
struct Solver {
  std::shared_ptr<Grid> grid;
  Monitor* mon;
  std::shared_ptr<fub::CounterRegistry> counters;
  int scratch = 0; // belongs to the solver and not to the grid

  Solver(Grid g, Monitor* m)
      : grid(std::make_shared<Grid>(g)), mon(m), counters(std::make_shared<fub::CounterRegistry>()) {}
  Solver(const Solver& o) : grid(std::make_shared<Grid>(*o.grid)), mon(o.mon), counters(o.counters), scratch(o.scratch) {}
  Solver& operator=(const Solver& o) {
    grid = std::make_shared<Grid>(*o.grid);
    mon = o.mon;
    counters = o.counters;
    scratch = o.scratch;
    return *this;
  }
  Solver(Solver&&) = default;
  Solver& operator=(Solver&&) = default;

  const std::shared_ptr<Grid>& GetGriddingAlgorithm() const { return grid; }
  Duration GetTimePoint() const { return grid->GetTimePoint(); }
  std::ptrdiff_t GetCycles() const { return grid->cycles; }
  const std::shared_ptr<fub::CounterRegistry>& GetCounterRegistry() const { return counters; }

  void PreAdvanceHierarchy() {
    mon->events.push_back({Ev::pre, grid->t, grid->cycles, 0});
    scratch += 1;
  }
  Duration ComputeStableDt() {
    double dt = mon->stable_dt(*grid);
    mon->events.push_back({Ev::dt, grid->t, grid->cycles, dt});
    return Duration(dt);
  }
  boost::outcome_v2::result<void, fub::TimeStepTooLarge> AdvanceHierarchy(Duration dt) {
    const double suggestion = mon->verdict(*grid, dt.count());
    if (suggestion > 0) {
      mon->events.push_back({Ev::advance_fail, grid->t, grid->cycles, dt.count(), suggestion});
      // a rejected step leaves garbage behind
      for (double& c : grid->cells) c += 1000.0 + c;
      if (!grid->cells.empty()) grid->cells.pop_back();
      grid->t += 0.37 * dt.count();
      scratch = -77;
      return fub::TimeStepTooLarge{Duration(suggestion), 0};
    }
    mon->events.push_back({Ev::advance_ok, grid->t, grid->cycles, dt.count()});
    for (std::size_t i = 0; i < grid->cells.size(); ++i) grid->cells[i] = grid->cells[i] * 0.5 + dt.count() * double(i + 1);
    grid->t += dt.count();
    grid->cycles += 1;
    return boost::outcome_v2::success();
  }
  void PostAdvanceHierarchy(Duration dt) { mon->events.push_back({Ev::post, grid->t, grid->cycles, dt.count()}); }
};

struct RecordingOutput : fub::BasicOutput<Grid> {
  std::function<Duration(Duration)> next;
  std::function<bool(const Grid&)> shall;
  std::function<void(const Grid&)> call;
  Duration NextOutputTime(Duration t) override { return next(t); }
  bool ShallOutputNow(const Grid& g) override { return shall(g); }
  void operator()(const Grid& g) override { call(g); }
};

inline void quiet() { boost::log::core::get()->set_logging_enabled(false); }

inline std::string show(const std::vector<Event>& ev) {
  std::string s;
  static const char* names[] = {"pre", "stable_dt", "advance", "REJECT", "post", "OUTPUT"};
  for (auto& e : ev) {
    if (e.kind == Ev::pre) continue;
    s += mc::cat(" ", names[int(e.kind)], "(t=", e.t, ",c=", e.cycle);
    if (e.kind != Ev::output) s += mc::cat(",dt=", e.dt);
    if (e.kind == Ev::advance_fail) s += mc::cat(",sugg=", e.suggestion);
    s += ")";
  }
  return s;
}
} // namespace runmodel
#endif
