// The stiff ODE solver: end point, accuracy, observers, independence of history, and faults of the right-hand side.
#include "mc.hpp"
#include "fub/ode_solver/RadauSolver.hpp"
#include <complex>
using namespace fub;
namespace {
using V = std::vector<double>;
struct Problem {
  const char* name;
  int n;
  std::function<void(span<double>, span<const double>, double)> f;
  std::function<V(double)> exact;
  std::function<void(span<double>, span<const double>, double)> jac; // column major
};
Problem problem(int k) {
  switch (k) {
    case 0: return {"decay", 1, [](span<double> d, span<const double> y, double) { d[0] = -3 * y[0]; }, [](double t) { return V{std::exp(-3 * t)}; }, [](span<double> J, span<const double>, double) { J[0] = -3; }};
    case 1: case 2: case 3: {
      const double l = k == 1 ? -10 : k == 2 ? -1e4 : -1e7;
      return {"stiff", 1, [l](span<double> d, span<const double> y, double t) { d[0] = l * (y[0] - std::cos(t)) - std::sin(t); }, [](double t) { return V{std::cos(t)}; }, [l](span<double> J, span<const double>, double) { J[0] = l; }};
    }
    case 4: return {"oscillator", 2, [](span<double> d, span<const double> y, double) { d[0] = 5 * y[1]; d[1] = -5 * y[0]; }, [](double t) { return V{std::sin(5 * t), std::cos(5 * t)}; }, [](span<double> J, span<const double>, double) { J[0] = 0; J[1] = -5; J[2] = 5; J[3] = 0; }};
    case 5: return {"logistic", 1, [](span<double> d, span<const double> y, double) { d[0] = 4 * y[0] * (1 - y[0]); }, [](double t) { return V{1 / (1 + std::exp(-4 * t))}; }, [](span<double> J, span<const double> y, double) { J[0] = 4 - 8 * y[0]; }};
    case 6: return {"quadrature", 3, [](span<double> d, span<const double>, double t) { d[0] = 1; d[1] = 2 * t; d[2] = std::exp(t); }, [](double t) { return V{t, t * t, std::exp(t)}; }, [](span<double> J, span<const double>, double) { for (int i = 0; i < 9; ++i) J[i] = 0; }};
    case 7: return {"stiff-pair", 2, [](span<double> d, span<const double> y, double) { d[0] = 998 * y[0] + 1998 * y[1]; d[1] = -999 * y[0] - 1999 * y[1]; },
                    [](double t) { return V{4 * std::exp(-t) - 3 * std::exp(-1000 * t), -2 * std::exp(-t) + 3 * std::exp(-1000 * t)}; }, [](span<double> J, span<const double>, double) { J[0] = 998; J[1] = -999; J[2] = 1998; J[3] = -1999; }};
  }
  return {};
}
constexpr int n_problems = 8;
double error(const V& y, const V& e) { double s = 0; for (std::size_t i = 0; i < e.size(); ++i) s = std::max(s, std::fabs(y[i] - e[i]) / std::max(1.0, std::fabs(e[i]))); return std::isfinite(s) ? s : 1e300; }
void run(const OdeSolver& s, const Problem& p, V& y, double t0, double dt, bool jac, V* times = nullptr, std::vector<V>* states = nullptr) {
  auto fb = [&](span<const double> x, double t) { times->push_back(t); states->push_back(V(x.begin(), x.end())); };
  span<double> ys(y.data(), std::ptrdiff_t(y.size()));
  OdeSolver::system_type f = p.f;
  if (jac && times) s.Integrate(f, ys, t0, dt, OdeSolver::feedback_type(fb), OdeSolver::jacobian_type(p.jac));
  else if (jac) s.Integrate(f, ys, t0, dt, OdeSolver::jacobian_type(p.jac));
  else if (times) s.Integrate(f, ys, t0, dt, OdeSolver::feedback_type(fb));
  else s.Integrate(f, ys, t0, dt);
}
bool usable(int k, double t0, double dt) { return !(k >= 1 && k <= 3 && dt < 0) && !(k == 7 && (dt < 0 || t0 < 0)) && !(k == 5 && t0 > 3); }
} // namespace
SCENARIO("accuracy", "8 problems x 5 start times x 6 step sizes (also backwards) x observer x Jacobian x 5 histories x 2 tolerances", 2) {
  const int k = ctx.choose(n_problems);
  const Problem p = problem(k);
  const double t0 = ctx.pick({0.0, -1.0, 0.5, 5.0, 1e3}), dt = ctx.pick({1e-8, 1e-3, 0.25, 1.0, -0.5, -1e-6});
  const bool observe = ctx.flip(), jac = ctx.flip();
  const int history = ctx.choose(5);
  const bool loose = ctx.flip();
  if (!usable(k, t0, dt) || (t0 == 1e3 && (k == 0 || k == 6))) { ctx.outcome("not well-posed"); return; }
  auto s = std::make_unique<RadauSolver>();
  if (loose) { s->relative_tolerance = 1e-6; s->absolute_tolerance = 1e-7; }
  std::unique_ptr<OdeSolver> used;
  const OdeSolver* solver = s.get();
  V tmp;
  switch (history) { // the solver may have been used for other problems, or be a copy
    case 1: tmp = problem(6).exact(0.0); run(*s, problem(6), tmp, 0.0, 0.5, true); break;
    case 2: tmp = problem(7).exact(0.0); run(*s, problem(7), tmp, 0.0, 0.01, false); tmp = problem(5).exact(1.0); run(*s, problem(5), tmp, 1.0, -0.75, false); break;
    case 3: used = s->Clone(); solver = used.get(); break;
    case 4: { Problem q = problem(0); q.f = [](span<double> d, span<const double>, double) { d[0] = std::nan(""); }; tmp = V{1.0}; try { run(*s, q, tmp, 0.0, 1.0, false); } catch (std::exception&) {} break; }
  }
  V y = p.exact(t0), times;
  std::vector<V> states;
  run(*solver, p, y, t0, dt, jac, observe ? &times : nullptr, observe ? &states : nullptr);
  const double tol = (loose ? 1e-4 : 1e-8) * (k == 0 && dt < 0 ? 10 : 1);
  ctx.check(error(y, p.exact(t0 + dt)) < tol, "solution-inaccurate", p.name, " from ", t0, " by ", dt, ": ", y[0], " expected ", p.exact(t0 + dt)[0], " history ", history);
  if (observe) {
    ctx.check(!times.empty() && times.front() == t0 && std::fabs(times.back() - (t0 + dt)) <= 1e-12 * std::max(1.0, std::fabs(t0)), "observer-misses-an-end", times.empty() ? 0 : times.back());
    for (std::size_t i = 0; i < times.size(); ++i) {
      if (i) ctx.check((times[i] - times[i - 1]) * dt > 0, "observer-goes-back");
      ctx.check(error(states[i], p.exact(times[i])) < tol, "observed-state-inaccurate", p.name, " at ", times[i]);
      ctx.check((times[i] - t0) * dt >= 0 && std::fabs(times[i] - t0) <= std::fabs(dt) * (1 + 1e-9) + 1e-12, "observed-outside");
    }
    ctx.check(states.back() == y, "last-observation-is-not-the-result");
  }
  // same call, fresh solver: same bits
  RadauSolver fresh;
  if (loose) { fresh.relative_tolerance = 1e-6; fresh.absolute_tolerance = 1e-7; }
  V z = p.exact(t0);
  run(fresh, p, z, t0, dt, jac);
  ctx.check(z == y, "result-depends-on-history", p.name, " history ", history, ": ", y[0], " instead of ", z[0]);
  ctx.transition(1 + times.size());
  ctx.validated();
  ctx.state(mc::Hash().add(k).add(t0).add(dt).add(jac).add(observe).add(history).add(loose));
}
SCENARIO("faulty-right-hand-side", "5 problems x 3 intervals x fault (NaN, huge, infinite) in evaluations a..a+len for every a < 60 (thorough: 600) and 5 lengths", 4) {
  const int k = ctx.pick({0, 2, 4, 5, 7});
  Problem p = problem(k);
  const double t0 = ctx.pick({0.0, 0.5}), dt = ctx.pick({1e-3, 1.0});
  const int kind = ctx.choose(3), first = ctx.choose(ctx.thorough() ? 600 : 60), len = ctx.pick({1, 3, 40, 400, 1 << 30});
  int calls = 0;
  const auto f = p.f;
  p.f = [&](span<double> d, span<const double> y, double t) {
    const int c = calls++;
    if (calls > 300000) throw std::runtime_error("endless");
    f(d, y, t);
    if (c >= first && c - first < len) d[0] = kind == 0 ? std::nan("") : kind == 1 ? 1e200 : std::numeric_limits<double>::infinity();
  };
  RadauSolver s;
  V y = p.exact(t0);
  bool failed = false;
  try {
    run(s, p, y, t0, dt, ctx.flip());
  } catch (radau_error::Exception& e) { failed = true; }
  if (failed) ctx.outcome("reported");
  else if (kind == 0) {
    ctx.check(calls <= first || len < (1 << 30), "permanent-fault-not-reported", p.name);
    ctx.check(error(y, p.exact(t0 + dt)) < 1e-6, "wrong-result-not-reported", p.name, " fault at ", first, "+", len, ": ", y[0], " expected ", p.exact(t0 + dt)[0]);
    ctx.outcome(calls > first ? "survived" : "not reached");
  } else ctx.outcome("finite fault absorbed");
  ctx.transition(calls);
  ctx.validated();
  ctx.state(mc::Hash().add(k).add(t0).add(dt).add(kind).add(first).add(len));
}
