// Exact Riemann solvers against independent reference solutions.
#include "mc.hpp"
#include "fub/core/type_traits.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/perfect_gas/ExactRiemannSolver.hpp"
#include "fub/equations/ShallowWater.hpp"
#include "fub/equations/Burgers.hpp"
#include "fub/equations/Advection.hpp"
#include "riemann_ref.hpp"
using namespace fub;
namespace {
bool near(double a, double b, double tol, double scale) { return std::fabs(a - b) <= tol * scale; }
template <int D> PerfectGas<D> gas(double gamma) {
  PerfectGas<D> eq{};
  eq.gamma = gamma;
  eq.gamma_minus_1_inv = 1.0 / (gamma - 1.0);
  eq.gamma_array_ = Array1d::Constant(gamma);
  eq.gamma_minus_1_inv_array_ = Array1d::Constant(1.0 / (gamma - 1.0));
  return eq;
}
template <int D> Complete<PerfectGas<D>> state(double gamma, const ref::W& w, const double* v, int dir) {
  Complete<PerfectGas<D>> q;
  q.density = double(w.rho);
  double k = 0;
  for (int d = 0; d < D; ++d) {
    const double x = d == dir ? double(w.u) : v[d];
    q.momentum[d] = q.density * x;
    k += x * x;
  }
  q.pressure = double(w.p);
  q.energy = q.pressure / (gamma - 1) + 0.5 * q.density * k;
  q.speed_of_sound = std::sqrt(gamma * q.pressure / q.density);
  return q;
}
template <int D> std::string show(const Complete<PerfectGas<D>>& q) {
  std::string s = mc::cat("rho=", q.density, " p=", q.pressure, " E=", q.energy, " a=", q.speed_of_sound, " m=");
  for (int d = 0; d < D; ++d) s += mc::cat(q.momentum[d], " ");
  return s;
}
// is the state a complete and correct representation of the sampled one?
template <int D> bool equals(const Complete<PerfectGas<D>>& q, const ref::Sample& s, const double* vl, const double* vr, int dir, double gamma, double vscale, double tol) {
  const double* v = s.left ? vl : vr;
  const Complete<PerfectGas<D>> e = state<D>(gamma, s.w, v, dir);
  bool ok = near(q.density, e.density, tol, e.density) && near(q.pressure, e.pressure, tol, e.pressure);
  for (int d = 0; d < D; ++d) ok = ok && near(q.momentum[d], e.momentum[d], tol, e.density * vscale);
  return ok && near(q.energy, e.energy, tol, e.density * vscale * vscale + e.energy) && near(q.speed_of_sound, e.speed_of_sound, tol, e.speed_of_sound);
}
template <typename T> void set_lane(CompleteArray<T>& a, const Complete<T>& q, int i) {
  ForEachComponent([i](auto&& x, double y) { x[i] = y; }, a, q);
}
template <typename T> Complete<T> get_lane(const CompleteArray<T>& a, int i) {
  Complete<T> q;
  Load(q, a, i);
  return q;
}
const double rhos[] = {0.125, 1.0, 5.99924}, ps[] = {0.1, 1.0, 460.894, 1000.0}, us[] = {-19.5975, -2.0, -0.5, 0.0, 0.75, 3.0, 19.5975};
template <int D> void euler_case(mc::Ctx& ctx) {
  const double gammas[] = {1.4, 5.0 / 3.0, 1.1};
  const double gamma = gammas[ctx.choose(ctx.thorough() ? 3 : 4 - D)];
  const int dir = ctx.choose(D);
  ref::W l, r;
  const double unit = ctx.thorough() || D == 1 ? ctx.pick({1.0, 1e5}) : D == 2 ? 1.0 : 1e5; // pressures of order one and in Pascal
  l.rho = rhos[ctx.choose(3)]; l.p = ps[ctx.choose(4)] * unit; l.u = us[ctx.choose(7)] * std::sqrt(unit);
  r.rho = rhos[ctx.choose(3)]; r.p = ps[ctx.choose(4)] * unit; r.u = us[ctx.choose(7)] * std::sqrt(unit);
  if (ref::vacuum(l, r, gamma, 0.95)) { ctx.outcome("vacuum (outside of the solver's domain)"); return; }
  const double vl[] = {0.5 * std::sqrt(unit), -1.5 * std::sqrt(unit), 2.5 * std::sqrt(unit)}, vr[] = {-0.25 * std::sqrt(unit), 0.75 * std::sqrt(unit), -3.5 * std::sqrt(unit)};
  PerfectGas<D> eq = gas<D>(gamma);
  ExactRiemannSolver<PerfectGas<D>> rp(eq);
  const auto qL = state<D>(gamma, l, vl, dir), qR = state<D>(gamma, r, vr, dir);
  const Direction d = static_cast<Direction>(dir);
  const double vs = std::sqrt(unit) * 4 + double(std::fabs(l.u) + std::fabs(r.u) + ref::sound(l, gamma) + ref::sound(r, gamma));
  const double tol = 2e-5;
  const auto [pm, um] = ref::star(l, r, gamma);
  const auto m = rp.ComputeMiddleState(qL, qR, d);
  ctx.check(near(m[0], double(pm), tol, double(pm)), "middle-pressure-wrong", m[0], " expected ", double(pm), " for ", show<D>(qL), " | ", show<D>(qR));
  ctx.check(near(m[1], double(um), tol, vs), "middle-velocity-wrong", m[1], " expected ", double(um), " for ", show<D>(qL), " | ", show<D>(qR));
  const auto [sl, sr] = ref::signals(l, r, gamma);
  const auto s = rp.ComputeSignals(qL, qR, d);
  ctx.check(near(s[0], double(sl), tol, vs) && near(s[1], double(sr), tol, vs), "fastest-signals-wrong", s[0], ",", s[1], " expected ", double(sl), ",", double(sr));
  auto judge = [&](const Complete<PerfectGas<D>>& q, double xi, const char* what) {
    bool ok = false;
    const double eps = 2e-5 * vs;
    const ref::Sample c = ref::sample(l, r, gamma, xi);
    ok = equals<D>(q, c, vl, vr, dir, gamma, vs, 10 * tol);
    if (!ok && c.jump < eps) // within the accuracy of a discontinuity both sides are right
      for (double e : {-2 * eps, 2 * eps}) ok = ok || equals<D>(q, ref::sample(l, r, gamma, xi + e), vl, vr, dir, gamma, vs, 1e-3);
    ctx.check(ok, "solution-wrong", what, " at x/t=", xi, " ", show<D>(q), " expected ", show<D>(state<D>(gamma, c.w, c.left ? vl : vr, dir)), " for ", show<D>(qL), " | ", show<D>(qR), " gamma ", gamma);
    ctx.validated();
  };
  Complete<PerfectGas<D>> q(eq);
  rp.SolveRiemannProblem(q, qL, qR, d);
  judge(q, 0.0, "scalar");
  // the solution on other rays (relative to each wave)
  for (double xi : {double(sl) * 0.5 + double(um) * 0.5, double(sl) - 1 * std::sqrt(unit), double(sr) + 1 * std::sqrt(unit), double(sr) * 0.5 + double(um) * 0.5, double(um) + 0.01 * std::sqrt(unit), double(um) - 0.01 * std::sqrt(unit)}) {
    Complete<PerfectGas<D>> x(eq);
    rp.SolveRiemannProblem(x, qL, qR, double(pm), double(um), Duration(0.5), 0.5 * xi, d);
    judge(x, xi, "ray");
  }
  // vectorised: this problem in every lane among other problems, empty lanes stay empty
  const int lane = int((l.rho > 1) + 2 * (r.rho > 1) + 4 * (l.u > 0)) % kDefaultChunkSize;
  CompleteArray<PerfectGas<D>> L(eq), R(eq), X(eq), Y(eq);
  const ref::W o1{1, 0, unit}, o2{0.125, 0, 0.1 * unit};
  for (int i = 0; i < kDefaultChunkSize; ++i) {
    if (i == lane) { set_lane(L, qL, i); set_lane(R, qR, i); }
    else if (i % 3 == 0) { set_lane(L, state<D>(gamma, o1, vl, dir), i); set_lane(R, state<D>(gamma, o2, vr, dir), i); }
    else if (i % 3 == 1) { set_lane(L, qR, i); set_lane(R, qR, i); }
    else { set_lane(L, Complete<PerfectGas<D>>(eq), i); set_lane(R, Complete<PerfectGas<D>>(eq), i); } // empty
  }
  rp.SolveRiemannProblem(X, L, R, d);
  MaskArray mask;
  for (int i = 0; i < kDefaultChunkSize; ++i) mask[i] = i == lane || i % 2 == 0;
  rp.SolveRiemannProblem(Y, L, R, mask, d);
  for (int i = 0; i < kDefaultChunkSize; ++i) {
    const auto a = get_lane(L, i), b = get_lane(R, i);
    Complete<PerfectGas<D>> e(eq), zero(eq);
    if (a.density > 0) rp.SolveRiemannProblem(e, a, b, d);
    const auto x = get_lane(X, i), y = get_lane(Y, i);
    auto same = [&](const auto& p, const auto& q) { bool ok = true; ForEachComponent([&](double s, double t) { ok = ok && near(s, t, 1e-12, std::fabs(t)); }, p, q); return ok; };
    ctx.check(same(x, e), "vectorised-differs", "lane ", i, " ", show<D>(x), " expected ", show<D>(e));
    ctx.check(same(y, mask[i] ? e : zero), "masked-differs", "lane ", i, " mask ", int(mask[i]), " ", show<D>(y), " expected ", show<D>(mask[i] ? e : zero));
  }
  CompleteArray<PerfectGas<D>> L2(eq), R2(eq);
  for (int i = 0; i < kDefaultChunkSize; ++i) if (i != lane && i % 3 != 2) { set_lane(L2, get_lane(L, i), i); set_lane(R2, get_lane(R, i), i); } else { set_lane(L2, qL, i); set_lane(R2, qR, i); }
  const auto S = rp.ComputeSignals(L2, R2, d);
  for (int i = 0; i < kDefaultChunkSize; ++i) {
    const auto e = rp.ComputeSignals(get_lane(L2, i), get_lane(R2, i), d);
    ctx.check(near(S[0][i], e[0], 1e-12, vs) && near(S[1][i], e[1], 1e-12, vs), "vectorised-signals-differ", "lane ", i);
  }
  ctx.transition(9);
  ctx.state(mc::Hash().add(double(l.rho)).add(double(l.p)).add(double(l.u)).add(double(r.rho)).add(double(r.p)).add(double(r.u)).add(gamma).add(dir).add(D));
  ctx.outcome(mc::cat(pm > l.p ? "left shock" : "left rarefaction", ", ", pm > r.p ? "right shock" : "right rarefaction"));
}
} // namespace
SCENARIO("euler-1d", "3 gammas x 2 units x (3 densities x 4 pressures x 7 velocities)^2, 7 rays each, vectorised and masked", 8) { euler_case<1>(ctx); }
SCENARIO("euler-2d", "as 1d with transversal velocities in 2 directions (quick: 2 gammas, 1 unit)", 8) { euler_case<2>(ctx); }
SCENARIO("euler-3d", "as 1d with transversal velocities in 3 directions (quick: 1 gamma, 1 unit)", 8) { euler_case<3>(ctx); }

SCENARIO("shallow-water", "gravity 10 and 9.81 x 2 directions x (4 heights x 7 velocities x 2 transversal velocities)^2; vectorised with empty lanes", 4) {
  ShallowWater eq;
  eq.gravity_ = ctx.pick({10.0, 9.81});
  const int dir = ctx.choose(2);
  const double hs[] = {0.01, 0.5, 1.0, 3.0}, us[] = {-12, -2.5, -0.5, 0, 0.75, 4, 12}, vs[] = {-1.5, 0.5};
  ref::H l, r;
  l.h = hs[ctx.choose(4)]; l.u = us[ctx.choose(7)]; const double vl = vs[ctx.choose(2)];
  r.h = hs[ctx.choose(4)]; r.u = us[ctx.choose(7)]; const double vr = vs[ctx.choose(2)];
  const double g = eq.gravity_;
  if (ref::sw_dry(l, r, g, 0.95)) { ctx.outcome("dry bed (outside of the solver's domain)"); return; }
  auto make = [&](const ref::H& w, double v) {
    Complete<ShallowWater> q;
    q.height = double(w.h);
    q.momentum[dir] = q.height * double(w.u);
    q.momentum[1 - dir] = q.height * v;
    return q;
  };
  const auto qL = make(l, vl), qR = make(r, vr);
  const Direction d = static_cast<Direction>(dir);
  ExactRiemannSolver<ShallowWater> rp(eq);
  const double V = 2 + double(std::fabs(l.u) + std::fabs(r.u)) + std::sqrt(g * double(l.h + r.h));
  const double tol = 2e-5;
  const auto [hm, um] = ref::sw_star(l, r, g);
  const auto m = rp.ComputeMiddleState(qL, qR, d);
  ctx.check(near(m.height, double(hm), tol, double(hm)) && near(m.momentum[dir], double(hm * um), tol, double(hm) * V), "middle-state-wrong", m.height, ",", m.momentum[dir], " expected ", double(hm), ",", double(hm * um));
  const auto [sl, sr] = ref::sw_signals(l, r, g);
  const auto s = rp.ComputeSignals(qL, qR, d);
  // a vanishing jump has no shock speed but a characteristic one
  const double stol = std::min(std::fabs(double(hm - l.h) / double(l.h)), std::fabs(double(hm - r.h) / double(r.h))) < 1e-3 ? 1e-2 : 1e-4;
  ctx.check(near(s[0], double(sl), stol, V) && near(s[1], double(sr), stol, V), "fastest-signals-wrong", s[0], ",", s[1], " expected ", double(sl), ",", double(sr), " for h=", qL.height, " u=", double(l.u), " | h=", qR.height, " u=", double(r.u));
  Complete<ShallowWater> q;
  rp.SolveRiemannProblem(q, qL, qR, d);
  const auto c = ref::sw_sample(l, r, g);
  auto eqs = [&](const Complete<ShallowWater>& q, const ref::H& w, double v, double t) {
    return near(q.height, double(w.h), t, double(w.h)) && near(q.momentum[dir], double(w.h * w.u), t, double(w.h) * V) && near(q.momentum[1 - dir], double(w.h) * v, t, double(w.h) * V);
  };
  bool ok = eqs(q, c.w, c.left ? vl : vr, 1e-4);
  if (!ok && c.jump < 1e-4 * V) for (double e : {-2e-4 * V, 2e-4 * V}) {
    const auto n = ref::sw_sample({l.h, l.u + e}, {r.h, r.u + e}, g);
    ok = ok || eqs(q, n.w, n.left ? vl : vr, 2e-3);
  }
  ctx.check(ok, "solution-wrong", "h=", q.height, " m=", q.momentum[0], ",", q.momentum[1], " expected h=", double(c.w.h), " u=", double(c.w.u), " for h=", qL.height, " u=", double(l.u), " | h=", qR.height, " u=", double(r.u));
  CompleteArray<ShallowWater> L(eq), R(eq), X(eq);
  const int lane = int(l.h > 0.7) + 2 * int(r.h > 0.7) + 4 * int(l.u > 0);
  for (int i = 0; i < kDefaultChunkSize; ++i) {
    if (i == lane) { set_lane(L, qL, i); set_lane(R, qR, i); }
    else if (i % 3 == 0) { set_lane(L, make({1, 0}, 0.5), i); set_lane(R, make({0.5, 0}, -0.5), i); }
    else if (i % 3 == 1) { set_lane(L, qR, i); set_lane(R, qR, i); }
    else { set_lane(L, Complete<ShallowWater>(eq), i); set_lane(R, Complete<ShallowWater>(eq), i); }
  }
  rp.SolveRiemannProblem(X, L, R, d);
  const auto S = rp.ComputeSignals(L, R, d);
  for (int i = 0; i < kDefaultChunkSize; ++i) {
    const auto a = get_lane(L, i), b = get_lane(R, i), x = get_lane(X, i);
    if (!(a.height > 0)) continue; // unused lane
    Complete<ShallowWater> e;
    rp.SolveRiemannProblem(e, a, b, d);
    const auto se = rp.ComputeSignals(a, b, d);
    ctx.check(near(x.height, e.height, 1e-12, 1) && near(x.momentum[0], e.momentum[0], 1e-12, V * 3) && near(x.momentum[1], e.momentum[1], 1e-12, V * 3), "vectorised-differs", "lane ", i);
    ctx.check(near(S[0][i], se[0], 1e-12, V) && near(S[1][i], se[1], 1e-12, V), "vectorised-signals-differ", "lane ", i);
  }
  ctx.transition(5);
  ctx.validated();
  ctx.state(mc::Hash().add(double(l.h)).add(double(l.u)).add(vl).add(double(r.h)).add(double(r.u)).add(vr).add(g).add(dir));
  ctx.outcome(mc::cat(hm > l.h ? "left shock" : "left rarefaction", ", ", hm > r.h ? "right shock" : "right rarefaction"));
}
SCENARIO("burgers", "all pairs of 9 values in every lane of the vectorised solver", 1) {
  const double us[] = {-3, -1, -0.5, -0.0, 0.0, 0.25, 1, 2, 3};
  const double a = us[ctx.choose(9)], b = us[ctx.choose(9)];
  ExactRiemannSolver<Burgers1d> rp(Burgers1d{});
  Complete<Burgers1d> L, R, q;
  L.u = a; R.u = b;
  rp.SolveRiemannProblem(q, L, R, Direction::X);
  // Godunov flux by its variational definition
  auto f = [](double u) { return 0.5 * u * u; };
  double e = a <= b ? std::min(f(a), f(b)) : std::max(f(a), f(b));
  if (a <= 0 && b >= 0) e = 0;
  ctx.check(near(f(q.u), e, 1e-14, 10), "flux-not-godunov", "u=", q.u, " for ", a, " | ", b);
  ctx.check(q.u >= std::min(a, b) && q.u <= std::max(a, b), "solution-outside-of-data", q.u);
  const double s = rp.ComputeSignals(L, R, Direction::X)[0];
  ctx.check(std::fabs(s) == (a > b ? std::fabs(0.5 * (a + b)) : std::max(std::fabs(a), std::fabs(b))), "fastest-signals-wrong", s);
  CompleteArray<Burgers1d> LL, RR, QQ;
  const int lane = ctx.choose(kDefaultChunkSize);
  for (int i = 0; i < kDefaultChunkSize; ++i) { LL.u[i] = i == lane ? a : us[(i * 5) % 9]; RR.u[i] = i == lane ? b : us[(i * 7 + 3) % 9]; }
  rp.SolveRiemannProblem(QQ, LL, RR, Direction::X);
  const auto S = rp.ComputeSignals(LL, RR, Direction::X);
  for (int i = 0; i < kDefaultChunkSize; ++i) {
    Complete<Burgers1d> x, y, z;
    x.u = LL.u[i]; y.u = RR.u[i];
    rp.SolveRiemannProblem(z, x, y, Direction::X);
    ctx.check(f(QQ.u[i]) == f(z.u), "vectorised-differs", "lane ", i, " ", QQ.u[i], " expected ", z.u);
    ctx.check(S[0][i] == rp.ComputeSignals(x, y, Direction::X)[0], "vectorised-signals-differ", "lane ", i);
  }
  ctx.transition(); ctx.validated();
  ctx.state(mc::Hash().add(a).add(b).add(lane));
}
SCENARIO("advection", "5x5 velocities x 2 directions x 3x3 states", 1) {
  const std::array<double, 2> v{ctx.pick({-2.0, -0.25, 0.0, 0.5, 3.0}), ctx.pick({-2.0, -0.25, 0.0, 0.5, 3.0})};
  const int dir = ctx.choose(2);
  const double a = ctx.pick({-1.0, 0.0, 2.0}), b = ctx.pick({-1.0, 0.5, 3.0});
  Advection2d eq(v);
  ExactRiemannSolver<Advection2d> rp(eq);
  Complete<Advection2d> L, R, q;
  L.mass = a; R.mass = b;
  const Direction d = static_cast<Direction>(dir);
  rp.SolveRiemannProblem(q, L, R, d);
  ctx.check(v[dir] * q.mass == (v[dir] > 0 ? v[dir] * a : v[dir] * b), "flux-not-upwind", q.mass);
  ctx.check(rp.ComputeSignals(L, R, d)[0] == v[dir], "fastest-signals-wrong");
  CompleteArray<Advection2d> LL, RR, QQ;
  for (int i = 0; i < kDefaultChunkSize; ++i) { LL.mass[i] = a + i; RR.mass[i] = b - i; }
  rp.SolveRiemannProblem(QQ, LL, RR, d);
  for (int i = 0; i < kDefaultChunkSize; ++i) {
    ctx.check(v[dir] * QQ.mass[i] == (v[dir] > 0 ? v[dir] * (a + i) : v[dir] * (b - i)), "vectorised-differs", "lane ", i);
    ctx.check(rp.ComputeSignals(LL, RR, d)[0][i] == v[dir], "vectorised-signals-differ", "lane ", i);
  }
  ctx.transition(); ctx.validated();
  ctx.state(mc::Hash().add(v[0]).add(v[1]).add(dir).add(a).add(b));
}
