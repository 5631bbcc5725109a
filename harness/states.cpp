// State functions of the perfect gas, perfect gas mixture and shallow water equations: conversions, fluxes, symmetries.
#include "mc.hpp"
#include "fub/core/type_traits.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/PerfectGasMix.hpp"
#include "fub/equations/ShallowWater.hpp"
#include "fub/equations/Burgers.hpp"
#include "fub/equations/Advection.hpp"
using namespace fub;
namespace {
constexpr int W = kDefaultChunkSize;
using V = std::vector<double>;
template <typename S> V flat(const S& s) {
  V v;
  ForEachComponent([&](double x) { v.push_back(x); }, s);
  return v;
}
template <typename S> V lane(const S& s, int i) {
  V v;
  ForEachComponent([&](auto&& x) { v.push_back(x[i]); }, s);
  return v;
}
template <typename A, typename S> void set_lane(A& a, const S& s, int i) {
  V v = flat(s);
  std::size_t k = 0;
  ForEachComponent([&](auto&& x) { x[i] = v[k++]; }, a);
}
template <typename A> void fill(A& a, double value) { ForEachComponent([&](auto&& x) { for (int i = 0; i < W; ++i) x[i] = value; }, a); }
std::string show(const V& v) { std::string s; for (double x : v) s += mc::cat(x, " "); return s; }
bool same(const V& a, const V& b, double scale, double tol = 1e-13) {
  if (a.size() != b.size()) return false;
  for (std::size_t i = 0; i < a.size(); ++i)
    if (!(std::fabs(a[i] - b[i]) <= tol * std::max(scale, std::fabs(b[i])))) return false;
  return true;
}
template <typename T> struct is_mix : std::false_type {};
template <int D> struct is_mix<PerfectGasMix<D>> : std::true_type {};

template <int D> PerfectGas<D> equation(mc::Ctx& ctx, PerfectGas<D>*) {
  PerfectGas<D> eq{};
  eq.gamma = ctx.pick({1.4, 5.0 / 3.0});
  eq.gamma_minus_1_inv = 1.0 / (eq.gamma - 1.0);
  eq.gamma_array_ = Array1d::Constant(eq.gamma);
  eq.gamma_minus_1_inv_array_ = Array1d::Constant(eq.gamma_minus_1_inv);
  return eq;
}
template <int D> PerfectGasMix<D> equation(mc::Ctx& ctx, PerfectGasMix<D>*) {
  const int ns = ctx.choose(3), np = ctx.thorough() ? ctx.choose(3) : (ns + 1) % 3;
  PerfectGasMix<D> eq(PerfectGasConstants{287.0, ctx.pick({1.28, 1.4})}, ns, np);
  eq.Msq = ctx.pick({1.0, 0.25}); // square of the reference Mach number
  eq.Msqinv = 1.0 / eq.Msq;
  return eq;
}
// an admissible state
template <typename Eq> struct Raw { double rho, p; double u[3]; double Y[2], c[2]; };
template <typename Eq> Raw<Eq> raw(int r, int p, int u, int v, int s) {
  const double rhos[] = {1.0, 0.125, 5.99924, 1e-3}, ps[] = {1.0, 0.1, 460.0}, us[] = {0.0, 0.75, -2.0, 19.5};
  Raw<Eq> w{rhos[r], ps[p], {us[u], us[(u + v) % 4], us[(u + 2 * v + 1) % 4]}, {0.25, 0.5}, {-0.5, 3.0}};
  if (s == 1) { w.Y[0] = 0.0; w.Y[1] = 1.0; w.c[0] = 0.0; }
  return w;
}
template <typename Eq> double gamma_of(const Eq& eq) { return eq.gamma; }
template <typename Eq> double msq(const Eq& eq) { if constexpr (is_mix<Eq>::value) return eq.Msq; else return 1.0; }
template <typename Eq> Complete<Eq> make(const Eq& eq, const Raw<Eq>& w) {
  Complete<Eq> q(eq);
  double k = 0;
  for (int d = 0; d < Eq::Rank(); ++d) { q.momentum[d] = w.rho * w.u[d]; k += w.u[d] * w.u[d]; }
  q.density = w.rho;
  q.pressure = w.p;
  q.energy = w.p / (eq.gamma - 1) + 0.5 * msq(eq) * w.rho * k;
  q.speed_of_sound = std::sqrt(eq.gamma * w.p / w.rho);
  if constexpr (is_mix<Eq>::value) {
    for (int i = 0; i < eq.n_species; ++i) q.species[i] = w.rho * w.Y[i];
    for (int i = 0; i < eq.n_passive_scalars; ++i) q.passive_scalars[i] = w.rho * w.c[i];
  }
  return q;
}
template <typename Eq> V flux_of(const Eq& eq, const Raw<Eq>& w, int dir) {
  const Complete<Eq> q = make(eq, w);
  V f{q.momentum[dir]};
  for (int d = 0; d < Eq::Rank(); ++d) f.push_back(w.rho * w.u[dir] * w.u[d] + (d == dir ? w.p / msq(eq) : 0.0));
  f.push_back(w.u[dir] * (q.energy + w.p));
  if constexpr (is_mix<Eq>::value) {
    for (int i = 0; i < eq.n_species; ++i) f.push_back(w.u[dir] * w.rho * w.Y[i]);
    for (int i = 0; i < eq.n_passive_scalars; ++i) f.push_back(w.u[dir] * w.rho * w.c[i]);
  }
  return f;
}
template <typename Eq> double scale_of(const Eq& eq, const Raw<Eq>& w) {
  double k = 1;
  for (int d = 0; d < Eq::Rank(); ++d) k += w.u[d] * w.u[d];
  return (w.rho * k + w.p * 4 / msq(eq)) * (1 + std::sqrt(k));
}
template <typename Eq> Conservative<Eq> cons_of(const Eq& eq, const Complete<Eq>& q) {
  Conservative<Eq> c(eq);
  ForEachVariable([](auto& x, const auto& y) { x = y; }, c, AsCons(q));
  return c;
}
template <typename Eq> void gas(mc::Ctx& ctx) {
  constexpr int D = Eq::Rank();
  Eq eq = equation(ctx, static_cast<Eq*>(nullptr));
  const Raw<Eq> w = raw<Eq>(ctx.choose(4), ctx.choose(3), ctx.choose(4), D == 1 ? 0 : ctx.choose(4), is_mix<Eq>::value ? ctx.choose(2) : 0);
  const int dir = ctx.choose(D);
  const Direction d = static_cast<Direction>(dir);
  const Complete<Eq> q = make(eq, w);
  const V ref = flat(q);
  const double sc = scale_of(eq, w);
  // --- flux
  Conservative<Eq> f(eq);
  eq.Flux(f, q, d);
  ctx.check(same(flat(f), flux_of(eq, w, dir), sc), "flux-wrong", show(flat(f)), " expected ", show(flux_of(eq, w, dir)));
  // --- conversions
  Complete<Eq> c(eq);
  CompleteFromCons(eq, c, cons_of(eq, q));
  ctx.check(same(flat(c), ref, sc, 1e-11), "complete-from-conservative", show(flat(c)), " expected ", show(ref));
  Complete<Eq> self = q;
  self.pressure = -1; self.speed_of_sound = -1;
  CompleteFromCons(eq, self, self);
  ctx.check(same(flat(self), ref, sc, 1e-11), "complete-from-itself", show(flat(self)), " expected ", show(ref));
  Primitive<Eq> prim(eq);
  PrimFromComplete(eq, prim, q);
  V pr{w.rho};
  for (int i = 0; i < D; ++i) pr.push_back(w.u[i]);
  pr.push_back(w.p);
  if constexpr (is_mix<Eq>::value) {
    for (int i = 0; i < eq.n_species; ++i) pr.push_back(w.Y[i]);
    for (int i = 0; i < eq.n_passive_scalars; ++i) pr.push_back(w.c[i]);
  }
  ctx.check(same(flat(prim), pr, 1e-300), "primitive-from-complete", show(flat(prim)), " expected ", show(pr));
  Complete<Eq> back(eq);
  CompleteFromPrim(eq, back, prim);
  ctx.check(same(flat(back), ref, 1e-6), "complete-from-primitive", show(flat(back)), " expected ", show(ref));
  // --- derived quantities
  const double R = is_mix<Eq>::value ? 1.0 : 287.058;
  double k = 0;
  for (int i = 0; i < D; ++i) k += w.u[i] * w.u[i];
  ctx.close(eq.Temperature(q), w.p / w.rho / R, 1e-13, "temperature-wrong");
  ctx.check(std::fabs(eq.Machnumber(q) - std::sqrt(k) / q.speed_of_sound) <= 1e-13 * (1 + std::sqrt(k)), "mach-number-wrong", eq.Machnumber(q));
  for (int i = 0; i < D; ++i) {
    ctx.check(same({eq.Velocity(q)[i], euler::Velocity(eq, q)[i], euler::Velocity(eq, q, i)}, {w.u[i], w.u[i], w.u[i]}, 1e-300), "velocity-wrong");
    ctx.check(euler::Momentum(eq, q)[i] == q.momentum[i] && euler::Momentum(eq, q, i) == q.momentum[i], "momentum-accessor-wrong");
  }
  ctx.check(euler::Density(eq, q) == w.rho && euler::Energy(eq, q) == q.energy && euler::Pressure(eq, q) == w.p && euler::SpeedOfSound(eq, q) == q.speed_of_sound && euler::Gamma(eq, q) == eq.gamma, "accessor-wrong");
  // --- vectorised: lanes with different states
  CompleteArray<Eq> A(eq), CA(eq), PA(eq);
  ConservativeArray<Eq> U(eq), FA(eq);
  PrimitiveArray<Eq> PR(eq);
  std::vector<Raw<Eq>> ws;
  const int at = (int(w.rho * 8) + dir) % W;
  for (int i = 0; i < W; ++i) {
    ws.push_back(i == at ? w : raw<Eq>(i % 4, i % 3, (i + 1) % 4, i % 3, i % 2));
    set_lane(A, make(eq, ws[i]), i);
    set_lane(U, cons_of(eq, make(eq, ws[i])), i);
  }
  eq.Flux(FA, A, d);
  CompleteFromCons(eq, CA, U);
  PrimFromComplete(eq, PR, A);
  CompleteFromPrim(eq, PA, PR);
  const Array1d T = eq.Temperature(A);
  const auto vel = eq.Velocity(A);
  const auto vel2 = euler::Velocity(eq, A);
  for (int i = 0; i < W; ++i) {
    const double s = scale_of(eq, ws[i]);
    const Complete<Eq> qi = make(eq, ws[i]);
    ctx.check(same(lane(FA, i), flux_of(eq, ws[i], dir), s), "vectorised-flux-wrong", "lane ", i);
    ctx.check(same(lane(CA, i), flat(qi), s, 1e-11), "vectorised-complete-from-conservative", "lane ", i, " ", show(lane(CA, i)), " expected ", show(flat(qi)));
    ctx.check(same(lane(PA, i), flat(qi), 1e-6), "vectorised-complete-from-primitive", "lane ", i, " ", show(lane(PA, i)), " expected ", show(flat(qi)));
    Primitive<Eq> pi(eq);
    PrimFromComplete(eq, pi, qi);
    ctx.check(same(lane(PR, i), flat(pi), 1e-300), "vectorised-primitive-from-complete", "lane ", i);
    ctx.close(T[i], eq.Temperature(qi), 1e-13, "vectorised-temperature-wrong");
    for (int j = 0; j < D; ++j) ctx.check(same({vel(j, i), vel2(j, i), euler::Momentum(eq, A, j)[i], euler::Velocity(eq, A, j)[i]}, {ws[i].u[j], ws[i].u[j], qi.momentum[j], ws[i].u[j]}, 1e-300), "vectorised-velocity-wrong", "lane ", i);
  }
  // --- masked: lanes with invalid contents must neither matter nor change the others
  for (int m : {0, 1 << at, 0xff, 0xff & ~(1 << at), 0x55, 0xaa, 0x0f}) {
    MaskArray mask;
    CompleteArray<Eq> B = A, CB(eq);
    ConservativeArray<Eq> UB = U, FB(eq);
    for (int i = 0; i < W; ++i) {
      mask[i] = (m >> i) & 1;
      if (!mask[i]) { set_lane(B, Complete<Eq>(eq), i); set_lane(UB, cons_of(eq, Complete<Eq>(eq)), i); }
    }
    fill(CB, 7.0);
    fill(FB, 7.0);
    eq.Flux(FB, B, mask, d);
    CompleteFromCons(eq, CB, UB, mask);
    Complete<Eq> zero(eq);
    for (int i = 0; i < W; ++i) {
      const V e = mask[i] ? flat(make(eq, ws[i])) : flat(zero);
      ctx.check(same(lane(CB, i), e, mask[i] ? scale_of(eq, ws[i]) : 1e-300, 1e-11), "masked-complete-from-conservative", "mask ", m, " lane ", i, " ", show(lane(CB, i)), " expected ", show(e));
      const V fe = mask[i] ? flux_of(eq, ws[i], dir) : flat(Conservative<Eq>(eq));
      ctx.check(same(lane(FB, i), fe, mask[i] ? scale_of(eq, ws[i]) : 1e-300), "masked-flux-wrong", "mask ", m, " lane ", i, " ", show(lane(FB, i)), " expected ", show(fe));
    }
    // a lane without mass counts as not in use, whatever the mask says
    CompleteFromCons(eq, CB, UB, MaskArray::Constant(true));
    for (int i = 0; i < W; ++i) if (!mask[i]) ctx.check(same(lane(CB, i), flat(zero), 1e-300), "lane-without-mass-not-empty", "lane ", i);
  }
  ctx.transition(10);
  ctx.validated();
  mc::Hash h;
  for (double x : ref) h.add(x);
  ctx.state(h.add(dir).add(gamma_of(eq)).add(msq(eq)));
}
// --- rotations and reflections
template <int D> Eigen::Matrix<double, D, 1> unit(mc::Ctx& ctx) {
  Eigen::Matrix<double, D, 1> n;
  while (true) {
    double s = 0;
    for (int d = 0; d < D; ++d) { const double xs[] = {0.0, 1.0, -1.0, 0.75, 1e-9, -2.5}; n[d] = xs[ctx.choose(D == 1 ? 3 : D == 2 || ctx.thorough() ? 6 : 5)]; s += n[d] * n[d]; }
    if (s == 0) return n; // excluded by the caller
    return n / std::sqrt(s);
  }
}
template <typename Eq> void mirror(mc::Ctx& ctx) {
  constexpr int D = Eq::Rank();
  Eq eq{};
  if constexpr (is_mix<Eq>::value) eq = Eq(PerfectGasConstants{}, 2, 1);
  const Eigen::Matrix<double, D, 1> n = unit<D>(ctx);
  if (n.norm() == 0) { ctx.outcome("no direction"); return; }
  const Raw<Eq> w = raw<Eq>(ctx.choose(2), 0, ctx.choose(4), D == 3 && !ctx.thorough() ? 1 : ctx.choose(4), 0);
  const Complete<Eq> q = make(eq, w);
  Complete<Eq> r(eq), rr(eq), alias = q;
  Reflect(r, q, n, eq);
  Reflect(rr, r, n, eq);
  Reflect(alias, alias, n, eq);
  Complete<Eq> e = q;
  double mn = 0, sc = 40 * w.rho;
  for (int d = 0; d < D; ++d) mn += q.momentum[d] * n[d];
  for (int d = 0; d < D; ++d) e.momentum[d] = q.momentum[d] - 2 * mn * n[d];
  ctx.check(same(flat(r), flat(e), sc), "reflection-wrong", show(flat(r)), " expected ", show(flat(e)));
  ctx.check(same(flat(alias), flat(e), sc), "reflection-in-place-wrong", show(flat(alias)), " expected ", show(flat(e)));
  ctx.check(same(flat(rr), flat(q), sc), "reflection-no-involution", show(flat(rr)));
  Conservative<Eq> cr(eq), cq = cons_of(eq, q);
  Reflect(cr, cq, n, eq);
  ctx.check(same(flat(cr), flat(cons_of(eq, e)), sc), "conservative-reflection-wrong", show(flat(cr)));
  if constexpr (!is_mix<Eq>::value) {
    Primitive<Eq> p(eq), pr(eq), pe(eq);
    PrimFromComplete(eq, p, q);
    PrimFromComplete(eq, pe, e);
    Reflect(pr, p, n, eq);
    ctx.check(same(flat(pr), flat(pe), 40), "primitive-reflection-wrong", show(flat(pr)));
  }
  if constexpr (D > 1) {
    const Eigen::Matrix<double, D, 1> b = unit<D>(ctx);
    if (b.norm() == 0) { ctx.outcome("no direction"); return; }
    // coordinate axes, as the cut-cell code uses them, and general directions
    const Eigen::Matrix<double, D, D> Q = MakeRotation(n, b);
    ctx.check((Q * n - b).norm() < 1e-12, "rotation-misses-its-target", "from ", n[0], ",", n[1], " to ", b[0], ",", b[1]);
    ctx.check((Q * Q.transpose() - Eigen::Matrix<double, D, D>::Identity()).norm() < 1e-12, "rotation-not-orthogonal");
    ctx.check((Q * MakeRotation(b, n) - Eigen::Matrix<double, D, D>::Identity()).norm() < 1e-12, "rotation-back-is-not-the-inverse");
    Complete<Eq> o(eq), oa = q;
    Rotate(o, q, Q, eq);
    Rotate(oa, oa, Q, eq);
    Complete<Eq> x = q;
    for (int d = 0; d < D; ++d) { x.momentum[d] = 0; for (int k = 0; k < D; ++k) x.momentum[d] += Q(d, k) * q.momentum[k]; }
    ctx.check(same(flat(o), flat(x), sc), "rotated-state-wrong", show(flat(o)), " expected ", show(flat(x)));
    ctx.check(same(flat(oa), flat(x), sc), "rotation-in-place-wrong", show(flat(oa)));
    Conservative<Eq> co(eq);
    Rotate(co, cq, Q, eq);
    ctx.check(same(flat(co), flat(cons_of(eq, x)), sc), "rotated-conservative-state-wrong", show(flat(co)));
  }
  ctx.transition(4);
  ctx.validated();
  mc::Hash h;
  for (double v : flat(q)) h.add(v);
  for (int d = 0; d < D; ++d) h.add(n[d]);
  ctx.state(h);
}
// --- kinetic states and isentropic changes of the mixture
template <int D> void kinetic(mc::Ctx& ctx) {
  using Eq = PerfectGasMix<D>;
  Eq eq = equation(ctx, static_cast<Eq*>(nullptr));
  Raw<Eq> w = raw<Eq>(ctx.choose(4), ctx.choose(3), ctx.choose(4), D == 1 ? 0 : ctx.choose(4), ctx.choose(2));
  const Complete<Eq> q = make(eq, w);
  const double sc = scale_of(eq, w);
  KineticState<Eq> kin(eq);
  euler::KineticStateFromComplete(eq, kin, q);
  double sum = 0;
  ctx.check(kin.density == w.rho && std::fabs(kin.temperature - w.p / w.rho) <= 1e-13 * kin.temperature, "kinetic-state-wrong");
  for (int i = 0; i <= eq.n_species; ++i) sum += kin.mole_fractions[i];
  if (eq.n_species < 2 || w.Y[0] + w.Y[1] <= 1) ctx.close(sum, 1.0, 1e-13, "fractions-do-not-sum-to-one");
  Array<double, D, 1> u;
  for (int d = 0; d < D; ++d) u[d] = w.u[d];
  Complete<Eq> b(eq);
  euler::CompleteFromKineticState(eq, b, kin, u);
  ctx.check(same(flat(b), flat(q), sc, 1e-12), "kinetic-round-trip", show(flat(b)), " expected ", show(flat(q)));
  Complete<Eq> rest(eq), rest_ref = q;
  euler::CompleteFromKineticState(eq, rest, kin);
  for (int d = 0; d < D; ++d) rest_ref.momentum[d] = 0;
  rest_ref.energy = w.p / (eq.gamma - 1);
  ctx.check(same(flat(rest), flat(rest_ref), sc, 1e-12), "kinetic-state-at-rest", show(flat(rest)), " expected ", show(flat(rest_ref)));
  ctx.close(euler::Pressure(eq, kin), w.p, 1e-13, "pressure-of-kinetic-state");
  ctx.close(euler::InternalEnergy(eq, kin), w.p / w.rho / (eq.gamma - 1), 1e-13, "internal-energy-of-kinetic-state");
  ctx.check(std::fabs(euler::InternalEnergy(eq, q) - w.p / w.rho / (eq.gamma - 1)) <= 1e-12 * sc / w.rho, "internal-energy-of-complete-state");
  ctx.check(std::fabs(euler::Pressure(eq, cons_of(eq, q)) - w.p) <= 1e-12 * sc, "pressure-of-conservative-state", euler::Pressure(eq, cons_of(eq, q)), " expected ", w.p);
  ctx.close(euler::TotalEnthalpy(eq, q), (q.energy + q.pressure) / q.density, 1e-13, "total-enthalpy");
  // vectorised
  CompleteArray<Eq> A(eq), B(eq);
  KineticStateArray<Eq> K(eq);
  Array<double, D> U;
  std::vector<Raw<Eq>> ws;
  const int at = int(w.rho * 8) % W;
  for (int i = 0; i < W; ++i) {
    ws.push_back(i == at ? w : raw<Eq>(i % 4, i % 3, (i + 1) % 4, i % 3, i % 2));
    set_lane(A, make(eq, ws[i]), i);
    for (int d = 0; d < D; ++d) U(d, i) = ws[i].u[d];
  }
  euler::KineticStateFromComplete(eq, K, A);
  euler::CompleteFromKineticState(eq, B, K, U);
  for (int i = 0; i < W; ++i) {
    KineticState<Eq> ki(eq);
    euler::KineticStateFromComplete(eq, ki, make(eq, ws[i]));
    ctx.check(same(lane(K, i), flat(ki), 1e-300, 1e-12), "vectorised-kinetic-state-differs", "lane ", i, " ", show(lane(K, i)), " expected ", show(flat(ki)));
    ctx.check(same(lane(B, i), flat(make(eq, ws[i])), scale_of(eq, ws[i]), 1e-12), "vectorised-kinetic-round-trip", "lane ", i, " ", show(lane(B, i)), " expected ", show(flat(make(eq, ws[i]))));
  }
  // changing the velocity leaves density, pressure and composition alone
  Complete<Eq> s = q;
  Array<double, D, 1> nu;
  Raw<Eq> w2 = w;
  for (int d = 0; d < D; ++d) { nu[d] = 1.5 - d; w2.u[d] = nu[d]; }
  euler::SetVelocity(eq, s, nu);
  ctx.check(same(flat(s), flat(make(eq, w2)), sc, 1e-12), "set-velocity", show(flat(s)), " expected ", show(flat(make(eq, w2))));
  // isentropic change of the pressure: entropy, stagnation enthalpy and composition are conserved
  double k = 0;
  for (int d = 0; d < D; ++d) k += w.u[d] * w.u[d];
  const double T0 = w.p / w.rho + 0.5 * eq.Msq * k * (eq.gamma - 1) / eq.gamma;
  const double p0 = w.p * std::pow(T0 / (w.p / w.rho), eq.gamma / (eq.gamma - 1));
  for (double ratio : {1.0, 0.9, 0.5, 0.05}) {
    for (int alias = 0; alias < 2; ++alias) {
      const double pn = p0 * ratio;
      Complete<Eq> x = q;
      if (alias) euler::SetIsentropicPressure(eq, x, x, pn); else { x = Complete<Eq>(eq); euler::SetIsentropicPressure(eq, x, q, pn); }
      ctx.close(x.pressure, pn, 1e-14, "isentropic-pressure-not-attained");
      ctx.close(x.pressure * std::pow(x.density, -eq.gamma), q.pressure * std::pow(q.density, -eq.gamma), 1e-10, "entropy-changed");
      Complete<Eq> y(eq);
      CompleteFromCons(eq, y, cons_of(eq, x));
      ctx.check(same(flat(y), flat(x), std::max(x.energy, 1.0), 1e-11), "isentropic-state-inconsistent", show(flat(x)), " expected ", show(flat(y)));
      ctx.check(std::fabs(euler::TotalEnthalpy(eq, x) - euler::TotalEnthalpy(eq, q)) <= 1e-10 * euler::TotalEnthalpy(eq, q), "stagnation-enthalpy-changed", euler::TotalEnthalpy(eq, x), " expected ", euler::TotalEnthalpy(eq, q), " ratio ", ratio, " Msq ", eq.Msq);
      for (int i = 0; i < q.species.size(); ++i) ctx.check(std::fabs(x.species[i] / x.density - q.species[i] / q.density) <= 1e-12, "isentropic-composition-changed", x.species[i] / x.density, " expected ", q.species[i] / q.density);
      for (int i = 0; i < q.passive_scalars.size(); ++i) ctx.check(std::fabs(x.passive_scalars[i] / x.density - q.passive_scalars[i] / q.density) <= 1e-12 * (1 + std::fabs(q.passive_scalars[i] / q.density)), "isentropic-scalar-changed", x.passive_scalars[i] / x.density, " expected ", q.passive_scalars[i] / q.density);
    }
  }
  ctx.transition(8);
  ctx.validated();
  mc::Hash h;
  for (double x : flat(q)) h.add(x);
  ctx.state(h.add(gamma_of(eq)).add(eq.Msq).add(eq.n_species).add(eq.n_passive_scalars));
}
} // namespace
#define GRID "4 densities x 3 pressures x 4^2 velocities x directions x equation parameters, in 8 lanes, 7 masks"
SCENARIO("perfect-gas-1d", GRID, 1) { gas<PerfectGas<1>>(ctx); }
SCENARIO("perfect-gas-2d", GRID, 1) { gas<PerfectGas<2>>(ctx); }
SCENARIO("perfect-gas-3d", GRID, 1) { gas<PerfectGas<3>>(ctx); }
SCENARIO("mixture-1d", GRID ", 0..2 species, 0..2 scalars, 2 Mach scalings", 1) { gas<PerfectGasMix<1>>(ctx); }
SCENARIO("mixture-2d", GRID ", 0..2 species, 0..2 scalars, 2 Mach scalings", 2) { gas<PerfectGasMix<2>>(ctx); }
SCENARIO("mixture-3d", GRID ", 0..2 species, 0..2 scalars, 2 Mach scalings", 2) { gas<PerfectGasMix<3>>(ctx); }
SCENARIO("kinetic-1d", "4 densities x 3 pressures x velocities x compositions x Mach scalings x 4 expansions", 1) { kinetic<1>(ctx); }
SCENARIO("kinetic-2d", "4 densities x 3 pressures x velocities x compositions x Mach scalings x 4 expansions", 1) { kinetic<2>(ctx); }
SCENARIO("kinetic-3d", "4 densities x 3 pressures x velocities x compositions x Mach scalings x 4 expansions", 1) { kinetic<3>(ctx); }
SCENARIO("mirror-1d", "both normals, 32 states", 1) { mirror<PerfectGas<1>>(ctx); }
SCENARIO("mirror-2d", "35 normals x 35 targets x 32 states", 1) { mirror<PerfectGas<2>>(ctx); }
SCENARIO("mirror-3d", "124 normals x 124 targets x 8 states (thorough: 215 x 215 x 32)", 2) { mirror<PerfectGas<3>>(ctx); }
SCENARIO("mirror-mixture-1d", "both normals, 32 states", 1) { mirror<PerfectGasMix<1>>(ctx); }
SCENARIO("mirror-mixture-2d", "35 normals x 35 targets x 32 states", 1) { mirror<PerfectGasMix<2>>(ctx); }
SCENARIO("mirror-mixture-3d", "124 normals x 124 targets x 8 states (thorough: 215 x 215 x 32)", 2) { mirror<PerfectGasMix<3>>(ctx); }
SCENARIO("shallow-water-flux", "2 gravities x 4 heights x 4^2 velocities x directions x lanes", 1) {
  ShallowWater eq;
  eq.gravity_ = ctx.pick({10.0, 9.81});
  const double h = ctx.pick({1.0, 0.25, 3.0, 0.01}), us[] = {0.0, 0.75, -2.0, 5.0};
  const double u[2] = {us[ctx.choose(4)], us[ctx.choose(4)]};
  const int dir = ctx.choose(2);
  const Direction d = static_cast<Direction>(dir);
  Complete<ShallowWater> q;
  q.height = h; q.momentum[0] = h * u[0]; q.momentum[1] = h * u[1];
  Conservative<ShallowWater> f;
  eq.Flux(f, q, d);
  V e{h * u[dir], h * u[dir] * u[0], h * u[dir] * u[1]};
  e[1 + dir] += 0.5 * eq.gravity_ * h * h;
  ctx.check(same(flat(f), e, 1e-3), "flux-wrong", show(flat(f)), " expected ", show(e), " for h=", h, " u=", u[0], ",", u[1]);
  CompleteArray<ShallowWater> A;
  ConservativeArray<ShallowWater> F;
  for (int i = 0; i < W; ++i) { A.height[i] = 1.0; A.momentum(0, i) = i; A.momentum(1, i) = -2.0 * i; }
  const int at = ctx.choose(W);
  set_lane(A, q, at);
  eq.Flux(F, A, d);
  ctx.check(same(lane(F, at), e, 1e-3), "vectorised-flux-wrong", show(lane(F, at)), " expected ", show(e));
  // signal velocities of the HLL method bound the wave speeds of both states
  ShallowWaterSignalVelocities sv;
  Complete<ShallowWater> r;
  r.height = 0.5; r.momentum[0] = 0.25; r.momentum[1] = -0.5;
  const auto s = sv(eq, q, r, d);
  const double cl = std::sqrt(eq.gravity_ * h), cr = std::sqrt(eq.gravity_ * 0.5), ur = r.momentum[dir] / 0.5;
  ctx.check(s[0] <= std::min(u[dir] - cl, ur - cr) + 1e-12 && s[1] >= std::max(u[dir] + cl, ur + cr) - 1e-12 && s[0] <= 0 && s[1] >= 0, "signals-do-not-bound-waves");
  CompleteArray<ShallowWater> B;
  for (int i = 0; i < W; ++i) set_lane(B, r, i);
  const auto S = sv(eq, A, B, d);
  ctx.check(std::fabs(S[0][at] - s[0]) < 1e-13 && std::fabs(S[1][at] - s[1]) < 1e-13, "vectorised-signals-differ");
  ctx.transition(); ctx.validated();
  ctx.state(mc::Hash().add(h).add(u[0]).add(u[1]).add(dir).add(at));
}
SCENARIO("scalar-equations", "Burgers and advection fluxes: 7 values x 5x5 velocities x directions", 1) {
  const double x = ctx.pick({-3.0, -0.5, 0.0, 0.25, 1.0, 2.0, 7.0});
  Burgers1d b;
  Complete<Burgers1d> q; q.u = x;
  ctx.check(b.Flux(q, Direction::X).u == 0.5 * x * x, "burgers-flux-wrong");
  CompleteArray<Burgers1d> qa; for (int i = 0; i < W; ++i) qa.u[i] = x + i;
  const auto fa = b.Flux(qa, Direction::X);
  for (int i = 0; i < W; ++i) ctx.check(fa.u[i] == 0.5 * (x + i) * (x + i), "vectorised-burgers-flux-wrong");
  const std::array<double, 2> v{ctx.pick({-2.0, -0.25, 0.0, 0.5, 3.0}), ctx.pick({-2.0, -0.25, 0.0, 0.5, 3.0})};
  Advection2d a(v);
  for (int dir = 0; dir < 2; ++dir) {
    Complete<Advection2d> p; p.mass = x;
    Conservative<Advection2d> f;
    a.Flux(f, p, static_cast<Direction>(dir));
    ctx.check(f.mass == v[dir] * x, "advection-flux-wrong");
    CompleteArray<Advection2d> pa; ConservativeArray<Advection2d> pf;
    for (int i = 0; i < W; ++i) pa.mass[i] = x - i;
    a.Flux(pf, pa, static_cast<Direction>(dir));
    for (int i = 0; i < W; ++i) ctx.check(pf.mass[i] == v[dir] * (x - i), "vectorised-advection-flux-wrong");
  }
  ctx.transition(); ctx.validated();
  ctx.state(mc::Hash().add(x).add(v[0]).add(v[1]));
}
