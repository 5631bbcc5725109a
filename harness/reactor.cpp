// Thermodynamics and chemistry of the ideal gas mixture (FlameMaster reactor and IdealGasMix equation).
#include "mc.hpp"
#include "fub/core/type_traits.hpp"
#include "fub/equations/IdealGasMix.hpp"
#include "fub/equations/ideal_gas_mix/mechanism/Burke2012.hpp"
#include "fub/CompleteFromCons.hpp"
#include "fub/ode_solver/RadauSolver.hpp"
using namespace fub;
namespace {
constexpr int W = kDefaultChunkSize;
constexpr int NS = Burke2012::sEnd;
using V = std::vector<double>;
const Burke2012 burke{};
// H, O, N, Ar, He atoms per molecule
const int atoms[NS][5] = {{0, 0, 2, 0, 0}, {0, 0, 0, 1, 0}, {1, 0, 0, 0, 0}, {0, 2, 0, 0, 0}, {0, 1, 0, 0, 0}, {1, 1, 0, 0, 0},
                          {2, 0, 0, 0, 0}, {2, 1, 0, 0, 0}, {0, 0, 0, 0, 1}, {1, 2, 0, 0, 0}, {2, 2, 0, 0, 0}};
const double atom_mass[5] = {1.008, 16.0, 14.01, 39.95, 4.0026};
template <typename S> V flat(const S& s) { V v; ForEachComponent([&](double x) { v.push_back(x); }, s); return v; }
template <typename S> V lane(const S& s, int i) { V v; ForEachComponent([&](auto&& x) { v.push_back(x[i]); }, s); return v; }
template <typename A, typename S> void set_lane(A& a, const S& s, int i) { V v = flat(s); std::size_t k = 0; ForEachComponent([&](auto&& x) { x[i] = v[k++]; }, a); }
template <typename A> void fill(A& a, double value) { ForEachComponent([&](auto&& x) { for (int i = 0; i < W; ++i) x[i] = value; }, a); }
std::string show(const V& v) { std::string s; for (double x : v) s += mc::cat(x, " "); return s; }
bool near(double a, double b, double tol, double floor = 0) { return std::fabs(a - b) <= tol * std::max({std::fabs(a), std::fabs(b), floor}); }
bool same(const V& a, const V& b, double tol, double floor = 1e-8) {
  if (a.size() != b.size()) return false;
  for (std::size_t i = 0; i < a.size(); ++i) if (!near(a[i], b[i], tol, floor)) return false;
  return true;
}
// normalised mass fractions of some mixtures
V mixture(int k) {
  V y(NS, 0.0);
  switch (k) {
    case 0: y[0] = 0.75; y[3] = 0.25; break;                                   // air
    case 1: y[0] = 0.5; y[3] = 0.375; y[6] = 0.125; break;                     // hydrogen and air
    case 2: y[1] = 1.0; break;                                                 // argon
    case 3: for (int i = 0; i < NS; ++i) y[i] = (i + 1.0) / 66.0; break;       // everything
    case 4: y[7] = 0.5; y[10] = 0.25; y[5] = 0.125; y[9] = 0.125; break;       // products and radicals
    case 5: y[8] = 0.25; y[6] = 0.75; break;                                   // light gas
  }
  return y;
}
constexpr int n_mixtures = 6;
double meanM(const V& y, span<const double> M) { double s = 0; for (int i = 0; i < NS; ++i) s += y[i] / M[i]; return 1 / s; }
V spanv(span<const double> s) { V v; for (std::ptrdiff_t i = 0; i < s.size(); ++i) v.push_back(s[i]); return v; }
span<const double> sp(const V& v) { return span<const double>(v.data(), std::ptrdiff_t(v.size())); }
double gauss(FlameMasterReactor& r, double a, double b, bool entropy) { // integral of cp or cp/T over [a,b]
  static const double x[] = {0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845, 0.9739065285171717};
  static const double w[] = {0.2955242247147529, 0.2692667193099963, 0.2190863625159821, 0.1494513491505806, 0.0666713443086881};
  double sum = 0;
  V cuts{a};
  for (double c : {300.0, 1000.0}) if ((c - a) * (c - b) < 0) cuts.push_back(c);
  if (a > b && cuts.size() == 3) std::swap(cuts[1], cuts[2]);
  cuts.push_back(b);
  for (std::size_t k = 0; k + 1 < cuts.size(); ++k) {
    const double m = 0.5 * (cuts[k] + cuts[k + 1]), h = 0.5 * (cuts[k + 1] - cuts[k]);
    for (int i = 0; i < 5; ++i)
      for (int s = -1; s <= 1; s += 2) { const double T = m + s * h * x[i]; r.SetTemperature(T); sum += h * w[i] * r.GetCp() / (entropy ? T : 1.0); }
  }
  return sum;
}
template <int D> struct Raw { double rho, T, u[3]; int mix; };
template <int D> Raw<D> raw(int r, int t, int u, int m) {
  const double rhos[] = {1.0, 0.0625, 12.0}, Ts[] = {300.0, 220.0, 999.0, 1001.0, 2750.0}, us[] = {0.0, 12.5, -340.0, 2100.0};
  return {rhos[r % 3], Ts[t % 5], {us[u % 4], us[(u + 1) % 4], us[(u + 3) % 4]}, m % n_mixtures};
}
template <int D> Complete<IdealGasMix<D>> make(const IdealGasMix<D>& eq, const Raw<D>& w) {
  FlameMasterReactor r(burke);
  r.SetMassFractions(sp(mixture(w.mix)));
  r.SetTemperature(w.T);
  r.SetDensity(w.rho);
  Complete<IdealGasMix<D>> q(eq);
  double k = 0;
  for (int d = 0; d < D; ++d) { q.momentum[d] = w.rho * w.u[d]; k += w.u[d] * w.u[d]; }
  const V y = mixture(w.mix);
  for (int i = 0; i < NS; ++i) q.species[i] = w.rho * y[i];
  const double M = meanM(y, r.GetMolarMasses()), R = r.GetUniversalGasConstant();
  q.density = w.rho;
  q.pressure = w.rho * R / M * w.T;
  q.temperature = w.T;
  q.energy = w.rho * (r.GetEnthalpy() - R / M * w.T) + 0.5 * w.rho * k;
  q.c_p = r.GetCp();
  q.gamma = q.c_p / (q.c_p - R / M);
  q.speed_of_sound = std::sqrt(q.gamma * q.pressure / q.density);
  return q;
}
template <int D> Conservative<IdealGasMix<D>> cons_of(const IdealGasMix<D>& eq, const Complete<IdealGasMix<D>>& q) {
  Conservative<IdealGasMix<D>> c(eq);
  ForEachVariable([](auto& x, const auto& y) { x = y; }, c, AsCons(q));
  return c;
}
template <int D> V flux_of(const Raw<D>& w, const Complete<IdealGasMix<D>>& q, int dir) {
  V f{q.momentum[dir]};
  for (int d = 0; d < D; ++d) f.push_back(q.momentum[d] * w.u[dir] + (d == dir ? q.pressure : 0));
  f.push_back(w.u[dir] * (q.energy + q.pressure));
  for (int i = 0; i < NS; ++i) f.push_back(w.u[dir] * q.species[i]);
  return f;
}
constexpr double TOL = 1e-8; // the temperature is found by iteration (tolerance 1e-6 K)
template <int D> void equation(mc::Ctx& ctx) {
  static IdealGasMix<D> eq{FlameMasterReactor(burke)};
  const Raw<D> w = raw<D>(ctx.choose(3), ctx.choose(5), ctx.choose(4), ctx.choose(n_mixtures));
  const int dir = ctx.choose(D);
  const Direction d = static_cast<Direction>(dir);
  const auto q = make<D>(eq, w);
  const V ref = flat(q);
  // history: the result must not depend on what the reactor was used for before
  const int history = ctx.choose(3);
  if (history == 1) { eq.GetReactor().SetMassFractions(sp(mixture(3))); eq.GetReactor().SetTemperature(2000.0); eq.GetReactor().SetDensity(3.0); }
  if (history == 2) { eq.GetReactor().SetTemperature(q.temperature); eq.GetReactor().SetDensity(q.density); }
  Conservative<IdealGasMix<D>> f(eq);
  eq.Flux(f, q, d);
  ctx.check(same(flat(f), flux_of(w, q, dir), 1e-13), "flux-wrong", show(flat(f)), " expected ", show(flux_of(w, q, dir)));
  Complete<IdealGasMix<D>> c(eq);
  CompleteFromCons(eq, c, cons_of<D>(eq, q));
  ctx.check(same(flat(c), ref, TOL), "complete-from-conservative", show(flat(c)), " expected ", show(ref));
  Complete<IdealGasMix<D>> self = q;
  self.pressure = self.temperature = self.gamma = self.c_p = self.speed_of_sound = -1;
  CompleteFromCons(eq, self, self);
  ctx.check(same(flat(self), ref, TOL), "complete-from-itself", show(flat(self)), " expected ", show(ref));
  eq.SetReactorStateFromComplete(q);
  Array<double, D, 1> u;
  for (int i = 0; i < D; ++i) u[i] = w.u[i];
  Complete<IdealGasMix<D>> r(eq);
  eq.CompleteFromReactor(r, u);
  ctx.check(same(flat(r), ref, 1e-12), "complete-from-reactor", show(flat(r)), " expected ", show(ref));
  // vectorised, every lane different
  CompleteArray<IdealGasMix<D>> A(eq), CA(eq);
  ConservativeArray<IdealGasMix<D>> U(eq), F(eq);
  std::vector<Raw<D>> ws;
  const int at = (int(w.T) + w.mix + dir) % W;
  for (int i = 0; i < W; ++i) {
    ws.push_back(i == at ? w : raw<D>(i, i + 2, i + 1, i));
    set_lane(A, make<D>(eq, ws[i]), i);
    set_lane(U, cons_of<D>(eq, make<D>(eq, ws[i])), i);
  }
  eq.Flux(F, A, d);
  CompleteFromCons(eq, CA, U);
  for (int i = 0; i < W; ++i) {
    const auto qi = make<D>(eq, ws[i]);
    ctx.check(same(lane(F, i), flux_of(ws[i], qi, dir), 1e-13), "vectorised-flux-wrong", "lane ", i);
    ctx.check(same(lane(CA, i), flat(qi), TOL), "vectorised-complete-from-conservative", "lane ", i, " ", show(lane(CA, i)), " expected ", show(flat(qi)));
  }
  for (int m : {0, 1 << at, 0xff, 0xff & ~(1 << at), 0x55, 0x3f}) {
    for (double junk : {0.0, std::numeric_limits<double>::quiet_NaN()}) {
      MaskArray mask;
      auto UB = U;
      auto B = A;
      Complete<IdealGasMix<D>> bad(eq);
      ForEachComponent([&](double& x) { x = junk; }, bad);
      for (int i = 0; i < W; ++i) { mask[i] = (m >> i) & 1; if (!mask[i]) { set_lane(B, bad, i); set_lane(UB, cons_of<D>(eq, bad), i); } }
      CompleteArray<IdealGasMix<D>> CB(eq);
      ConservativeArray<IdealGasMix<D>> FB(eq);
      fill(CB, 7.0);
      fill(FB, 7.0);
      eq.Flux(FB, B, mask, d);
      CompleteFromCons(eq, CB, UB, mask);
      for (int i = 0; i < W; ++i) {
        const auto qi = make<D>(eq, ws[i]);
        const V e = mask[i] ? flat(qi) : V(ref.size(), 0.0), fe = mask[i] ? flux_of(ws[i], qi, dir) : V(flat(f).size(), 0.0);
        ctx.check(same(lane(CB, i), e, TOL), "masked-complete-from-conservative", "mask ", m, " lane ", i, " ", show(lane(CB, i)), " expected ", show(e));
        ctx.check(same(lane(FB, i), fe, 1e-13), "masked-flux-wrong", "mask ", m, " lane ", i, " ", show(lane(FB, i)), " expected ", show(fe));
      }
    }
  }
  ctx.transition(8);
  ctx.validated();
  mc::Hash h;
  for (double x : ref) h.add(x);
  ctx.state(h.add(dir).add(history));
}
template <int D> void mirror(mc::Ctx& ctx) {
  IdealGasMix<D> eq{FlameMasterReactor(burke)};
  const Raw<D> w = raw<D>(0, 2, ctx.choose(4), 3);
  const auto q = make<D>(eq, w);
  Eigen::Matrix<double, D, 1> n;
  const double xs[] = {0.0, 1.0, -1.0, 0.75};
  for (int i = 0; i < D; ++i) n[i] = xs[ctx.choose(4)];
  if (n.norm() < 0.1) return;
  n /= n.norm();
  auto e = q;
  double mn = 0;
  for (int i = 0; i < D; ++i) mn += q.momentum[i] * n[i];
  for (int i = 0; i < D; ++i) e.momentum[i] -= 2 * mn * n[i];
  auto r = q;
  Reflect(r, q, n, eq);
  ctx.check(same(flat(r), flat(e), 1e-12, 10), "reflection-wrong", show(flat(r)), " expected ", show(flat(e)));
  auto a = q;
  Reflect(a, a, n, eq);
  ctx.check(same(flat(a), flat(e), 1e-12, 10), "reflection-in-place-wrong", show(flat(a)), " expected ", show(flat(e)));
  if constexpr (D > 1) {
    for (int k = 0; k < D; ++k) {
      Eigen::Matrix<double, D, 1> b = Eigen::Matrix<double, D, 1>::Zero();
      b[k] = 1;
      const Eigen::Matrix<double, D, D> Q = MakeRotation(n, b);
      auto x = q;
      for (int i = 0; i < D; ++i) { x.momentum[i] = 0; for (int j = 0; j < D; ++j) x.momentum[i] += Q(i, j) * q.momentum[j]; }
      Complete<IdealGasMix<D>> o(eq);
      auto oa = q;
      Rotate(o, q, Q, eq);
      Rotate(oa, oa, Q, eq);
      ctx.check(same(flat(o), flat(x), 1e-12, 10), "rotated-state-wrong", show(flat(o)), " expected ", show(flat(x)));
      ctx.check(same(flat(oa), flat(x), 1e-12, 10), "rotation-in-place-wrong");
      Conservative<IdealGasMix<D>> co(eq);
      Rotate(co, cons_of<D>(eq, q), Q, eq);
      ctx.check(same(flat(co), flat(cons_of<D>(eq, x)), 1e-12, 10), "rotated-conservative-state-wrong");
    }
  }
  ctx.transition();
  ctx.validated();
  mc::Hash h;
  for (int i = 0; i < D; ++i) h.add(n[i]).add(w.u[i]);
  ctx.state(h);
}
// a fresh reactor in the same state
void agree(mc::Ctx& ctx, FlameMasterReactor& r, double rho, double T, const V& y, double tol, const char* what, bool kinetics = true) {
  FlameMasterReactor f(burke);
  f.SetMassFractions(sp(y));
  f.SetTemperature(T);
  f.SetDensity(rho);
  auto cmp = [&](double a, double b, const char* q, double scale = 0.0) { ctx.check(near(a, b, tol, scale), what, q, ": ", a, " expected ", b); };
  cmp(r.GetDensity(), rho, "density");
  cmp(r.GetTemperature(), T, "temperature");
  for (int i = 0; i < NS; ++i) ctx.check(std::fabs(r.GetMassFractions()[i] - y[i]) <= tol, what, "mass fraction ", i, ": ", r.GetMassFractions()[i], " expected ", y[i]);
  cmp(r.GetPressure(), f.GetPressure(), "pressure");
  cmp(r.GetEnthalpy(), f.GetEnthalpy(), "enthalpy", 1e5);
  cmp(r.GetInternalEnergy(), f.GetInternalEnergy(), "internal energy", 1e5);
  cmp(r.GetCp(), f.GetCp(), "heat capacity");
  cmp(r.GetCv(), f.GetCv(), "heat capacity at constant volume");
  cmp(r.GetMeanMolarMass(), f.GetMeanMolarMass(), "molar mass");
  cmp(r.MeanX(r.GetMolarMasses()), f.GetMeanMolarMass(), "mean molar mass over mole fractions");
  if (kinetics) {
    f.GetMoleFractions();
    const V a = spanv(r.GetProductionRates()), b = spanv(f.GetProductionRates());
    double s = 0;
    for (double x : spanv(f.GetReactionRates())) s = std::max(s, std::fabs(x)); // gross rates: they cancel at equilibrium
    for (int i = 0; i < NS; ++i) ctx.check(std::fabs(a[i] - b[i]) <= 1e3 * tol * s + 1e-15, what, "production rate ", i, ": ", a[i], " expected ", b[i], " rho ", rho, " T ", T);
    const V c = spanv(r.GetMoleFractions());
    for (int i = 0; i < NS; ++i) ctx.check(near(c[i], rho * y[i] / r.GetSpeciesMolarMass(i), tol, 1e-8), what, "concentration ", i);
  }
}
V elements(const V& y, span<const double> M) {
  V e(5, 0.0);
  for (int i = 0; i < NS; ++i) for (int k = 0; k < 5; ++k) e[k] += y[i] / M[i] * atoms[i][k];
  return e;
}
} // namespace
SCENARIO("mixture-equation-1d", "3 densities x 5 temperatures x 4 velocities x 6 mixtures x 3 reactor histories, 8 lanes, 6 masks x 2 contents of unused lanes", 2) { equation<1>(ctx); }
SCENARIO("mixture-equation-2d", "3 densities x 5 temperatures x 4 velocities x 6 mixtures x 3 reactor histories x directions", 3) { equation<2>(ctx); }
SCENARIO("mixture-equation-3d", "3 densities x 5 temperatures x 4 velocities x 6 mixtures x 3 reactor histories x directions", 4) { equation<3>(ctx); }
SCENARIO("mixture-mirror-1d", "normals x 4 velocities", 1) { mirror<1>(ctx); }
SCENARIO("mixture-mirror-2d", "15 normals x 4 velocities", 1) { mirror<2>(ctx); }
SCENARIO("mixture-mirror-3d", "63 normals x 4 velocities", 1) { mirror<3>(ctx); }

SCENARIO("thermodynamics", "every pure species and 6 mixtures x 12 temperatures: enthalpy is the integral of the heat capacity; scalar equals vectorised", 2) {
  static FlameMasterReactor r(burke), b(burke);
  const int k = ctx.choose(n_mixtures + NS);
  V y = k < n_mixtures ? mixture(k) : V(NS, 0.0);
  if (k >= n_mixtures) y[k - n_mixtures] = 1.0;
  const V Ts{200, 250, 299, 300, 301, 650, 999, 1000, 1001, 1500, 2500, 3500};
  const double T0 = Ts[ctx.choose(12)], T1 = Ts[ctx.choose(12)];
  r.SetMassFractions(sp(y));
  b.SetMassFractions(sp(y));
  r.SetTemperature(T0);
  const double h0 = r.GetEnthalpy();
  r.SetTemperature(T1);
  const double h1 = r.GetEnthalpy(), cp = r.GetCp(), M = r.GetMeanMolarMass(), R = r.GetUniversalGasConstant();
  r.SetDensity(0.75);
  // the two temperature ranges of the polynomials meet at 1000 K up to their published accuracy
  const double jump = (T0 <= 1000) != (T1 <= 1000) ? 2e-3 * cp * 1000 : 0.0;
  const double integral = gauss(b, T0, T1, false);
  ctx.check(std::fabs((h1 - h0) - integral) <= jump + 1e-7 * (std::fabs(h0) + std::fabs(h1) + cp * 300) + (T0 < 300 || T1 < 300 ? 1e-6 * cp * 300 : 0), "enthalpy-is-not-the-integral-of-cp", "from ", T0, " to ", T1, ": ", h1 - h0, " expected ", integral);
  ctx.close(M, meanM(y, r.GetMolarMasses()), 1e-13, "mean-molar-mass");
  ctx.close(r.GetPressure(), 0.75 * R / M * T1, 1e-13, "equation-of-state");
  ctx.check(near(r.GetInternalEnergy(), h1 - R / M * T1, 1e-12, 1e5), "internal-energy");
  ctx.close(r.GetCv(), cp - R / M, 1e-12, "heat-capacity-difference");
  ctx.check(cp > 2.4 * R / M && cp < 30 * R / M, "heat-capacity-implausible", cp * M / R);
  for (int i = 0; i < NS; ++i) {
    double m = 0;
    for (int e = 0; e < 5; ++e) m += atoms[i][e] * atom_mass[e];
    ctx.close(r.GetSpeciesMolarMass(i), m, 2e-3, "molar-mass-of-species");
  }
  // vectorised: each lane its own temperature and mixture
  const int at = ctx.choose(W);
  ArrayXd Y(NS, W);
  Array1d T, rho;
  std::vector<V> ys;
  for (int i = 0; i < W; ++i) {
    ys.push_back(i == at ? y : mixture(i % n_mixtures));
    T[i] = i == at ? T1 : Ts[(i * 5) % 12];
    rho[i] = i == at ? 0.75 : 0.5 + i;
    for (int s = 0; s < NS; ++s) Y(s, i) = ys[i][s];
  }
  static FlameMasterReactor a(burke);
  if (ctx.flip()) a.SetMassFractionsArray(Y); else a.SetMassFractionsArray(Y, MaskArray::Constant(true));
  a.SetTemperatureArray(T);
  a.SetDensityArray(rho);
  for (int i = 0; i < W; ++i) {
    b.SetMassFractions(sp(ys[i])); b.SetTemperature(T[i]); b.SetDensity(rho[i]);
    ctx.check(near(a.GetEnthalpyArray()[i], b.GetEnthalpy(), 1e-12, 1e5) && near(a.GetInternalEnergyArray()[i], b.GetInternalEnergy(), 1e-12, 1e5) && near(a.GetCpArray()[i], b.GetCp(), 1e-13) && near(a.GetCvArray()[i], b.GetCv(), 1e-12) && near(a.GetPressureArray()[i], b.GetPressure(), 1e-13) && near(a.GetMeanMolarMassArray()[i], b.GetMeanMolarMass(), 1e-13), "vectorised-thermodynamics-differ", "lane ", i, " T=", T[i]);
  }
  a.SetPressureArray(Array1d::Constant(2.5e5));
  for (int i = 0; i < W; ++i) ctx.check(near(a.GetPressureArray()[i], 2.5e5, 1e-13), "vectorised-set-pressure", i);
  ctx.transition(3);
  ctx.validated();
  ctx.state(mc::Hash().add(k).add(T0).add(T1).add(at));
}
SCENARIO("temperature-from-energy", "6 mixtures x 9 temperatures x 9 starting temperatures, scalar, 8 lanes, 5 masks", 2) {
  static FlameMasterReactor r(burke), a(burke);
  const int k = ctx.choose(n_mixtures);
  const V Ts{200, 299.5, 300, 301, 650, 999.5, 1000.5, 1800, 3500};
  const double T = Ts[ctx.choose(9)], start = Ts[ctx.choose(9)];
  r.SetMassFractions(sp(mixture(k)));
  r.SetTemperature(T);
  const double e = r.GetInternalEnergy(), h = r.GetEnthalpy();
  r.SetTemperature(start);
  r.SetInternalEnergy(e);
  // within the roundoff jump of the polynomials at 1000 K several temperatures have the same energy
  ctx.check(std::fabs(r.GetTemperature() - T) < 1e-4, "temperature-from-internal-energy", r.GetTemperature(), " expected ", T, " from ", start);
  ctx.check(near(r.GetInternalEnergy(), e, 1e-9, 1e4), "internal-energy-not-attained", r.GetInternalEnergy(), " expected ", e);
  r.SetTemperature(start);
  r.SetEnthalpy(h, 1e-6);
  ctx.check(std::fabs(r.GetTemperature() - T) < 1e-4, "temperature-from-enthalpy", r.GetTemperature(), " expected ", T, " from ", start);
  ArrayXd Y(NS, W);
  Array1d E, T0, TT;
  const int at = (k + int(T)) % W;
  for (int i = 0; i < W; ++i) {
    const int mi = i == at ? k : (i + k) % n_mixtures;
    TT[i] = i == at ? T : Ts[(i * 4 + k) % 9];
    T0[i] = i == at ? start : Ts[(i + 3) % 9];
    for (int s = 0; s < NS; ++s) Y(s, i) = mixture(mi)[s];
    r.SetMassFractions(sp(mixture(mi)));
    r.SetTemperature(TT[i]);
    E[i] = r.GetInternalEnergy();
  }
  a.SetMassFractionsArray(Y);
  a.SetTemperatureArray(T0);
  a.SetInternalEnergyArray(E);
  for (int i = 0; i < W; ++i) ctx.check(std::fabs(a.GetTemperatureArray()[i] - TT[i]) < 1e-4, "vectorised-temperature", "lane ", i, " ", a.GetTemperatureArray()[i], " expected ", TT[i]);
  for (int m : {1 << at, 0xff, 0xff & ~(1 << at), 0x33, 0x80}) {
    MaskArray mask;
    Array1d EE = E;
    for (int i = 0; i < W; ++i) { mask[i] = (m >> i) & 1; if (!mask[i]) EE[i] = 1e300; }
    a.SetMassFractionsArray(Y, mask);
    a.SetTemperatureArray(T0);
    a.SetInternalEnergyArray(EE, mask);
    for (int i = 0; i < W; ++i) if (mask[i]) ctx.check(std::fabs(a.GetTemperatureArray()[i] - TT[i]) < 1e-4 && near(a.GetInternalEnergyArray()[i], E[i], 1e-9, 1e4), "masked-temperature", "mask ", m, " lane ", i, " ", a.GetTemperatureArray()[i], " expected ", TT[i]);
  }
  ctx.transition(3);
  ctx.validated();
  ctx.state(mc::Hash().add(k).add(T).add(start));
}
SCENARIO("composition", "unnormalised and slightly negative fractions in 4 forms of input, scalar and vectorised", 1) {
  static FlameMasterReactor r(burke), a(burke);
  const V y0 = mixture(ctx.choose(n_mixtures));
  const double scale = ctx.pick({1.0, 4.0, 0.125}), neg = ctx.pick({0.0, -1e-12, -0.01});
  V y = y0;
  for (double& x : y) x *= scale;
  int at = -1;
  for (int i = 0; i < NS; ++i) if (y[i] == 0) at = i;
  if (at >= 0) y[at] = neg;
  r.SetMassFractions(sp(y));
  for (int i = 0; i < NS; ++i) ctx.check(near(r.GetMassFractions()[i], y0[i], 1e-14, 1e-3), "mass-fractions-not-normalised", i, ": ", r.GetMassFractions()[i], " expected ", y0[i]);
  ArrayXd Y(NS, W);
  for (int i = 0; i < W; ++i) for (int s = 0; s < NS; ++s) Y(s, i) = i % 2 ? y[s] : mixture(1)[s];
  for (int masked = 0; masked < 3; ++masked) {
    if (masked == 0) a.SetMassFractionsArray(Y);
    else a.SetMassFractionsArray(Y, masked == 1 ? MaskArray::Constant(true) : MaskArray(Array1d::LinSpaced(W, 0, W - 1) > 2.5));
    for (int i = masked == 2 ? 3 : 0; i < W; ++i)
      for (int s = 0; s < NS; ++s) ctx.check(near(a.GetMassFractionsArray()(s, i), i % 2 ? y0[s] : mixture(1)[s], 1e-14, 1e-3), "vectorised-mass-fractions", "form ", masked, " lane ", i, " species ", s, ": ", a.GetMassFractionsArray()(s, i), " expected ", i % 2 ? y0[s] : mixture(1)[s]);
  }
  // the same mixture given as mole fractions, as a list and as text
  V x(NS);
  std::string text, mass;
  for (int s = 0; s < NS; ++s) {
    x[s] = std::max(0.0, y[s]) / r.GetSpeciesMolarMass(s);
    if (x[s] > 0) { text += (text.empty() ? "" : ",") + r.GetSpeciesName(s) + fmt::format(":{:.17g}", x[s]); mass += (mass.empty() ? "" : ", ") + r.GetSpeciesName(s) + fmt::format(":{:.17g}", y[s]); }
  }
  r.SetMassFractions(sp(mixture(3)));
  r.SetMoleFractions(sp(x));
  for (int i = 0; i < NS; ++i) ctx.check(near(r.GetMassFractions()[i], y0[i], 1e-13, 1e-3), "mole-fractions", i);
  r.SetMassFractions(sp(mixture(3)));
  r.SetMoleFractions(text);
  for (int i = 0; i < NS; ++i) ctx.check(near(r.GetMassFractions()[i], y0[i], 1e-13, 1e-3), "mole-fractions-text", i);
  r.SetMassFractions(sp(mixture(3)));
  r.SetMassFractions(mass);
  for (int i = 0; i < NS; ++i) ctx.check(near(r.GetMassFractions()[i], y0[i], 1e-13, 1e-3), "mass-fractions-text", i);
  for (const char* bad : {"XX:1", "O2", "O2;1", "O2:1,Foo:2"}) {
    bool threw = false;
    try { r.SetMassFractions(std::string(bad)); } catch (FlameMasterReactorException&) { threw = true; }
    ctx.check(threw, "bad-composition-accepted", bad);
  }
  ctx.transition(6);
  ctx.validated();
  ctx.state(mc::Hash().add(y0[0]).add(y0[3]).add(y0[6]).add(scale).add(neg));
}
SCENARIO("reactor-operations", "all sequences of 3 (thorough: 4) operations out of 16 from 2 states; a reactor is always what a fresh one in its state would be", 8) {
  double rho = 0.5, T = 1100;
  V y = mixture(ctx.choose(2));
  auto r = std::make_unique<FlameMasterReactor>(burke);
  r->SetMassFractions(sp(y));
  r->SetTemperature(T);
  r->SetDensity(rho);
  const double R = r->GetUniversalGasConstant();
  auto M = [&] { return meanM(y, r->GetMolarMasses()); };
  mc::Hash h;
  const int depth = ctx.thorough() ? 4 : 3;
  double tol = 1e-12;
  // the lanes are a state of their own
  ArrayXd lanes(NS, W);
  for (int s = 0; s < NS; ++s) lanes.row(s) = Array1d::Constant(s == 0 ? 1.0 : 0.0);
  Array1d lanes_T = Array1d::Constant(300.0), lanes_p = Array1d::Constant(101325.0);
  for (int i = 0; i < depth; ++i) {
    const int op = ctx.choose(16);
    h.add(op);
    switch (op) {
      case 0: case 1: T = op ? 1500.0 : 400.0; r->SetTemperature(T); break;
      case 2: rho = 1e5 * M() / (R * T); r->SetPressure(1e5); break;
      case 3: rho = 0.125; r->SetDensity(rho); break;
      case 4: y = mixture(3); r->SetMassFractions(sp(y)); break;
      case 5: { y = mixture(1); V x(NS); for (int s = 0; s < NS; ++s) x[s] = y[s] / r->GetSpeciesMolarMass(s); r->SetMoleFractions(sp(x)); break; }
      case 6: y = V(NS, 0.0); y[0] = 0.75; y[3] = 0.25; r->SetMassFractions(std::string("N2:3, O2:1")); break;
      case 7: case 8: {
        FlameMasterReactor f(burke);
        f.SetMassFractions(sp(y)); f.SetTemperature(900);
        if (op == 7) r->SetInternalEnergy(f.GetInternalEnergy()); else r->SetEnthalpy(f.GetEnthalpy(), 1e-6);
        ctx.check(std::fabs(r->GetTemperature() - 900) < 1e-4, "temperature-not-attained", r->GetTemperature());
        T = r->GetTemperature();
        break;
      }
      case 9: case 10: case 11: { // react at constant volume
        FlameMasterReactor before(*r);
        const double dt = op == 10 ? 1e-4 : 1e-6;
        if (op == 11) {
          const double at = r->AdvanceAndFindMaxdT(dt);
          ctx.check(at > 0 && at <= dt * (1 + 1e-12), "time-of-steepest-rise-outside", at);
          FlameMasterReactor s(before); // the same integration, observed from outside
          double t0 = 0, T0 = T, best = -1e300, when = -1;
          s.Advance(dt, [&](span<const double> X, double t, FlameMasterReactor*) {
            if (t > t0) { const double rise = (X[0] - T0) / (t - t0); if (rise > best) { best = rise; when = t; } t0 = t; T0 = X[0]; }
          });
          ctx.check(near(at, when, 1e-9), "time-of-steepest-rise-wrong", at, " expected ", when);
        } else r->Advance(dt);
        const V z = spanv(r->GetMassFractions());
        double sum = 0;
        for (double v : z) { sum += v; ctx.check(v > -1e-9 && v < 1 + 1e-9, "mass-fraction-outside-bounds", v); }
        ctx.check(std::fabs(sum - 1) < 1e-8, "mass-not-conserved", sum);
        const V e0 = elements(y, r->GetMolarMasses()), e1 = elements(z, r->GetMolarMasses());
        for (int k = 0; k < 5; ++k) ctx.check(near(e0[k], e1[k], 1e-7, 1e-6), "element-not-conserved", k, ": ", e1[k], " expected ", e0[k]);
        ctx.check(near(r->GetDensity(), rho, 1e-13), "density-changed", r->GetDensity());
        FlameMasterReactor f(burke);
        f.SetMassFractions(sp(z)); f.SetTemperature(r->GetTemperature()); f.SetDensity(rho);
        ctx.check(near(f.GetInternalEnergy(), before.GetInternalEnergy(), 2e-5, 1e6), "energy-not-conserved", f.GetInternalEnergy(), " expected ", before.GetInternalEnergy());
        FlameMasterReactor g(burke); // deterministic: history and copies do not matter
        g.SetMassFractions(sp(y)); g.SetTemperature(T); g.SetDensity(rho);
        g.Advance(dt);
        ctx.check(near(g.GetTemperature(), r->GetTemperature(), 1e-7), "reaction-depends-on-history", r->GetTemperature(), " expected ", g.GetTemperature());
        T = r->GetTemperature();
        y = z;
        tol = 1e-8; // fractions are normalised again by the comparison
        break;
      }
      case 12: r = std::make_unique<FlameMasterReactor>(FlameMasterReactor(*r)); break;
      case 13: { FlameMasterReactor o(burke); o.SetTemperature(2000); o.SetMassFractions(sp(mixture(4))); o.SetTemperatureArray(Array1d::Constant(2222)); o = *r; r->SetTemperatureArray(Array1d::Constant(555)); r->SetTemperature(333); r = std::make_unique<FlameMasterReactor>(std::move(o)); break; }
      case 14: { // vectorised use does not disturb the scalar state
        ArrayXd Y(NS, W); for (int s = 0; s < NS; ++s) Y.row(s) = Array1d::Constant(mixture(4)[s]);
        lanes = Y; for (int l = 0; l < W; ++l) lanes_T[l] = 777 + 10 * l;
        lanes_p = Array1d::Constant(1e5);
        r->SetMassFractionsArray(Y); r->SetTemperatureArray(lanes_T); r->SetPressureArray(lanes_p);
        break;
      }
      case 15: { // isentropic change of the pressure
        const double p = rho * R / M() * T, pn = 0.75 * p;
        const double du = r->SetPressureIsentropic(pn);
        FlameMasterReactor f(burke);
        f.SetMassFractions(sp(y));
        const double ds = gauss(f, T, r->GetTemperature(), true) - R / M() * std::log(pn / p);
        ctx.check(std::fabs(ds) < 2e-3 * R / M() || (T - 1000) * (r->GetTemperature() - 1000) < 0 && std::fabs(ds) < 2e-2 * R / M(), "entropy-changed", ds * M() / R, " T ", T, " -> ", r->GetTemperature());
        ctx.check(du > 0, "expansion-does-not-accelerate", du);
        T = r->GetTemperature();
        rho = pn * M() / (R * T);
        break;
      }
    }
    agree(ctx, *r, rho, T, y, tol, "reactor-differs-from-a-fresh-one");
    if (op >= 9) { // the lanes keep their own state
      FlameMasterReactor f(burke);
      f.SetMassFractionsArray(lanes); f.SetTemperatureArray(lanes_T); f.SetPressureArray(lanes_p);
      for (int l = 0; l < W; ++l) {
        ctx.check(near(r->GetTemperatureArray()[l], lanes_T[l], 1e-14), "lane-temperature-lost", r->GetTemperatureArray()[l], " expected ", lanes_T[l]);
        ctx.check(near(r->GetPressureArray()[l], lanes_p[l], 1e-12), "lane-pressure-lost", r->GetPressureArray()[l], " expected ", lanes_p[l]);
        ctx.check(near(r->GetEnthalpyArray()[l], f.GetEnthalpyArray()[l], 1e-12, 1e6) && near(r->GetCpArray()[l], f.GetCpArray()[l], 1e-12), "lane-differs-from-a-fresh-one", r->GetEnthalpyArray()[l], " expected ", f.GetEnthalpyArray()[l]);
      }
    }
    ctx.transition();
  }
  ctx.validated();
  ctx.state(h.add(rho).add(T));
}
SCENARIO("production-rates", "6 mixtures x 5 temperatures x 3 pressures: elements are conserved, equilibrium directions", 1) {
  static FlameMasterReactor r(burke);
  const V y = mixture(ctx.choose(n_mixtures));
  r.SetMassFractions(sp(y));
  r.SetTemperature(ctx.pick({300.0, 800.0, 1200.0, 2000.0, 3000.0}));
  r.SetPressure(ctx.pick({1e4, 1e5, 2e6}));
  const V w = spanv(r.GetProductionRates());
  V sum(5, 0.0), abs(5, 0.0);
  for (int i = 0; i < NS; ++i) for (int k = 0; k < 5; ++k) { sum[k] += w[i] * atoms[i][k]; abs[k] += std::fabs(w[i]) * atoms[i][k]; }
  for (int k = 0; k < 5; ++k) ctx.check(std::fabs(sum[k]) <= 1e-12 * abs[k] + 1e-300, "production-rates-create-elements", "element ", k, ": ", sum[k], " of ", abs[k]);
  for (int i = 0; i < NS; ++i) if (y[i] == 0) ctx.check(w[i] >= 0, "absent-species-consumed", i, " ", w[i]);
  ctx.transition();
  ctx.validated();
  ctx.state(mc::Hash().add(y[0]).add(y[7]).add(r.GetTemperature()).add(r.GetDensity()));
}
