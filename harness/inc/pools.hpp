// Pools of admissible states of the equations and their symmetries.
#ifndef VERIF_POOLS_HPP
#define VERIF_POOLS_HPP
#include <cmath>
#include <string>
#include <vector>
namespace {
using namespace fub;
constexpr int W = kDefaultChunkSize;
using V = std::vector<double>;
template <typename S> V flat(const S& s) { V v; ForEachComponent([&](double x) { v.push_back(x); }, s); return v; }
template <typename S> V lane(const S& s, int i) { V v; ForEachComponent([&](auto&& x) { v.push_back(x[i]); }, s); return v; }
template <typename A, typename S> void set_lane(A& a, const S& s, int i) { V v = flat(s); std::size_t k = 0; ForEachComponent([&](auto&& x) { x[i] = v[k++]; }, a); }
template <typename A> void fill(A& a, double value) { ForEachComponent([&](auto&& x) { for (int i = 0; i < W; ++i) x[i] = value; }, a); }
std::string show(const V& v) { std::string s; for (double x : v) s += mc::cat(x, " "); return s; }

template <typename Eq> struct Common {
  Eq eq;
  std::vector<Complete<Eq>> pool;
  explicit Common(Eq e) : eq(std::move(e)) {}
  V flux(const Complete<Eq>& q, Direction d) { Conservative<Eq> f(eq); Flux(eq, f, q, d); return flat(f); }
  V cons(const Complete<Eq>& q) const { return flat(AsCons(q)); }
};
template <typename Eq> struct WithMomentum : Common<Eq> {
  using Common<Eq>::Common;
  Complete<Eq> mirror(Complete<Eq> q, int dir) const { q.momentum[dir] *= -1; return q; }
  Complete<Eq> swap(Complete<Eq> q, int a, int b) const { std::swap(q.momentum[a], q.momentum[b]); return q; }
  Conservative<Eq> mirror_flux(Conservative<Eq> f, int dir) const { ForEachComponent([](double& x) { x = -x; }, f); f.momentum[dir] *= -1; return f; }
  Conservative<Eq> swap_flux(Conservative<Eq> f, int a, int b) const { std::swap(f.momentum[a], f.momentum[b]); return f; }
};
template <typename Eq> struct Adapter;
template <typename T> struct is_mix : std::false_type {};
template <int D> struct is_mix<PerfectGasMix<D>> : std::true_type {};
template <int D> PerfectGas<D> equation(int, PerfectGas<D>*) { return {}; }
template <int D> PerfectGasMix<D> equation(int variant, PerfectGasMix<D>*) {
  PerfectGasMix<D> eq(PerfectGasConstants{287.0, 1.28}, variant == 0 ? 2 : 1, variant == 0 ? 1 : 2);
  eq.Msq = variant == 0 ? 1.0 : 0.25;
  eq.Msqinv = 1.0 / eq.Msq;
  return eq;
}
template <typename Eq> struct Gas : WithMomentum<Eq> {
  static constexpr int D = Eq::Rank();
  double M2 = 1.0;
  using WithMomentum<Eq>::eq;
  using WithMomentum<Eq>::pool;
  explicit Gas(int variant) : WithMomentum<Eq>(equation(variant, static_cast<Eq*>(nullptr))) {
    if constexpr (is_mix<Eq>::value) M2 = eq.Msq;
    struct S { double rho, p, u, v, w; };
    const S s[] = {{1, 1, 0, 0, 0}, {0.125, 1, 0, 0.5, -0.25}, {0.125, 0.1, 0, 0, 0}, {5.99924, 460.894, 19.5975, 1, 0}, {5.99242, 46.095, -6.19633, 0, 3},
                   {1, 0.4, -2, 0.25, 1}, {1, 0.4, 2, 0, -1}, {2, 1, 0.25, -3, 0.5}, {0.01, 0.01, -0.5, 0, 0}, {1, 1, 12, 4, -6}, {0.5, 0.25, 12.5, -3, 2},
                   {1.4, 1, -11, 2, 1}, {1, 1e-2, 0.125, -0.125, 0.5}, {3, 1, -0.0625, 0, -0.5}, {1, 1, 0, 2, -1}, {0.75, 0.5, 40, 0.5, 0.25}, {0.8, 0.5, 41, 0.5, 0.25}};
    int k = 0;
    for (const S& x : s) {
      Complete<Eq> q(eq);
      const double u[] = {x.u, x.v, x.w};
      double kin = 0;
      q.density = x.rho;
      for (int d = 0; d < D; ++d) { q.momentum[d] = x.rho * u[(d + k / 9) % 3]; kin += u[(d + k / 9) % 3] * u[(d + k / 9) % 3]; }
      q.pressure = x.p;
      q.energy = x.p / (eq.gamma - 1) + 0.5 * M2 * x.rho * kin;
      q.speed_of_sound = std::sqrt(eq.gamma * x.p / x.rho);
      if constexpr (is_mix<Eq>::value) {
        const double Y[] = {0, 1, 0.25, 0.5, 0.125};
        for (int i = 0; i < eq.n_species; ++i) q.species[i] = x.rho * Y[(k + 2 * i) % 5] * (i ? 1 - Y[k % 5] : 1);
        for (int i = 0; i < eq.n_passive_scalars; ++i) q.passive_scalars[i] = x.rho * (k % 4 - 1.5 + i);
      }
      ++k;
      pool.push_back(q);
    }
  }
  double velocity(const Complete<Eq>& q, int dir) const { return q.momentum[dir] / q.density; }
  double sound(const Complete<Eq>& q) const { return std::sqrt(eq.gamma * q.pressure / q.density / M2); }
  double pressure(const Complete<Eq>& q) const { return q.pressure; }
  bool admissible(const Complete<Eq>& l, const Complete<Eq>& r, int dir, bool exact) const {
    return !exact || velocity(r, dir) - velocity(l, dir) < 1.9 / (eq.gamma - 1) * (sound(l) + sound(r));
  }
  std::string inadmissible(const V& u, const Complete<Eq>& a, const Complete<Eq>& b, const Complete<Eq>& c, bool physical) const {
    double k = 0, e = 0;
    for (int d = 0; d < D; ++d) k += u[1 + d] * u[1 + d];
    e = u[1 + D] - 0.5 * M2 * k / u[0];
    if (physical && !(u[0] > 0)) return "density";
    if (physical && !(e > 0)) return "internal energy";
    if constexpr (is_mix<Eq>::value) {
      const V x = flat(AsCons(a)), y = flat(AsCons(b)), z = flat(AsCons(c));
      for (std::size_t i = 2 + D; i < u.size(); ++i) {
        const double lo = std::min({x[i] / x[0], y[i] / y[0], z[i] / z[0]}), hi = std::max({x[i] / x[0], y[i] / y[0], z[i] / z[0]}), v = u[i] / u[0];
        if (!(v >= lo - 1e-9 * (1 + std::fabs(lo)) && v <= hi + 1e-9 * (1 + std::fabs(hi)))) return mc::cat("mass fraction ", i - 2 - D, ": ", v, " not between ", lo, " and ", hi);
      }
    }
    return "";
  }
};
template <int D> struct Adapter<PerfectGas<D>> : Gas<PerfectGas<D>> { using Gas<PerfectGas<D>>::Gas; };
template <int D> struct Adapter<PerfectGasMix<D>> : Gas<PerfectGasMix<D>> { using Gas<PerfectGasMix<D>>::Gas; };

#ifdef FUB_IDEAL_GAS_MIX_HPP
#endif
template <> struct Adapter<ShallowWater> : WithMomentum<ShallowWater> {
  explicit Adapter(int variant) : WithMomentum<ShallowWater>(ShallowWater{}) {
    if (variant == 1) eq.gravity_ = 1.0;
    const double s[][3] = {{1, 0, 0}, {0.125, 0, 1}, {2, 1, -1}, {0.5, -3, 0.5}, {4, 2.5, 0}, {1, 0, -2}, {0.01, 0.25, 0}, {1, -1, 1}, {1, 60, 2}, {1.5, 61, -3}, {1.25, -70, 1}, {3, 4, 4}, {0.75, 0.5, -0.25}};
    for (auto& x : s) { Complete<ShallowWater> q; q.height = x[0]; q.momentum[0] = x[0] * x[1]; q.momentum[1] = x[0] * x[2]; pool.push_back(q); }
    for (int k = 2; k < 5; ++k) { Complete<ShallowWater> q = swap(pool[k], 0, 1); pool.push_back(q); }
  }
  double velocity(const Complete<ShallowWater>& q, int dir) const { return q.momentum[dir] / q.height; }
  double sound(const Complete<ShallowWater>& q) const { return std::sqrt(eq.gravity_ * q.height); }
  double pressure(const Complete<ShallowWater>& q) const { return q.height; }
  bool admissible(const Complete<ShallowWater>& l, const Complete<ShallowWater>& r, int dir, bool exact) const { return !exact || velocity(r, dir) - velocity(l, dir) < 1.9 * (sound(l) + sound(r)); }
  std::string inadmissible(const V& u, const Complete<ShallowWater>&, const Complete<ShallowWater>&, const Complete<ShallowWater>&, bool) const { return u[0] > 0 ? "" : "height"; }
};
template <> struct Adapter<Burgers1d> : Common<Burgers1d> {
  using Q = Complete<Burgers1d>; using F = Conservative<Burgers1d>;
  explicit Adapter(int) : Common<Burgers1d>(Burgers1d{}) { for (double x : {-3.0, -1.0, -0.5, 0.25, 1.0, 2.0, 3.0, 0.0, 40.0, 41.0}) { Q q; q.u = x; pool.push_back(q); } }
  Q mirror(Q q, int) const { q.u *= -1; return q; }
  Q swap(Q q, int, int) const { return q; }
  F mirror_flux(F f, int) const { return f; }
  F swap_flux(F f, int, int) const { return f; }
  double velocity(const Q& q, int) const { return q.u; }
  double sound(const Q&) const { return 0; }
  double pressure(const Q& q) const { return q.u; }
  bool admissible(const Q&, const Q&, int, bool) const { return true; }
  std::string inadmissible(const V& u, const Q& a, const Q& b, const Q& c, bool) const { return u[0] >= std::min({a.u, b.u, c.u}) - 1e-12 && u[0] <= std::max({a.u, b.u, c.u}) + 1e-12 ? "" : "maximum principle"; }
};
template <> struct Adapter<Advection2d> : Common<Advection2d> {
  using Q = Complete<Advection2d>; using F = Conservative<Advection2d>;
  static std::array<double, 2> vel(int k) { const double v[][2] = {{1, 1}, {-2, 0.25}, {0.5, -3}, {-1, -1}, {2, 1.5}, {-0.125, 8}}; return {v[k][0], v[k][1]}; }
  explicit Adapter(int variant) : Common<Advection2d>(Advection2d(vel(variant))) { for (double x : {-3.0, -1.0, 0.0, 0.25, 1.0, 2.0}) { Q q; q.mass = x; pool.push_back(q); } }
  Q mirror(Q q, int) const { return q; }
  Q swap(Q q, int, int) const { return q; }
  F mirror_flux(F f, int) const { return f; }
  F swap_flux(F f, int, int) const { return f; }
  double velocity(const Q&, int dir) const { return eq.velocity[dir]; }
  double sound(const Q&) const { return 0; }
  double pressure(const Q&) const { return 0; }
  bool admissible(const Q&, const Q&, int, bool) const { return true; }
  std::string inadmissible(const V& u, const Q& a, const Q& b, const Q& c, bool) const { return u[0] >= std::min({a.mass, b.mass, c.mass}) - 1e-12 && u[0] <= std::max({a.mass, b.mass, c.mass}) + 1e-12 ? "" : "maximum principle"; }
};
const Burke2012 burke{};
template <int D> struct Adapter<IdealGasMix<D>> : WithMomentum<IdealGasMix<D>> {
  using Eq = IdealGasMix<D>;
  using WithMomentum<Eq>::eq;
  using WithMomentum<Eq>::pool;
  explicit Adapter(int) : WithMomentum<Eq>(Eq{FlameMasterReactor(burke)}) {
    struct S { double T, rho, u, v, w; int mix; };
    const S s[] = {{300, 1.2, 0, 0, 0, 0}, {300, 0.3, 0, 20, -5, 1}, {2500, 0.12, -150, 10, 0, 2}, {1200, 4, 30, -40, 10, 0}, {300, 1.0, 5000, 0, 100, 1}, {320, 1.1, 5010, 30, 0, 3}, {400, 0.8, -7000, 0, 0, 2}, {900, 2, -12, 300, 7, 3}, {600, 0.6, 0, 0, 0, 0}};
    for (const S& x : s) {
      std::vector<double> y(Burke2012::sEnd, 0.0);
      if (x.mix == 0) { y[0] = 0.75; y[3] = 0.25; } else if (x.mix == 1) { y[0] = 0.5; y[3] = 0.375; y[6] = 0.125; } else if (x.mix == 2) { y[7] = 0.75; y[5] = 0.25; } else for (int i = 0; i < Burke2012::sEnd; ++i) y[i] = (i + 1.0) / 66.0;
      eq.GetReactor().SetMassFractions(span<const double>(y.data(), std::ptrdiff_t(y.size())));
      eq.GetReactor().SetTemperature(x.T);
      eq.GetReactor().SetDensity(x.rho);
      Complete<Eq> q(eq);
      Eigen::Array<double, D, 1> u;
      const double us[] = {x.u, x.v, x.w};
      for (int d = 0; d < D; ++d) u[d] = us[d];
      eq.CompleteFromReactor(q, u);
      pool.push_back(q);
    }
  }
  double velocity(const Complete<Eq>& q, int dir) const { return q.momentum[dir] / q.density; }
  double sound(const Complete<Eq>& q) const { return q.speed_of_sound; }
  double pressure(const Complete<Eq>& q) const { return q.pressure; }
  bool admissible(const Complete<Eq>&, const Complete<Eq>&, int, bool) const { return true; }
  std::string inadmissible(const V& u, const Complete<Eq>& a, const Complete<Eq>& b, const Complete<Eq>& c, bool physical) const {
    if (!(u[0] > 0)) return "density";
    const V x = flat(AsCons(a)), y = flat(AsCons(b)), z = flat(AsCons(c));
    for (std::size_t i = 2 + D; i < u.size(); ++i) {
      const double lo = std::min({x[i] / x[0], y[i] / y[0], z[i] / z[0]}), hi = std::max({x[i] / x[0], y[i] / y[0], z[i] / z[0]}), v = u[i] / u[0];
      if (!(v >= lo - 1e-9 && v <= hi + 1e-9)) return mc::cat("mass fraction ", i - 2 - D, ": ", v, " not between ", lo, " and ", hi);
    }
    return "";
  }
};
} // namespace
#endif
