// First order numerical fluxes: consistency, symmetry, upwinding, agreement of scalar, vectorised and masked forms, positivity.
#include "mc.hpp"
#include "fub/core/type_traits.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/PerfectGasMix.hpp"
#include "fub/equations/IdealGasMix.hpp"
#include "fub/equations/ideal_gas_mix/mechanism/Burke2012.hpp"
#include "fub/equations/ShallowWater.hpp"
#include "fub/equations/Burgers.hpp"
#include "fub/equations/Advection.hpp"
#include "fub/equations/perfect_gas/EinfeldtSignalVelocities.hpp"
#include "fub/equations/perfect_gas/ExactRiemannSolver.hpp"
#include "fub/equations/perfect_gas/GodunovMethod.hpp"
#include "fub/equations/perfect_gas/HllemMethod.hpp"
#include "fub/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp"
#include "fub/flux_method/HllMethod.hpp"
#include "fub/flux_method/GodunovMethod.hpp"
#include "pools.hpp"
using namespace fub;
namespace {
struct Opt {
  double tol = 1e-11;
  bool masked = true, mirror = true, upwind = true, contact = false, positive = false, bounded = false, tight_dt = true, exact = false;
};
// signals of two equal states etc. are judged by the speeds of the states
template <typename Eq> double speed(const Adapter<Eq>& A, const Complete<Eq>& q, int dir, int sign) { return A.velocity(q, dir) + sign * A.sound(q); }

template <typename Eq, typename Method> void pairs(mc::Ctx& ctx, Adapter<Eq>& A, Method& method, const Opt& opt) {
  constexpr int D = Eq::Rank();
  const int n = int(A.pool.size());
  const int i = ctx.choose(n), j = ctx.choose(n), dir = ctx.choose(D);
  const Direction d = static_cast<Direction>(dir);
  const Complete<Eq>&L = A.pool[i], &R = A.pool[j];
  if (!A.admissible(L, R, dir, opt.exact)) { ctx.outcome("vacuum"); return; }
  const Duration dt(0.125);
  const double dx = 0.5;
  auto scalar = [&](const Complete<Eq>& l, const Complete<Eq>& r, Direction dd) {
    Conservative<Eq> f(A.eq);
    const Complete<Eq> s[2] = {l, r};
    method.ComputeNumericFlux(f, span<const Complete<Eq>, 2>(s), dt, dx, dd);
    return f;
  };
  auto stable = [&](const Complete<Eq>& l, const Complete<Eq>& r, Direction dd) {
    const Complete<Eq> s[2] = {l, r};
    return method.ComputeStableDt(span<const Complete<Eq>, 2>(s), dx, dd);
  };
  const Conservative<Eq> F = scalar(L, R, d);
  const V f = flat(F), fL = A.flux(L, d), fR = A.flux(R, d), uL = A.cons(L), uR = A.cons(R);
  double smax = 0;
  for (const auto* q : {&L, &R}) smax = std::max({smax, std::fabs(speed(A, *q, dir, 1)), std::fabs(speed(A, *q, dir, -1))});
  V scale(f.size());
  double top = 0;
  for (std::size_t k = 0; k < f.size(); ++k) {
    scale[k] = std::fabs(fL[k]) + std::fabs(fR[k]) + smax * (std::fabs(uL[k]) + std::fabs(uR[k]));
    top = std::max(top, scale[k]);
  }
  for (double& s : scale) s += 1e-3 * top + 1e-300;
  auto same = [&](const V& a, const V& b, double tol) {
    for (std::size_t k = 0; k < a.size(); ++k) if (!(std::fabs(a[k] - b[k]) <= tol * scale[k])) return false;
    return a.size() == b.size();
  };
  // --- equal states: the physical flux and the exact speed
  if (i == j) ctx.check(same(f, fL, opt.tol), "inconsistent", show(f), " expected ", show(fL), " state ", show(flat(L)), " dir ", dir);
  const double h = stable(L, R, d);
  if (i == j && opt.tight_dt && smax > 0) ctx.check(std::fabs(h * smax / dx - 1) < 1e-10, "stable-step-of-equal-states", h, " expected ", dx / smax, " state ", show(flat(L)), " dir ", dir);
  if (opt.tight_dt) ctx.check(h > 0 && h * std::max(-speed(A, L, dir, -1), speed(A, R, dir, 1)) <= dx * (1 + 1e-10) , "stable-step-too-large", h);
  {
    const Complete<Eq> s[2] = {L, R};
    const double h4 = method.ComputeStableDt(span<const Complete<Eq>, 2>(s), 4 * dx, d);
    ctx.check(!(smax > 0) || std::fabs(h4 - 4 * h) <= 1e-14 * h4 || !std::isfinite(h), "stable-step-not-proportional-to-cell-size", h4, " ", h);
  }
  // --- mirror image
  if (opt.mirror) {
    const Complete<Eq> ml = A.mirror(R, dir), mr = A.mirror(L, dir);
    V m = flat(A.mirror_flux(scalar(ml, mr, d), dir));
    ctx.check(same(m, f, 4 * opt.tol), "not-mirror-symmetric", show(m), " expected ", show(f), " of ", show(flat(L)), " | ", show(flat(R)), " dir ", dir);
    const double hm = stable(ml, mr, d);
    ctx.check(std::fabs(hm - h) <= 1e-6 * h || h == hm, "stable-step-not-mirror-symmetric", hm, " expected ", h);
  }
  // --- the direction does not matter
  if (dir > 0 && opt.mirror) {
    const Complete<Eq> sl = A.swap(L, 0, dir), sr = A.swap(R, 0, dir);
    V m = flat(A.swap_flux(scalar(sl, sr, Direction::X), 0, dir));
    ctx.check(same(m, f, 4 * opt.tol), "depends-on-direction", show(m), " expected ", show(f), " of ", show(flat(L)), " | ", show(flat(R)), " dir ", dir);
    const double hs = stable(sl, sr, Direction::X);
    ctx.check(std::fabs(hs - h) <= 1e-6 * h, "stable-step-depends-on-direction", hs, " expected ", h);
  }
  // --- supersonic flow takes the upwind flux
  if (opt.upwind) {
    const double a = std::max(A.sound(L), A.sound(R)), vl = A.velocity(L, dir), vr = A.velocity(R, dir), guard = 4 * (a + std::fabs(vl - vr));
    if (std::min(vl, vr) > guard) { ctx.check(same(f, fL, opt.tol), "supersonic-flux-not-upwind", show(f), " expected ", show(fL)); ctx.outcome("supersonic"); }
    if (std::max(vl, vr) < -guard) { ctx.check(same(f, fR, opt.tol), "supersonic-flux-not-upwind", show(f), " expected ", show(fR)); ctx.outcome("supersonic"); }
  }
  // --- stationary contacts are kept
  if (opt.contact && A.velocity(L, dir) == 0 && A.velocity(R, dir) == 0 && A.pressure(L) == A.pressure(R)) {
    ctx.check(same(f, fL, opt.tol), "contact-not-resolved", show(f), " expected ", show(fL), " of ", show(flat(L)), " | ", show(flat(R)));
    ctx.outcome("contact");
  }
  // --- vectorised form, the pair in any lane
  const int at = (3 * i + 5 * j + dir) % W;
  CompleteArray<Eq> s[2] = {CompleteArray<Eq>(A.eq), CompleteArray<Eq>(A.eq)};
  std::vector<const Complete<Eq>*> ls, rs;
  for (int k = 0; k < W; ++k) {
    int a = k == at ? i : (i + 3 * k + 1) % n, b = k == at ? j : (j + 5 * k + 2) % n;
    if (!A.admissible(A.pool[a], A.pool[b], dir, opt.exact)) b = a;
    ls.push_back(&A.pool[a]); rs.push_back(&A.pool[b]);
    set_lane(s[0], A.pool[a], k);
    set_lane(s[1], A.pool[b], k);
  }
  ConservativeArray<Eq> FA(A.eq);
  fill(FA, 7.0);
  method.ComputeNumericFlux(FA, span<const CompleteArray<Eq>, 2>(s), dt, dx, d);
  const Array1d H = method.ComputeStableDt(span<const CompleteArray<Eq>, 2>(s), dx, d);
  std::vector<V> ref(W);
  std::vector<double> refh(W);
  auto lane_same = [&](const V& a, int k, double tol) {
    const V &e = ref[k];
    const V x = A.flux(*ls[k], d), y = A.flux(*rs[k], d), p = A.cons(*ls[k]), q = A.cons(*rs[k]);
    double s = 0;
    for (const auto* z : {ls[k], rs[k]}) s = std::max({s, std::fabs(speed(A, *z, dir, 1)), std::fabs(speed(A, *z, dir, -1))});
    double t = 0;
    V sc(e.size());
    for (std::size_t c = 0; c < e.size(); ++c) { sc[c] = std::fabs(x[c]) + std::fabs(y[c]) + s * (std::fabs(p[c]) + std::fabs(q[c])); t = std::max(t, sc[c]); }
    for (std::size_t c = 0; c < e.size(); ++c) if (!(std::fabs(a[c] - e[c]) <= tol * (sc[c] + 1e-3 * t + 1e-300))) return false;
    return true;
  };
  for (int k = 0; k < W; ++k) {
    ref[k] = flat(scalar(*ls[k], *rs[k], d));
    refh[k] = stable(*ls[k], *rs[k], d);
    ctx.check(lane_same(lane(FA, k), k, opt.tol), "vectorised-flux-differs", "lane ", k, " ", show(lane(FA, k)), " expected ", show(ref[k]), " of ", show(flat(*ls[k])), " | ", show(flat(*rs[k])), " dir ", dir);
    ctx.check(std::fabs(H[k] - refh[k]) <= 1e-6 * refh[k] || H[k] == refh[k], "vectorised-stable-step-differs", "lane ", k, " ", H[k], " expected ", refh[k], " of ", show(flat(*ls[k])), " | ", show(flat(*rs[k])));
  }
  // --- masked form: unused lanes are empty or hold anything
  if constexpr (!std::is_same_v<Eq, ShallowWater> && !std::is_same_v<Eq, Burgers1d> && !std::is_same_v<Eq, Advection2d>) if (opt.masked) {
    for (int m : {0xff, 1 << at, 0xff & ~(1 << at), 0x55 << (i % 2), 0x0f, 0}) {
      for (int junk = 0; junk < 2; ++junk) {
        Array1d face = Array1d::Zero(), vol[2] = {Array1d::Zero(), Array1d::Zero()};
        CompleteArray<Eq> t[2] = {s[0], s[1]};
        for (int k = 0; k < W; ++k) {
          if ((m >> k) & 1) { face[k] = 1.0 / (k + 1); vol[0][k] = 0.5; vol[1][k] = 1.0; }
          else {
            Complete<Eq> z(A.eq);
            set_lane(t[0], junk == 0 ? z : *rs[(k + 1) % W], k);
            set_lane(t[1], z, k);
          }
        }
        fill(FA, 7.0);
        method.ComputeNumericFlux(FA, face, span<const CompleteArray<Eq>, 2>(t), span<const Array1d, 2>(vol), dt, dx, d);
        const Array1d HM = method.ComputeStableDt(span<const CompleteArray<Eq>, 2>(t), face, span<const Array1d, 2>(vol), dx, d);
        for (int k = 0; k < W; ++k) {
          if ((m >> k) & 1) {
            ctx.check(lane_same(lane(FA, k), k, opt.tol), "masked-flux-differs", "mask ", m, " lane ", k, " ", show(lane(FA, k)), " expected ", show(ref[k]));
            ctx.check(std::fabs(HM[k] - refh[k]) <= 1e-6 * refh[k] || HM[k] == refh[k], "masked-stable-step-differs", "mask ", m, " lane ", k, " ", HM[k], " expected ", refh[k]);
          } else {
            for (double x : lane(FA, k)) ctx.check(x == 0.0, "flux-in-unused-lane", "mask ", m, " lane ", k, " ", x);
            ctx.check(HM[k] > 1e300, "unused-lane-limits-the-step", "mask ", m, " lane ", k, " ", HM[k]);
          }
        }
      }
    }
  }
  // --- a first order step keeps density, energy and mass fractions in their bounds
  if (opt.positive || opt.bounded) {
    for (int c = 0; c < n; c += ctx.thorough() ? 1 : 3) {
      const Complete<Eq>& M = A.pool[(c + i + j) % n];
      if (!A.admissible(L, M, dir, opt.exact) || !A.admissible(M, R, dir, opt.exact)) continue;
      const double step = 0.5 * std::min(stable(L, M, d), stable(M, R, d));
      if (!std::isfinite(step)) continue;
      const V a = flat(scalar(L, M, d)), b = flat(scalar(M, R, d));
      V u = A.cons(M);
      for (std::size_t k = 0; k < u.size(); ++k) u[k] += step / dx * (a[k] - b[k]);
      if (!opt.positive && step / dx * (std::max(0.0, b[0]) + std::max(0.0, -a[0])) > 0.9 * A.cons(M)[0]) { ctx.outcome("mass-outflow"); continue; }
      const std::string bad = A.inadmissible(u, L, M, R, opt.positive);
      ctx.check(bad.empty(), "first-order-step-leaves-the-bounds", bad, " after ", show(flat(L)), " | ", show(flat(M)), " | ", show(flat(R)), " dir ", dir, " gives ", show(u));
      ctx.transition();
    }
  }
  ctx.transition(20);
  ctx.validated();
  ctx.state(mc::Hash().add(i).add(j).add(dir));
}
template <typename Eq> auto& adapter(int variant) {
  static std::map<int, std::unique_ptr<Adapter<Eq>>> m;
  auto& p = m[variant];
  if (!p) p = std::make_unique<Adapter<Eq>>(variant);
  return *p;
}
template <typename Eq, typename Make> void first_order(mc::Ctx& ctx, int variants, Make make, const Opt& opt) {
  auto& A = adapter<Eq>(ctx.choose(variants));
  auto method = make(A.eq);
  pairs(ctx, A, method, opt);
}
// the Riemann solver behind the HLL type methods, which cut cells use
// its definition: the average of HLLE and, inside the fan, linear jumps of entropy, shear and composition that travel with the
// mean speed (Einfeldt, Munz, Roe, Sjogreen 1991); upwinding methods take everything but entropy from the side the flow comes from
template <typename Eq> V fan_state(Adapter<Eq>& A, const Complete<Eq>& L, const Complete<Eq>& R, int dir, bool upwind, bool& sure) {
  constexpr int D = Eq::Rank();
  const double M2 = fub::euler::MaSq(A.eq), M = std::sqrt(M2), g = fub::euler::Gamma(A.eq, L);
  double vl[3]{}, vr[3]{};
  for (int k = 0; k < D; ++k) { vl[k] = L.momentum[k] / L.density; vr[k] = R.momentum[k] / R.density; }
  const double w = std::sqrt(L.density), z = std::sqrt(R.density), rho = w * z;
  auto roe = [&](double a, double b) { return (w * a + z * b) / (w + z); };
  V u = A.cons(L), v = A.cons(R), f = A.flux(L, static_cast<Direction>(dir)), h = A.flux(R, static_cast<Direction>(dir));
  double kl = 0, kr = 0, up[3]{}, q2 = 0, q[3]{};
  if (upwind) for (int k = 0; k < D; ++k) if (k != dir) { kl += 0.5 * M2 * vl[k] * vl[k]; kr += 0.5 * M2 * vr[k] * vr[k]; }
  u[1 + D] -= L.density * kl; v[1 + D] -= R.density * kr; f[1 + D] -= L.momentum[dir] * kl; h[1 + D] -= R.momentum[dir] * kr;
  if (upwind) for (int k = 0; k < D; ++k) if (k != dir) u[1 + k] = v[1 + k] = f[1 + k] = h[1 + k] = 0;
  for (int k = 0; k < D; ++k) { q[k] = upwind && k != dir ? 0 : roe(vl[k], vr[k]); q2 += q[k] * q[k]; }
  const double H = roe((u[1 + D] + L.pressure) / L.density, (v[1 + D] + R.pressure) / R.density), c2 = (g - 1) * (H - 0.5 * M2 * q2), c = std::sqrt(c2);
  const double a = std::max(L.speed_of_sound, R.speed_of_sound), sl = std::min(vl[dir] - a / M, q[dir] - c / M), sr = std::max(vr[dir] + a / M, q[dir] + c / M);
  sure = std::fabs(sl) > 1e-9 && std::fabs(sr) > 1e-9;
  if (sl > 0) return A.cons(L);
  if (sr < 0) return A.cons(R);
  V x(u.size());
  for (std::size_t k = 0; k < x.size(); ++k) x[k] = (sr * v[k] - sl * u[k] + f[k] - h[k]) / (sr - sl);
  const double mean = 0.5 * (sl + sr), slope = -2 * mean / (sr - sl) * c / (c + std::fabs(mean));
  if (upwind) sure = sure && std::fabs(mean) > 1e-9;
  // jumps: density at constant pressure, then transverse velocities
  double entropy = R.density - L.density, dE = v[1 + D] - u[1 + D];
  double l = (H - M2 * q2) * entropy - dE;
  for (int k = 0; k < D; ++k) l += M2 * q[k] * (v[1 + k] - u[1 + k]);
  entropy = (g - 1) / c2 * l;
  x[0] += slope * entropy;
  x[1 + D] += slope * entropy * 0.5 * M2 * q2;
  for (int k = 0; k < D; ++k) {
    x[1 + k] += slope * entropy * q[k];
    if (k == dir || upwind) continue;
    x[1 + k] += slope * rho * (vr[k] - vl[k]);
    x[1 + D] += slope * rho * (vr[k] - vl[k]) * M2 * q[k];
  }
  const bool left = mean > 0;
  if (upwind) {
    for (int k = 0; k < D; ++k) if (k != dir) { up[k] = left ? vl[k] : vr[k]; x[1 + k] = x[0] * up[k]; }
    x[1 + D] += x[0] * (left ? kl : kr);
  }
  for (std::size_t k = 2 + D; k < x.size(); ++k) {
    const double yl = u[k] / L.density, yr = v[k] / R.density;
    if (upwind) x[k] = x[0] * (left ? yl : yr);
    else x[k] += slope * (entropy * roe(yl, yr) + rho * (yr - yl));
  }
  return x;
}
template <typename Eq, bool Upwind, typename Make> void middle(mc::Ctx& ctx, int variants, Make make) {
  auto& A = adapter<Eq>(ctx.choose(variants));
  auto method = make(A.eq);
  const int n = int(A.pool.size()), i = ctx.choose(n), j = ctx.choose(n), dir = ctx.choose(Eq::Rank());
  const Direction d = static_cast<Direction>(dir);
  const Complete<Eq>&L = A.pool[i], &R = A.pool[j];
  const double a0 = std::min(A.sound(L), A.sound(R));
  bool moderate = std::fabs(std::log(L.density / R.density)) < 1.5 && std::fabs(std::log(L.pressure / R.pressure)) < 1.5;
  for (int k = 0; k < Eq::Rank(); ++k) moderate = moderate && std::fabs(A.velocity(L, k) - A.velocity(R, k)) <= a0;
  { // nearly vacuum or violently colliding states have no admissible linearised solution
    const double a = std::max(A.sound(L), A.sound(R)), vl = A.velocity(L, dir), vr = A.velocity(R, dir), guard = 4 * (a + std::fabs(vl - vr));
    if (!moderate && !(std::min(vl, vr) > guard) && !(std::max(vl, vr) < -guard)) { ctx.outcome("too-strong"); return; }
  }
  Complete<Eq> q(A.eq);
  method.SolveRiemannProblem(q, L, R, d);
  const V x = flat(q);
  if (moderate) {
    bool sure = true;
    const V e = fan_state(A, L, R, dir, Upwind, sure);
    double t = 0;
    for (double v : e) t = std::max(t, std::fabs(v));
    if (sure) for (std::size_t k = 0; k < e.size(); ++k) if (!(std::fabs(x[k] - e[k]) <= 1e-10 * t)) { ctx.check(false, "not-the-state-of-the-fan", show(x), " expected ", show(e), " left ", show(flat(L)), " right ", show(flat(R)), " dir ", dir); break; }
    if (sure) ctx.outcome("fan");
  }
  auto same = [&](const Complete<Eq>& e) {
    const V y = flat(e);
    double t = 0;
    for (double v : y) t = std::max(t, std::fabs(v));
    for (std::size_t k = 0; k < y.size(); ++k) if (!(std::fabs(x[k] - y[k]) <= 1e-9 * (std::fabs(y[k]) + 1e-3 * t))) return false;
    return true;
  };
  if (i == j) ctx.check(same(L), "middle-of-equal-states", show(x), " expected ", show(flat(L)), " dir ", dir);
  const double a = std::max(A.sound(L), A.sound(R)), vl = A.velocity(L, dir), vr = A.velocity(R, dir), guard = 4 * (a + std::fabs(vl - vr));
  if (std::min(vl, vr) > guard) { ctx.check(same(L), "supersonic-state-not-upwind", show(x), " expected ", show(flat(L))); ctx.outcome("supersonic"); }
  if (std::max(vl, vr) < -guard) { ctx.check(same(R), "supersonic-state-not-upwind", show(x), " expected ", show(flat(R))); ctx.outcome("supersonic"); }
  if (dir > 0) {
    Complete<Eq> s(A.eq);
    method.SolveRiemannProblem(s, A.swap(L, 0, dir), A.swap(R, 0, dir), Direction::X);
    ctx.check(same(A.swap(s, 0, dir)), "middle-depends-on-direction", show(x), " expected ", show(flat(A.swap(s, 0, dir))));
  }
  ctx.transition();
  ctx.validated();
  ctx.state(mc::Hash().add(i).add(j).add(dir));
}
// Einfeldt's signal speeds bound those of the states and of their Roe average, and are exact for equal states
template <typename Eq> void signals(mc::Ctx& ctx, int variants) {
  auto& A = adapter<Eq>(ctx.choose(variants));
  EinfeldtSignalVelocities<Eq> sig;
  const int n = int(A.pool.size()), i = ctx.choose(n), j = ctx.choose(n), dir = ctx.choose(Eq::Rank());
  const Direction d = static_cast<Direction>(dir);
  const Complete<Eq>&L = A.pool[i], &R = A.pool[j];
  const auto s = sig(A.eq, L, R, d);
  const double l = speed(A, L, dir, -1), r = speed(A, R, dir, 1), tol = 1e-11 * (1 + std::fabs(l) + std::fabs(r));
  ctx.check(s[0] <= l + tol && s[1] >= r - tol, "signals-do-not-cover-the-states", s[0], " ", s[1], " expected beyond ", l, " ", r);
  if (i == j) ctx.check(std::fabs(s[0] - l) <= tol && std::fabs(s[1] - r) <= tol, "signals-of-equal-states", s[0], " ", s[1], " expected ", l, " ", r, " dir ", dir, " state ", show(flat(L)));
  const double wl = std::sqrt(L.density), wr = std::sqrt(R.density), u = (wl * A.velocity(L, dir) + wr * A.velocity(R, dir)) / (wl + wr), a = std::min(A.sound(L), A.sound(R));
  ctx.check(s[0] <= u - a + tol && s[1] >= u + a - tol, "signals-do-not-cover-the-average", s[0], " ", s[1], " expected beyond ", u - a, " ", u + a);
  const auto m = sig(A.eq, A.mirror(R, dir), A.mirror(L, dir), d);
  ctx.check(std::fabs(m[0] + s[1]) <= tol && std::fabs(m[1] + s[0]) <= tol, "signals-not-mirror-symmetric", m[0], " ", m[1], " of ", s[0], " ", s[1]);
  const auto w = sig(A.eq, A.swap(L, 0, dir), A.swap(R, 0, dir), Direction::X);
  ctx.check(std::fabs(w[0] - s[0]) <= tol && std::fabs(w[1] - s[1]) <= tol, "signals-depend-on-direction");
  for (int m : {0xff, 0x5a, 0x01}) for (bool masked : {false, true}) {
    CompleteArray<Eq> x(A.eq), y(A.eq);
    MaskArray mask;
    for (int k = 0; k < W; ++k) {
      mask[k] = (m >> k) & 1;
      const Complete<Eq> z(A.eq);
      set_lane(x, masked && !mask[k] ? z : A.pool[(i + k) % n], k);
      set_lane(y, masked && !mask[k] ? z : A.pool[(j + 3 * k) % n], k);
    }
    const auto S = masked ? sig(A.eq, x, y, mask, d) : sig(A.eq, x, y, d);
    for (int k = 0; k < W; ++k) if (!masked || mask[k]) {
      const auto e = sig(A.eq, A.pool[(i + k) % n], A.pool[(j + 3 * k) % n], d);
      ctx.check(std::fabs(S[0][k] - e[0]) <= 1e-11 * (1 + std::fabs(e[0])) && std::fabs(S[1][k] - e[1]) <= 1e-11 * (1 + std::fabs(e[1])), masked ? "masked-signals-differ" : "vectorised-signals-differ", S[0][k], " ", S[1][k], " expected ", e[0], " ", e[1]);
    }
  }
  ctx.transition();
  ctx.validated();
  ctx.state(mc::Hash().add(i).add(j).add(dir));
}
// signal speeds chosen by the test
struct Chosen {
  double l[W], r[W];
  template <typename Eq, typename C> auto operator()(const Eq&, const C&, const C&, Direction) const {
    if constexpr (std::is_same_v<C, Complete<Eq>>) return std::array<double, 2>{l[0], r[0]};
    else { std::array<Array1d, 2> s; for (int k = 0; k < W; ++k) { s[0][k] = l[k]; s[1][k] = r[k]; } return s; }
  }
  template <typename Eq, typename C> std::array<Array1d, 2> operator()(const Eq& e, const C& a, const C& b, MaskArray, Direction d) const { return (*this)(e, a, b, d); }
};
template <typename Eq> void hll_formula(mc::Ctx& ctx) {
  auto& A = adapter<Eq>(0);
  const int n = int(A.pool.size()), i = ctx.choose(n), j = ctx.choose(n), dir = ctx.choose(Eq::Rank());
  const Direction d = static_cast<Direction>(dir);
  const std::pair<double, double> speeds[] = {{-1, 1}, {-3, 0.5}, {-0.25, 8}, {1, 2}, {-2, -1}, {0, 1}, {-1, 0}, {-64, 32}};
  const int first = ctx.choose(8);
  Chosen c;
  for (int k = 0; k < W; ++k) { c.l[k] = speeds[(first + k) % 8].first; c.r[k] = speeds[(first + k) % 8].second; }
  const Complete<Eq>&L = A.pool[i], &R = A.pool[j];
  Hll<Eq, Chosen> method(A.eq, c);
  auto expect = [&](const Complete<Eq>& a, const Complete<Eq>& b, double l, double r, bool state) {
    V f = A.flux(a, d), g = A.flux(b, d), u = A.cons(a), v = A.cons(b), x(f.size());
    for (std::size_t k = 0; k < x.size(); ++k)
      x[k] = state ? (l >= 0 ? u[k] : r <= 0 ? v[k] : (r * v[k] - l * u[k] + f[k] - g[k]) / (r - l)) : l >= 0 ? f[k] : r <= 0 ? g[k] : (r * f[k] - l * g[k] + l * r * (v[k] - u[k])) / (r - l);
    return x;
  };
  auto same = [&](const V& a, const V& b) {
    double t = 1;
    for (double v : b) t = std::max(t, std::fabs(v));
    for (std::size_t k = 0; k < b.size(); ++k) if (!(std::fabs(a[k] - b[k]) <= 1e-11 * t)) return false;
    return true;
  };
  const Complete<Eq> s[2] = {L, R};
  Conservative<Eq> F(A.eq);
  // the pressure between the states goes with the flux
  auto star = [&](const Complete<Eq>& a, const Complete<Eq>& b, double l, double r) { l = std::min(l, 0.0); r = std::max(r, 0.0); return (r * A.pressure(a) - l * A.pressure(b)) / (r - l); };
  if constexpr (std::is_same_v<Eq, PerfectGas<2>>) {
    const double p = method.ComputeNumericFlux(F, span<const Complete<Eq>, 2>(s), Duration(0.5), 0.25, d);
    ctx.close(p, star(L, R, c.l[0], c.r[0]), 1e-12, "hll-pressure-wrong");
  } else method.ComputeNumericFlux(F, span<const Complete<Eq>, 2>(s), Duration(0.5), 0.25, d);
  const V e = expect(L, R, c.l[0], c.r[0], false);
  if (c.l[0] != 0 && c.r[0] != 0) {
    const V w = expect(L, R, c.l[0], c.r[0], true);
    double kinetic = 0;
    for (int k = 0; k < Eq::Rank(); ++k) kinetic += 0.5 * w[1 + k] * w[1 + k] / w[0];
    bool positive = w[0] > 0;
    if constexpr (std::is_same_v<Eq, PerfectGas<2>>) positive = positive && w[1 + Eq::Rank()] > kinetic;
    if (positive) {
      Complete<Eq> q(A.eq);
      method.SolveRiemannProblem(q, L, R, d);
      ctx.check(same(A.cons(q), w), "hll-state-wrong", show(A.cons(q)), " expected ", show(w), " for speeds ", c.l[0], " ", c.r[0]);
      Complete<Eq> again = q;
      if constexpr (std::is_same_v<Eq, PerfectGas<2>>) { CompleteFromCons(A.eq, again, q); ctx.close(q.pressure, again.pressure, 1e-9, "hll-state-incomplete"); ctx.close(q.speed_of_sound, again.speed_of_sound, 1e-9, "hll-state-incomplete"); }
    }
  }
  ctx.check(same(flat(F), e), "hll-flux-wrong", show(flat(F)), " expected ", show(e), " for speeds ", c.l[0], " ", c.r[0]);
  ctx.close(method.ComputeStableDt(span<const Complete<Eq>, 2>(s), 0.25, d), 0.25 / std::max(std::fabs(c.l[0]), std::fabs(c.r[0])), 1e-14, "hll-stable-step-wrong");
  CompleteArray<Eq> S[2] = {CompleteArray<Eq>(A.eq), CompleteArray<Eq>(A.eq)}, Q(A.eq);
  for (int k = 0; k < W; ++k) { set_lane(S[0], A.pool[(i + k) % n], k); set_lane(S[1], A.pool[(j + 2 * k) % n], k); }
  ConservativeArray<Eq> FA(A.eq);
  [[maybe_unused]] Array1d pa = Array1d::Zero();
  if constexpr (std::is_same_v<Eq, PerfectGas<2>>) pa = method.ComputeNumericFlux(FA, span<const CompleteArray<Eq>, 2>(S), Duration(0.5), 0.25, d);
  else method.ComputeNumericFlux(FA, span<const CompleteArray<Eq>, 2>(S), Duration(0.5), 0.25, d);
  const Array1d h = method.ComputeStableDt(span<const CompleteArray<Eq>, 2>(S), 0.25, d);
  method.SolveRiemannProblem(Q, S[0], S[1], d);
  if constexpr (std::is_same_v<Eq, PerfectGas<2>>) for (int m : {0xff, 0x5a, 0x01, 0x80}) {
    Array1d faces, volumes[2] = {Array1d::Constant(1.0), Array1d::Constant(1.0)};
    for (int k = 0; k < W; ++k) faces[k] = (m >> k) & 1 ? 0.125 * (k + 1) : 0.0;
    ConservativeArray<Eq> FM(A.eq);
    const Array1d pm = method.ComputeNumericFlux(FM, faces, span<const CompleteArray<Eq>, 2>(S), span<const Array1d, 2>(volumes), Duration(0.5), 0.25, d);
    const Array1d hm = method.ComputeStableDt(span<const CompleteArray<Eq>, 2>(S), faces, span<const Array1d, 2>(volumes), 0.25, d);
    for (int k = 0; k < W; ++k) {
      const bool on = (m >> k) & 1;
      const auto &a = A.pool[(i + k) % n], &b = A.pool[(j + 2 * k) % n];
      V e = expect(a, b, c.l[k], c.r[k], false);
      if (!on) for (double& v : e) v = 0;
      ctx.check(same(lane(FM, k), e), "masked-hll-flux-wrong", "lane ", k, " ", show(lane(FM, k)), " expected ", show(e));
      if (on) ctx.close(pm[k], star(a, b, c.l[k], c.r[k]), 1e-12, "masked-hll-pressure-wrong");
      if (on) ctx.close(hm[k], h[k], 1e-14, "masked-hll-stable-step-wrong"); else ctx.check(hm[k] > 1e300, "masked-hll-stable-step-wrong", hm[k]);
    }
  }
  for (int k = 0; k < W; ++k) {
    const auto &a = A.pool[(i + k) % n], &b = A.pool[(j + 2 * k) % n];
    const V e = expect(a, b, c.l[k], c.r[k], false), m = expect(a, b, c.l[k], c.r[k], true);
    if constexpr (std::is_same_v<Eq, PerfectGas<2>>) ctx.close(pa[k], star(a, b, c.l[k], c.r[k]), 1e-12, "vectorised-hll-pressure-wrong");
    ctx.check(same(lane(FA, k), e), "vectorised-hll-flux-wrong", "lane ", k, " ", show(lane(FA, k)), " expected ", show(e), " for speeds ", c.l[k], " ", c.r[k]);
    ctx.close(h[k], 0.25 / std::max(std::fabs(c.l[k]), std::fabs(c.r[k])), 1e-14, "vectorised-hll-stable-step-wrong");
    V mk = lane(Q, k);
    mk.resize(m.size());
    if (c.l[k] != 0 && c.r[k] != 0) ctx.check(same(mk, m), "vectorised-hll-state-wrong", "lane ", k, " ", show(mk), " expected ", show(m));
  }
  ctx.transition(W);
  ctx.validated();
  ctx.state(mc::Hash().add(i).add(j).add(dir).add(first));
}
template <typename Eq> auto hll = [](const Eq& eq) { return Hll<Eq, EinfeldtSignalVelocities<Eq>>(eq, EinfeldtSignalVelocities<Eq>{}); };
template <typename Eq, bool L> auto hllem = [](const Eq& eq) { return perfect_gas::Hllem<Eq, L>(eq); };
template <typename Eq> auto godunov = [](const Eq& eq) { return Godunov<Eq>(eq); };
Opt with(double tol, bool contact, bool positive, bool masked = true) { Opt o; o.tol = tol; o.contact = contact; o.positive = positive; o.masked = masked; return o; }
Opt upwind(double tol) { Opt o = with(tol, true, false); o.bounded = true; return o; }
Opt exact(double tol, bool masked = true) { Opt o = with(tol, true, true, masked); o.exact = true; o.tight_dt = false; return o; }
} // namespace
#define BOUNDS "all pairs of a pool of states x directions, 8 lanes, 6 masks x 2 contents of unused lanes"
#if PART == 1
SCENARIO("hlle-perfect-gas-1d", BOUNDS, 2) { first_order<PerfectGas<1>>(ctx, 1, hll<PerfectGas<1>>, with(1e-11, false, true)); }
SCENARIO("hlle-perfect-gas-2d", BOUNDS, 2) { first_order<PerfectGas<2>>(ctx, 1, hll<PerfectGas<2>>, with(1e-11, false, true)); }
SCENARIO("hlle-perfect-gas-3d", BOUNDS, 2) { first_order<PerfectGas<3>>(ctx, 1, hll<PerfectGas<3>>, with(1e-11, false, true)); }
SCENARIO("hlle-perfect-gas-mix-1d", BOUNDS, 2) { first_order<PerfectGasMix<1>>(ctx, 2, hll<PerfectGasMix<1>>, with(1e-11, false, true)); }
SCENARIO("hlle-perfect-gas-mix-2d", BOUNDS, 2) { first_order<PerfectGasMix<2>>(ctx, 2, hll<PerfectGasMix<2>>, with(1e-11, false, true)); }
SCENARIO("hlle-perfect-gas-mix-3d", BOUNDS, 2) { first_order<PerfectGasMix<3>>(ctx, 2, hll<PerfectGasMix<3>>, with(1e-11, false, true)); }
SCENARIO("signals-perfect-gas-1d", "all pairs of a pool of states", 1) { signals<PerfectGas<1>>(ctx, 1); }
SCENARIO("signals-perfect-gas-2d", "all pairs of a pool of states x directions", 1) { signals<PerfectGas<2>>(ctx, 1); }
SCENARIO("signals-perfect-gas-3d", "all pairs of a pool of states x directions", 1) { signals<PerfectGas<3>>(ctx, 1); }
SCENARIO("signals-perfect-gas-mix-1d", "all pairs of a pool of states", 1) { signals<PerfectGasMix<1>>(ctx, 2); }
SCENARIO("signals-perfect-gas-mix-2d", "all pairs of a pool of states x directions", 1) { signals<PerfectGasMix<2>>(ctx, 2); }
SCENARIO("signals-perfect-gas-mix-3d", "all pairs of a pool of states x directions", 1) { signals<PerfectGasMix<3>>(ctx, 2); }
SCENARIO("hll-shallow-water", BOUNDS, 2) { first_order<ShallowWater>(ctx, 2, [](const ShallowWater& eq) { return Hll<ShallowWater, ShallowWaterSignalVelocities>(eq, ShallowWaterSignalVelocities{}); }, with(1e-11, false, true, false)); }
SCENARIO("hlle-ideal-gas-mix-1d", BOUNDS, 2) { first_order<IdealGasMix<1>>(ctx, 1, hll<IdealGasMix<1>>, with(1e-11, false, true)); }
SCENARIO("hlle-ideal-gas-mix-2d", BOUNDS, 2) { first_order<IdealGasMix<2>>(ctx, 1, hll<IdealGasMix<2>>, with(1e-11, false, true)); }
SCENARIO("hlle-ideal-gas-mix-3d", BOUNDS, 2) { first_order<IdealGasMix<3>>(ctx, 1, hll<IdealGasMix<3>>, with(1e-11, false, true)); }
SCENARIO("signals-ideal-gas-mix-1d", "all pairs of a pool of states", 1) { signals<IdealGasMix<1>>(ctx, 1); }
SCENARIO("signals-ideal-gas-mix-2d", "all pairs of a pool of states x directions", 1) { signals<IdealGasMix<2>>(ctx, 1); }
SCENARIO("signals-ideal-gas-mix-3d", "all pairs of a pool of states x directions", 1) { signals<IdealGasMix<3>>(ctx, 1); }
SCENARIO("hll-formula-perfect-gas-2d", "all pairs of a pool x directions x 8 pairs of signal speeds, rotated through the lanes", 1) { hll_formula<PerfectGas<2>>(ctx); }
SCENARIO("hll-formula-shallow-water", "all pairs of a pool x directions x 8 pairs of signal speeds, rotated through the lanes", 1) { hll_formula<ShallowWater>(ctx); }
#endif
#if PART == 2
SCENARIO("godunov-perfect-gas-1d", BOUNDS, 2) { first_order<PerfectGas<1>>(ctx, 1, godunov<PerfectGas<1>>, exact(1e-6)); }
SCENARIO("godunov-perfect-gas-2d", BOUNDS, 4) { first_order<PerfectGas<2>>(ctx, 1, godunov<PerfectGas<2>>, exact(1e-6)); }
SCENARIO("godunov-perfect-gas-3d", BOUNDS, 4) { first_order<PerfectGas<3>>(ctx, 1, godunov<PerfectGas<3>>, exact(1e-6)); }
SCENARIO("godunov-shallow-water", BOUNDS, 2) { first_order<ShallowWater>(ctx, 2, godunov<ShallowWater>, exact(1e-6, false)); }
SCENARIO("godunov-burgers", BOUNDS, 1) { first_order<Burgers1d>(ctx, 1, godunov<Burgers1d>, exact(1e-12, false)); }
SCENARIO("godunov-advection", BOUNDS, 1) { Opt o = exact(1e-12, false); o.mirror = false; first_order<Advection2d>(ctx, 6, godunov<Advection2d>, o); }
#endif
#if PART == 3
SCENARIO("hllem-perfect-gas-1d", BOUNDS, 2) { first_order<PerfectGas<1>>(ctx, 1, hllem<PerfectGas<1>, false>, with(1e-10, true, false)); }
SCENARIO("hllem-perfect-gas-2d", BOUNDS, 2) { first_order<PerfectGas<2>>(ctx, 1, hllem<PerfectGas<2>, false>, with(1e-10, true, false)); }
SCENARIO("hllem-perfect-gas-3d", BOUNDS, 2) { first_order<PerfectGas<3>>(ctx, 1, hllem<PerfectGas<3>, false>, with(1e-10, true, false)); }
SCENARIO("hllem-upwind-perfect-gas-1d", BOUNDS, 2) { first_order<PerfectGas<1>>(ctx, 1, hllem<PerfectGas<1>, true>, upwind(1e-10)); }
SCENARIO("hllem-upwind-perfect-gas-2d", BOUNDS, 2) { first_order<PerfectGas<2>>(ctx, 1, hllem<PerfectGas<2>, true>, upwind(1e-10)); }
SCENARIO("hllem-upwind-perfect-gas-3d", BOUNDS, 2) { first_order<PerfectGas<3>>(ctx, 1, hllem<PerfectGas<3>, true>, upwind(1e-10)); }
SCENARIO("hllem-perfect-gas-mix-1d", BOUNDS, 2) { first_order<PerfectGasMix<1>>(ctx, 2, hllem<PerfectGasMix<1>, false>, with(1e-10, true, false)); }
SCENARIO("hllem-perfect-gas-mix-2d", BOUNDS, 2) { first_order<PerfectGasMix<2>>(ctx, 2, hllem<PerfectGasMix<2>, false>, with(1e-10, true, false)); }
SCENARIO("hllem-upwind-perfect-gas-mix-1d", BOUNDS, 2) { first_order<PerfectGasMix<1>>(ctx, 2, hllem<PerfectGasMix<1>, true>, upwind(1e-10)); }
SCENARIO("hllem-upwind-perfect-gas-mix-2d", BOUNDS, 2) { first_order<PerfectGasMix<2>>(ctx, 2, hllem<PerfectGasMix<2>, true>, upwind(1e-10)); }
#define MIDDLE(NAME, EQ, L, N) SCENARIO("hllem-state-" NAME, "all pairs of a pool of states x directions", 1) { middle<EQ, L>(ctx, N, hllem<EQ, L>); }
MIDDLE("perfect-gas-1d", PerfectGas<1>, false, 1)
MIDDLE("perfect-gas-2d", PerfectGas<2>, false, 1)
MIDDLE("perfect-gas-3d", PerfectGas<3>, false, 1)
MIDDLE("upwind-perfect-gas-1d", PerfectGas<1>, true, 1)
MIDDLE("upwind-perfect-gas-2d", PerfectGas<2>, true, 1)
MIDDLE("upwind-perfect-gas-3d", PerfectGas<3>, true, 1)
MIDDLE("perfect-gas-mix-1d", PerfectGasMix<1>, false, 2)
MIDDLE("perfect-gas-mix-2d", PerfectGasMix<2>, false, 2)
MIDDLE("upwind-perfect-gas-mix-1d", PerfectGasMix<1>, true, 2)
MIDDLE("upwind-perfect-gas-mix-2d", PerfectGasMix<2>, true, 2)
#endif
#if PART == 2
#include "fub/NewtonIteration.hpp"
SCENARIO("newton-iteration", "6 families of functions x 5 roots x 7 initial values x 3 tolerances x 2 iteration limits", 1) {
  const int family = ctx.choose(6);
  const double root = ctx.pick({0.25, 1.0, 1e-3, 40.0, 3.0}), x0 = ctx.pick({0.25, 1.0, 4.0, 1e-3, 64.0, 0.5, 2.0}), tol = ctx.pick({1e-7, 1e-3, 1e-10});
  const int limit = ctx.pick({5000, 3});
  int calls = 0;
  auto f = [&](double x) -> double {
    ++calls;
    switch (family) {
    case 0: return x - root;
    case 1: return x * x - root * root;
    case 2: return std::sqrt(x) - std::sqrt(root);
    case 3: return root * root - x * x;
    case 4: return std::log(x / root);
    default: return 1 / x - 1 / root;
    }
  };
  auto df = [&](double x) -> double {
    switch (family) {
    case 0: return 1;
    case 1: return 2 * x;
    case 2: return 0.5 / std::sqrt(x);
    case 3: return -2 * x;
    case 4: return 1 / x;
    default: return -1 / (x * x);
    }
  };
  bool thrown = false;
  double x = 0;
  try { x = NewtonIteration(f, df, x0, tol, limit); } catch (const std::exception&) { thrown = true; }
  if (thrown) {
    ctx.check(calls > limit, "gave-up-early", "after ", calls, " evaluations");
    if (limit == 5000) ctx.check(tol < 1e-9, "newton-did-not-converge", "family ", family, " root ", root, " from ", x0);
    ctx.outcome("reported");
  } else {
    ctx.check(std::fabs(f(x)) <= tol, "not-a-root", "f(", x, ") = ", f(x), " root ", root, " family ", family, " from ", x0);
    ctx.check(x > 0, "left-the-domain", x);
    ctx.outcome("root");
  }
  ctx.state(mc::Hash().add(family).add(root).add(x0).add(tol).add(limit));
  ctx.transition(calls);
  ctx.validated();
}
#endif
