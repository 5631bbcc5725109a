// Second and third order numerical fluxes: consistency, symmetry, order of accuracy in space and time, limiting, masked forms.
#ifndef VERIF_MUSCL_HPP
#define VERIF_MUSCL_HPP
#include "mc.hpp"
#include "fub/core/type_traits.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/PerfectGasMix.hpp"
#include "fub/equations/IdealGasMix.hpp"
#include "fub/equations/ideal_gas_mix/mechanism/Burke2012.hpp"
#include "fub/equations/ShallowWater.hpp"
#include "fub/equations/Burgers.hpp"
#include "fub/equations/Advection.hpp"
#include "fub/CompleteFromCons.hpp"
#include "fub/equations/perfect_gas/EinfeldtSignalVelocities.hpp"
#include "fub/equations/perfect_gas/ExactRiemannSolver.hpp"
#include "fub/equations/perfect_gas/GodunovMethod.hpp"
#include "fub/equations/perfect_gas/HllemMethod.hpp"
#include "fub/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp"
#include "fub/flux_method/HllMethod.hpp"
#include "fub/flux_method/GodunovMethod.hpp"
#include "fub/flux_method/MusclHancockMethod.hpp"
#include "fub/flux_method/MusclHancockMethod2.hpp"
#include "pools.hpp"
using namespace fub;
namespace {
struct Opt {
  double tol = 1e-10;
  bool scalar = true;      // there is a scalar form
  bool agree = true;       // scalar and vectorised form use the same limiter
  bool masked = true;      // there is a masked form
  bool mirror = true;
  bool limited = true;     // extrema are not reconstructed
  bool second = true;      // second order in smooth data
  double order_tol = 1e-3;
  Opt no_masked() const { Opt o = *this; o.masked = false; return o; }
};
template <typename Eq, typename = void> struct Around;
template <typename Eq> double density(const Complete<Eq>& q) { return flat(q)[0]; }
template <typename Eq> double pressure_like(Adapter<Eq>& A, const Complete<Eq>& q) { return std::fabs(A.pressure(q)); }
template <typename Eq> constexpr bool scalar_law = std::is_same_v<Eq, Burgers1d> || std::is_same_v<Eq, Advection2d>;
// q + t (o - q) in conservative variables
template <typename Eq> Complete<Eq> blend(Adapter<Eq>& A, const Complete<Eq>& q, const Complete<Eq>& o, double t) {
  Complete<Eq> r(q);
  if constexpr (scalar_law<Eq>) {
    ForEachComponent([t](double& x, double y) { x += t * (y - x); }, r, o);
  } else {
    ForEachComponent([t](double& x, double a, double b) { x = a + t * (b - a); }, AsCons(r), AsCons(q), AsCons(o));
    CompleteFromCons(A.eq, r, r);
  }
  return r;
}
// the states near the base one
template <typename Eq> std::vector<Complete<Eq>> near(Adapter<Eq>& A, int base, int count, double range) {
  std::vector<Complete<Eq>> v{A.pool[base]};
  const Complete<Eq>& b = A.pool[base];
  const int n = int(A.pool.size());
  for (int k = 1; int(v.size()) < count && k < n; ++k) {
    const Complete<Eq>& o = A.pool[(base + k * 5 + (k * 5 % n == 0)) % n];
    if (flat(o) == flat(b)) continue;
    double t = 1;
    if constexpr (!scalar_law<Eq>) for (;; t /= 2) {
      const Complete<Eq> q = blend(A, b, o, t);
      bool ok = std::fabs(density<Eq>(q) / density<Eq>(b) - 1) <= range && std::fabs(A.pressure(q) / A.pressure(b) - 1) <= range;
      for (int d = 0; d < Eq::Rank(); ++d) ok = ok && std::fabs(A.velocity(q, d) - A.velocity(b, d)) <= range * A.sound(b);
      if (ok) break;
    }
    v.push_back(blend(A, b, o, t));
  }
  return v;
}
template <typename Eq> std::vector<std::vector<Complete<Eq>>>& clusters(Adapter<Eq>& A, int count) {
  static std::map<std::pair<const void*, int>, std::vector<std::vector<Complete<Eq>>>> m;
  auto& c = m[{&A, count}];
  if (c.empty()) for (std::size_t i = 0; i < A.pool.size(); ++i) c.push_back(near(A, int(i), count, 0.25));
  return c;
}
template <typename Eq> auto& adapter(int variant) {
  static std::map<int, std::unique_ptr<Adapter<Eq>>> m;
  auto& p = m[variant];
  if (!p) p = std::make_unique<Adapter<Eq>>(variant);
  return *p;
}
template <typename Eq> double smax_of(Adapter<Eq>& A, const Complete<Eq>& q, int dir) { return std::fabs(A.velocity(q, dir)) + A.sound(q); }
// everything needed to call a method of stencil size N
template <typename Eq, typename Method, int N> struct Caller {
  Adapter<Eq>& A;
  Method& method;
  Direction d;
  using Stencil = std::vector<Complete<Eq>>;
  V scalar(const Stencil& s, Direction dd, double dt, double dx) {
    Conservative<Eq> f(A.eq);
    method.ComputeNumericFlux(f, span<const Complete<Eq>, N>(s.data(), N), Duration(dt), dx, dd);
    return flat(f);
  }
  std::vector<V> vector(const std::vector<Stencil>& lanes, Direction dd, double dt, double dx) {
    std::vector<CompleteArray<Eq>> t(N, CompleteArray<Eq>(A.eq));
    for (int k = 0; k < W; ++k) for (int c = 0; c < N; ++c) set_lane(t[c], lanes[k][c], k);
    ConservativeArray<Eq> f(A.eq);
    fill(f, 7.0);
    method.ComputeNumericFlux(f, span<const CompleteArray<Eq>, N>(t.data(), N), Duration(dt), dx, dd);
    std::vector<V> r;
    for (int k = 0; k < W; ++k) r.push_back(lane(f, k));
    return r;
  }
  V any(bool has_scalar, const Stencil& s, Direction dd, double dt, double dx) {
    return has_scalar ? scalar(s, dd, dt, dx) : vector(std::vector<Stencil>(W, s), dd, dt, dx)[0];
  }
};
template <typename Eq> V scale_of(Adapter<Eq>& A, const std::vector<Complete<Eq>>& s, int dir) {
  const Direction d = static_cast<Direction>(dir);
  double sm = 0;
  for (const auto& q : s) sm = std::max(sm, smax_of(A, q, dir));
  V r;
  double top = 0;
  for (const auto& q : s) {
    const V f = A.flux(q, d), u = A.cons(q);
    r.resize(f.size());
    for (std::size_t k = 0; k < f.size(); ++k) { r[k] = std::max(r[k], std::fabs(f[k]) + sm * std::fabs(u[k])); top = std::max(top, r[k]); }
  }
  for (double& x : r) x += 1e-3 * top + 1e-300;
  return r;
}
bool same(const V& a, const V& b, const V& scale, double tol) {
  for (std::size_t k = 0; k < b.size(); ++k) if (!(std::fabs(a[k] - b[k]) <= tol * scale[k])) return false;
  return a.size() == b.size();
}
// All stencils of states from a cluster.
template <typename Eq, typename Method> void stencils(mc::Ctx& ctx, Adapter<Eq>& A, Method& method, const Opt& opt, int count, int bases) {
  constexpr int D = Eq::Rank();
  auto& cs = clusters(A, count);
  const int base = ctx.choose(std::min<int>(bases, int(cs.size())));
  auto& pool = cs[base];
  const int n = int(pool.size());
  const int i0 = ctx.choose(n), i1 = ctx.choose(n), i2 = ctx.choose(n), i3 = ctx.choose(n), dir = ctx.choose(D);
  const double cfl = ctx.pick({0.0, 0.4});
  const Direction d = static_cast<Direction>(dir);
  Caller<Eq, Method, 4> call{A, method, d};
  using Stencil = std::vector<Complete<Eq>>;
  const Stencil s{pool[i0], pool[i1], pool[i2], pool[i3]};
  double sm = 1e-300;
  for (const auto& q : pool) sm = std::max(sm, smax_of(A, q, dir));
  if (sm < 1e-12) return;
  const double dx = 0.125, dt = cfl * dx / sm;
  const V scale = scale_of(A, s, dir);
  auto text = [&](const Stencil& x) { std::string r; for (auto& q : x) r += show(flat(AsCons(q))) + "| "; return mc::cat(r, "dir ", dir, " cfl ", cfl); };
  const V f = call.any(opt.scalar, s, d, dt, dx);
  if (i0 == i1 && i1 == i2 && i2 == i3) {
    const V e = A.flux(s[1], d);
    ctx.check(same(f, e, scale, opt.tol), "inconsistent", show(f), " expected ", show(e), " stencil ", text(s));
    ctx.outcome("constant");
  }
  if (opt.mirror) {
    const Stencil m{A.mirror(s[3], dir), A.mirror(s[2], dir), A.mirror(s[1], dir), A.mirror(s[0], dir)};
    Conservative<Eq> g(A.eq);
    const V raw = call.any(opt.scalar, m, d, dt, dx);
    std::size_t k = 0;
    ForEachComponent([&](double& x) { x = raw[k++]; }, g);
    const V e = flat(A.mirror_flux(g, dir));
    ctx.check(same(e, f, scale, 4 * opt.tol), "not-mirror-symmetric", show(e), " expected ", show(f), " stencil ", text(s));
    if (dir > 0) {
      Stencil w;
      for (const auto& q : s) w.push_back(A.swap(q, 0, dir));
      const V r2 = call.any(opt.scalar, w, Direction::X, dt, dx);
      k = 0;
      ForEachComponent([&](double& x) { x = r2[k++]; }, g);
      const V h = flat(A.swap_flux(g, 0, dir));
      ctx.check(same(h, f, scale, 4 * opt.tol), "depends-on-direction", show(h), " expected ", show(f), " stencil ", text(s));
    }
  }
  { // only the ratio of time and space steps matters
    const V e = call.any(opt.scalar, s, d, 8 * dt, 8 * dx);
    ctx.check(same(e, f, scale, opt.tol), "depends-on-units", show(e), " expected ", show(f), " stencil ", text(s));
  }
  // vectorised form with different stencils in the lanes
  std::vector<Stencil> lanes;
  for (int k = 0; k < W; ++k) lanes.push_back({pool[(i0 + k) % n], pool[(i1 + 3 * k) % n], pool[(i2 + 2 * k) % n], pool[(i3 + (k & 5)) % n]});
  std::swap(lanes[0], lanes[(i0 + 2 * i1 + i2 + i3) % W]);
  const std::vector<V> fv = call.vector(lanes, d, dt, dx);
  const V lscale = scale_of(A, pool, dir);
  if (opt.scalar && opt.agree) for (int k = 0; k < W; ++k) {
    const V e = call.scalar(lanes[k], d, dt, dx);
    ctx.check(same(fv[k], e, lscale, opt.tol), "vectorised-flux-differs", "lane ", k, " ", show(fv[k]), " expected ", show(e), " stencil ", text(lanes[k]));
  } else for (int k = 0; k < W; ++k) { // lanes do not influence each other
    if (k != (i0 + i3) % W) continue;
    const V e = call.vector(std::vector<Stencil>(W, lanes[k]), d, dt, dx)[(k + 3) % W];
    ctx.check(same(fv[k], e, lscale, 1e-13), "lanes-influence-each-other", "lane ", k, " ", show(fv[k]), " expected ", show(e), " stencil ", text(lanes[k]));
  }
  if constexpr (!scalar_law<Eq> && !std::is_same_v<Eq, ShallowWater>) if (opt.masked) {
    // each lane has its own pattern of covered cells
    const int shift = (i0 + i1 * 3 + i2 * 5 + i3 * 7) % 16;
    for (int junk = 0; junk < 2; ++junk) {
      std::vector<CompleteArray<Eq>> t(4, CompleteArray<Eq>(A.eq));
      Array1d face = Array1d::Zero();
      std::array<Array1d, 4> vol;
      for (auto& v : vol) v = Array1d::Zero();
      std::vector<Stencil> expect(W);
      std::vector<bool> open(W);
      for (int k = 0; k < W; ++k) {
        const int covered = (shift + 3 * k) % 16; // bit c: cell c is covered
        for (int c = 0; c < 4; ++c) {
          const bool cov = (covered >> c) & 1;
          if (!cov) vol[c][k] = 1.0 / (1 + (k + c) % 3);
          if (cov && junk == 0) set_lane(t[c], Complete<Eq>(A.eq), k);
          else set_lane(t[c], cov ? pool[(k + c + 1) % n] : lanes[k][c], k);
        }
        open[k] = !(covered & 6);
        if (open[k]) face[k] = 1.0 / (k + 1);
        expect[k] = lanes[k];
        if (covered & 1) expect[k][0] = lanes[k][2];
        if (covered & 8) expect[k][3] = lanes[k][1];
      }
      ConservativeArray<Eq> F(A.eq);
      fill(F, 7.0);
      method.ComputeNumericFlux(F, face, span<const CompleteArray<Eq>, 4>(t.data(), 4), vol, Duration(dt), dx, d);
      const std::vector<V> ref = call.vector(expect, d, dt, dx);
      for (int k = 0; k < W; ++k) {
        if (open[k]) ctx.check(same(lane(F, k), ref[k], lscale, opt.tol), "masked-flux-differs", "lane ", k, " ", show(lane(F, k)), " expected ", show(ref[k]), " contents ", junk, " pattern ", (shift + 3 * k) % 16, " stencil ", text(lanes[k]));
        else for (double x : lane(F, k)) ctx.check(x == 0.0, "flux-through-closed-face", "lane ", k, " ", x, " contents ", junk, " pattern ", (shift + 3 * k) % 16);
      }
      // no face is open
      fill(F, 7.0);
      method.ComputeNumericFlux(F, Array1d(Array1d::Zero()), span<const CompleteArray<Eq>, 4>(t.data(), 4), vol, Duration(dt), dx, d);
      for (int k = 0; k < W; ++k) for (double x : lane(F, k)) ctx.check(x == 0.0, "flux-through-closed-face", "all closed: lane ", k, " ", x);
    }
  }
  ctx.transition(20);
  ctx.validated();
  ctx.state(mc::Hash().add(base).add(i0).add(i1).add(i2).add(i3).add(dir).add(cfl > 0));
}
// reconstruction does nothing where the inner states are extrema, or with no gradient: the first order flux
template <typename Eq, typename Method, typename Base> void extrema(mc::Ctx& ctx, Adapter<Eq>& A, Method& method, Base& first, const Opt& opt, bool always) {
  constexpr int D = Eq::Rank();
  auto& cs = clusters(A, 6);
  const int base = ctx.choose(int(cs.size()));
  auto& pool = cs[base];
  const int n = int(pool.size()), i = ctx.choose(n), j = ctx.choose(n), dir = ctx.choose(D);
  const double cfl = ctx.pick({0.0, 0.25, 0.9});
  const Direction d = static_cast<Direction>(dir);
  using Stencil = std::vector<Complete<Eq>>;
  const Stencil s = always ? Stencil{pool[(i + 2 * j + 1) % n], pool[i], pool[j], pool[(3 * i + j + 2) % n]} : Stencil{pool[j], pool[i], pool[j], pool[i]};
  Caller<Eq, Method, 4> call{A, method, d};
  Caller<Eq, Base, 2> one{A, first, d};
  const double sm = std::max(smax_of(A, s[1], dir), smax_of(A, s[2], dir)), dx = 0.5, dt = sm > 0 ? cfl * dx / sm : 1;
  const V scale = scale_of(A, s, dir), e = one.scalar({s[1], s[2]}, d, dt, dx);
  if (opt.scalar) { const V f = call.scalar(s, d, dt, dx); ctx.check(same(f, e, scale, opt.tol), "extremum-is-reconstructed", show(f), " expected ", show(e), " states ", show(flat(s[1])), " | ", show(flat(s[2])), " dir ", dir, " cfl ", cfl); }
  const V g = call.vector(std::vector<Stencil>(W, s), d, dt, dx)[(i + j) % W];
  ctx.check(same(g, e, scale, opt.tol), "extremum-is-reconstructed", "vectorised ", show(g), " expected ", show(e), " states ", show(flat(s[1])), " | ", show(flat(s[2])), " dir ", dir, " cfl ", cfl);
  // the stable step is that of the first order method
  {
    const Complete<Eq> in[2] = {s[1], s[2]};
    const double h = first.ComputeStableDt(span<const Complete<Eq>, 2>(in), dx, d);
    if (opt.scalar) { const double x = method.ComputeStableDt(span<const Complete<Eq>, 4>(s.data(), 4), dx, d); ctx.check(x == h || std::fabs(x - h) <= 1e-12 * h, "stable-step-differs", x, " expected ", h); }
    std::vector<CompleteArray<Eq>> t(4, CompleteArray<Eq>(A.eq));
    for (int k = 0; k < W; ++k) for (int c = 0; c < 4; ++c) set_lane(t[c], s[c], k);
    const Array1d x = method.ComputeStableDt(span<const CompleteArray<Eq>, 4>(t.data(), 4), dx, d);
    for (int k = 0; k < W; ++k) ctx.check(x[k] == h || std::fabs(x[k] - h) <= 1e-7 * h, "stable-step-differs", "vectorised ", x[k], " expected ", h);
    if constexpr (!scalar_law<Eq> && !std::is_same_v<Eq, ShallowWater>) if (opt.masked) {
      const int m = (i * 7 + j * 11 + 1) & 0xff;
      Array1d face = Array1d::Zero();
      std::array<Array1d, 4> vol;
      for (auto& v : vol) v = Array1d::Zero();
      for (int k = 0; k < W; ++k) {
        if ((m >> k) & 1) { face[k] = 0.5; for (auto& v : vol) v[k] = 1; }
        else for (int c = 0; c < 4; ++c) set_lane(t[c], Complete<Eq>(A.eq), k);
      }
      const Array1d y = method.ComputeStableDt(span<const CompleteArray<Eq>, 4>(t.data(), 4), face, vol, dx, d);
      for (int k = 0; k < W; ++k) {
        if ((m >> k) & 1) ctx.check(std::fabs(y[k] - h) <= 1e-7 * h, "stable-step-differs", "masked ", y[k], " expected ", h);
        else ctx.check(y[k] > 1e300, "unused-lane-limits-the-step", y[k]);
      }
    }
  }
  ctx.transition(4);
  ctx.validated();
  ctx.state(mc::Hash().add(base).add(i).add(j).add(dir).add(cfl));
}
// Linear data of slope eps: the flux through the face is the physical flux of the state at the face at half the time step, up to eps^2.
template <typename Eq, typename Method, int N> void order(mc::Ctx& ctx, Adapter<Eq>& A, Method& method, const Opt& opt, double fraction = 0.5) {
  constexpr int D = Eq::Rank();
  const int n = int(A.pool.size()), i = ctx.choose(n), j = ctx.choose(n), dir = ctx.choose(D);
  const double cfl = ctx.pick({0.0, 0.2, 0.8}), sign = ctx.pick({1.0, -1.0});
  const Direction d = static_cast<Direction>(dir);
  if (i == j) { ctx.outcome("same"); return; }
  Complete<Eq> q = A.pool[i];
  // mass fractions have to stay positive on both sides of the mean state
  if constexpr (std::is_same_v<Eq, IdealGasMix<D>>) q = blend(A, A.pool[i], A.pool[j], 0.25);
  // a perturbation of relative size one
  const V u = A.cons(q), v = A.cons(A.pool[j]);
  V delta(u.size());
  double t = 1;
  for (std::size_t k = 0; k < u.size(); ++k) delta[k] = v[k] - u[k];
  if constexpr (!scalar_law<Eq>) {
    auto& near = clusters(A, n)[i];
    (void)near;
    for (;; t /= 2) {
      const Complete<Eq> o = blend(A, q, A.pool[j], t);
      bool ok = std::fabs(density<Eq>(o) / density<Eq>(q) - 1) <= 1 && std::fabs(A.pressure(o) / A.pressure(q) - 1) <= 1;
      for (int k = 0; k < D; ++k) ok = ok && std::fabs(A.velocity(o, k) - A.velocity(q, k)) <= A.sound(q);
      if (ok) break;
    }
  }
  const double eps = 1e-5 * t * sign;
  auto at = [&](const V& dir_, double x) {
    Complete<Eq> o(q);
    if constexpr (scalar_law<Eq>) { std::size_t k = 0; ForEachComponent([&](double& y) { y += x * dir_[k++]; }, o); }
    else { std::size_t k = 0; ForEachComponent([&](double& y, double z) { y = z + x * dir_[k++]; }, AsCons(o), AsCons(q)); CompleteFromCons(A.eq, o, o); }
    return o;
  };
  std::vector<Complete<Eq>> s;
  for (int c = 0; c < N; ++c) s.push_back(at(delta, eps * (c - 0.5 * (N - 1))));
  const double sm = smax_of(A, q, dir);
  if (!(sm > 1e-12)) { ctx.outcome("still"); return; }
  // q_t = - f(q)_x
  const double dx = 0.25, dt = cfl * dx / sm;
  const V fp = A.flux(at(delta, eps), d), fm = A.flux(at(delta, -eps), d);
  V qt(fp.size());
  for (std::size_t k = 0; k < qt.size(); ++k) qt[k] = -(fp[k] - fm[k]) / (2 * dx);
  const V e = A.flux(at(qt, fraction * dt), d);
  // scale: change of the flux over one cell
  const V f0 = A.flux(q, d);
  V scale(f0.size());
  double top = 0;
  for (std::size_t k = 0; k < scale.size(); ++k) { scale[k] = std::fabs(fp[k] - f0[k]) + sm * std::fabs(eps * delta[k]); top = std::max(top, scale[k] / (std::fabs(f0[k]) + sm * std::fabs(u[k]) + 1e-300)); }
  const V full = scale_of(A, {q}, dir);
  for (std::size_t k = 0; k < scale.size(); ++k) scale[k] = std::max(scale[k], 1e-5 * t * full[k]);
  Caller<Eq, Method, N> call{A, method, d};
  auto text = [&] { return mc::cat(" state ", show(u), " slope ", show(delta), " times ", eps, " dir ", dir, " cfl ", cfl); };
  if (opt.scalar) {
    const V f = call.scalar(s, d, dt, dx);
    V df(f), de(e);
    for (std::size_t k = 0; k < f.size(); ++k) { df[k] -= f0[k]; de[k] -= f0[k]; }
    ctx.check(same(df, de, scale, opt.order_tol), "not-second-order", "flux minus that of the mean state ", show(df), " expected ", show(de), text());
  }
  V g = call.vector(std::vector<std::vector<Complete<Eq>>>(W, s), d, dt, dx)[(i + j) % W], de(e);
  for (std::size_t k = 0; k < g.size(); ++k) { g[k] -= f0[k]; de[k] -= f0[k]; }
  ctx.check(same(g, de, scale, opt.order_tol), "not-second-order", "vectorised: flux minus that of the mean state ", show(g), " expected ", show(de), text());
  ctx.transition(2);
  ctx.validated();
  ctx.state(mc::Hash().add(i).add(j).add(dir).add(cfl).add(sign));
}
Opt opts(double tol) { Opt o; o.tol = tol; return o; }
} // namespace
#define STENCILS "all stencils of 4 states from clusters of nearby states x directions x 2 time steps; 8 lanes, all patterns of covered cells"
#define ORDER "all pairs (state, slope) of a pool x directions x 3 time steps x 2 signs"
#define EXTREMA "all pairs of nearby states x directions x 3 time steps"
// NAME, equation, number of equation variants, options, size and number of the clusters, the method and its first order method
#define METHOD_(NAME, EQ, NV, OPT, COUNT, BASES, MAKE, FIRST) \
  SCENARIO("stencils-" NAME, STENCILS, 3) { auto& A = adapter<EQ>(ctx.choose(NV)); auto m = MAKE(A.eq); stencils<EQ>(ctx, A, m, OPT, COUNT, BASES + (ctx.thorough() ? 4 : 0)); } \
  SCENARIO("extrema-" NAME, EXTREMA, 1) { auto& A = adapter<EQ>(ctx.choose(NV)); auto m = MAKE(A.eq); auto f = FIRST(A.eq); extrema<EQ>(ctx, A, m, f, OPT, false); }
#define METHOD(NAME, EQ, NV, OPT, COUNT, BASES, MAKE, FIRST) METHOD_(NAME, EQ, NV, OPT, COUNT, BASES, MAKE, FIRST) \
  SCENARIO("order-" NAME, ORDER, 1) { auto& A = adapter<EQ>(ctx.choose(NV)); auto m = MAKE(A.eq); order<EQ, decltype(m), 4>(ctx, A, m, OPT); }
namespace {
template <typename Eq> auto hll = [](const Eq& eq) { return Hll<Eq, EinfeldtSignalVelocities<Eq>>(eq, EinfeldtSignalVelocities<Eq>{}); };
template <typename Eq> auto hllem = [](const Eq& eq) { return perfect_gas::Hllem<Eq>(eq); };
template <typename Eq> auto godunov = [](const Eq& eq) { return Godunov<Eq>(eq); };
template <typename Eq, typename Slope> auto muscl_hll = [](const Eq& eq) { return MusclHancock<Eq, Hll<Eq, EinfeldtSignalVelocities<Eq>>, Slope>(eq, hll<Eq>(eq)); };
template <typename Eq, typename Slope = MinMod> auto muscl_godunov = [](const Eq& eq) { return MusclHancock<Eq, Godunov<Eq>, Slope>(eq); };
template <typename Eq, template <typename, typename> class G, template <typename> class R, typename L> auto muscl2 = [](const Eq& eq) { return MusclHancock2<Eq, G<Eq, CentralDifferenceGradient<L>>, R<Eq>, perfect_gas::Hllem<Eq>>(eq); };
}
#define CPC(NAME, EQ, NV, L, LNAME) \
METHOD("conservative-" LNAME NAME, EQ, NV, opts(1e-10), 4, 2, (muscl2<EQ, ConservativeGradient, ConservativeReconstruction, L>), hllem<EQ>) \
METHOD("primitive-" LNAME NAME, EQ, NV, opts(1e-10), 4, 2, (muscl2<EQ, PrimitiveGradient, PrimitiveReconstruction, L>), hllem<EQ>) \
METHOD("characteristic-" LNAME NAME, EQ, NV, opts(1e-10), 4, 2, (muscl2<EQ, CharacteristicsGradient, CharacteristicsReconstruction, L>), hllem<EQ>)
using PG1 = PerfectGas<1>; using PG2 = PerfectGas<2>; using PG3 = PerfectGas<3>; using Mix1 = PerfectGasMix<1>; using Mix2 = PerfectGasMix<2>;
#endif
