// Gradients, limiters, centroids, h-grids and the second order cut cell method around plane walls of every orientation.
#include "mc.hpp"
#include "fub/core/type_traits.hpp"
#include <cstring>
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/perfect_gas/EinfeldtSignalVelocities.hpp"
#include "fub/equations/perfect_gas/ExactRiemannSolver.hpp"
#include "fub/flux_method/GodunovMethod.hpp"
#include "fub/flux_method/HllMethod.hpp"
#include "fub/flux_method/MusclHancockMethod2.hpp"
#include "fub/cutcell_method/MyStabilisation.hpp"
#include "fub/cutcell_method/HGridReconstruction2.hpp"
#include "state_field.hpp"
#include "planar.hpp"
using namespace fub;
using namespace planar;
namespace {
constexpr double nan_ = std::numeric_limits<double>::quiet_NaN();
using Eq = PerfectGas<2>;
using V = std::vector<double>;
constexpr int W = kDefaultChunkSize;
template <typename S> V flat(const S& s) { V v; ForEachComponent([&](double x) { v.push_back(x); }, s); return v; }
template <typename S> S unflat(const V& v) { S s{Eq{}}; std::size_t k = 0; ForEachComponent([&](double& x) { x = v[k++]; }, s); return s; }
std::string show(const V& v) { std::string s; for (double x : v) s += mc::cat(x, " "); return s; }
std::string at(const Index<2>& i) { return mc::cat("(", i[0], ",", i[1], ")"); }
std::uint64_t hash(const Index<2>& i, int salt) { mc::Hash h; h.add(salt).add(int(i[0])).add(int(i[1])); return h.h >> 7; }
Index<2> next(Index<2> i, int d, int by) { i[d] += by; return i; }
IndexBox<2> grown(IndexBox<2> b, int by) { for (int d = 0; d < 2; ++d) { b.lower[d] -= by; b.upper[d] += by; } return b; }
bool inside(const IndexBox<2>& b, const Index<2>& i) { return i[0] >= b.lower[0] && i[0] < b.upper[0] && i[1] >= b.lower[1] && i[1] < b.upper[1]; }
struct Primitives {
  static constexpr bool prim = true;
  using FM = FluxMethod<MusclHancock2<Eq, PrimitiveGradient<Eq, CentralDifferenceGradient<NoLimiter2>>, PrimitiveReconstruction<Eq>, GodunovMethod<Eq>>>;
};
struct Conservatives {
  static constexpr bool prim = false;
  using FM = FluxMethod<MusclHancock2<Eq, ConservativeGradient<Eq, CentralDifferenceGradient<NoLimiter2>>, ConservativeReconstruction<Eq>, HllMethod<Eq, EinfeldtSignalVelocities<Eq>>>>;
};
template <typename K> using Gradient = typename K::FM::Gradient;
template <typename K> using HG = HGridReconstruction2<Eq, Gradient<K>, typename K::FM::ReconstructionMethod>;
template <typename K> using Method = MyCutCellMethod<Eq, typename K::FM, HG<K>>;
template <typename K, bool = K::prim> struct GF { using type = StateField<Eq, Primitive>; };
template <typename K> struct GF<K, false> { using type = StateField<Eq, Conservative>; };
template <typename K> using Grad = typename GF<K>::type;
// all variables of a state from those a gradient is taken of
template <typename K> V complete(const V& u) {
  const double g = Eq{}.gamma;
  double rho = u[0], m[2], p, E;
  if (K::prim) { m[0] = rho * u[1]; m[1] = rho * u[2]; p = u[3]; E = p / (g - 1) + 0.5 * (m[0] * m[0] + m[1] * m[1]) / rho; }
  else { m[0] = u[1]; m[1] = u[2]; E = u[3]; p = (g - 1) * (E - 0.5 * (m[0] * m[0] + m[1] * m[1]) / rho); }
  return {rho, m[0], m[1], E, p, std::sqrt(g * p / rho)};
}
template <typename K> V variables(const V& q) { return K::prim ? V{q[0], q[1] / q[0], q[2] / q[0], q[4]} : V{q[0], q[1], q[2], q[3]}; }
P2 direction_of(mc::Ctx& ctx) {
  const int k = ctx.choose(24);
  const double a = k * M_PI / 12;
  P2 n(std::cos(a), std::sin(a));
  for (int d = 0; d < 2; ++d) if (std::fabs(n[d]) < 1e-15) n[d] = 0;
  return n;
}
Half wall_of(mc::Ctx& ctx, const P2& h, int offsets) {
  const P2 n = direction_of(ctx);
  const double s[] = {0.03, 0.37, -0.21, 0.5, -0.44, 0.0, 0.25, -0.13};
  const int k = ctx.choose(offsets);
  const P2 x0(0.5 * h[0], 0.5 * h[1]);
  return {n, n.dot(x0) + s[k] * h.minCoeff() + (k == 5 ? 0.0 : 1e-3 * h[0] * n[0])};
}
// a linear function for every variable
struct Linear {
  V base; P2 g[4];
  V at(const P2& x) const { V u = base; for (int k = 0; k < 4; ++k) u[k] += g[k].dot(x); return u; }
};
Linear linear_of(int k) {
  Linear l;
  l.base = {2.0, 0.25, -0.5, 4.0};
  const double c[][8] = {{0.5, 0.25, -0.25, 0.5, 0.125, -0.375, 0.25, 0.75}, {-0.25, 0.5, 0.5, 0.25, -0.5, 0.0, 0.625, -0.25}, {0, 0, 0, 0, 0, 0, 0, 0}, {0.0, 0.5, 0.25, 0.0, 0.0, -0.25, -0.5, 0.0}};
  for (int v = 0; v < 4; ++v) l.g[v] = P2(c[k][2 * v], c[k][2 * v + 1]);
  return l;
}
bool close(double a, double b, double tol, double scale = 1) { return std::fabs(a - b) <= tol * (scale + std::fabs(b)); }
IndexBox<2> square(int org, int n) { IndexBox<2> b; for (int d = 0; d < 2; ++d) { b.lower[d] = org - d; b.upper[d] = b.lower[d] + n; } return b; }

// largest value of |D| . lambda with 0 <= lambda <= 1 and all a . lambda >= b
struct Lp { std::vector<std::array<double, 3>> rows; };
bool feasible(const Lp& lp, double x, double y, double tol) { for (auto& r : lp.rows) if (r[0] * x + r[1] * y < r[2] - tol) return false; return true; }
double best(const Lp& lp, double c0, double c1) {
  double v = -1;
  for (std::size_t a = 0; a < lp.rows.size(); ++a) for (std::size_t b = a + 1; b < lp.rows.size(); ++b) {
    const auto &r = lp.rows[a], &s = lp.rows[b];
    const double det = r[0] * s[1] - r[1] * s[0];
    if (std::fabs(det) < 1e-13) continue;
    const double x = (r[2] * s[1] - r[1] * s[2]) / det, y = (r[0] * s[2] - r[2] * s[0]) / det;
    if (feasible(lp, x, y, 1e-12)) v = std::max(v, c0 * x + c1 * y);
  }
  return v;
}
// constraints of a cell: towards every neighbour which is not covered the change stays between nothing and the actual difference
template <typename U> Lp limits(Grid& g, const Index<2>& i, const P2& D, U&& u) {
  Lp lp;
  lp.rows = {{1, 0, 0}, {0, 1, 0}, {-1, 0, -1}, {0, -1, -1}};
  for (int d = 0; d < 2; ++d) for (int s : {-1, 1}) {
    const auto j = next(i, d, s);
    if (g.vol.at(j) <= 0) continue;
    const P2 x = g.centroid(j) - g.centroid(i);
    const double a0 = x[0] * D[0], a1 = x[1] * D[1], du = u(j) - u(i), sg = du < 0 ? -1 : 1;
    lp.rows.push_back({sg * a0, sg * a1, 0.0});
    lp.rows.push_back({-sg * a0, -sg * a1, -sg * du});
  }
  return lp;
}
void judge_limited(mc::Ctx& ctx, const Lp& lp, const P2& D, const P2& L, const std::string& where) {
  double l[2];
  for (int d = 0; d < 2; ++d) {
    if (D[d] == 0) { l[d] = 0; if (L[d] != 0) ctx.check(false, "gradient-out-of-nothing", where, ": ", L[d]); continue; }
    l[d] = L[d] / D[d];
  }
  const double tol = 1e-9;
  if (!feasible(lp, D[0] == 0 ? 0.0 : l[0], D[1] == 0 ? 0.0 : l[1], tol)) ctx.check(false, "limited-gradient-overshoots", where, ": gradient ", D.transpose(), " limited to ", L.transpose());
  const double want = best(lp, std::fabs(D[0]), std::fabs(D[1])), is = std::fabs(D[0]) * l[0] + std::fabs(D[1]) * l[1];
  if (!(is >= want - tol * (1 + std::fabs(want)))) ctx.check(false, "limited-too-much", where, ": gradient ", D.transpose(), " limited to ", L.transpose(), ", ", is, " instead of ", want);
}
AnyLimiter<2> limiter_of(int k) { return k == 0 ? AnyLimiter<2>(NoMdLimiter<2>{}) : k == 1 ? AnyLimiter<2>(UpwindMdLimiter<2>{}) : AnyLimiter<2>(LinearOptimizationLimiter<2>{}); }
template <typename K> Method<K> method_of(int limiter) { return Method<K>(Eq{}, HG<K>{Eq{}, typename K::FM::ReconstructionMethod{Eq{}}}, limiter_of(limiter)); }

// linear functions have exact gradients next to every wall, and limited gradients never overshoot
template <typename K> void gradients(mc::Ctx& ctx) {
  const P2 h = ctx.flip() ? P2(0.25, 0.25) : P2(0.25, 0.125);
  const Half w = wall_of(ctx, h, ctx.thorough() ? 8 : 4);
  const int shape = ctx.choose(3); // half plane, wedge of gas, wedge of wall
  Half w2 = w;
  if (shape > 0) { const double a = ctx.pick({0.5, 1.0, 2.0}) ; w2.n = P2(w.n[0] * std::cos(a) - w.n[1] * std::sin(a), w.n[0] * std::sin(a) + w.n[1] * std::cos(a)); w2.c = w2.n.dot(P2(0.4 * h[0], 0.55 * h[1])); }
  const auto cells = square(ctx.pick({-3, -2}), 6);
  const auto inner = grown(cells, -1);
  int slot = 0;
  Grid g(cells, h, w, slot, true, shape ? &w2 : nullptr, shape == 2);
  int n_open = 0;
  bool ok = true;
  each(inner, [&](const Index<2>& i) {
    if (g.vol.at(i) == 0) return;
    int open[2] = {0, 0}; int side[2] = {0, 0};
    for (int d = 0; d < 2; ++d) for (int s = 0; s < 2; ++s) {
      if (g.face[d].at(next(i, d, s)) > 0) { ++open[d]; side[d] = 2 * s - 1; if (g.vol.at(next(i, d, 2 * s - 1)) == 0) ok = false; }
    }
    if (open[0] + open[1] < 2 || open[0] == 0 || open[1] == 0) ok = false;
    else if (open[0] == 1 && open[1] == 1 && g.vol.at(next(next(i, 0, side[0]), 1, side[1])) == 0) ok = false;
    ++n_open;
  });
  if (!ok || n_open == 0) { ctx.outcome("no-gradient"); return; } // cells with less than two open directions
  const int data = ctx.choose(5), limiter = ctx.choose(3);
  const Linear lin = linear_of(data < 4 ? data : 0);
  StateField<Eq, Complete> q(Eq{}, cells, 0, 0, nan_, slot, true);
  Grad<K> gx(Eq{}, inner, 0, 0, -7.0, slot, true), gy(Eq{}, inner, 0, 0, -7.0, slot, true), gz(Eq{}, inner, 0, 0, -7.0, slot, true);
  auto set = [&](int d) {
    each(cells, [&](const Index<2>& i) {
      if (g.vol.at(i) == 0) { q.set(i, V(6, 0.0)); return; }
      V u = lin.at(g.centroid(i));
      if (d == 4) for (int v = 0; v < 4; ++v) u[v] += (double(hash(i, v) % 17) - 8) / 32;
      q.set(i, complete<K>(u));
    });
  };
  auto m = method_of<K>(limiter);
  const auto geom = g.data();
  set(data);
  auto view = q.cview(cells);
  m.ComputeGradients(gx.view(inner), gy.view(inner), gz.view(inner), view, geom, h);
  std::vector<V> free_x, free_y;
  if (data == 4 && limiter > 0) {
    Grad<K> fx(Eq{}, inner, 0, 0, -7.0, slot, true), fy(Eq{}, inner, 0, 0, -7.0, slot, true), fz(Eq{}, inner, 0, 0, -7.0, slot, true);
    auto f = method_of<K>(0);
    f.ComputeGradients(fx.view(inner), fy.view(inner), fz.view(inner), view, geom, h);
    each(inner, [&](const Index<2>& i) { free_x.push_back(fx.get(i)); free_y.push_back(fy.get(i)); });
  }
  std::size_t k = 0;
  each(inner, [&](const Index<2>& i) {
    const V x = gx.get(i), y = gy.get(i), z = gz.get(i);
    const std::size_t kk = k++;
    const double a = g.vol.at(i);
    for (int v = 0; v < 4; ++v) {
      if (z[v] != 0) ctx.check(false, "gradient-of-missing-direction", at(i), ": ", z[v]);
      if (a == 0) { if (x[v] != 0 || y[v] != 0) ctx.check(false, "gradient-of-covered-cell", at(i), ": ", x[v], " ", y[v]); continue; }
      if (limiter == 1) { if (x[v] != 0 || y[v] != 0) ctx.check(false, "upwind-gradient", at(i)); continue; }
      if (data < 4) {
        if (!close(x[v], lin.g[v][0], 1e-7) || !close(y[v], lin.g[v][1], 1e-7)) ctx.check(false, "gradient-of-linear-function", at(i), " variable ", v, ": ", x[v], " ", y[v], " instead of ", lin.g[v].transpose(), ", volume ", a, " normal ", w.n.transpose(), " shape ", shape, " limiter ", limiter);
      } else if (limiter == 2 && shape == 0) {
        const P2 D(free_x[kk][v], free_y[kk][v]), L(x[v], y[v]);
        auto u = [&](const Index<2>& j) { return variables<K>(q.get(j))[v]; };
        judge_limited(ctx, limits(g, i, D, u), D, L, mc::cat(at(i), " variable ", v, " volume ", a, " normal ", w.n.transpose()));
      }
    }
  });
  ctx.transition(); ctx.validated();
  ctx.state(mc::Hash().add(w.n[0]).add(w.n[1]).add(w.c).add(shape).add(data).add(limiter).add(h[1]).add(int(cells.lower[0])));
}
// the limiter itself for all small differences and gradients
void limiter(mc::Ctx& ctx) {
  const P2 h = ctx.flip() ? P2(1.0, 1.0) : P2(0.5, 0.5);
  const Half w = ctx.flip() ? Half{P2(1, 0), -100.0} : wall_of(ctx, h, ctx.thorough() ? 8 : 5);
  const auto cells = square(-2, 6);
  int slot = 0;
  Grid g(cells, h, w, slot, true);
  const Index<2> i{0, 0};
  if (g.vol.at(i) == 0) { ctx.outcome("covered"); return; }
  auto u = alloc<2>(cells, 0, 0, 2, 0.0, slot++, true), dx = alloc<2>(cells, 0, 0, 2, 0.0, slot++, true), dy = alloc<2>(cells, 0, 0, 2, 0.0, slot++, true);
  const double a[] = {0.0, 1.0, -1.0, 0.25, -2.0};
  const std::array<StridedDataView<double, 2>, 2> grad{strided<double, 2>(dx, cells), strided<double, 2>(dy, cells)};
  const auto geom = g.data();
  const AnyLimiter<2> lim = limiter_of(2);
  const int mid = ctx.choose(2);
  const int c0 = ctx.choose(5), c1 = ctx.choose(5);
  for (int k = 0; k < 125 * 5; ++k) {
    const int e[] = {c0, c1, k % 5, k / 5 % 5};
    if (ctx.thorough() == false && k / 25 % 5 == 3) continue;
    const P2 D(a[k / 25 % 5] * 1.5, a[k / 125] * 1.5);
    each(cells, [&](const Index<2>& j) { u.at(j) = g.vol.at(j) > 0 ? 0.5 : nan_; dx.at(j) = dy.at(j) = -7.0; });
    u.at(i) = mid;
    const Index<2> nb[] = {next(i, 0, -1), next(i, 0, 1), next(i, 1, -1), next(i, 1, 1)};
    for (int n = 0; n < 4; ++n) if (g.vol.at(nb[n]) > 0) u.at(nb[n]) = mid + a[e[n]];
    dx.at(i) = D[0]; dy.at(i) = D[1];
    lim.LimitGradientsAtIndex(grad, strided<const double, 2>(u, cells), geom, i, h);
    const P2 L(dx.at(i), dy.at(i));
    judge_limited(ctx, limits(g, i, D, [&](const Index<2>& j) { return u.at(j); }), D, L, mc::cat("volume ", g.vol.at(i), " normal ", w.n.transpose(), " centroid ", g.centroid(i).transpose(), " differences ", show({a[e[0]], a[e[1]], a[e[2]], a[e[3]]})));
    each(cells, [&](const Index<2>& j) { if (j != i && (dx.at(j) != -7 || dy.at(j) != -7)) ctx.check(false, "other-gradient-written", at(j)); });
    ctx.transition();
  }
  ctx.validated();
  ctx.state(mc::Hash().add(w.n[0]).add(w.n[1]).add(w.c).add(mid).add(c0).add(c1).add(h[0]));
}
// which neighbours take part when faces are closed in any combination
void neighbours(mc::Ctx& ctx) {
  const P2 h(0.5, 0.25);
  const auto cells = square(-1, 3);
  const auto inner = grown(cells, -1);
  const Index<2> i = inner.lower;
  int slot = 0;
  Grid g(cells, h, Half{P2(1, 0), -100.0}, slot, true);
  const Index<2> nb[] = {next(i, 0, -1), next(i, 0, 1), next(i, 1, -1), next(i, 1, 1)};
  bool open[4];
  int code = 0;
  for (int k = 0; k < 4; ++k) {
    const int c = ctx.choose(5); // covered, closed small, closed full, open small, open full
    code = code * 5 + c;
    open[k] = c >= 3;
    const double beta[] = {0, 0, 0, 0.25, 1}, alpha[] = {0, 0.25, 1, 0.375, 1};
    g.face[k / 2].at(next(i, k / 2, k % 2)) = beta[c];
    g.vol.at(nb[k]) = alpha[c];
    if (alpha[c] > 0 && alpha[c] < 1) { g.cen.at(join(nb[k], 0)) = 0.125 * (k - 1); g.cen.at(join(nb[k], 1)) = 0.25 - 0.0625 * k; }
  }
  const int own = ctx.choose(2);
  g.vol.at(i) = own ? 0.5 : 1.0;
  if (own) { g.cen.at(join(i, 0)) = 0.125; g.cen.at(join(i, 1)) = -0.0625; }
  const bool x = open[0] || open[1], y = open[2] || open[3];
  if (!x || !y) { ctx.outcome("no-gradient"); return; }
  const int data = ctx.choose(3);
  const Linear lin = linear_of(data);
  StateField<Eq, Complete> q(Eq{}, cells, 0, 0, nan_, slot, true);
  Grad<Conservatives> gx(Eq{}, inner, 0, 0, -7.0, slot, true), gy(Eq{}, inner, 0, 0, -7.0, slot, true), gz(Eq{}, inner, 0, 0, -7.0, slot, true);
  each(cells, [&](const Index<2>& j) {
    V u = lin.at(g.centroid(j));
    // what lies behind closed faces is another gas
    for (int k = 0; k < 4; ++k) if (j == nb[k] && !open[k]) u = {40.0, 3.0, 3.0, 900.0};
    q.set(j, complete<Conservatives>(u));
  });
  auto m = method_of<Conservatives>(0);
  m.ComputeGradients(gx.view(inner), gy.view(inner), gz.view(inner), q.cview(cells), g.data(), h);
  const V a = gx.get(i), b = gy.get(i);
  const bool regular = g.vol.at(i) == 1 && g.vol.at(nb[0]) == 1 && g.vol.at(nb[1]) == 1 && g.vol.at(nb[2]) == 1 && g.vol.at(nb[3]) == 1;
  if (!regular) for (int v = 0; v < 4; ++v) if (!close(a[v], lin.g[v][0], 1e-9) || !close(b[v], lin.g[v][1], 1e-9))
    ctx.check(false, "gradient-across-closed-face", "variable ", v, ": ", a[v], " ", b[v], " instead of ", lin.g[v].transpose(), " configuration ", code, " own ", own);
  ctx.transition(); ctx.validated();
  ctx.state(mc::Hash().add(code).add(own).add(data));
}
// midpoints of the parts of faces, and of the gas next to shielded faces
void centroids(mc::Ctx& ctx) {
  const P2 h = ctx.flip() ? P2(0.25, 0.25) : P2(0.25, 0.125);
  const Half w = wall_of(ctx, h, 8);
  const auto cells = square(ctx.pick({-3, -2, 4 - 6}), 6);
  int slot = 0;
  Grid g(cells, h, w, slot, true);
  for (int d = 0; d < 2; ++d) g.shield(d, slot, true);
  const auto geom = g.data();
  for (int d = 0; d < 2; ++d) {
    auto f = cells; f.lower[d] += 1;
    each(f, [&](const Index<2>& i) {
      const double us = g.part[0][d].at(i);
      if (us > 1e-9) {
        auto a = g.open(next(i, d, -1), d), b = g.open(i, d), c = g.open(next(i, d, 1), d);
        const double lo = std::max({a[0], b[0], c[0]}), hi = std::min({a[1], b[1], c[1]});
        const auto e = g.ends(i, d);
        const P2 want = e[0] + (e[1] - e[0]) * (0.5 * (lo + hi));
        const P2 is = GetAbsoluteUnshieldedCentroid(geom, i, h, Direction(d));
        if ((is - want).norm() > 1e-9) ctx.check(false, "unshielded-centroid", at(i), " dir ", d, ": ", is.transpose(), " instead of ", want.transpose(), " open ", b[0], "..", b[1], " unshielded ", us, " normal ", w.n.transpose());
        ctx.transition();
      }
      for (int side = 0; side < 2; ++side) {
        if (!(g.part[side ? 2 : 1][d].at(i) > 0)) continue;
        const Index<2> c = side ? i : next(i, d, -1);
        if (g.normal.at(join(c, 0)) == 0 && g.normal.at(join(c, 1)) == 0) continue;
        if (!IsCutCell(geom, c)) continue;
        const P2 b = g.boundary(c);
        P2 near = b, far = b;
        near[d] = 0.5 * (b[d] + i[d] * h[d]);
        far[d] = (i[d] + (side ? -0.5 : 0.5)) * h[d];
        auto get = [&](Side s) { return side ? GetAbsoluteSinglyShieldedFromRightVolumeCentroid(geom, i, s, Direction(d), h) : GetAbsoluteSinglyShieldedFromLeftVolumeCentroid(geom, i, s, Direction(d), h); };
        const P2 n1 = get(side ? Side::Upper : Side::Lower), f1 = get(side ? Side::Lower : Side::Upper);
        if ((n1 - near).norm() > 1e-9 || (f1 - far).norm() > 1e-9) ctx.check(false, "shielded-centroid", at(i), " dir ", d, " side ", side, ": ", n1.transpose(), " / ", f1.transpose(), " instead of ", near.transpose(), " / ", far.transpose());
        ctx.transition();
      }
    });
  }
  each(cells, [&](const Index<2>& i) {
    if (g.vol.at(i) > 0 && (GetAbsoluteVolumeCentroid(geom, i, h) - g.centroid(i)).norm() > 1e-12) ctx.check(false, "volume-centroid", at(i));
    if (g.normal.at(join(i, 0)) != 0 || g.normal.at(join(i, 1)) != 0) {
      if ((GetAbsoluteBoundaryCentroid(geom, i, h) - g.boundary(i)).norm() > 1e-12) ctx.check(false, "boundary-centroid", at(i));
      if ((GetBoundaryNormal(geom, i) - w.n).norm() > 1e-12) ctx.check(false, "boundary-normal", at(i));
    }
  });
  ctx.validated();
  ctx.state(mc::Hash().add(w.n[0]).add(w.n[1]).add(w.c).add(h[1]).add(int(cells.lower[0])));
}
V reflect(V u, const P2& n) { const P2 m(u[1], u[2]); const P2 r = m - 2 * m.dot(n) * n; u[1] = r[0]; u[2] = r[1]; return u; }
V slope(const Linear& l, const P2& e) { V s(4); for (int k = 0; k < 4; ++k) s[k] = l.g[k].dot(e); return s; }
bool same(const V& a, const V& b, double tol) { for (std::size_t k = 0; k < b.size(); ++k) if (!close(a[k], b[k], tol)) return false; return true; }

// the h-grid of a wall: states are means of linear functions, ghost states are mirror images
template <typename K> void mirror(mc::Ctx& ctx) {
  const P2 h(0.25, 0.25);
  const Half w = wall_of(ctx, h, ctx.thorough() ? 8 : 5);
  const auto cells = square(-3, 8);
  const auto inner = grown(cells, -2);
  int slot = 0;
  const bool at_end = ctx.flip();
  Grid g(cells, h, w, slot, at_end);
  for (int d = 0; d < 2; ++d) g.shield(d, slot, at_end);
  g.inner_points(slot, at_end);
  const int data = ctx.choose(4);
  const Linear lin = linear_of(data);
  StateField<Eq, Complete> q(Eq{}, cells, 0, 0, nan_, slot, at_end), ref(Eq{}, cells, 0, 0, -7.0, slot, at_end);
  Grad<K> gx(Eq{}, cells, 0, 0, 0.0, slot, at_end), gy(Eq{}, cells, 0, 0, 0.0, slot, at_end), gz(Eq{}, cells, 0, 0, 0.0, slot, at_end);
  Grad<K> rx(Eq{}, cells, 0, 0, -7.0, slot, at_end), ry(Eq{}, cells, 0, 0, -7.0, slot, at_end), rz(Eq{}, cells, 0, 0, -7.0, slot, at_end);
  each(cells, [&](const Index<2>& i) {
    if (g.vol.at(i) == 0) { q.set(i, V(6, 0.0)); return; }
    q.set(i, complete<K>(lin.at(g.centroid(i))));
    gx.set(i, slope(lin, P2(1, 0))); gy.set(i, slope(lin, P2(0, 1)));
  });
  auto m = method_of<K>(0);
  const auto geom = g.data();
  using Gr = Gradient<K>;
  std::array<View<Gr>, 3> refs{rx.view(inner), ry.view(inner), rz.view(inner)};
  std::array<View<const Gr>, 3> grads{gx.cview(cells), gy.cview(cells), gz.cview(cells)};
  m.ComputeBoundaryStates(ref.view(inner), span<View<Gr>, 3>(refs), q.cview(cells), span<View<const Gr>, 3>(grads), geom, h, Duration(0.0), Direction::X);
  HG<K> hg{Eq{}, typename K::FM::ReconstructionMethod{Eq{}}};
  each(cells, [&](const Index<2>& i) {
    const bool judged = inside(inner, i) && IsCutCell(geom, i) && (g.normal.at(join(i, 0)) != 0 || g.normal.at(join(i, 1)) != 0);
    if (!inside(inner, i) || !IsCutCell(geom, i)) { if (ref.get(i)[0] != -7 || rx.get(i)[0] != -7) ctx.check(false, "reference-of-other-cell", at(i)); return; }
    if (!judged) return;
    double area = 0; P2 c = P2::Zero();
    for (int k = 0; k < 9; ++k) { const double a = g.inner.at(join(i, 5 * k)); area += a; c += a * P2(g.inner.at(join(i, 5 * k + 1)), g.inner.at(join(i, 5 * k + 2))); }
    if (area == 0) return;
    c /= area;
    const V want = complete<K>(lin.at(c)), is = ref.get(i);
    if (!same(is, want, 1e-9)) ctx.check(false, "mean-state-at-wall", at(i), ": ", show(is), " instead of ", show(want), " normal ", w.n.transpose());
    if (!same(rx.get(i), slope(lin, P2(1, 0)), 1e-9) || !same(ry.get(i), slope(lin, P2(0, 1)), 1e-9) || !same(rz.get(i), V(4, 0.0), 1e-9)) ctx.check(false, "mean-gradient-at-wall", at(i), ": ", show(rx.get(i)), "/ ", show(ry.get(i)), "/ ", show(rz.get(i)));
    for (int d = 0; d < 2; ++d) {
      if (g.face[d].at(i) == g.face[d].at(next(i, d, 1))) continue;
      std::array<Complete<Eq>, 2> st; std::array<Gr, 2> sl;
      hg.ReconstructEmbeddedBoundaryStencil(st, sl, q.cview(cells), grads[0], grads[1], grads[2], ref.cview(cells), rx.cview(cells), ry.cview(cells), rz.cview(cells), geom, i, Duration(0.0), h, Direction(d));
      P2 e = P2::Zero(); e[d] = 1;
      const bool left = w.n[d] > 0; // the wall is on the left
      const P2 b = g.boundary(i);
      const P2 in = b + (left ? 0.5 : -0.5) * h[d] * e, ghost = b - (left ? 0.5 : -0.5) * h[d] * e;
      auto mirrored = [&](const P2& x) { return P2(x - 2 * (w.n.dot(x) - w.c) * w.n); };
      const V want_in = complete<K>(lin.at(in)), want_ghost = complete<K>(reflect(lin.at(mirrored(ghost)), w.n));
      const V s_in = slope(lin, e), s_ghost = reflect(slope(lin, e - 2 * e.dot(w.n) * w.n), w.n);
      const int gi = left ? 0 : 1;
      if (!same(flat(st[1 - gi]), want_in, 1e-9)) ctx.check(false, "inner-state-at-wall", at(i), " dir ", d, ": ", show(flat(st[1 - gi])), " instead of ", show(want_in), " normal ", w.n.transpose());
      if (!same(flat(st[gi]), want_ghost, 1e-9)) ctx.check(false, "mirror-state", at(i), " dir ", d, ": ", show(flat(st[gi])), " instead of ", show(want_ghost), " normal ", w.n.transpose());
      if (!same(flat(sl[1 - gi]), s_in, 1e-9)) ctx.check(false, "inner-slope-at-wall", at(i), " dir ", d, ": ", show(flat(sl[1 - gi])), " instead of ", show(s_in), " normal ", w.n.transpose());
      if (!same(flat(sl[gi]), s_ghost, 1e-9)) ctx.check(false, "mirror-slope", at(i), " dir ", d, ": ", show(flat(sl[gi])), " instead of ", show(s_ghost), " normal ", w.n.transpose());
      ctx.transition();
    }
  });
  ctx.validated();
  ctx.state(mc::Hash().add(w.n[0]).add(w.n[1]).add(w.c).add(data).add(int(at_end)));
}
// a flow along the wall which varies linearly: all fluxes next to the wall are those of the undisturbed flow
template <typename K> void along(mc::Ctx& ctx) {
  const P2 h(0.25, 0.25);
  const Half w = wall_of(ctx, h, ctx.thorough() ? 8 : 5);
  const P2 t(-w.n[1], w.n[0]);
  const auto cells = square(-3, 8);
  const auto inner = grown(cells, -2);
  const int d = ctx.choose(2);
  const double speed = ctx.pick({0.0, 0.75, -2.0, 0.25}), rate = ctx.pick({0.0, 0.5});
  const bool at_end = ctx.flip();
  int slot = 0;
  Grid g(cells, h, w, slot, at_end);
  for (int k = 0; k < 2; ++k) g.shield(k, slot, at_end);
  g.inner_points(slot, at_end);
  Linear lin;
  lin.base = {2.0, speed * t[0], speed * t[1], 4.0 + 2 * speed * speed};
  lin.g[0] = 0.5 * rate * t; lin.g[1] = rate * t[0] * t; lin.g[2] = rate * t[1] * t; lin.g[3] = -0.75 * rate * t;
  StateField<Eq, Complete> q(Eq{}, cells, 0, 0, nan_, slot, at_end), ref(Eq{}, cells, 0, 0, nan_, slot, at_end);
  Grad<K> gx(Eq{}, cells, 0, 0, 0.0, slot, at_end), gy(Eq{}, cells, 0, 0, 0.0, slot, at_end), gz(Eq{}, cells, 0, 0, 0.0, slot, at_end);
  Grad<K> rx(Eq{}, cells, 0, 0, nan_, slot, at_end), ry(Eq{}, cells, 0, 0, nan_, slot, at_end), rz(Eq{}, cells, 0, 0, nan_, slot, at_end);
  each(cells, [&](const Index<2>& i) {
    if (g.vol.at(i) == 0) { q.set(i, V(6, 0.0)); return; }
    q.set(i, complete<K>(lin.at(g.centroid(i))));
    gx.set(i, slope(lin, P2(1, 0))); gy.set(i, slope(lin, P2(0, 1)));
  });
  auto m = method_of<K>(0);
  const auto geom = g.data();
  using Gr = Gradient<K>;
  std::array<View<Gr>, 3> refs{rx.view(inner), ry.view(inner), rz.view(inner)};
  std::array<View<const Gr>, 3> grads{gx.cview(cells), gy.cview(cells), gz.cview(cells)};
  m.ComputeBoundaryStates(ref.view(inner), span<View<Gr>, 3>(refs), q.cview(cells), span<View<const Gr>, 3>(grads), geom, h, Duration(0.0), Direction(d));
  auto faces = inner; faces.upper[d] += 1;
  using C = StateField<Eq, Conservative>;
  C stab(Eq{}, faces, 0, 0, 0.0, slot, at_end), sl(Eq{}, faces, 0, 0, 0.0, slot, at_end), sr(Eq{}, faces, 0, 0, 0.0, slot, at_end), ds(Eq{}, faces, 0, 0, 0.0, slot, at_end), reg(Eq{}, faces, 0, 0, -7.0, slot, at_end), bnd(Eq{}, inner, 0, 0, -7.0, slot, at_end);
  const Duration dt(1.0 / 64);
  m.ComputeCutCellFluxes(stab.view(faces), sl.view(faces), sr.view(faces), ds.view(faces), reg.view(faces), bnd.view(inner), ref.cview(inner), rx.cview(inner), ry.cview(inner), rz.cview(inner), grads[0], grads[1], grads[2], q.cview(cells), geom, dt, h, Direction(d));
  typename K::FM base{Eq{}};
  P2 e = P2::Zero(); e[d] = 1;
  auto flux = [&](const P2& x) { // through a face with this midpoint
    const Complete<Eq> s[2] = {unflat<Complete<Eq>>(complete<K>(lin.at(x - 0.5 * h[d] * e))), unflat<Complete<Eq>>(complete<K>(lin.at(x + 0.5 * h[d] * e)))};
    const Gr gs[2] = {unflat<Gr>(slope(lin, e)), unflat<Gr>(slope(lin, e))};
    Conservative<Eq> f;
    base.ComputeNumericFlux(f, span<const Complete<Eq>, 2>(s), span<const Gr, 2>(gs), dt, h[d], Direction(d));
    return flat(f);
  };
  auto judge = [&](const V& is, const V& want, const char* key, const Index<2>& i) {
    if (!same(is, want, 1e-7)) ctx.check(false, key, at(i), " dir ", d, ": ", show(is), " instead of ", show(want), " normal ", w.n.transpose(), " offset ", w.c, " speed ", speed, " rate ", rate);
    ctx.transition();
  };
  each(inner, [&](const Index<2>& i) {
    const double L = g.face[d].at(i), R = g.face[d].at(next(i, d, 1));
    if (L == R) { if (bnd.get(i)[0] != -7) ctx.check(false, "wall-flux-of-other-cell", at(i)); return; }
    const P2 b = g.boundary(i);
    judge(bnd.get(i), flux(b), "flux-at-wall", i);
    const auto f = L < R ? next(i, d, 1) : i;
    P2 x = b; x[d] = f[d] * h[d];
    judge((L < R ? sl : sr).get(f), flux(x), "flux-shielded-by-wall", f);
  });
  each(faces, [&](const Index<2>& i) {
    const double us = g.part[0][d].at(i);
    const V r = reg.get(i);
    if (us > 0) {
      auto a = g.open(next(i, d, -1), d), b = g.open(i, d), c = g.open(next(i, d, 1), d);
      const double lo = std::max({a[0], b[0], c[0]}), hi = std::min({a[1], b[1], c[1]});
      const auto ee = g.ends(i, d);
      judge(r, flux(ee[0] + (ee[1] - ee[0]) * (0.5 * (lo + hi))), "flux-through-open-part", i);
    } else judge(r, V(4, 0.0), "flux-through-closed-part", i);
    const V l = sl.get(i), rr = sr.get(i);
    V want(4);
    for (int k = 0; k < 4; ++k) want[k] = g.rel[0][d].at(i) * r[k] + g.rel[1][d].at(i) * l[k] + g.rel[2][d].at(i) * rr[k];
    judge(stab.get(i), want, "stabilised-flux", i);
    // an undisturbed flow stays one
    bool known = true;
    if (g.rel[1][d].at(i) > 0 && !inside(inner, next(i, d, -1))) known = false;
    if (g.rel[2][d].at(i) > 0 && !inside(inner, i)) known = false;
    if (rate == 0 && known && g.face[d].at(i) > 0 && g.part[3][d].at(i) == 0) judge(stab.get(i), flux(P2::Zero()), "free-stream", i);
  });
  ctx.validated();
  ctx.state(mc::Hash().add(w.n[0]).add(w.n[1]).add(w.c).add(d).add(speed).add(rate).add(int(at_end)));
}
// fluxes of regular faces with given gradients, chunk by chunk
template <typename K> void regular(mc::Ctx& ctx) {
  using Gr = Gradient<K>;
  const int d = ctx.choose(2);
  const int nx = ctx.thorough() ? ctx.range(1, 18) : ctx.pick({1, 7, 8, 9, 17});
  IndexBox<2> faces;
  faces.lower = {-1, 2}; faces.upper = {-1 + nx, 4};
  auto cells = faces; cells.lower[d] -= 2; cells.upper[d] += 1;
  auto near = faces; near.lower[d] -= 1;
  const bool at_end = ctx.flip();
  int slot = 0;
  Grid g(cells, P2(1, 1), Half{P2(1, 0), -1000.0}, slot, at_end);
  StateField<Eq, Complete> q(Eq{}, cells, 0, 0, 0.0, slot, at_end);
  Grad<K> gx(Eq{}, near, 0, 0, 0.0, slot, at_end), gy(Eq{}, near, 0, 0, 0.0, slot, at_end), gz(Eq{}, near, 0, 0, 0.0, slot, at_end);
  StateField<Eq, Conservative> out(Eq{}, faces, 0, 0, -7.0, slot, at_end);
  Index<2> c = cells.lower;
  c[0] += ctx.choose(int(cells.upper[0] - cells.lower[0]));
  const int pattern = ctx.choose(5);
  auto covered = [&](const Index<2>& i) { return pattern == 0 ? false : pattern == 1 ? i == c : pattern == 2 ? i[0] >= c[0] : pattern == 3 ? i[0] <= c[0] : (hash(i, pattern) % 3 == 0) != (i == c); };
  auto lin = [&](const Index<2>& i, int salt) { V u{2.0, 0.5, -0.25, 4.0}; for (int k = 0; k < 4; ++k) u[k] += (double(hash(i, salt + k) % 9) - 4) / 16; return u; };
  auto grad = [&](const Index<2>& i, int salt) { V u(4); for (int k = 0; k < 4; ++k) u[k] = (double(hash(i, salt + k) % 9) - 4) / 8; return u; };
  each(cells, [&](const Index<2>& i) { if (covered(i)) { g.vol.at(i) = 0; q.set(i, V(6, pattern % 2 ? 0.0 : 1e30)); } else q.set(i, complete<K>(lin(i, 100))); });
  each(near, [&](const Index<2>& i) { gx.set(i, grad(i, 200)); gy.set(i, grad(i, 300)); gz.set(i, V(4, 0.0)); });
  for (int k = 0; k < 2; ++k) each(g.face[k].box, [&](const Index<2>& i) {
    const bool closed = (inside(cells, i) && covered(i)) || (inside(cells, next(i, k, -1)) && covered(next(i, k, -1)));
    g.face[k].at(i) = closed ? 0.0 : hash(i, 30 + k) % 5 == 0 ? 0.375 : hash(i, 30 + k) % 11 == 0 ? 0.0 : 1.0;
  });
  auto m = method_of<K>(0);
  const Duration dt(1.0 / 64);
  const double dx = 0.25;
  m.ComputeRegularFluxes(out.view(faces), q.cview(cells), gx.cview(near), gy.cview(near), gz.cview(near), g.data(), dt, dx, Direction(d));
  const double h = m.ComputeStableDt(q.cview(cells), g.data(), dx, Direction(d));
  typename K::FM base{Eq{}};
  double want_h = std::numeric_limits<double>::infinity();
  each(faces, [&](const Index<2>& i) {
    const V f = out.get(i);
    if (g.face[d].at(i) <= 0) { for (double x : f) if (x != 0) ctx.check(false, "flux-through-closed-face", at(i), ": ", show(f)); return; }
    std::array<Complete<Eq>, 4> s;
    for (int k = 0; k < 4; ++k) s[k] = unflat<Complete<Eq>>(q.get(next(i, d, k - 2)));
    const Gr gs[2] = {unflat<Gr>((d ? gy : gx).get(next(i, d, -1))), unflat<Gr>((d ? gy : gx).get(i))};
    Conservative<Eq> F;
    base.ComputeNumericFlux(F, span<const Complete<Eq>, 4>(s).template subspan<1, 2>(), span<const Gr, 2>(gs), dt, dx, Direction(d));
    if (!same(f, flat(F), 1e-6)) ctx.check(false, "regular-flux", at(i), ": ", show(f), " instead of ", show(flat(F)), " length ", nx, " dir ", d, " pattern ", pattern);
    want_h = std::min(want_h, base.ComputeStableDt(span<const Complete<Eq>, 4>(s), dx, Direction(d)));
    ctx.transition();
  });
  if (std::isinf(want_h)) ctx.check(h > 1e300, "stable-step-of-closed-faces", h);
  else ctx.check(std::fabs(h - want_h) <= 1e-6 * want_h, "stable-step", h, " instead of ", want_h, " length ", nx, " dir ", d, " pattern ", pattern);
  ctx.validated();
  ctx.state(mc::Hash().add(d).add(nx).add(pattern).add(int(c[0])).add(int(at_end)));
}
// copies of a limiter are independent of it
void limiter_values(mc::Ctx& ctx) {
  const auto cells = square(-1, 4);
  int slot = 0;
  Grid g(cells, P2(1, 1), Half{P2(1, 0), -100.0}, slot, true);
  auto u = alloc<2>(cells, 0, 0, 2, 1.0, slot++, true), dx = alloc<2>(cells, 0, 0, 2, 0.0, slot++, true), dy = alloc<2>(cells, 0, 0, 2, 0.0, slot++, true);
  const auto geom = g.data();
  const std::array<StridedDataView<double, 2>, 2> grad{strided<double, 2>(dx, cells), strided<double, 2>(dy, cells)};
  auto kind = [&](const AnyLimiter<2>& l) { // 0 keeps, 1 removes, 2 limits
    dx.at({0, 0}) = 3.0; dy.at({0, 0}) = 2.0; u.at({0, 0}) = 0.0; u.at({1, 0}) = 1.5; u.at({-1, 0}) = -9; u.at({0, 1}) = 9; u.at({0, -1}) = -9;
    l.LimitGradientsAtIndex(grad, strided<const double, 2>(u, cells), geom, {0, 0}, P2(1, 1));
    const double x = dx.at({0, 0}), y = dy.at({0, 0});
    return x == 3 && y == 2 ? 0 : x == 0 && y == 0 ? 1 : std::fabs(x - 1.5) < 1e-12 && std::fabs(y - 2) < 1e-12 ? 2 : 3;
  };
  // a default constructed limiter does nothing
  std::vector<AnyLimiter<2>> v(3);
  int want[3] = {0, 0, 0};
  for (int k = 0; k < (ctx.thorough() ? 5 : 4); ++k) {
    const int op = ctx.choose(5), a = ctx.choose(3), b = ctx.choose(3);
    if (op < 3) { v[a] = limiter_of(op); want[a] = op; if (b) throw mc::Prune{}; }
    else if (op == 3) { v[a] = v[b]; want[a] = want[b]; }
    else { AnyLimiter<2> t(v[b]); v[a] = std::move(t); want[a] = want[b]; }
    for (int i = 0; i < 3; ++i) { const int is = kind(v[i]); if (is != want[i]) ctx.check(false, "limiter-value", "slot ", i, " is ", is, " instead of ", want[i]); }
    ctx.transition();
  }
  ctx.validated();
  ctx.state(mc::Hash().add(want[0]).add(want[1]).add(want[2]));
}
} // namespace
SCENARIO("gradients-primitive", "24 normals x offsets x half planes and wedges x 4 linear and one rough function x 3 limiters", 3) { gradients<Primitives>(ctx); }
SCENARIO("gradients-conservative", "24 normals x offsets x half planes and wedges x 4 linear and one rough function x 3 limiters", 3) { gradients<Conservatives>(ctx); }
SCENARIO("limiter", "24 normals x offsets x all differences of 5 values to 4 neighbours x gradients of 5 values", 3) { limiter(ctx); }
SCENARIO("neighbours", "all combinations of 5 kinds of neighbours on 4 sides", 2) { neighbours(ctx); }
SCENARIO("centroids", "24 normals x 8 offsets x grids, all faces", 1) { centroids(ctx); }
SCENARIO("mirror-primitive", "24 normals x offsets x 4 linear functions, all cut cells", 1) { mirror<Primitives>(ctx); }
SCENARIO("mirror-conservative", "24 normals x offsets x 4 linear functions, all cut cells", 1) { mirror<Conservatives>(ctx); }
SCENARIO("along-primitive", "24 normals x offsets x speeds x rates, all cells and faces", 2) { along<Primitives>(ctx); }
SCENARIO("along-conservative", "24 normals x offsets x speeds x rates, all cells and faces", 2) { along<Conservatives>(ctx); }
SCENARIO("regular-primitive", "row lengths x covered cells x layouts", 2) { regular<Primitives>(ctx); }
SCENARIO("regular-conservative", "row lengths x covered cells x layouts", 2) { regular<Conservatives>(ctx); }
SCENARIO("limiter-values", "all histories of 4 (5) copies and assignments of 3 limiters", 2) { limiter_values(ctx); }
