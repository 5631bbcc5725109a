// Signed distances of geometries, their combinations, and point files.
#include "mc.hpp"
#include "fub/core/type_traits.hpp"
#include <cmath>
#include <algorithm>
#include <numeric>
#include <fstream>
#include "fub/geometry/Cone.hpp"
#include "fub/geometry/ExpandTube.hpp"
#include "fub/geometry/Halfspace.hpp"
#include "fub/geometry/Polygon.hpp"
#include "fub/geometry/Union.hpp"
#include "fub/geometry/Invert.hpp"
#include "fub/geometry/RotateAxis.hpp"
#include "fub/geometry/RotateAroundPoint.hpp"
#include "fub/geometry/PolymorphicGeometry.hpp"
using namespace fub;
namespace {
using P2 = std::array<double, 2>;
using P3 = std::array<double, 3>;
using Pts = std::vector<P2>;
double seg(P2 p, P2 a, P2 b) {
  const long double dx = b[0] - a[0], dy = b[1] - a[1], l = dx * dx + dy * dy;
  long double t = l > 0 ? ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l : 0;
  t = std::clamp(t, 0.0L, 1.0L);
  return double(hypotl(a[0] + t * dx - p[0], a[1] + t * dy - p[1]));
}
// even-odd rule with a ray into a direction that is not an axis
bool inside(P2 p, const Pts& v) {
  const long double cx = std::cos(1.2345678L), cy = std::sin(1.2345678L);
  int n = 0;
  for (std::size_t i = 0; i + 1 < v.size(); ++i) {
    const long double ax = v[i][0] - p[0], ay = v[i][1] - p[1], bx = v[i + 1][0] - p[0], by = v[i + 1][1] - p[1];
    const long double sa = cx * ay - cy * ax, sb = cx * by - cy * bx; // side of the ray's line
    if ((sa > 0) == (sb > 0)) continue;
    const long double t = sa / (sa - sb);
    if (cx * (ax + t * (bx - ax)) + cy * (ay + t * (by - ay)) > 0) ++n;
  }
  return n % 2;
}
double signed_distance(P2 p, const Pts& v) {
  double d = INFINITY;
  for (std::size_t i = 0; i + 1 < v.size(); ++i) d = std::min(d, seg(p, v[i], v[i + 1]));
  return inside(p, v) ? d : -d;
}
Polygon make(const Pts& v) {
  Polygon::Vector x, y;
  for (auto& p : v) { x.push_back(p[0]); y.push_back(p[1]); }
  return Polygon(x, y);
}
std::string show(const Pts& v) { std::string s; for (auto& p : v) s += mc::cat("(", p[0], ",", p[1], ") "); return s; }
template <class F> void close_at(mc::Ctx& ctx, double got, double want, const char* key, F text) {
  if (!(std::abs(got - want) <= 1e-11 * (1 + std::abs(want)))) ctx.check(false, key, got, " instead of ", want, " ", text());
}
void close(mc::Ctx& ctx, double got, double want, const char* key, const char* text) { close_at(ctx, got, want, key, [&] { return text; }); }
void judge(mc::Ctx& ctx, const Polygon& g, const Pts& v, P2 p) {
  const double want = signed_distance(p, v), got = g.ComputeDistanceTo(p[0], p[1]);
  if (std::abs(want) < 1e-11) close_at(ctx, std::abs(got), 0, "distance-on-boundary", [&] { return show(v); });
  else close_at(ctx, got, want, got * want < 0 ? "wrong-side" : "distance", [&] { return mc::cat("at (", p[0], ",", p[1], ") of ", show(v)); });
  if (g.ComputeDistanceTo(p) != got) ctx.check(false, "overloads-differ");
}
// every closed polygon with n corners on a grid
void small(mc::Ctx& ctx, int n, int w) {
  Pts v;
  for (int i = 0; i < n; ++i) { const int k = ctx.choose(w * w); v.push_back({double(k % w), double(k / w)}); }
  v.push_back(v[0]);
  const Polygon g = make(v);
  for (int a = -2; a <= 2 * w; ++a) for (int b = -2; b <= 2 * w; ++b) { judge(ctx, g, v, {a * 0.5, b * 0.5}); ctx.transition(); }
  judge(ctx, g, v, {0.3, 0.7});
  judge(ctx, g, v, {1e3, 0.7});
  ctx.validated();
  mc::Hash h;
  for (auto& p : v) h.add(p[0]).add(p[1]);
  ctx.state(h);
}
// star shaped and zig-zag outlines with many corners: every position of the last corner in the vector
Pts many(int n, int kind, int start, bool reverse) {
  Pts v;
  for (int i = 0; i < n; ++i) {
    if (kind == 0) { const double a = 2 * M_PI * i / n, r = i % 2 ? 1.0 : 2.0; v.push_back({r * std::cos(a), r * std::sin(a)}); }
    else if (kind == 1) { const double a = 2 * M_PI * i / n; v.push_back({std::cos(a), std::sin(a)}); }
    else { const int h = n / 2; v.push_back(i < h ? P2{double(i), i % 2 ? 0.5 : 0.0} : P2{double(n - 1 - i), 2.0 + (i % 2 ? 0.5 : 0.0)}); }
  }
  std::rotate(v.begin(), v.begin() + start % n, v.end());
  if (reverse) std::reverse(v.begin(), v.end());
  v.push_back(v[0]);
  return v;
}
template <std::size_t R> struct Sphere {
  std::array<double, R> c; double r; int* copies;
  double ComputeDistanceTo(const std::array<double, R>& x) const { double s = 0; for (std::size_t d = 0; d < R; ++d) s += (x[d] - c[d]) * (x[d] - c[d]); return r - std::sqrt(s); }
};
template <std::size_t R> void unions(mc::Ctx& ctx) {
  const int n = ctx.range(0, 3);
  std::vector<Sphere<R>> balls;
  std::vector<PolymorphicGeometry<R>> geoms;
  for (int i = 0; i < n; ++i) {
    Sphere<R> s{};
    const int k = ctx.choose(4);
    s.c[0] = k; s.c[1] = k % 2; s.r = 0.5 + 0.5 * ctx.choose(2);
    balls.push_back(s);
    geoms.emplace_back(s);
  }
  PolymorphicUnion<R> u(geoms);
  geoms.clear(); // the union keeps its own copies
  std::unique_ptr<Geometry<R>> c = u.Clone();
  PolymorphicGeometry<R> p(u), q(p);
  Invert<PolymorphicUnion<R>> inv(u);
  for (int a = -1; a <= 9; ++a) for (int b = -1; b <= 5; ++b) {
    std::array<double, R> x{a * 0.5, b * 0.5};
    double want = std::numeric_limits<double>::lowest();
    for (auto& s : balls) want = std::max(want, s.ComputeDistanceTo(x));
    close(ctx, u.ComputeDistanceTo(x), want, "union", "");
    close(ctx, c->ComputeDistanceTo(x), want, "union-clone", "");
    close(ctx, q.ComputeDistanceTo(x), want, "polymorphic-copy", "");
    close(ctx, q.Clone()->ComputeDistanceTo(x), want, "polymorphic-clone", "");
    if (n) close(ctx, inv.ComputeDistanceTo(x), -want, "inverted-union", "");
    if constexpr (R == 2) { if (n) close(ctx, inv.ComputeDistanceTo(P3{x[0], x[1], 5.0}), -want, "inverted-union-3d", ""); }
    else { if (n) close(ctx, inv.ComputeDistanceTo(P2{x[0], x[1]}), -want, "inverted-union-2d", ""); }
    ctx.transition();
  }
  ctx.validated();
  mc::Hash h;
  for (auto& s : balls) h.add(s.c[0]).add(s.r);
  ctx.state(h.add(int(R)));
}
} // namespace
SCENARIO("polygon-3", "all triangles (also degenerate ones) on a 4x4 grid x 100 points", 1) { small(ctx, 3, 4); }
SCENARIO("polygon-4", "all quadrangles (also self intersecting ones) on a 3x3 grid x 64 points", 1) { small(ctx, 4, ctx.thorough() ? 4 : 3); }
SCENARIO("polygon-5", "all pentagons on a 3x3 grid x 64 points", 2) { small(ctx, 5, ctx.thorough() ? 4 : 3); }
SCENARIO("polygon-many", "three outlines x 1..40 corners x every start and orientation x 140 points", 1) {
  const int kind = ctx.choose(3), n = ctx.range(kind == 2 ? 4 : 1, 40);
  if (kind == 2 && n % 2) throw mc::Prune{};
  const Pts v = many(n, kind, ctx.choose(std::min(n, 10)) * (n > 10 ? 4 : 1), ctx.flip());
  const Polygon g = make(v);
  for (int a = -7; a < 7; ++a) for (int b = -5; b < 5; ++b) { judge(ctx, g, v, kind == 2 ? P2{(a + 7) * n / 26.0 - 0.3, b * 0.6 + 1.1} : P2{a * 0.31, b * 0.43}); ctx.transition(); }
  // other geometries made of it
  Invert<Polygon> inv(g);
  RotateAxis<Polygon> rot(g);
  PolymorphicGeometry<2> pg(g), pg2(pg);
  for (double angle : {0.0, 0.7, -2.0, M_PI / 2}) for (P2 x0 : {P2{0.0, 0.0}, P2{0.4, -1.3}}) {
  RotateAroundPoint<Polygon> turned(g, angle, x0);
  for (int a = -3; a <= 3; ++a) for (int b = -3; b <= 3; ++b) {
    const P2 p{a * 0.71, b * 0.53};
    const double want = g.ComputeDistanceTo(p[0], p[1]);
    close(ctx, inv.ComputeDistanceTo(p), -want, "inverted", "");
    close(ctx, inv.ComputeDistanceTo(P3{p[0], p[1], 3.0}), -want, "inverted-3d", "");
    close(ctx, pg.ComputeDistanceTo(p), want, "polymorphic", "");
    close(ctx, pg2.Clone()->ComputeDistanceTo(p), want, "polymorphic-clone", "");
    const P2 q{x0[0] + std::cos(angle) * (p[0] - x0[0]) - std::sin(angle) * (p[1] - x0[1]), x0[1] + std::sin(angle) * (p[0] - x0[0]) + std::cos(angle) * (p[1] - x0[1])};
    if (std::abs(want) > 1e-9) close_at(ctx, turned.ComputeDistanceTo(q), want, "turned", [&] { return mc::cat("by ", angle); });
    for (double f : {0.0, 0.9, 2.5}) {
      const double r = std::abs(p[1]);
      const double ws = g.ComputeDistanceTo(p[0], r);
      if (std::abs(ws) > 1e-9) close(ctx, rot.ComputeDistanceTo(P3{p[0], r * std::cos(f), r * std::sin(f)}), ws, "rotated-around-axis", "");
    }
  }
  ctx.state(mc::Hash().add(kind).add(n).add(angle).add(x0[0]));
  }
  ctx.validated();
}
SCENARIO("cone", "cones x sides x points below, beside, inside and above", 1) {
  const P3 base = ctx.flip() ? P3{0, 0, 0} : P3{0.5, -1, 2};
  const double R = ctx.pick({1.0, 0.25, 3.0}), H = ctx.pick({1.0, 0.5, 4.0});
  const bool in = ctx.flip();
  const ConeIF cone(base, R, H, in);
  for (int a = -8; a <= 16; ++a) for (int b = 0; b <= 16; ++b) for (double f : {0.0, 1.1, 3.3}) {
    const double l = a * H / 8.0 + (a % 3) * 0.01, r = b * R / 8.0;
    const P2 p{l, r};
    double d = std::min(seg(p, {0, 0}, {0, R}), seg(p, {0, R}, {H, 0}));
    const bool inside = l > 0 && l < H && r < (1 - l / H) * R;
    double want = (inside ? -d : d) * (in ? 1 : -1);
    const P3 x{base[0] + l, base[1] + r * std::cos(f), base[2] + r * std::sin(f)};
    const double got = cone.ComputeDistanceTo(x);
    close_at(ctx, got, want, got * want < 0 && std::abs(want) > 1e-9 ? "wrong-side" : "cone-distance", [&] { return mc::cat("radius ", R, " height ", H, " at axis ", l, " radius ", r); });
    ctx.transition();
  }
  ctx.validated(); ctx.state(mc::Hash().add(R).add(H).add(int(in)).add(base[0]));
}
SCENARIO("halfspace", "directions (any length) x offsets x points, both overloads", 1) {
  const Eigen::Vector3d n(ctx.range(-1, 1), ctx.range(-1, 1), ctx.range(-1, 1) * 2);
  if (n.norm() == 0) throw mc::Prune{};
  const double s = ctx.pick({1.0, 3.0, 0.1}), off = ctx.pick({0.0, 0.4, -0.8});
  const Halfspace h(n * s, off);
  for (int a = -1; a < 2; ++a) for (int b = -1; b < 2; ++b) for (int c = -1; c < 2; ++c) {
    const Eigen::Vector3d x(a * 0.3, b * 0.7, c * 1.1), foot = n.normalized() * off;
    const double want = (x - foot).dot(n) / n.norm();
    close(ctx, h(x), want, "halfspace", "");
    close(ctx, h(x[0], x[1], x[2]), want, "halfspace-coordinates", "");
    ctx.transition();
  }
  ctx.validated(); ctx.state(mc::Hash().add(n[0]).add(n[1]).add(n[2]).add(s).add(off));
}
SCENARIO("unions-2d", "up to 3 of 8 balls, their union, copies, clones and complements", 1) { unions<2>(ctx); }
SCENARIO("unions-3d", "up to 3 of 8 balls, their union, copies, clones and complements", 1) { unions<3>(ctx); }
SCENARIO("tube", "bent tubes that leave upwards and return downwards x points", 1) {
  const double w = ctx.pick({2.0, 3.0, 5.0}), h = ctx.pick({2.0, 4.0}), rad = ctx.pick({0.25, 0.5});
  const int mid = ctx.range(0, 2);
  std::vector<Eigen::Vector3d> pts{{0, 0, 0}, {0, h, 0}};
  for (int i = 0; i < mid; ++i) pts.push_back({w * (i + 1) / (mid + 1), h + 0.2 * (i + 1), 0});
  pts.push_back({w, h, 0});
  pts.push_back({w, 0, 0});
  Eigen::Matrix<double, 3, Eigen::Dynamic> m(3, pts.size());
  for (std::size_t i = 0; i < pts.size(); ++i) m.col(i) = pts[i];
  const ExpandTube tube(m, rad);
  // exactly the distance from the wall around the middle of every segment
  for (std::size_t i = 0; i + 1 < pts.size(); ++i) {
    const Eigen::Vector3d t = (pts[i + 1] - pts[i]).normalized(), c = 0.5 * (pts[i] + pts[i + 1]), n(-t[1], t[0], 0), z(0, 0, 1);
    for (double r : {0.0, 0.5, 0.9, 1.1, 1.5}) for (int k = 0; k < 8; ++k) {
      const Eigen::Vector3d x = c + r * rad * (std::cos(k * M_PI / 4) * n + std::sin(k * M_PI / 4) * z);
      const double len = (pts[i + 1] - pts[i]).norm();
      if (len < 4 * rad) continue;
      close_at(ctx, tube(x[0], x[1], x[2]), rad - r * rad, "tube-wall", [&] { return mc::cat("segment ", i, " radius ", r * rad, " of ", rad); });
      ctx.check(tube(x) == tube(x[0], x[1], x[2]), "tube-overload");
      ctx.transition();
    }
  }
  // the ends are closed, the joints are open
  for (double y : {-0.01, -1.0}) for (double x : {0.0, w}) ctx.check(tube(x, y, 0) < 0, "tube-open-at-end", x, " ", y);
  for (std::size_t i = 1; i + 1 < pts.size(); ++i) ctx.check(tube(pts[i][0], pts[i][1], 0) > -1e-12, "tube-closed-at-joint", i);
  ctx.validated(); ctx.state(mc::Hash().add(w).add(h).add(rad).add(mid));
}
SCENARIO("point-files", "all files of up to 5 lines of 7 kinds, with and without final newline", 1) {
  static const char* kinds[] = {"0 1", "2.5 -3", "4 5 6", "", "7", "x y", "  8\t9  "};
  static const double xs[] = {0, 2.5, 4, NAN, NAN, NAN, 8}, ys[] = {1, -3, 5, NAN, NAN, NAN, 9};
  const int n = ctx.range(0, ctx.thorough() ? 5 : 4);
  std::string text;
  std::vector<P2> want;
  for (int i = 0; i < n; ++i) { const int k = ctx.choose(7); text += kinds[k]; if (i + 1 < n) text += '\n'; if (!std::isnan(xs[k])) want.push_back({xs[k], ys[k]}); }
  if (n && ctx.flip()) text += '\n';
  static const std::string name = mc::cat("/tmp/verif_points_", getpid());
  { std::ofstream f(name); f << text; }
  const auto m = ReadPointsFromFile(name);
  ::unlink(name.c_str());
  ctx.check(m.cols() == int(want.size()), "number-of-points", m.cols(), " instead of ", want.size(), " from '", text, "'");
  for (int i = 0; i < m.cols(); ++i) ctx.check(m(0, i) == want[i][0] && m(1, i) == want[i][1] && m(2, i) == 0.0, "point", i, ": ", m(0, i), " ", m(1, i), " ", m(2, i), " from '", text, "'");
  bool thrown = false;
  if (n == 0) { try { ReadPointsFromFile(name + "_missing"); } catch (std::runtime_error&) { thrown = true; } ctx.check(thrown, "missing-file-accepted"); }
  ctx.transition(); ctx.validated(); ctx.state(mc::Hash().add(text));
}
