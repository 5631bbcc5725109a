// Exact cut cell data of a plane grid that is cut by half planes (clipping of polygons).
#ifndef VERIF_PLANAR_HPP
#define VERIF_PLANAR_HPP
#include "field.hpp"
#include "fub/CutCellData.hpp"
#include <Eigen/Dense>
#include <vector>
namespace planar {
using namespace fub;
using P2 = Eigen::Vector2d;
using Poly = std::vector<P2>;
struct Half { P2 n; double c; }; // n . x >= c
inline Poly clip(const Poly& p, const Half& h) {
  Poly r;
  for (std::size_t k = 0; k < p.size(); ++k) {
    const P2 a = p[k], b = p[(k + 1) % p.size()];
    const double da = h.n.dot(a) - h.c, db = h.n.dot(b) - h.c;
    if (da >= 0) r.push_back(a);
    if ((da > 0 && db < 0) || (da < 0 && db > 0)) r.push_back(a + (b - a) * (da / (da - db)));
  }
  return r;
}
struct Moments { double area = 0; P2 m = P2::Zero(); };
inline Moments moments(const Poly& p) {
  Moments r;
  for (std::size_t k = 1; k + 1 < p.size(); ++k) {
    const P2 a = p[k] - p[0], b = p[k + 1] - p[0];
    const double t = 0.5 * (a[0] * b[1] - a[1] * b[0]);
    r.area += t;
    r.m += t * (p[0] + (a + b) / 3);
  }
  return r;
}
inline Poly cell_poly(const Index<2>& i, const P2& h) {
  const double x = i[0] * h[0], y = i[1] * h[1];
  return {P2(x, y), P2(x + h[0], y), P2(x + h[0], y + h[1]), P2(x, y + h[1])};
}
// part of the segment inside of the half plane, as an interval of its parameter
inline std::array<double, 2> clip(const P2& a, const P2& b, const Half& h) {
  const double da = h.n.dot(a) - h.c, db = h.n.dot(b) - h.c;
  if (da >= 0 && db >= 0) return {0, 1};
  if (da <= 0 && db <= 0) return {0, 0};
  const double t = da / (da - db);
  return da > 0 ? std::array<double, 2>{0, t} : std::array<double, 2>{t, 1};
}
inline double snap(double x) { return x < 1e-9 ? 0.0 : x > 1 - 1e-9 ? 1.0 : x; }
struct Grid {
  IndexBox<2> cells;
  P2 h;
  Half wall; // fluid
  bool body = false; // the fluid is everything outside of wall and wall2
  Half wall2{};
  bool two = false;
  Field<2> vol;
  Field<3> cen, bc, normal, inner;
  std::vector<Field<2>> face, part[4], rel[4]; // unshielded, left, right, both
  Poly fluid_part(Poly p) const { p = clip(p, wall); return two ? clip(p, wall2) : p; }
  static Index<2> nb(Index<2> i, int d, int by) { i[d] += by; return i; }
  // both ends of a face
  std::array<P2, 2> ends(const Index<2>& f, int d) const {
    const P2 a(f[0] * h[0], f[1] * h[1]);
    P2 b = a; b[1 - d] += h[1 - d];
    return {a, b};
  }
  std::array<double, 2> open(const Index<2>& f, int d) const {
    const auto e = ends(f, d);
    auto r = clip(e[0], e[1], wall);
    if (two) { const auto s = clip(e[0], e[1], wall2); r = {std::max(r[0], s[0]), std::min(r[1], s[1])}; if (r[1] < r[0]) r = {0, 0}; }
    return r; // of the convex part
  }
  double volume(const Index<2>& i) const {
    const Poly c = cell_poly(i, h);
    const double v = moments(fluid_part(c)).area / moments(c).area;
    return snap(body ? 1 - v : v);
  }
  Grid(const IndexBox<2>& box, const P2& hh, const Half& w, int& slot, bool at_end, const Half* w2 = nullptr, bool is_body = false)
      : cells(box), h(hh), wall(w), body(is_body) {
    if (w2) { wall2 = *w2; two = true; }
    vol = alloc<2>(box, 0, 0, 2, 0.0, slot++, at_end);
    cen = alloc<3>(comps(box, 2), 0, 0, 2, 0.0, slot++, at_end);
    bc = alloc<3>(comps(box, 2), 0, 0, 2, -1.0, slot++, at_end);
    normal = alloc<3>(comps(box, 2), 0, 0, 2, 0.0, slot++, at_end);
    for (int d = 0; d < 2; ++d) {
      auto f = box;
      f.upper[d] += 1;
      face.push_back(alloc<2>(f, 0, 0, 2, 0.0, slot++, at_end));
      each(f, [&](const Index<2>& i) {
        const auto o = open(i, d);
        double len = snap(o[1] - o[0]);
        if (body) len = 1.0 - len;
        // a face next to a covered cell is closed
        face[d].at(i) = volume(i) == 0 || volume(nb(i, d, -1)) == 0 ? 0.0 : snap(len);
      });
    }
    each(box, [&](const Index<2>& i) {
      const Poly c = cell_poly(i, h);
      Moments m = moments(fluid_part(c));
      const Moments all = moments(c);
      if (body) { m.area = all.area - m.area; m.m = all.m - m.m; }
      const double v = snap(m.area / all.area);
      vol.at(i) = v;
      const P2 mid((i[0] + 0.5) * h[0], (i[1] + 0.5) * h[1]);
      if (v > 0 && v < 1) {
        const P2 x = m.m / m.area;
        for (int d = 0; d < 2; ++d) cen.at(join(i, d)) = (x[d] - mid[d]) / h[d];
      }
      if (two || v == 0) return;
      // the piece of the wall in this cell
      const Poly p = fluid_part(c);
      Poly on;
      for (auto& x : p) if (std::fabs(wall.n.dot(x) - wall.c) < 1e-12) on.push_back(x);
      if (on.size() < 2 || (v == 1 && (on[0] - on.back()).norm() < 1e-9)) return;
      const P2 b = 0.5 * (on[0] + on.back());
      for (int d = 0; d < 2; ++d) { bc.at(join(i, d)) = (b[d] - mid[d]) / h[d]; normal.at(join(i, d)) = -wall.n[d]; }
    });
  }
  // parts of the faces which see the wall on neither, the left, the right or both sides
  void shield(int d, int& slot, bool at_end) {
    auto f = cells;
    f.lower[d] += 1; // faces whose neighbours exist
    for (int k = 0; k < 4; ++k) { part[k].resize(2); rel[k].resize(2); part[k][d] = alloc<2>(f, 0, 0, 2, 0.0, slot++, at_end); rel[k][d] = alloc<2>(f, 0, 0, 2, 0.0, slot++, at_end); }
    each(f, [&](const Index<2>& i) {
      const double L = face[d].at(nb(i, d, -1)), M = face[d].at(i), R = face[d].at(nb(i, d, 1));
      const double x[4] = {std::min({L, M, R}), std::max(0.0, std::min(M, R) - L), std::max(0.0, std::min(M, L) - R), std::max(0.0, M - std::max(L, R))};
      for (int k = 0; k < 4; ++k) { part[k][d].at(i) = x[k]; rel[k][d].at(i) = M > 0 ? x[k] / M : 0.0; }
    });
  }
  CutCellData<2> data() {
    CutCellData<2> g{};
    g.volume_fractions = vol.template all<const double>();
    g.volume_centeroid = cen.template all<const double>();
    g.boundary_normals = normal.template all<const double>();
    g.boundary_centeroids = bc.template all<const double>();
    for (int d = 0; d < 2; ++d) {
      g.face_fractions[d] = face[d].template all<const double>();
      if (int(part[0].size()) <= d || !part[0][d].buf.data()) continue;
      g.unshielded_fractions[d] = part[0][d].template all<const double>();
      g.shielded_left_fractions[d] = part[1][d].template all<const double>();
      g.shielded_right_fractions[d] = part[2][d].template all<const double>();
      g.doubly_shielded_fractions[d] = part[3][d].template all<const double>();
      g.unshielded_fractions_rel[d] = rel[0][d].template all<const double>();
      g.shielded_left_fractions_rel[d] = rel[1][d].template all<const double>();
      g.shielded_right_fractions_rel[d] = rel[2][d].template all<const double>();
      g.doubly_shielded_fractions_rel[d] = rel[3][d].template all<const double>();
    }
    if (inner.buf.data()) g.hgrid_total_inner_integration_points = inner.template all<const double>();
    return g;
  }
  P2 centroid(const Index<2>& i) { return P2((i[0] + 0.5 + cen.at(join(i, 0))) * h[0], (i[1] + 0.5 + cen.at(join(i, 1))) * h[1]); }
  P2 boundary(const Index<2>& i) { return P2((i[0] + 0.5 + bc.at(join(i, 0))) * h[0], (i[1] + 0.5 + bc.at(join(i, 1))) * h[1]); }
  // squares which touch the wall from inside, split into the parts of the cells
  void inner_points(int& slot, bool at_end) {
    inner = alloc<3>(comps(cells, 45), 0, 0, 2, 0.0, slot++, at_end);
    each(cells, [&](const Index<2>& i) {
      if (normal.at(join(i, 0)) == 0 && normal.at(join(i, 1)) == 0) return;
      const P2 b = boundary(i), n = wall.n, t(-n[1], n[0]);
      const double s = 0.5 * std::min(h[0], h[1]);
      Poly sq{b + s * t, b - s * t, b - s * t + 2 * s * n, b + s * t + 2 * s * n};
      if (moments(sq).area < 0) std::reverse(sq.begin(), sq.end());
      int k = 0;
      each(cells, [&](const Index<2>& j) {
        if (vol.at(j) == 0 || k == 9) return;
        Poly q = sq;
        const Poly c = cell_poly(j, h);
        for (std::size_t e = 0; e < 4; ++e) {
          const P2 u = c[(e + 1) % 4] - c[e], nn(-u[1], u[0]);
          q = clip(q, Half{nn, nn.dot(c[e])});
        }
        const Moments m = moments(q);
        if (!(m.area > 1e-12)) return;
        inner.at(join(i, 5 * k)) = m.area;
        inner.at(join(i, 5 * k + 1)) = m.m[0] / m.area;
        inner.at(join(i, 5 * k + 2)) = m.m[1] / m.area;
        for (int d = 0; d < 2; ++d) std::memcpy(&inner.at(join(i, 5 * k + 3 + d)), &j[d], 8);
        ++k;
      });
    });
  }
};
} // namespace planar
#endif
