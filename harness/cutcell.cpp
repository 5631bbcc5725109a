// Cut cells: shielded fractions, stabilised fluxes, wall fluxes, regular fluxes and stable steps next to covered cells.
#include "mc.hpp"
#include "fub/core/type_traits.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/PerfectGasMix.hpp"
#include "fub/equations/IdealGasMix.hpp"
#include "fub/equations/ideal_gas_mix/mechanism/Burke2012.hpp"
#include "fub/equations/ShallowWater.hpp"
#include "fub/equations/Burgers.hpp"
#include "fub/equations/Advection.hpp"
#include "fub/equations/perfect_gas/EinfeldtSignalVelocities.hpp"
#include "fub/equations/perfect_gas/ExactRiemannSolver.hpp"
#include "fub/equations/perfect_gas/GodunovMethod.hpp"
#include "fub/equations/perfect_gas/MusclHancockPrimMethod.hpp"
#include "fub/flux_method/HllMethod.hpp"
#include "fub/flux_method/GodunovMethod.hpp"
#include "fub/cutcell_method/KbnStabilisation.hpp"
#include "fub/cutcell_method/MyStabilisation.hpp"
#include "fub/AMReX/FillCutCellData.hpp"
#include "riemann_ref.hpp"
#include "state_field.hpp"
#include "pools.hpp"
using namespace fub;
namespace {
constexpr double nan_ = std::numeric_limits<double>::quiet_NaN();
template <int R> std::string at(const Index<R>& i) { std::string s = "("; for (auto x : i) s += mc::cat(x, ","); return s + ")"; }
template <int R> Index<R> next(Index<R> i, int d, int by) { i[d] += by; return i; }
template <int R> std::uint64_t hash(const Index<R>& i, int salt) { mc::Hash h; h.add(salt); for (auto x : i) h.add(int(x)); return h.h >> 7; }
template <int R> IndexBox<R> grown(IndexBox<R> b, int d, int lo, int hi) { b.lower[d] -= lo; b.upper[d] += hi; return b; }
// a box of faces or cells whose rows have nx entries
template <int R> IndexBox<R> make_box(mc::Ctx& ctx, int nx) {
  IndexBox<R> b;
  const std::ptrdiff_t org = ctx.pick({0, -3});
  for (int d = 0; d < R; ++d) b.lower[d] = org + d;
  const int ny = ctx.range(1, 2);
  for (int d = 0; d < R; ++d) b.upper[d] = b.lower[d] + (d == 0 ? nx : d == 1 ? ny : 3 - ny);
  return b;
}
constexpr double betas_[] = {0.0, 0.125, 0.5, 0.75, 1.0};

template <int R> void fractions(mc::Ctx& ctx) {
  const int dir = ctx.choose(R), nx = ctx.range(1, ctx.thorough() ? 9 : 5);
  const auto box = make_box<R>(ctx, nx);
  const auto wide = grown<R>(box, dir, 1, 1);
  const int layout = ctx.choose(3);
  const bool at_end = ctx.flip();
  int slot = 0;
  auto beta = alloc<R>(wide, layout == 1, layout == 2, R, nan_, slot++, at_end);
  each(wide, [&](auto& i) { beta.at(i) = betas_[hash<R>(i, 3) % 5]; });
  // any triple of fractions anywhere
  Index<R> probe = box.lower;
  probe[0] += ctx.choose(nx);
  for (int k = -1; k < 2; ++k) beta.at(next<R>(probe, dir, k)) = betas_[ctx.choose(5)];
  std::vector<Field<R>> out;
  std::vector<StridedDataView<double, R>> v;
  for (int k = 0; k < 8; ++k) out.push_back(alloc<R>(box, layout == 2, layout == 1, R, -7.0, slot++, at_end));
  for (int k = 0; k < 8; ++k) v.push_back(strided<double, R>(out[k], box));
  amrex::cutcell::FillCutCellData(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], beta.template all<const double>(), Direction(dir));
  for (int k = 0; k < 8; ++k) {
    each(out[k].box, [&](auto& i) {
      bool in = true;
      for (int d = 0; d < R; ++d) in = in && i[d] >= box.lower[d] && i[d] < box.upper[d];
      double want = -7.0;
      if (in) {
        // lengths of the parts of the open interval [0, M] of a face whose neighbours are open on [0, L] and [0, R]
        const double L = beta.at(next<R>(i, dir, -1)), M = beta.at(i), Rr = beta.at(next<R>(i, dir, 1));
        double part[4] = {0, 0, 0, 0}; // unshielded, from left, from right, both
        for (int s = 0; s < 8; ++s) {
          const double x = (s + 0.5) / 8;
          if (x < M) part[(x > L) + 2 * (x > Rr)] += 0.125;
        }
        want = part[k % 4];
        if (k >= 4) want = M > 0 ? want / M : 0.0;
      }
      if (out[k].at(i) != want) ctx.check(false, in ? "wrong-fraction" : "outside-written", "array ", k, " at ", at<R>(i), ": ", out[k].at(i), " instead of ", want, " length ", nx, " dir ", dir);
    });
  }
  ctx.transition(); ctx.validated();
  ctx.state(mc::Hash().add(R).add(dir).add(nx).add(layout).add(int(hash<R>(probe, 0) % 1000)).add(beta.at(next<R>(probe, dir, -1))).add(beta.at(probe)).add(beta.at(next<R>(probe, dir, 1))));
}

template <int R> struct Geom {
  IndexBox<R> cells;
  Field<R> vol;
  Field<R + 1> normal, bc, vc;
  std::vector<Field<R>> face, us, sl, sr, us_abs, sl_abs, sr_abs, ds_abs;
  Geom(const IndexBox<R>& c, int& slot, bool at_end) : cells(c) {
    vol = alloc<R>(c, 0, 0, R, 1.0, slot++, at_end);
    normal = alloc<R + 1>(comps(c, R), 0, 0, R, 0.0, slot++, at_end);
    bc = alloc<R + 1>(comps(c, R), 0, 0, R, 0.0, slot++, at_end);
    for (int d = 0; d < R; ++d) {
      const auto f = grown<R>(c, d, 0, 1);
      face.push_back(alloc<R>(f, 0, 0, R, 1.0, slot++, at_end));
      us.push_back(alloc<R>(f, 0, 0, R, 1.0, slot++, at_end));
      sl.push_back(alloc<R>(f, 0, 0, R, 0.0, slot++, at_end));
      sr.push_back(alloc<R>(f, 0, 0, R, 0.0, slot++, at_end));
    }
  }
  CutCellData<R> data() {
    CutCellData<R> g{};
    g.volume_fractions = vol.template all<const double>();
    g.boundary_normals = normal.template all<const double>();
    g.boundary_centeroids = bc.template all<const double>();
    for (int d = 0; d < R; ++d) {
      g.face_fractions[d] = face[d].template all<const double>();
      g.unshielded_fractions_rel[d] = us[d].template all<const double>();
      g.shielded_left_fractions_rel[d] = sl[d].template all<const double>();
      g.shielded_right_fractions_rel[d] = sr[d].template all<const double>();
    }
    return g;
  }
};
// both stabilisations combine the fluxes of every face
template <int R> void stable_fluxes(mc::Ctx& ctx) {
  const int dir = ctx.choose(R), nx = ctx.range(1, ctx.thorough() ? 11 : 7);
  const auto faces = make_box<R>(ctx, nx);
  const auto cells = grown<R>(faces, dir, 1, 0);
  const bool at_end = ctx.flip();
  int slot = 0;
  Geom<R> g(cells, slot, at_end);
  const int layout = ctx.choose(3);
  auto F = [&](double fill) { return alloc<R>(faces, layout == 1, layout == 2, R, fill, slot++, at_end); };
  auto fs = F(-7.0), fl = F(-7.0), fr = F(-7.0), reg = F(nan_);
  auto bnd = alloc<R>(cells, layout == 2, layout == 1, R, nan_, slot++, at_end);
  const bool constant = ctx.flip();
  auto val = [&](const Index<R>& i, int salt) { return constant ? 3.25 : (double(hash<R>(i, salt) % 65) - 32) / 8; };
  constexpr double cs[] = {-0.5, -0.25, 0.0, 0.375, 0.5, 0.75, -0.625};
  each(cells, [&](auto& i) { bnd.at(i) = val(i, 1); for (int d = 0; d < R; ++d) g.bc.at(join(i, d)) = cs[hash<R>(i, 10 + d) % 7]; });
  each(faces, [&](auto& i) {
    reg.at(i) = val(i, 2);
    const double w[][3] = {{1, 0, 0}, {0.5, 0.5, 0}, {0.25, 0, 0.75}, {0, 1, 0}, {0, 0, 1}, {0.5, 0.25, 0.25}};
    const auto& x = w[hash<R>(i, 20) % 6];
    for (int d = 0; d < R; ++d) { g.us[d].at(i) = d == dir ? x[0] : 0.0; g.sl[d].at(i) = d == dir ? x[1] : 0.125; g.sr[d].at(i) = d == dir ? x[2] : 0.5; }
  });
  Index<R> probe = faces.lower;
  probe[0] += ctx.choose(nx);
  g.bc.at(join(next<R>(probe, dir, -1), dir)) = ctx.pick({-0.5, 0.5, 0.125, -0.25});
  g.bc.at(join(probe, dir)) = ctx.pick({-0.5, 0.5, 0.125, -0.25});
  const int method = ctx.choose(2);
  if (method == 0) ComputeStableFluxComponents(strided<double, R>(fs, faces), strided<double, R>(fl, faces), strided<double, R>(fr, faces), strided<const double, R>(reg, faces), strided<const double, R>(bnd, bnd.box), g.data(), Duration(0.5), 0.25, Direction(dir));
  else {
    each(faces, [&](auto& i) { fl.at(i) = val(i, 5); fr.at(i) = val(i, 6); });
    MyStab_ComputeStableFluxComponents(strided<double, R>(fs, faces), strided<double, R>(fl, faces), strided<double, R>(fr, faces), strided<const double, R>(reg, faces), strided<const double, R>(bnd, bnd.box), g.data(), Duration(0.5), 0.25, Direction(dir));
  }
  each(fs.box, [&](auto& i) {
    bool in = true;
    for (int d = 0; d < R; ++d) in = in && i[d] >= faces.lower[d] && i[d] < faces.upper[d];
    if (!in) { if (fs.at(i) != -7 || fl.at(i) != -7 || fr.at(i) != -7) ctx.check(false, "outside-written", at<R>(i)); return; }
    double wl, wr;
    if (method == 0) {
      // the mean over the distance to the wall: regular flux up to the wall, wall flux beyond
      const double cl = g.bc.at(join(next<R>(i, dir, -1), dir)), cr = g.bc.at(join(i, dir));
      const double dl = std::min(1.0, std::max(0.0, 0.5 - cl)), dr = std::min(1.0, std::max(0.0, cr + 0.5));
      const double bl = bnd.at(next<R>(i, dir, -1)), br = bnd.at(i), f = reg.at(i);
      wl = bl + dl * (f - bl);
      wr = br + dr * (f - br);
    } else { wl = val(i, 5); wr = val(i, 6); }
    const double want = g.us[dir].at(i) * reg.at(i) + g.sl[dir].at(i) * wl + g.sr[dir].at(i) * wr;
    if (!(std::fabs(fl.at(i) - wl) < 1e-13)) ctx.check(false, "flux-shielded-from-left", at<R>(i), ": ", fl.at(i), " instead of ", wl, " length ", nx, " dir ", dir);
    if (!(std::fabs(fr.at(i) - wr) < 1e-13)) ctx.check(false, "flux-shielded-from-right", at<R>(i), ": ", fr.at(i), " instead of ", wr, " length ", nx, " dir ", dir);
    if (!(std::fabs(fs.at(i) - want) < 1e-13)) ctx.check(false, "stabilised-flux", at<R>(i), ": ", fs.at(i), " instead of ", want, " length ", nx, " dir ", dir);
    if (constant && std::fabs(fs.at(i) - 3.25) > 1e-13) ctx.check(false, "constant-flux-changed", at<R>(i), ": ", fs.at(i));
  });
  ctx.transition(); ctx.validated();
  ctx.state(mc::Hash().add(R).add(dir).add(nx).add(layout).add(method).add(int(constant)).add(g.bc.at(join(next<R>(probe, dir, -1), dir))).add(g.bc.at(join(probe, dir))));
}
template <int R> Eigen::Matrix<double, R, 1> normal_of(mc::Ctx& ctx) {
  Eigen::Matrix<double, R, 1> n;
  if constexpr (R == 2) {
    const double a = ctx.choose(12) * M_PI / 6 + (ctx.flip() ? 0.2 : 0.0);
    n << std::cos(a), std::sin(a);
  } else {
    n << ctx.range(-1, 1), ctx.range(-1, 1), ctx.range(-1, 1);
    if (n.norm() == 0) throw mc::Prune{};
    if (ctx.flip()) { n[0] += 0.3; n[1] -= 0.1; }
    n.normalize();
  }
  for (int d = 0; d < R; ++d) if (std::fabs(n[d]) < 1e-15) n[d] = 0;
  return n;
}
// the flux through a wall carries momentum normal to the wall only
template <int R, bool Exact> void walls(mc::Ctx& ctx) {
  using Eq = PerfectGas<R>;
  static Adapter<Eq> A(0);
  using Solver = std::conditional_t<Exact, ExactRiemannSolver<Eq>, HllMethod<Eq, EinfeldtSignalVelocities<Eq>>>;
  static HllMethod<Eq, EinfeldtSignalVelocities<Eq>> hll(A.eq, EinfeldtSignalVelocities<Eq>{});
  KbnCutCellMethod<HllMethod<Eq, EinfeldtSignalVelocities<Eq>>, Solver> method = [&] {
    if constexpr (Exact) return KbnCutCellMethod<HllMethod<Eq, EinfeldtSignalVelocities<Eq>>, Solver>(hll);
    else return KbnCutCellMethod<HllMethod<Eq, EinfeldtSignalVelocities<Eq>>, Solver>(hll, hll);
  }();
  const auto n = normal_of<R>(ctx); // into the fluid
  const int P = 9;
  const int k0 = ctx.choose(P), k1 = ctx.choose(P);
  IndexBox<R> box;
  for (int d = 0; d < R; ++d) { box.lower[d] = -1; box.upper[d] = d == 2 ? 0 : 1; }
  const bool at_end = ctx.flip();
  int slot = 0;
  Geom<R> g(grown<R>(box, 0, 1, 1), slot, at_end);
  StateField<Eq, Complete> ref(A.eq, box, 0, 0, -7.0, slot, at_end), cur(A.eq, box, 0, 0, 0.0, slot, at_end), mir(A.eq, box, 0, 0, 0.0, slot, at_end);
  StateField<Eq, Conservative> out(A.eq, box, 0, 0, -7.0, slot, at_end);
  Field<R> mask_mem = alloc<R>(box, 0, 0, R, 0.0, slot++, at_end);
  // one cut cell (by its volume or only by a face), others regular or covered
  Index<R> cell = box.lower;
  cell[0] += ctx.choose(2); cell[1] += ctx.choose(2);
  const int kind = ctx.choose(3);
  auto g_of = [&](const Index<R>& i) { return hash<R>(i, 5) % 2 == 0; };
  each(g.cells, [&](auto& i) {
    if (i == cell) return;
    if (g_of(i)) g.vol.at(i) = 0.0; // covered: whatever its faces are
  });
  if (kind == 0) g.vol.at(cell) = 0.25;
  else g.face[kind == 1 ? 0 : 1].at(next<R>(cell, kind == 1 ? 0 : 1, ctx.choose(2))) = 0.5;
  for (int d = 0; d < R; ++d) g.normal.at(join(cell, d)) = -n[d];
  auto is_cut = [&](const Index<R>& i) {
    if (g.vol.at(i) <= 0) return false;
    if (g.vol.at(i) < 1) return true;
    for (int d = 0; d < R; ++d) if (g.face[d].at(i) < 1 || g.face[d].at(next<R>(i, d, 1)) < 1) return true;
    return false;
  };
  // normals of other cells which are cut as well (they share the face)
  each(g.cells, [&](auto& i) { if (i != cell && is_cut(i)) for (int d = 0; d < R; ++d) g.normal.at(join(i, d)) = d == 0 ? -1.0 : 0.0; });
  auto state = [&](int k) { return A.pool[k]; };
  const double gm = A.eq.gamma;
  auto un = [&](const Complete<Eq>& q) { double s = 0; for (int d = 0; d < R; ++d) s += q.momentum[d] / q.density * n[d]; return s; };
  // a wall must not run away faster than the gas can follow
  for (int k : {k0, k1}) if (un(state(k)) > 1.9 / (gm - 1) * state(k).speed_of_sound) { ctx.outcome("vacuum"); return; }
  const CutCellData<R> data = g.data();
  each(box, [&](auto& i) { cur.set(i, flat(i == cell ? state(k0) : state(8))); });
  method.PreAdvanceHierarchy(ref.view(box), cur.cview(box), data);
  each(box, [&](auto& i) {
    ctx.check(IsCutCell(data, i) == is_cut(i), "is-cut-cell", at<R>(i));
    const V r = ref.get(i);
    const bool touched = r[0] != -7.0;
    ctx.check(touched == is_cut(i), touched ? "reference-state-of-other-cell" : "no-reference-state", at<R>(i));
    if (i == cell) {
      double m = 0, scale = 0;
      for (int d = 0; d < R; ++d) { m += r[1 + d] * n[d]; scale += std::fabs(r[1 + d]); }
      ctx.check(std::fabs(m) < 1e-6 * (scale + r[0]), "reference-state-penetrates", m / r[0], " normal ", n.transpose(), " state ", show(flat(state(k0))));
    }
  });
  each(box, [&](auto& i) { cur.set(i, flat(i == cell ? state(k1) : state(8))); });
  // reference mirror state in the frame of the wall
  const bool masked = ctx.flip();
  {
    Complete<Eq> q = state(k1), m(A.eq);
    const Eigen::Matrix<double, R, 1> unit = UnitVector<R>(Direction::X);
    Rotate(q, q, MakeRotation(n, unit), A.eq);
    Reflect(m, q, unit, A.eq);
    each(box, [&](auto& i) { mir.set(i, flat(m)); });
  }
  std::vector<int> masks(mask_mem.buf.size(), 0);
  auto mask_view = [&] {
    std::array<std::ptrdiff_t, R> e, s; std::ptrdiff_t acc = 1;
    for (int d = 0; d < R; ++d) { e[d] = box.upper[d] - box.lower[d]; s[d] = acc; acc *= e[d]; }
    layout_stride::mapping<dynamic_extents<R>> m{dynamic_extents<R>(e), s};
    return PatchDataView<int, R, layout_stride>(mdspan<int, R, layout_stride>(masks.data(), m), box.lower);
  }();
  if (masked) mask_view(cell) = 1;
  const V rs = ref.get(cell);
  double net[R + 2] = {}, scale[R + 2] = {};
  for (int dir = 0; dir < R; ++dir) {
    each(box, [&](auto& i) { out.set(i, V(R + 2, -7.0)); });
    method.ComputeBoundaryFluxes(out.view(box), cur.cview(box), ref.cview(box), mir.cview(box), mask_view, data, Duration(0.5), 0.25, Direction(dir));
    each(box, [&](auto& i) { const V f = out.get(i); bool touched = false; for (double x : f) touched = touched || x != -7.0; ctx.check(touched == is_cut(i), "wall-flux-of-other-cell", at<R>(i)); });
    const V f = out.get(cell);
    for (int k = 0; k < R + 2; ++k) { net[k] += f[k] * n[dir]; scale[k] += std::fabs(f[k]); }
    if (k0 == k1 && std::fabs(un(state(k0))) < 1e-14) { // gas at rest or along the wall: nothing happens
      const V want = A.flux(state(k0), Direction(dir));
      for (int k = 0; k < R + 2; ++k) ctx.check(std::fabs(f[k] - want[k]) < 1e-6 * (1 + std::fabs(want[k])), "flow-along-wall-disturbed", "component ", k, ": ", f[k], " instead of ", want[k], " normal ", n.transpose(), " state ", show(flat(state(k0))));
      ctx.outcome("along-wall");
    }
  }
  double top = 1; for (double s : scale) top = std::max(top, s);
  ctx.check(std::fabs(net[0]) < 1e-6 * (scale[0] + rs[0]), "mass-through-wall", net[0], " normal ", n.transpose(), " state ", show(flat(state(k0))));
  ctx.check(std::fabs(net[R + 1]) < 1e-6 * (scale[R + 1] + 1), "energy-through-wall", net[R + 1], " normal ", n.transpose(), " state ", show(flat(state(k0))));
  double p = 0;
  for (int d = 0; d < R; ++d) p += net[1 + d] * n[d];
  for (int d = 0; d < R; ++d) ctx.check(std::fabs(net[1 + d] - p * n[d]) < 1e-6 * top, "shear-force-of-wall", net[1 + d], " instead of ", p * n[d], " normal ", n.transpose());
  if (Exact) {
    // pressure on a wall: an exact wave of the current state
    const ref::W w{state(k1).density, un(state(k1)), state(k1).pressure}, m{w.rho, -w.u, w.p};
    const double pw = double(ref::star(m, w, gm).first);
    ctx.check(std::fabs(p - pw) < 1e-6 * (std::fabs(pw) + top * 1e-3), "wall-pressure", p, " instead of ", pw, " normal ", n.transpose(), " state ", show(flat(state(k1))));
  }
  ctx.transition(); ctx.validated();
  ctx.state(mc::Hash().add(R).add(int(Exact)).add(k0).add(k1).add(n[0]).add(n[1]).add(int(masked)).add(kind));
}
// fluxes at open faces are those of the base method, closed faces carry none
template <typename Eq, typename FM> void regular(mc::Ctx& ctx, Adapter<Eq>& A, const FM& fm, int choices, bool scalar = true) {
  constexpr int R = Eq::Rank(), Wd = FM::GetStencilWidth(), S = 2 * Wd;
  const int dir = ctx.choose(R);
  const int nx = ctx.pick({1, 7, 8, 9, 17});
  IndexBox<R> faces;
  for (int d = 0; d < R; ++d) { faces.lower[d] = -1 - d; faces.upper[d] = faces.lower[d] + (d == 0 ? nx : d == 1 ? 2 : 1); }
  const auto cells = grown<R>(faces, dir, Wd, Wd - 1);
  const bool at_end = ctx.flip(), embed = ctx.flip();
  int slot = 0;
  Geom<R> g(cells, slot, at_end);
  StateField<Eq, Complete> q(A.eq, cells, embed, embed, 0.0, slot, at_end);
  StateField<Eq, Conservative> out(A.eq, faces, embed, 0, -7.0, slot, at_end);
  // a cluster of states that every method can handle, one covered region around any face
  each(cells, [&](auto& i) { q.set(i, flat(A.pool[hash<R>(i, 1) % 5 == 0 ? 0 : hash<R>(i, 1) % 5 == 1 ? 12 : 1])); });
  Index<R> c = cells.lower;
  c[0] += ctx.choose(int(cells.upper[0] - cells.lower[0]));
  const int pattern = ctx.choose(choices);
  auto covered = [&](const Index<R>& i) { return pattern == 0 ? false : pattern == 1 ? i == c : pattern == 2 ? i[0] >= c[0] : pattern == 3 ? i[0] <= c[0] : (hash<R>(i, pattern) % 3 == 0) != (i == c); };
  each(cells, [&](auto& i) { if (covered(i)) { g.vol.at(i) = 0; q.set(i, V(flat(Complete<Eq>(A.eq)).size(), pattern % 2 ? 0.0 : 1e30)); } else if (hash<R>(i, 9) % 4 == 0) g.vol.at(i) = 0.5; });
  for (int d = 0; d < R; ++d) each(g.face[d].box, [&](auto& i) {
    Index<R> l = next<R>(i, d, -1);
    auto inside = [&](const Index<R>& x) { for (int k = 0; k < R; ++k) if (x[k] < cells.lower[k] || x[k] >= cells.upper[k]) return false; return true; };
    const bool closed = (inside(i) && covered(i)) || (inside(l) && covered(l));
    g.face[d].at(i) = closed ? 0.0 : hash<R>(i, 30 + d) % 5 == 0 ? 0.375 : hash<R>(i, 30 + d) % 11 == 0 ? 0.0 : 1.0;
  });
  KbnCutCellMethod<FM> method(fm);
  const double dx = 0.25; const Duration dt(1.0 / 64);
  if (ctx.flip()) { // whatever a method keeps from the patch before
    each(cells, [&](auto& i) { q.set(i, flat(A.pool[2])); });
    method.ComputeRegularFluxes(out.view(faces), q.cview(cells), g.data(), dt, dx, Direction(dir));
    each(cells, [&](auto& i) { q.set(i, flat(A.pool[hash<R>(i, 1) % 5 == 0 ? 0 : hash<R>(i, 1) % 5 == 1 ? 12 : 1])); if (covered(i)) q.set(i, V(flat(Complete<Eq>(A.eq)).size(), pattern % 2 ? 0.0 : 1e30)); });
  }
  const bool wide = ctx.flip();
  const auto qbox = wide ? q.box : cells;
  method.ComputeRegularFluxes(out.view(faces), q.cview(wide && embed ? qbox : cells), g.data(), dt, dx, Direction(dir));
  const double h = method.ComputeStableDt(q.cview(cells), g.data(), dx, Direction(dir));
  double want_h = std::numeric_limits<double>::infinity();
  FM base(fm);
  bool bad_h = false;
  each(out.box, [&](auto& i) {
    bool in = true;
    for (int d = 0; d < R; ++d) in = in && i[d] >= faces.lower[d] && i[d] < faces.upper[d];
    const V f = out.get(i);
    if (!in) { for (double x : f) ctx.check(x == -7.0, "outside-written", at<R>(i)); return; }
    const double b = g.face[dir].at(i);
    if (b <= 0) { for (double x : f) ctx.check(x == 0.0, "flux-through-closed-face", at<R>(i), ": ", show(f)); return; }
    // the same stencil in all lanes
    std::array<CompleteArray<Eq>, S> s; s.fill(CompleteArray<Eq>(A.eq));
    std::array<Array1d, S> alpha;
    for (int k = 0; k < S; ++k) {
      const Index<R> j = next<R>(i, dir, k - Wd);
      const V v = q.get(j);
      std::size_t m = 0;
      ForEachComponent([&](auto&& x) { for (int l = 0; l < W; ++l) x[l] = v[m]; ++m; }, s[k]);
      alpha[k] = Array1d::Constant(g.vol.at(j));
    }
    ConservativeArray<Eq> F(A.eq);
    base.ComputeNumericFlux(F, Array1d(Array1d::Constant(b)), span<const CompleteArray<Eq>, S>(s), span<const Array1d, S>(alpha), dt, dx, Direction(dir));
    const Array1d hs = base.ComputeStableDt(span<const CompleteArray<Eq>, S>(s), Array1d(Array1d::Constant(b)), span<const Array1d, S>(alpha), dx, Direction(dir));
    want_h = std::min(want_h, hs[0]);
    const V w = lane(F, 0);
    for (std::size_t k = 0; k < w.size(); ++k) if (!(std::fabs(f[k] - w[k]) <= 1e-12 * (1 + std::fabs(w[k])))) ctx.check(false, "regular-flux", at<R>(i), ": ", show(f), " instead of ", show(w), " length ", nx, " dir ", dir, " pattern ", pattern);
    bool all = true;
    for (int k = 0; k < S; ++k) all = all && g.vol.at(next<R>(i, dir, k - Wd)) > 0;
    if (all && scalar) { // scalar method
      std::array<Complete<Eq>, S> t; t.fill(Complete<Eq>(A.eq));
      for (int k = 0; k < S; ++k) { const V v = q.get(next<R>(i, dir, k - Wd)); std::size_t m = 0; ForEachComponent([&](double& x) { x = v[m++]; }, t[k]); }
      Conservative<Eq> G(A.eq);
      base.ComputeNumericFlux(G, span<const Complete<Eq>, S>(t), dt, dx, Direction(dir));
      const V e = flat(G);
      for (std::size_t k = 0; k < e.size(); ++k) if (!(std::fabs(f[k] - e[k]) <= 1e-6 * (1 + std::fabs(e[k])))) ctx.check(false, "regular-flux-scalar", at<R>(i), ": ", show(f), " instead of ", show(e), " length ", nx, " dir ", dir, " pattern ", pattern);
    }
    ctx.transition();
  });
  if (std::isinf(want_h)) ctx.check(h > 1e300, "stable-step-of-closed-faces", h);
  else ctx.check(std::fabs(h - want_h) <= 1e-12 * want_h, "stable-step", h, " instead of ", want_h, " length ", nx, " dir ", dir, " pattern ", pattern);
  ctx.validated();
  ctx.state(mc::Hash().add(R).add(S).add(dir).add(nx).add(pattern).add(int(c[0])));
}
template <int R> HllMethod<PerfectGas<R>, EinfeldtSignalVelocities<PerfectGas<R>>> hll() { return {PerfectGas<R>{}, EinfeldtSignalVelocities<PerfectGas<R>>{}}; }
} // namespace
SCENARIO("fractions-2d", "rows of 1..5 faces x directions x layouts x every triple of 5 fractions anywhere", 1) { fractions<2>(ctx); }
SCENARIO("fractions-3d", "rows of 1..5 faces x directions x layouts x every triple of 5 fractions anywhere", 2) { fractions<3>(ctx); }
SCENARIO("stable-fluxes-2d", "rows of 1..7 faces x directions x layouts x wall positions x both stabilisations", 2) { stable_fluxes<2>(ctx); }
SCENARIO("stable-fluxes-3d", "rows of 1..7 faces x directions x layouts x wall positions x both stabilisations", 2) { stable_fluxes<3>(ctx); }
SCENARIO("walls-2d", "24 normals x pairs of 9 states x kinds of cut cells, exact solver", 2) { walls<2, true>(ctx); }
SCENARIO("walls-2d-hll", "24 normals x pairs of 9 states x kinds of cut cells, approximate solver", 2) { walls<2, false>(ctx); }
SCENARIO("walls-3d", "52 normals x pairs of 9 states x kinds of cut cells, exact solver", 2) { walls<3, true>(ctx); }
SCENARIO("regular-hll-2d", "rows of 1..17 faces x directions x patterns of covered cells", 1) { static Adapter<PerfectGas<2>> A(0); regular(ctx, A, hll<2>(), ctx.thorough() ? 12 : 6); }
SCENARIO("regular-hll-3d", "rows of 1..17 faces x directions x patterns of covered cells", 1) { static Adapter<PerfectGas<3>> A(0); regular(ctx, A, hll<3>(), ctx.thorough() ? 12 : 6); }
SCENARIO("regular-godunov-2d", "rows of 1..17 faces x directions x patterns of covered cells", 1) { static Adapter<PerfectGas<2>> A(0); regular(ctx, A, GodunovMethod<PerfectGas<2>>(A.eq), ctx.thorough() ? 12 : 6); }
SCENARIO("regular-muscl-2d", "rows of 1..17 faces x directions x patterns of covered cells", 1) { static Adapter<PerfectGas<2>> A(0); regular(ctx, A, FluxMethod<perfect_gas::MusclHancockPrim<2>>(perfect_gas::MusclHancockPrim<2>(A.eq)), ctx.thorough() ? 12 : 6, false); }
