// Tagging for refinement: gradient detectors, buffers around tags, cut cells.
#include "mc.hpp"
#include "fub/core/type_traits.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/Advection.hpp"
#include "fub/equations/Burgers.hpp"
#include "fub/StateArray.hpp"
#include "fub/StateRow.hpp"
#include "fub/Equation.hpp"
#include "fub/ForEach.hpp"
#include "fub/tagging_method/GradientDetector.hpp"
#include "fub/tagging_method/TagBuffer.hpp"
#include "fub/tagging_method/TagCutCells.hpp"
#include "state_field.hpp"
using namespace fub;
namespace {
template <int R> std::string show(const Index<R>& i) { std::string s; for (auto x : i) s += mc::cat(x, " "); return s; }
// tags in the middle of a larger array whose other cells must keep their value
template <int R> struct Tags {
  IndexBox<R> box, all;
  std::vector<char> mem;
  std::size_t at(const Index<R>& i) const { std::size_t o = 0, s = 1; for (int d = 0; d < R; ++d) { o += (i[d] - all.lower[d]) * s; s *= all.upper[d] - all.lower[d]; } return o; }
  Tags(const IndexBox<R>& b, int margin) : box(b), all(b) {
    std::size_t n = 1;
    for (int d = 0; d < R; ++d) { all.lower[d] -= margin; all.upper[d] += margin; n *= all.upper[d] - all.lower[d]; }
    mem.assign(n, '\5');
    each<R>(box, [&](auto& i) { mem[at(i)] = 0; });
  }
  char& operator()(const Index<R>& i) { return mem[at(i)]; }
  PatchDataView<char, R, layout_stride> view() {
    std::array<std::ptrdiff_t, R> e, s;
    std::ptrdiff_t acc = 1;
    for (int d = 0; d < R; ++d) { e[d] = box.upper[d] - box.lower[d]; s[d] = acc; acc *= all.upper[d] - all.lower[d]; }
    return {mdspan<char, R, layout_stride>(mem.data() + at(box.lower), layout_stride::mapping<dynamic_extents<R>>(dynamic_extents<R>(e), s)), box.lower};
  }
  void outside(mc::Ctx& ctx) {
    each<R>(all, [&](auto& i) {
      bool in = true;
      for (int d = 0; d < R; ++d) in = in && i[d] >= box.lower[d] && i[d] < box.upper[d];
      if (!in) ctx.check((*this)(i) == '\5', "tag-outside-of-patch-changed", show<R>(i));
    });
  }
};
// ---- gradients ------------------------------------------------------------------------------------------
struct Cond { int comp; double tol; };
template <int R> using Data = std::map<Index<R>, std::vector<double>>;
bool steep(double a, double b, double tol) {
  if (a == b) return false;
  return std::abs(a - b) / (std::abs(a) + std::abs(b)) > tol;
}
template <int R> bool wanted(const Data<R>& data, const IndexBox<R>& have, const Index<R>& i, const std::vector<Cond>& conds, const Data<R>* vol) {
  for (int d = 0; d < R; ++d) {
    Index<R> l = i, r = i;
    l[d] -= 1; r[d] += 1;
    if (l[d] < have.lower[d] || r[d] >= have.upper[d]) continue;
    if (vol && (vol->at(l)[0] <= 0 || vol->at(i)[0] <= 0 || vol->at(r)[0] <= 0)) continue;
    for (auto& c : conds) if (steep(data.at(l)[c.comp], data.at(i)[c.comp], c.tol) || steep(data.at(i)[c.comp], data.at(r)[c.comp], c.tol)) return true;
  }
  return false;
}
template <int R, typename Eq> StateField<Eq, Complete> fill(const Eq& eq, const IndexBox<R>& box, const Data<R>& data, int lo, int hi, bool end) {
  int slot = 0;
  StateField<Eq, Complete> f(eq, box, lo, hi, NAN, slot, end);
  for (auto& [i, v] : data) f.set(i, v);
  return f;
}
template <int R, typename Eq, typename... P> void run(mc::Ctx& ctx, const Eq& eq, const IndexBox<R>& have, const IndexBox<R>& box, const Data<R>& data, const std::vector<Cond>& conds, const Data<R>* vol, int pre, P... ps) {
  const int lo = ctx.choose(2), hi = ctx.choose(2);
  auto f = fill<R>(eq, have, data, lo, hi, hi == 0);
  Tags<R> tags(box, lo + hi);
  Index<R> set = box.lower;
  if (pre == 1) tags(set) = 1;
  if (pre == 2) { set[R - 1] = box.upper[R - 1] - 1; tags(set) = 1; }
  GradientDetector detector(eq, ps...);
  static_assert(sizeof...(P) > 0);
  if (vol) {
    Field<R> v = alloc<R>(have, 0, 0, R, 0.0, 35, true);
    for (auto& [i, x] : *vol) v.at(i) = x[0];
    if constexpr (!decltype(detector)::is_array_based) detector.TagCellsForRefinement(tags.view(), f.cview(have), strided<const double, R>(v, have));
  } else detector.TagCellsForRefinement(tags.view(), f.cview(have));
  each<R>(box, [&](auto& i) {
    const bool w = wanted<R>(data, have, i, conds, vol) || (pre && i == set), t = tags(i) != 0;
    if (w != t) ctx.check(false, w ? "steep-cell-not-tagged" : "smooth-cell-tagged", decltype(detector)::is_array_based ? "arrays" : "scalars", " cell ", show<R>(i), " of box ", show<R>(box.lower), " to ", show<R>(box.upper));
  });
  tags.outside(ctx);
  // a second call finds the same cells
  detector.TagCellsForRefinement(tags.view(), f.cview(have));
  if (!vol) each<R>(box, [&](auto& i) { const bool w = wanted<R>(data, have, i, conds, vol) || (pre && i == set); ctx.check(w == (tags(i) != 0), "second-call-differs"); });
  tags.outside(ctx);
  ctx.transition(); ctx.validated();
}
// the value of every cell: a plateau with two jumps along a direction, possibly zero or of both signs
template <int R> Data<R> jumps(mc::Ctx& ctx, const IndexBox<R>& have, int nc, std::vector<Cond>& conds) {
  const int dir = ctx.choose(R);
  const int n = int(have.upper[dir] - have.lower[dir]);
  const int a = ctx.choose(n), b = a + ctx.choose(2) * (1 + ctx.choose(3)); // width of the plateau
  const double levels[][3] = {{0, 1, 0}, {1, 1.5, 2}, {0, 0, 1}, {-1, 1, -1}, {2, 2, 2}, {0, 0, 0}};
  const int L = ctx.choose(6);
  const int comp = ctx.choose(2) * (nc - 1); // which component jumps
  for (auto& c : conds) c.comp = c.comp < 0 ? nc - 1 : c.comp;
  Data<R> data;
  each<R>(have, [&](auto& i) {
    std::vector<double> v(nc, 3.0);
    const int k = int(i[dir] - have.lower[dir]);
    v[comp] = k <= a ? levels[L][0] : k <= b ? levels[L][1] : levels[L][2];
    data[i] = v;
  });
  mc::Hash h;
  for (int d = 0; d < R; ++d) h.add(std::int64_t(have.upper[d]));
  ctx.state(h.add(dir).add(a).add(b).add(L).add(comp));
  return data;
}
template <typename Eq, int R = Eq::Rank()> void detect(mc::Ctx& ctx, const Eq& eq, int max0) {
  IndexBox<R> box, have;
  for (int d = 0; d < R; ++d) { box.lower[d] = d + 2; box.upper[d] = box.lower[d] + (d == 0 ? ctx.range(1, max0) : ctx.range(1, 2)); }
  for (int d = 0; d < R; ++d) { have.lower[d] = box.lower[d] - 1; have.upper[d] = box.upper[d] + 1; }
  const int nc = [&] { int n = 0; Complete<Eq> q(eq); ForEachComponent([&](double) { ++n; }, q); return n; }();
  using C = Complete<Eq>;
  const double tol = ctx.pick({0.1, 0.25});
  std::vector<Cond> one{{0, tol}}, two{{0, 0.4}, {-1, tol}};
  const int kind = ctx.choose(4);
  const int pre = 0;
  auto first = [](const auto& q) { return get<0>(q); };
  if (kind == 0) { auto d = jumps<R>(ctx, have, nc, one); run<R>(ctx, eq, have, box, d, one, nullptr, pre, std::pair{[](const C& q) { return get<0>(q); }, tol}); }
  else if (kind == 1) { auto d = jumps<R>(ctx, have, nc, one); run<R>(ctx, eq, have, box, d, one, nullptr, 1 + (tol > 0.2), std::pair{first, tol}); }
  else if (kind == 2) {
    auto d = jumps<R>(ctx, have, nc, two);
    constexpr std::size_t last = NumVariables<C>::value - 1;
    auto l = [](const auto& q) { return get<last>(q); };
    if (ctx.flip()) run<R>(ctx, eq, have, box, d, two, nullptr, pre, std::pair{first, 0.4}, std::pair{l, tol});
    else run<R>(ctx, eq, have, box, d, two, nullptr, pre, std::pair{[](const C& q) { return get<0>(q); }, 0.4}, std::pair{l, tol});
  } else {
    auto d = jumps<R>(ctx, have, nc, one);
    Data<R> vol;
    const int hole = ctx.choose(2);
    each<R>(have, [&](auto& i) { vol[i] = {1.0}; });
    Index<R> h = box.lower;
    h[R - 1] = hole ? box.lower[R - 1] : box.upper[R - 1];
    vol[h] = {0.0};
    Index<R> g = box.lower;
    g[0] = (box.lower[0] + box.upper[0]) / 2;
    vol[g] = {0.3};
    run<R>(ctx, eq, have, box, d, one, &vol, pre, std::pair{[](const C& q) { return get<0>(q); }, tol});
  }
}
// the states do not cover the neighbours of the tagged box everywhere
template <int R, typename Eq> void partial(mc::Ctx& ctx, const Eq& eq) {
  IndexBox<R> have, box;
  for (int d = 0; d < R; ++d) { have.lower[d] = 0; have.upper[d] = ctx.range(1, 4); box.lower[d] = ctx.range(-1, 1); box.upper[d] = box.lower[d] + ctx.range(1, 4); }
  std::vector<Cond> one{{0, 0.1}};
  Data<R> data;
  const int mask = ctx.choose(16);
  int k = 0;
  each<R>(have, [&](auto& i) { std::vector<double> v; ForEachComponent([&](double) { v.push_back(3.0); }, Complete<Eq>(eq)); v[0] = (mask >> (k++ % 4)) & 1; data[i] = v; });
  auto f = fill<R>(eq, have, data, 0, 0, true);
  Tags<R> tags(box, 1);
  GradientDetector detector(eq, std::pair{[](const Complete<Eq>& q) { return get<0>(q); }, 0.1});
  detector.TagCellsForRefinement(tags.view(), f.cview(have));
  each<R>(box, [&](auto& i) {
    bool in = true;
    for (int d = 0; d < R; ++d) in = in && i[d] >= have.lower[d] && i[d] < have.upper[d];
    const bool w = in && wanted<R>(data, have, i, one, nullptr);
    if (w != (tags(i) != 0)) ctx.check(false, w ? "steep-cell-not-tagged" : "smooth-cell-tagged", "partial states, cell ", show<R>(i));
  });
  tags.outside(ctx);
  ctx.transition(); ctx.validated();
  mc::Hash h;
  for (int d = 0; d < R; ++d) h.add(std::int64_t(have.upper[d])).add(std::int64_t(box.lower[d])).add(std::int64_t(box.upper[d]));
  ctx.state(h.add(mask));
}
// ---- buffers ---------------------------------------------------------------------------------------------
template <int R> void buffer(mc::Ctx& ctx, int max) {
  IndexBox<R> box;
  for (int d = 0; d < R; ++d) { box.lower[d] = 3 * d - 2; box.upper[d] = box.lower[d] + ctx.range(1, max); }
  const int w = ctx.range(0, R == 1 ? 4 : 3);
  Tags<R> tags(box, w + 2);
  std::vector<Index<R>> cells;
  each<R>(box, [&](auto& i) { cells.push_back(i); });
  const int n = int(cells.size());
  std::vector<Index<R>> set;
  if (n <= 9) { const int mask = ctx.choose(1 << n); for (int k = 0; k < n; ++k) if (mask >> k & 1) set.push_back(cells[k]); }
  else { const int a = ctx.choose(n), b = ctx.choose(n); if (b < a) throw mc::Prune{}; set.push_back(cells[a]); if (b > a) set.push_back(cells[b]); }
  for (auto& i : set) tags(i) = 1;
  TagBuffer(w).TagCellsForRefinement(tags.view());
  each<R>(box, [&](auto& i) {
    bool near = false;
    for (auto& s : set) { bool x = true; for (int d = 0; d < R; ++d) x = x && std::abs(i[d] - s[d]) <= w; near = near || x; }
    if (near != (tags(i) != 0)) ctx.check(false, near ? "cell-near-a-tag-not-tagged" : "cell-far-from-tags-tagged", "width ", w, " cell ", show<R>(i), " box from ", show<R>(box.lower), " to ", show<R>(box.upper), " first tag ", set.empty() ? "-" : show<R>(set[0]));
  });
  tags.outside(ctx);
  ctx.transition(); ctx.validated();
  mc::Hash h;
  for (int d = 0; d < R; ++d) h.add(std::int64_t(box.upper[d]));
  for (auto& i : set) for (auto x : i) h.add(std::int64_t(x));
  ctx.state(h.add(w));
}
template <int R> void cutcells(mc::Ctx& ctx, int max) {
  IndexBox<R> box, vol;
  for (int d = 0; d < R; ++d) { box.lower[d] = d; box.upper[d] = box.lower[d] + ctx.range(1, max); vol.lower[d] = box.lower[d] + ctx.range(-1, 1); vol.upper[d] = std::max(vol.lower[d] + 1, box.upper[d] + ctx.range(-1, 1)); }
  const double pool[] = {0.0, 1.0, 0.5, 1e-12, std::nextafter(1.0, 0.0)};
  const int shift = ctx.choose(5), step = ctx.range(1, 4), pre = ctx.choose(2);
  Field<R> v = alloc<R>(vol, 0, 0, R, 0.0, 0, true);
  std::map<Index<R>, double> value;
  int k = shift;
  each<R>(vol, [&](auto& i) { v.at(i) = value[i] = pool[k % 5]; k += step; });
  Tags<R> tags(box, 2);
  if (pre) tags(box.lower) = 1;
  TagCutCells().TagCellsForRefinement(tags.view(), strided<const double, R>(v, vol));
  each<R>(box, [&](auto& i) {
    const bool w = (value.count(i) && value[i] > 0 && value[i] < 1) || (pre && i == box.lower);
    if (w != (tags(i) != 0)) ctx.check(false, w ? "cut-cell-not-tagged" : "other-cell-tagged", show<R>(i));
  });
  tags.outside(ctx);
  ctx.transition(); ctx.validated();
  mc::Hash h;
  for (int d = 0; d < R; ++d) h.add(std::int64_t(box.upper[d])).add(std::int64_t(vol.lower[d])).add(std::int64_t(vol.upper[d]));
  ctx.state(h.add(shift).add(step));
}
} // namespace
#define GRAD "row lengths around the vector width x up to two jumps at every position and direction x levels incl. zero and both signs x scalar, array and two conditions x covered cells x embeddings"
SCENARIO("gradient-burgers-1d", GRAD, 1) { detect(ctx, Burgers1d{}, 18); }
SCENARIO("gradient-advection-2d", GRAD, 1) { detect(ctx, Advection2d{{1.0, 1.0}}, ctx.thorough() ? 18 : 10); }
SCENARIO("gradient-gas-1d", GRAD, 1) { detect(ctx, PerfectGas<1>{}, ctx.thorough() ? 18 : 10); }
SCENARIO("gradient-gas-2d", GRAD, 1) { detect(ctx, PerfectGas<2>{}, ctx.thorough() ? 18 : 9); }
SCENARIO("gradient-gas-3d", GRAD, 2) { detect(ctx, PerfectGas<3>{}, ctx.thorough() ? 10 : 2); }
SCENARIO("gradient-partial-1d", "boxes of states that do not cover the tags", 1) { partial<1>(ctx, Burgers1d{}); }
SCENARIO("gradient-partial-2d", "boxes of states that do not cover the tags", 2) { partial<2>(ctx, Advection2d{{1.0, 1.0}}); }
SCENARIO("buffer-1d", "lengths 1..9 x all tag patterns x widths 0..4", 1) { buffer<1>(ctx, 9); }
SCENARIO("buffer-2d", "up to 6 x 6 cells x all patterns (9 cells) or all pairs of tags x widths 0..3", 2) { buffer<2>(ctx, ctx.thorough() ? 8 : 6); }
SCENARIO("buffer-3d", "up to 4 x 4 x 4 cells x all patterns (9 cells) or all pairs of tags x widths 0..3", 2) { buffer<3>(ctx, ctx.thorough() ? 5 : 3); }
SCENARIO("cutcells-1d", "boxes x boxes of volume fractions x values at and next to 0 and 1", 1) { cutcells<1>(ctx, 4); }
SCENARIO("cutcells-2d", "boxes x boxes of volume fractions x values at and next to 0 and 1", 2) { cutcells<2>(ctx, 3); }
SCENARIO("cutcells-3d", "boxes x boxes of volume fractions x values at and next to 0 and 1", 2) { cutcells<3>(ctx, 2); }
