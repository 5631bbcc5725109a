// Index boxes, multi dimensional spans and their slices, patch data views, iteration: compared with
// explicit sets of indices and independently computed addresses.
#include "mc.hpp"
#include "fub/core/type_traits.hpp"
#include "fub/core/span.hpp"
#include "fub/core/mdspan.hpp"
#include "fub/PatchDataView.hpp"
#include "fub/State.hpp"
#include "fub/StateRow.hpp"
#include "fub/ForEach.hpp"
#include "fub/Equation.hpp"
#include "guard.hpp"
#include "field.hpp"
using namespace fub;
namespace {
template <int R> std::string str(const Index<R>& i) { std::string s; for (auto x : i) s += mc::cat(x, " "); return s; }
template <int R> std::string str(const IndexBox<R>& b) { return "[" + str<R>(b.lower) + "- " + str<R>(b.upper) + ")"; }
template <int R> bool in(const IndexBox<R>& b, const Index<R>& i) { for (int d = 0; d < R; ++d) if (i[d] < b.lower[d] || i[d] >= b.upper[d]) return false; return true; }
template <int R> bool empty(const IndexBox<R>& b) { for (int d = 0; d < R; ++d) if (b.upper[d] <= b.lower[d]) return true; return false; }
template <int R> IndexBox<R> choose_box(mc::Ctx& ctx) {
  IndexBox<R> b;
  for (int d = 0; d < R; ++d) {
    b.lower[d] = R == 1 ? ctx.range(-2, 2) : ctx.choose(2) * 2 - 1;
    b.upper[d] = b.lower[d] + (R == 1 ? ctx.range(0, 4) : R == 2 ? ctx.range(0, 3) : ctx.pick({0, 1, 3}));
  }
  return b;
}
template <int R> void boxes(mc::Ctx& ctx) {
  const IndexBox<R> a = choose_box<R>(ctx), b = choose_box<R>(ctx);
  IndexBox<R> grid;
  for (int d = 0; d < R; ++d) { grid.lower[d] = std::min(a.lower[d], b.lower[d]) - 1; grid.upper[d] = std::max(a.upper[d], b.upper[d]) + 1; }
  const IndexBox<R> c = Intersect(a, b);
  bool subset = true, same = true;
  each<R>(grid, [&](auto& i) {
    if (Contains(a, i) != in<R>(a, i)) ctx.check(false, "contains-index", str<R>(a), " index ", str<R>(i));
    if (in<R>(c, i) != (in<R>(a, i) && in<R>(b, i))) ctx.check(false, "intersection", str<R>(a), " and ", str<R>(b), " gives ", str<R>(c), " at ", str<R>(i));
    subset = subset && (!in<R>(b, i) || in<R>(a, i));
    same = same && in<R>(a, i) == in<R>(b, i);
  });
  for (int d = 0; d < R; ++d) ctx.check(c.lower[d] <= c.upper[d], "intersection-inverted", str<R>(c));
  if (!empty<R>(b)) ctx.check(Contains(a, b) == subset, "contains-box", str<R>(a), " in ", str<R>(b));
  if (!empty<R>(a) && !empty<R>(b)) ctx.check((a == b) == same && (a != b) == !same, "equality", str<R>(a), " ", str<R>(b));
  ctx.check(a == a && !(a != a), "equality-reflexive");
  for (int d = 0; d < R; ++d) {
    const Direction D = static_cast<Direction>(d);
    for (int l = 0; l < 3; ++l) for (int u = 0; u < 3; ++u) {
      IndexBox<R> e = a;
      e.lower[d] -= l; e.upper[d] += u;
      const std::array<std::ptrdiff_t, 2> s{l, u};
      const IndexBox<R> g = Grow(a, D, s);
      ctx.check(g.lower == e.lower && g.upper == e.upper, "grow", str<R>(a), " dir ", d, " by ", l, ",", u, " gives ", str<R>(g));
      const IndexBox<R> h = Shrink(g, D, s);
      ctx.check(h.lower == a.lower && h.upper == a.upper, "shrink", str<R>(g), " dir ", d, " by ", l, ",", u, " gives ", str<R>(h));
    }
    for (int s = -2; s < 4; ++s) {
      Index<R> i = a.lower, e = i;
      e[d] = i[d] + s; ctx.check(Shift(i, D, s) == e, "shift", str<R>(i), " by ", s);
      e[d] = i[d] - s; ctx.check(LeftTo(i, D, s) == e, "left-to", str<R>(i), " by ", s);
      e[d] = i[d] + s - 1; ctx.check(RightTo(i, D, s) == e, "right-to", str<R>(i), " by ", s);
    }
    const Index<R + 1> e = EmbedIndex(a.lower, D);
    for (int k = 0; k < R; ++k) ctx.check(e[k] == a.lower[k], "embed-index");
    ctx.check(e[R] == d, "embed-index-direction");
  }
  const IndexBox<R + 1> e = Embed<R + 1>(a, {b.lower[0], b.upper[0]});
  for (int d = 0; d < R; ++d) ctx.check(e.lower[d] == a.lower[d] && e.upper[d] == a.upper[d], "embed", str<R>(a));
  ctx.check(e.lower[R] == b.lower[0] && e.upper[R] == b.upper[0], "embed-limits");
  const IndexBox<R> p = Project<R>(e);
  ctx.check(p.lower == a.lower && p.upper == a.upper, "project", str<R>(p));
  for (int w = 0; w < 3 && b.lower == a.lower; ++w) {
    const IndexBox<R> n = Neighborhood<R>(a.lower, w);
    for (int d = 0; d < R; ++d) { grid.lower[d] = a.lower[d] - 4; grid.upper[d] = a.lower[d] + 4; }
    each<R>(grid, [&](auto& i) {
      bool near = true;
      for (int d = 0; d < R; ++d) near = near && std::abs(i[d] - a.lower[d]) <= w;
      if (in<R>(n, i) != near) ctx.check(false, "neighborhood", str<R>(a.lower), " width ", w, " at ", str<R>(i));
    });
  }
  std::set<Index<R>> seen;
  ForEachIndex(a, [&](auto... is) { const Index<R> i{is...}; ctx.check(seen.insert(i).second, "index-visited-twice", str<R>(i)); ctx.check(in<R>(a, i), "index-outside-visited", str<R>(i)); });
  std::size_t n = 1;
  for (int d = 0; d < R; ++d) n *= a.upper[d] - a.lower[d];
  ctx.check(seen.size() == n, "indices-not-visited", str<R>(a), " visited ", seen.size());
  ctx.transition(n); ctx.validated();
  mc::Hash h;
  for (int d = 0; d < R; ++d) h.add(std::int64_t(a.lower[d])).add(std::int64_t(a.upper[d])).add(std::int64_t(b.lower[d])).add(std::int64_t(b.upper[d]));
  ctx.state(h);
}
template <std::size_t R> using Ext = std::array<std::ptrdiff_t, R>;
template <std::size_t R> Ext<R> choose_extents(mc::Ctx& ctx, int hi) { Ext<R> e; for (auto& x : e) x = ctx.range(0, hi); return e; }
template <std::size_t R> Ext<R> strides_of(const Ext<R>& e, int kind) {
  Ext<R> s; std::ptrdiff_t acc = 1;
  if (kind == 0) for (std::size_t d = 0; d < R; ++d) { s[d] = acc; acc *= e[d]; }                              // left
  else if (kind == 1) for (std::size_t d = R; d-- > 0;) { s[d] = acc; acc *= e[d]; }                           // right
  else if (kind == 2) for (std::size_t d = 0; d < R; ++d) { s[d] = acc; acc *= e[d] + 1 + std::ptrdiff_t(d); }  // padded
  else for (std::size_t d = 0; d < R; ++d) { s[d] = acc * (d == 0 ? 2 : 1); acc = s[d] * std::max<std::ptrdiff_t>(e[d], 1); } // every second
  return s;
}
template <std::size_t R, typename F> void all_indices(const Ext<R>& e, F f) { IndexBox<int(R)> b; for (std::size_t d = 0; d < R; ++d) { b.lower[d] = 0; b.upper[d] = e[d]; } each<int(R)>(b, f); }
template <std::size_t R> std::ptrdiff_t dot(const Ext<R>& i, const Ext<R>& s) { std::ptrdiff_t r = 0; for (std::size_t d = 0; d < R; ++d) r += i[d] * s[d]; return r; }
template <typename M, std::size_t R> void mapping(mc::Ctx& ctx, const M& m, const Ext<R>& e, const Ext<R>& s, const char* what) {
  std::set<std::ptrdiff_t> seen;
  std::size_t n = 0;
  all_indices<R>(e, [&](auto& i) {
    const std::ptrdiff_t o = std::apply([&](auto... is) { return m(is...); }, i);
    ctx.check(o == dot<R>(i, s), "offset", what, " index ", str<int(R)>(i), " offset ", o, " expected ", dot<R>(i, s));
    ctx.check(seen.insert(o).second, "offset-not-unique", what);
    ctx.check(o >= 0 && o < m.required_span_size(), "offset-outside-span", what, " offset ", o, " size ", m.required_span_size());
    ++n;
  });
  for (std::size_t d = 0; d < R; ++d) { ctx.check(m.stride(d) == s[d], "stride", what, " ", d, ": ", m.stride(d), " expected ", s[d]); ctx.check(m.extents().extent(d) == e[d], "extent", what); }
  ctx.check(m.is_unique() && m.is_strided() && m.is_always_unique() && m.is_always_strided(), "claims", what);
  if (m.is_contiguous()) ctx.check(std::size_t(m.required_span_size()) == n, "contiguous-with-holes", what);
}
template <std::size_t R> void mappings(mc::Ctx& ctx) {
  const Ext<R> e = choose_extents<R>(ctx, R < 3 ? 4 : R == 3 ? 3 : 2);
  using E = dynamic_extents<R>;
  const E ex(e);
  mapping(ctx, layout_left::mapping<E>(ex), e, strides_of<R>(e, 0), "left");
  mapping(ctx, layout_right::mapping<E>(ex), e, strides_of<R>(e, 1), "right");
  for (int k = 0; k < 4; ++k) mapping(ctx, layout_stride::mapping<E>(ex, strides_of<R>(e, k)), e, strides_of<R>(e, k), "stride");
  mapping(ctx, layout_stride::mapping<E>(layout_left::mapping<E>(ex)), e, strides_of<R>(e, 0), "stride from left");
  // equality
  const Ext<R> f = choose_extents<R>(ctx, R == 1 ? 4 : R == 2 ? 2 : 1);
  const E fx(f);
  ctx.check((ex == fx) == (e == f) && (ex != fx) == (e != f), "extents-equality", str<int(R)>(e), " ", str<int(R)>(f));
  ctx.check((layout_left::mapping<E>(ex) == layout_left::mapping<E>(fx)) == (e == f), "left-equality");
  ctx.check((layout_right::mapping<E>(ex) != layout_right::mapping<E>(fx)) == (e != f), "right-equality");
  for (int k = 0; k < 4; ++k) for (int j = 0; j < 4; ++j) {
    const auto s = strides_of<R>(e, k), t = strides_of<R>(f, j);
    const layout_stride::mapping<E> a(ex, s), b(fx, t);
    ctx.check((a == b) == (e == f && s == t) && (a != b) == !(e == f && s == t), "stride-equality", "extents ", str<int(R)>(e), "/ ", str<int(R)>(f), " strides ", str<int(R)>(s), "/ ", str<int(R)>(t));
  }
  // iteration
  auto visit = [&](auto m, const char* what) {
    std::set<Ext<R>> seen;
    ForEachIndex(m, [&](auto... is) { const Ext<R> i{is...}; ctx.check(seen.insert(i).second, "mapping-index-twice", what); for (std::size_t d = 0; d < R; ++d) ctx.check(i[d] >= 0 && i[d] < e[d], "mapping-index-outside", what); });
    std::size_t n = 1;
    for (auto x : e) n *= x;
    ctx.check(seen.size() == n, "mapping-indices-missed", what, " extents ", str<int(R)>(e), " visited ", seen.size());
  };
  visit(layout_left::mapping<E>(ex), "left");
  visit(layout_stride::mapping<E>(ex, strides_of<R>(e, 2)), "stride");
  ctx.transition(); ctx.validated();
  mc::Hash h;
  for (std::size_t d = 0; d < R; ++d) h.add(std::int64_t(e[d])).add(std::int64_t(f[d]));
  ctx.state(h.add(int(R)));
}
double store[4096];
// slices: 0 all, 1 range, 2 index
template <typename Span, std::size_t R, int K, typename... S> void slices(mc::Ctx& ctx, const Span& m, const Ext<R>& e, const Ext<R>& s, S... ss) {
  if constexpr (K == 0 && (!std::is_convertible_v<S, std::ptrdiff_t> || ...)) {
    const auto sub = subspan(m, ss...);
    constexpr int n = (int(!std::is_convertible_v<S, std::ptrdiff_t>) + ...);
    static_assert(std::decay_t<decltype(sub)>::rank() == n);
    std::vector<std::ptrdiff_t> first, len;
    std::vector<std::size_t> dims;
    std::size_t d = 0;
    auto look = [&](auto x) {
      using X = decltype(x);
      if constexpr (std::is_same_v<X, all_type>) { first.push_back(0); len.push_back(e[d]); dims.push_back(d); }
      else if constexpr (std::is_convertible_v<X, std::ptrdiff_t>) { first.push_back(x); }
      else { first.push_back(x.first); len.push_back(x.second - x.first); dims.push_back(d); }
      ++d;
    };
    (look(ss), ...);
    std::string text = mc::cat("extents ", str<int(R)>(e), " first ");
    for (auto x : first) text += mc::cat(x, " ");
    text += "lengths ";
    for (auto x : len) text += mc::cat(x, " ");
    Ext<std::size_t(n)> le;
    for (int k = 0; k < n; ++k) { le[k] = len[k]; ctx.check(sub.extent(k) == len[k], "slice-extent", "of dimension ", k, ": ", sub.extent(k), " in ", text); ctx.check(sub.stride(k) == s[dims[k]], "slice-stride", text); }
    all_indices<std::size_t(n)>(le, [&](auto& i) {
      Ext<R> j;
      for (std::size_t k = 0; k < R; ++k) j[k] = first[k];
      for (int k = 0; k < n; ++k) j[dims[k]] += i[k];
      ctx.check(&sub(i) == store + 64 + dot<R>(j, s), "slice-address", "index ", str<n>(i), " of ", text);
    });
    ctx.transition();
  } else if constexpr (K > 0) {
    constexpr std::size_t d = R - K;
    const int kind = ctx.choose(3);
    if (kind == 0) slices<Span, R, K - 1>(ctx, m, e, s, ss..., all);
    else if (kind == 1) { const std::ptrdiff_t a = ctx.range(0, int(e[d])), b = ctx.range(int(a), int(e[d])); slices<Span, R, K - 1>(ctx, m, e, s, ss..., std::pair<std::ptrdiff_t, std::ptrdiff_t>(a, b)); }
    else { if (e[d] == 0) throw mc::Prune{}; slices<Span, R, K - 1>(ctx, m, e, s, ss..., std::ptrdiff_t(ctx.choose(int(e[d])))); }
  }
}
template <std::size_t R> void subspans(mc::Ctx& ctx) {
  const Ext<R> e = choose_extents<R>(ctx, R == 3 ? 2 : 3);
  const int k = ctx.choose(3);
  using E = dynamic_extents<R>;
  if (k == 0) slices<basic_mdspan<double, E, layout_left>, R, int(R)>(ctx, basic_mdspan<double, E, layout_left>(store + 64, E(e)), e, strides_of<R>(e, 0));
  else if (k == 1) slices<basic_mdspan<double, E, layout_right>, R, int(R)>(ctx, basic_mdspan<double, E, layout_right>(store + 64, E(e)), e, strides_of<R>(e, 1));
  else slices<basic_mdspan<double, E, layout_stride>, R, int(R)>(ctx, basic_mdspan<double, E, layout_stride>(store + 64, layout_stride::mapping<E>(E(e), strides_of<R>(e, 2))), e, strides_of<R>(e, 2));
  ctx.validated();
  mc::Hash h;
  for (auto x : e) h.add(std::int64_t(x));
  ctx.state(h.add(k));
}
// views of patches with an origin
template <typename T, int R, typename L> void address(mc::Ctx& ctx, Field<R>& f, const PatchDataView<T, R, L>& v, const IndexBox<R>& b, const char* what) {
  ctx.check(v.Origin() == b.lower, "origin", what);
  const IndexBox<R> vb = v.Box();
  ctx.check(vb.lower == b.lower && vb.upper == b.upper, "box-of-view", what, " ", str<R>(vb), " expected ", str<R>(b));
  for (int d = 0; d < R; ++d) ctx.check(v.Extent(d) == b.upper[d] - b.lower[d] && v.Extents().extent(d) == v.Extent(d) && v.Mapping().extents().extent(d) == v.Extent(d), "extent-of-view", what);
  each<R>(b, [&](auto& i) {
    const double* a = &f.at(i);
    ctx.check(&v(i) == a, "address", what, " index ", str<R>(i));
    ctx.check(std::apply([&](auto... is) { return &v(is...); }, i) == a, "address-of-list", what, " index ", str<R>(i));
    if constexpr (R > 1) { std::array<std::ptrdiff_t, R - 1> j; std::copy_n(i.begin(), R - 1, j.begin()); ctx.check(&v(j, int(i[R - 1])) == a, "address-of-component", what, " index ", str<R>(i)); }
    ctx.check(a >= v.Span().begin() && a < v.Span().end(), "cell-outside-of-span", what, " index ", str<R>(i));
  });
}
template <int R> void views(mc::Ctx& ctx) {
  IndexBox<R> box, sub;
  for (int d = 0; d < R; ++d) { box.lower[d] = d * 2 - 3; box.upper[d] = box.lower[d] + (R < 3 ? ctx.range(0, 4) : R == 3 ? ctx.range(0, 3) : 2); }
  Field<R> f = alloc<R>(box, 0, 0, R, 0.0, 0, ctx.flip());
  for (int d = 0; d < R; ++d) { sub.lower[d] = box.lower[d] + ctx.choose(int(box.upper[d] - box.lower[d]) + 1); sub.upper[d] = sub.lower[d] + ctx.choose(int(box.upper[d] - sub.lower[d]) + 1); }
  auto v = f.all();
  address<double, R, layout_left>(ctx, f, v, box, "whole");
  PatchDataView<const double, R> cv = v;
  address<const double, R, layout_left>(ctx, f, cv, box, "constant");
  auto s = v.Subview(sub);
  address<double, R, layout_stride>(ctx, f, s, sub, "subview");
  auto cs = cv.Subview(sub);
  address<const double, R, layout_stride>(ctx, f, cs, sub, "constant subview");
  PatchDataView<const double, R, layout_stride> cs2 = s;
  address<const double, R, layout_stride>(ctx, f, cs2, sub, "subview as constant");
  // a view of a view
  IndexBox<R> inner = sub;
  const int d0 = ctx.choose(R);
  if (inner.lower[d0] < inner.upper[d0]) inner.lower[d0] += 1;
  if (inner.lower[R - 1 - d0] < inner.upper[R - 1 - d0]) inner.upper[R - 1 - d0] -= 1;
  address<double, R, layout_stride>(ctx, f, s.Subview(inner), inner, "view of view");
  if constexpr (R > 1) {
    if (!empty<R>(sub)) for (std::ptrdiff_t c = 0; c < sub.upper[R - 1] - sub.lower[R - 1]; ++c) {
      auto slice = SliceLast(s, int(c));
      const IndexBox<R - 1> pb = Project<R - 1>(sub), sb = slice.Box();
      ctx.check(sb.lower == pb.lower && sb.upper == pb.upper, "slice-box");
      each<R - 1>(pb, [&](auto& i) { ctx.check(&slice(i) == &f.at(join(i, int(sub.lower[R - 1] + c))), "slice-last", "component ", c, " index ", str<R - 1>(i)); });
    }
    if (!empty<R>(box)) {
      auto slice = SliceLast(v, int(box.upper[R - 1] - box.lower[R - 1] - 1));
      each<R - 1>(Project<R - 1>(box), [&](auto& i) { ctx.check(&slice(i) == &f.at(join(i, int(box.upper[R - 1] - 1))), "slice-last-of-whole", "index ", str<R - 1>(i)); });
    }
  }
  ctx.transition(); ctx.validated();
  mc::Hash h;
  for (int d = 0; d < R; ++d) h.add(std::int64_t(box.upper[d])).add(std::int64_t(sub.lower[d])).add(std::int64_t(sub.upper[d]));
  ctx.state(h.add(d0));
}
template <int R> void rows(mc::Ctx& ctx) {
  IndexBox<R> box;
  for (int d = 0; d < R; ++d) { box.lower[d] = d * 2 - 3; box.upper[d] = box.lower[d] + ctx.range(0, d == 0 ? 10 : 4 - R / 3); }
  const int lo[] = {0, 1, 0, 2}, hi[] = {0, 1, 2, 0};
  const int a = ctx.choose(4), b = ctx.choose(4);
  const bool end = ctx.flip();
  Field<R> f = alloc<R>(box, lo[a], hi[a], R, 0.0, 0, end), g = alloc<R>(box, lo[b], hi[b], R, 0.0, 1, end);
  auto fv = f.all().Subview(box);
  PatchDataView<const double, R> gall = g.template all<const double>();
  auto gv = gall.Subview(box);
  std::vector<std::pair<double*, const double*>> got;
  std::size_t limit = 1, n = 1;
  for (int d = 0; d < R; ++d) { limit *= 12; n *= box.upper[d] - box.lower[d]; }
  std::size_t calls = 0;
  ForEachRow(std::tuple{fv, gv}, [&](span<double> x, span<const double> y) {
    ctx.check(x.size() == y.size() && x.size() == box.upper[0] - box.lower[0], "row-size", x.size());
    ctx.check(++calls <= limit, "rows-do-not-end", str<R>(box));
    for (std::ptrdiff_t i = 0; i < x.size(); ++i) got.push_back({&x[i], &y[i]});
  });
  ctx.check(got.size() == n, "cells-in-rows", got.size(), " instead of ", n, " cells of ", str<R>(box), " layouts ", a, ",", b);
  std::set<std::pair<double*, const double*>> set(got.begin(), got.end());
  each<R>(box, [&](auto& i) { ctx.check(set.count({&f.at(i), &g.at(i)}) == 1, "cell-not-in-rows", str<R>(i), " of ", str<R>(box), " layouts ", a, ",", b); });
  ctx.transition(n); ctx.validated();
  mc::Hash h;
  for (int d = 0; d < R; ++d) h.add(std::int64_t(box.upper[d]));
  ctx.state(h.add(a).add(b).add(int(end)));
}
} // namespace
#define BOXES "all pairs of boxes with corners in a small range incl. empty ones, compared with explicit index sets"
SCENARIO("boxes-1d", BOXES, 1) { boxes<1>(ctx); }
SCENARIO("boxes-2d", BOXES, 2) { boxes<2>(ctx); }
SCENARIO("boxes-3d", BOXES, 2) { boxes<3>(ctx); }
SCENARIO("mappings-1d", "extents 0..4; left, right, padded and strided layouts; all pairs for equality", 1) { mappings<1>(ctx); }
SCENARIO("mappings-2d", "extents 0..4; left, right, padded and strided layouts; pairs for equality", 1) { mappings<2>(ctx); }
SCENARIO("mappings-3d", "extents 0..3; left, right, padded and strided layouts; pairs for equality", 1) { mappings<3>(ctx); }
SCENARIO("mappings-4d", "extents 0..2; left, right, padded and strided layouts; pairs for equality", 1) { mappings<4>(ctx); }
SCENARIO("slices-1d", "extents 0..3 x every slice (all, every range, every index) x 3 layouts", 1) { subspans<1>(ctx); }
SCENARIO("slices-2d", "extents 0..3 x every slice (all, every range, every index) x 3 layouts", 1) { subspans<2>(ctx); }
SCENARIO("slices-3d", "extents 0..2 x every slice (all, every range, every index) x 3 layouts", 2) { subspans<3>(ctx); }
SCENARIO("views-1d", "sizes 0..4 x all sub-boxes x views of views", 1) { views<1>(ctx); }
SCENARIO("views-2d", "sizes 0..4 x all sub-boxes x views of views x components", 2) { views<2>(ctx); }
SCENARIO("views-3d", "sizes 0..3 x all sub-boxes x views of views x components", 2) { views<3>(ctx); }
SCENARIO("views-4d", "size 2 x all sub-boxes x views of views x components", 2) { views<4>(ctx); }
SCENARIO("rows-1d", "sizes 0..10 x 4 x 4 embeddings of two views", 1) { rows<1>(ctx); }
SCENARIO("rows-2d", "sizes 0..10 x 0..4 x 4 x 4 embeddings of two views", 1) { rows<2>(ctx); }
SCENARIO("rows-3d", "sizes 0..10 x 0..3 x 0..3 x 4 x 4 embeddings of two views", 1) { rows<3>(ctx); }
SCENARIO("static-extents", "mixed static and dynamic extents", 1) {
  const int a = ctx.range(0, 4), b = ctx.range(0, 4);
  const extents<2, dynamic_extent, 3> e(a);
  const extents<dynamic_extent, 3, dynamic_extent> f(a, b);
  const extents<2, 3> g;
  ctx.check(e.rank() == 3 && e.rank_dynamic() == 1 && e.extent(0) == 2 && e.extent(1) == a && e.extent(2) == 3, "mixed-extents", a);
  ctx.check(f.rank() == 3 && f.rank_dynamic() == 2 && f.extent(0) == a && f.extent(1) == 3 && f.extent(2) == b, "mixed-extents", a, " ", b);
  ctx.check(g.rank_dynamic() == 0 && g.extent(0) == 2 && g.extent(1) == 3, "static-extents");
  ctx.check(e.static_extent(0) == 2 && e.static_extent(1) == dynamic_extent && f.static_extent(1) == 3, "static-extent");
  ctx.check((e == f) == (a == 2 && a == 3 && b == 3), "mixed-equality");
  ctx.check((e == dynamic_extents<3>(2, a, b)) == (b == 3), "mixed-equality-dynamic");
  ctx.check(!(g == dynamic_extents<3>(2, 3, a)), "rank-equality");
  static_mdspan<double, 2, dynamic_extent> m(store, a);
  ctx.check(m.size() == 2 * a && m.extent(0) == 2 && m.extent(1) == a && m.stride(0) == a, "static-span");
  for (int i = 0; i < 2; ++i) for (int j = 0; j < a; ++j) ctx.check(&m(i, j) == store + i * a + j, "static-span-address");
  ctx.transition(); ctx.validated(); ctx.state(a * 10 + b);
}
SCENARIO("spans", "sizes 0..7 x all sub-spans, dynamic and static", 1) {
  const int n = ctx.range(0, 7);
  auto same = [&](auto s, const double* p, std::ptrdiff_t k, const char* what) {
    ctx.check(s.size() == k && (k == 0 || s.data() == p) && s.empty() == (k == 0) && s.end() - s.begin() == k && s.size_bytes() == 8 * k && s.cend() - s.cbegin() == k, "span", what, " size ", s.size(), " expected ", k);
    std::ptrdiff_t i = 0;
    if constexpr (decltype(s)::extent != 0) {
      for (auto& x : s) { ctx.check(&x == p + i && &s[i] == p + i && &s(i) == p + i, "span-element", what); ++i; }
      for (auto r = s.rbegin(); r != s.rend(); ++r) { --i; ctx.check(&*r == p + i, "span-reverse", what); }
    }
    ctx.check(i == 0, "span-reverse-length", what);
  };
  span<double> s(store, n);
  same(s, store, n, "pointer and size");
  same(span<double>(store, store + n), store, n, "two pointers");
  same(span<const double>(s), store, n, "constant");
  for (int c = 0; c <= n; ++c) {
    same(s.first(c), store, c, "first");
    same(s.last(c), store + n - c, c, "last");
    same(s.subspan(c), store + c, n - c, "rest");
    for (int k = 0; c + k <= n; ++k) same(s.subspan(c, k), store + c, k, "sub");
  }
  std::vector<double> v(n + 1, 1.0);
  same(make_span(v), v.data(), n + 1, "container");
  same(span<const double>(v), v.data(), n + 1, "constant container");
  std::array<double, 5> a{};
  span<double, 5> t(a);
  same(t, a.data(), 5, "static");
  same(span<double>(t), a.data(), 5, "static to dynamic");
  same(span<double, 5>(make_span(a)), a.data(), 5, "make_span of array");
  same(t.first<2>(), a.data(), 2, "static first");
  same(t.last<2>(), a.data() + 3, 2, "static last");
  same(t.subspan<1>(), a.data() + 1, 4, "static rest");
  same(t.subspan<1, 3>(), a.data() + 1, 3, "static sub");
  same(t.subspan<5, 0>(), a.data() + 5, 0, "static empty");
  for (int c = 0; c <= 5; ++c) { same(t.first(c), a.data(), c, "first of static"); same(t.last(c), a.data() + 5 - c, c, "last of static"); same(t.subspan(c), a.data() + c, 5 - c, "rest of static"); }
  if (n >= 2) { same(s.first<2>(), store, 2, "dynamic first"); same(s.last<2>(), store + n - 2, 2, "dynamic last"); same(s.subspan<2>(), store + 2, n - 2, "dynamic rest"); same(s.subspan<1, 1>(), store + 1, 1, "dynamic sub"); }
  double raw[4] = {};
  same(make_span(raw), raw, 4, "array");
  ctx.transition(); ctx.validated(); ctx.state(n);
}
