// States and views of states: loading and storing single cells and chunks, moving pointers, rows,
// sub-views and conversions touch exactly the variables and cells they name.
#include "mc.hpp"
#include "fub/core/type_traits.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/PerfectGasMix.hpp"
#include "fub/StateArray.hpp"
#include "fub/StateRow.hpp"
#include "fub/Equation.hpp"
#include "fub/ForEach.hpp"
#include "state_field.hpp"
using namespace fub;
namespace {
template <int R> PerfectGas<R> pg() { return {}; }
template <int R> PerfectGasMix<R> mix(int n) { PerfectGasMix<R> e{}; e.n_species = n; return e; }
// one guarded field per state; every value is different
double value(const std::vector<std::ptrdiff_t>& i, int comp) { double v = comp + 1; for (auto x : i) v = v * 31 + double(x + 7); return v; }
template <int R> std::vector<double> expected(const Index<R>& i, int n) { std::vector<double> r; for (int c = 0; c < n; ++c) r.push_back(value({i.begin(), i.end()}, c)); return r; }
template <typename S> std::vector<double> flat(const S& s) { std::vector<double> r; ForEachComponent([&](double x) { r.push_back(x); }, s); return r; }
template <typename S> std::vector<double> lane(const S& s, int k) { std::vector<double> r; ForEachComponent([&](auto x) { r.push_back(x(0, k)); }, s); return r; }
template <typename S> void put_lane(S& s, int k, const std::vector<double>& v) { int c = 0; ForEachVariable([&](auto& x) { for (int i = 0; i < x.rows(); ++i) x(i, k) = v[c++]; }, s); }
std::string show(const std::vector<double>& v) { std::string s; for (double x : v) s += mc::cat(x, " "); return s; }
template <typename Eq, template <typename> class S, template <typename, int> class A> void states(mc::Ctx& ctx, const Eq& eq, bool complete) {
  constexpr int R = Eq::Rank();
  using State = S<Eq>;
  using Arr = A<Eq, kDefaultChunkSize>;
  IndexBox<R> box;
  for (int d = 0; d < R; ++d) { box.lower[d] = d == 0 ? -2 : d; box.upper[d] = box.lower[d] + (d == 0 ? ctx.range(1, 10) : ctx.range(1, 2)); }
  const int lo = ctx.choose(2), hi = ctx.choose(2);
  const bool at_end = ctx.flip();
  int slot = 0;
  StateField<Eq, S> f(eq, box, lo, hi, 0.0, slot, at_end);
  const int nc = int(flat(State(eq)).size());
  each<R>(f.box, [&](auto& i) { f.set(i, expected<R>(i, nc)); });
  auto v = f.view(box);
  auto cv = AsConst(v);
  auto unchanged = [&](const std::set<Index<R>>& except, const char* what) {
    each<R>(f.box, [&](auto& i) { if (!except.count(i) && f.get(i) != expected<R>(i, nc)) ctx.check(false, "other-cell-changed", what, " cell ", i[0], " ", show(f.get(i))); });
  };
  // single cells
  each<R>(box, [&](auto& i) {
    State q(eq);
    Load(q, cv, i);
    if (flat(q) != expected<R>(i, nc)) ctx.check(false, "load", "cell ", i[0], ": ", show(flat(q)));
    State q2(eq);
    Load(q2, v, i);
    ctx.check(flat(q2) == flat(q), "load-from-mutable");
    auto p = Begin(cv);
    std::ptrdiff_t off = 0, s = 1;
    for (int d = 0; d < R; ++d) { off += (i[d] - box.lower[d]) * s; s *= f.box.upper[d] - f.box.lower[d]; }
    Advance(p, off);
    State q3(eq);
    Load(q3, p);
    if (flat(q3) != expected<R>(i, nc)) ctx.check(false, "load-pointer", "cell ", i[0], ": ", show(flat(q3)));
  });
  const Index<R> first = box.lower;
  Index<R> last = box.upper;
  for (auto& x : last) x -= 1;
  for (const Index<R>& i : {first, last}) {
    State q(eq);
    Load(q, cv, i);
    std::vector<double> w = expected<R>(i, nc);
    int c = 0;
    ForEachVariable([&](auto& x) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>) x = w[c++] += 0.5; else for (int k = 0; k < x.size(); ++k) x[k] = w[c++] += 0.5; }, q);
    Store(v, q, i);
    ctx.check(f.get(i) == w, "store", show(f.get(i)));
    unchanged({i}, "store");
    f.set(i, expected<R>(i, nc));
  }
  // chunks along the first direction
  const std::ptrdiff_t nx = box.upper[0] - box.lower[0];
  for (int n = 1; n <= kDefaultChunkSize && n <= nx; ++n) {
    for (std::ptrdiff_t o : std::set<std::ptrdiff_t>{0, nx - n}) {
      auto p = Begin(cv);
      std::ptrdiff_t off = o, s = 1;
      Index<R> at = last;
      at[0] = box.lower[0] + o;
      for (int d = 0; d < R; ++d) { if (d > 0) off += (at[d] - box.lower[d]) * s; s *= f.box.upper[d] - f.box.lower[d]; }
      Advance(p, off);
      Arr a(eq);
      for (int k = 0; k < kDefaultChunkSize; ++k) put_lane(a, k, std::vector<double>(nc, -1.0));
      if (n == kDefaultChunkSize) Load(a, p); else LoadN(a, p, n);
      std::set<Index<R>> cells;
      for (int k = 0; k < n; ++k) {
        Index<R> i = at;
        i[0] += k;
        cells.insert(i);
        if (lane(a, k) != expected<R>(i, nc)) ctx.check(false, "load-chunk", "length ", n, " lane ", k, ": ", show(lane(a, k)), " expected ", show(expected<R>(i, nc)));
      }
      for (int k = n; k < kDefaultChunkSize; ++k) ctx.check(lane(a, k) == std::vector<double>(nc, -1.0), "lane-outside-chunk-changed", n, " lane ", k);
      if constexpr (!std::is_same_v<State, Primitive<Eq>>) {
        State q(eq);
        for (int k = 0; k < n; ++k) { Load(q, a, k); ctx.check(flat(q) == lane(a, k), "load-lane", k); }
      }
      if (n == kDefaultChunkSize) {
        Arr b(eq);
        Load(b, cv, at);
        for (int k = 0; k < n; ++k) if (lane(b, k) != lane(a, k)) ctx.check(false, "load-chunk-by-index", "lane ", k);
        Arr w(a);
        for (int k = 0; k < n; ++k) { auto x = lane(a, k); for (double& y : x) y += 0.25; put_lane(w, k, x); }
        Store(v, w, at);
        for (int k = 0; k < n; ++k) { Index<R> i = at; i[0] += k; ctx.check(f.get(i) == lane(w, k), "store-chunk-by-index", "lane ", k); f.set(i, expected<R>(i, nc)); }
        unchanged({}, "store chunk by index");
      }
      for (int k = 0; k < kDefaultChunkSize; ++k) { auto x = k < n ? lane(a, k) : std::vector<double>(nc, -7.0); for (double& y : x) y += 0.5; put_lane(a, k, x); }
      auto mp = Begin(v);
      Advance(mp, off);
      for (int full = 0; full < (n == kDefaultChunkSize ? 2 : 1); ++full) {
        if (full) Store(mp, a); else StoreN(mp, a, n);
        for (int k = 0; k < n; ++k) {
          Index<R> i = at;
          i[0] += k;
          if (f.get(i) != lane(a, k)) ctx.check(false, "store-chunk", "length ", n, " lane ", k, ": ", show(f.get(i)), " expected ", show(lane(a, k)));
        }
        unchanged(cells, "store chunk");
        for (auto& i : cells) f.set(i, expected<R>(i, nc));
      }
    }
  }
  // sub-views and views of other states
  IndexBox<R> sub = box;
  const int dir = ctx.choose(R);
  const std::ptrdiff_t a = ctx.choose(2), b = ctx.choose(2);
  if (a + b <= box.upper[dir] - box.lower[dir]) {
    sub.lower[dir] += a; sub.upper[dir] -= b;
    auto look = [&](auto w, const IndexBox<R>& e, const char* what) {
      ForEachVariable([&](const auto& pdv) { const auto x = pdv.Box(); for (int d = 0; d < R; ++d) if (x.lower[d] != e.lower[d] || x.upper[d] != e.upper[d]) ctx.check(false, "box-of-variable", what); }, w);
      ctx.check(Box<0>(w).lower == e.lower && Box<0>(w).upper == e.upper, "box", what);
      each<R>(e, [&](auto& i) { State q(eq); Load(q, AsConst(w), i); if (flat(q) != expected<R>(i, nc)) ctx.check(false, "load-from-subview", what, " ", show(flat(q))); });
    };
    look(Shrink(v, static_cast<Direction>(dir), {a, b}), sub, "shrink");
    look(Subview(v, sub), sub, "subview");
    auto cs = Subview(cv, sub);
    each<R>(sub, [&](auto& i) { State q(eq); Load(q, cs, i); ctx.check(flat(q) == expected<R>(i, nc), "load-from-constant-subview"); });
  }
  if constexpr (!std::is_same_v<State, Primitive<Eq>>) {
    auto cons = AsCons(v);
    const int ncons = int(flat(Conservative<Eq>(eq)).size());
    ctx.check(Box<0>(cons).lower == box.lower && Box<0>(cons).upper == box.upper, "box-of-conservative-part");
    each<R>(box, [&](auto& i) { Conservative<Eq> q(eq); Load(q, AsConst(cons), i); if (flat(q) != expected<R>(i, ncons)) ctx.check(false, "conservative-part", show(flat(q))); });
    State q(eq);
    Load(q, cv, last);
    std::vector<double> fq = flat(q), fc = expected<R>(last, ncons);
    Conservative<Eq> c(eq);
    std::vector<double> buf(fq);
    CopyFromBuffer(q, span<const double>(buf));
    ctx.check(flat(q) == fq, "copy-from-buffer", show(flat(q)));
    static_cast<ConservativeBase<Eq>&>(c) = AsCons(q);
    ctx.check(flat(c) == fc, "conservative-part-of-state");
    std::vector<double> out(ncons, 0.0);
    CopyToBuffer(span<double>(out), c);
    ctx.check(out == fc, "copy-to-buffer", show(out));
    q += State(q);
    for (double& x : fq) x *= 2;
    ctx.check(flat(q) == fq, "add-state", show(flat(q)));
  }
  (void)complete;
  ctx.transition(); ctx.validated();
  mc::Hash h;
  for (int d = 0; d < R; ++d) h.add(std::int64_t(box.upper[d])).add(std::int64_t(sub.lower[d])).add(std::int64_t(sub.upper[d]));
  ctx.state(h.add(lo).add(hi).add(int(at_end)).add(nc));
}
template <typename Eq, int W> using CompleteA = CompleteArray<Eq, W>;
template <typename Eq, int W> using ConsA = ConservativeArray<Eq, W>;
template <typename Eq, int W> using PrimA = PrimitiveArray<Eq, W>;
template <typename Eq> void all_states(mc::Ctx& ctx, const Eq& eq) {
  switch (ctx.choose(3)) {
  case 0: return states<Eq, Complete, CompleteA>(ctx, eq, true);
  case 1: return states<Eq, Conservative, ConsA>(ctx, eq, false);
  default: return states<Eq, Primitive, PrimA>(ctx, eq, false);
  }
}
template <typename Eq> void values(mc::Ctx& ctx, const Eq& eq) {
  // assignments keep the value, do not touch their source, and return the destination
  Complete<Eq> a(eq), b(eq);
  std::vector<double> v;
  const int nc = int(flat(a).size());
  for (int i = 0; i < nc; ++i) v.push_back(i + 0.5);
  for (double x : flat(a)) ctx.check(x == 0.0, "new-state-is-not-zero", show(flat(a)));
  CopyFromBuffer(a, span<const double>(v));
  const CompleteBase<Eq>& base = a;
  Complete<Eq>& r = (b = base);
  ctx.check(&r == &b && flat(b) == v && flat(a) == v, "assign-complete", show(flat(b)));
  Complete<Eq> c(base);
  ctx.check(flat(c) == v, "construct-complete");
  Conservative<Eq> p(eq), q(eq);
  std::vector<double> w(v.begin(), v.begin() + flat(p).size());
  CopyFromBuffer(p, span<const double>(w));
  const ConservativeBase<Eq>& pb = p;
  Conservative<Eq>& s = (q = pb);
  ctx.check(&s == &q && flat(q) == w, "assign-conservative");
  IndexMapping<Eq> m(eq);
  std::vector<int> ids;
  ForEachVariable(overloaded{[&](int i) { ids.push_back(i); }, [&](const auto& is) { for (int i : is) ids.push_back(i); }}, m);
  ctx.check(int(ids.size()) == nc, "index-mapping-size", ids.size());
  for (int i = 0; i < nc; ++i) ctx.check(ids[i] == i, "index-mapping", i, " is ", ids[i]);
  ctx.check(!AnyNaN(a), "any-nan");
  for (int i = 0; i < nc; ++i) { auto x = v; x[i] = NAN; CopyFromBuffer(b, span<const double>(x)); ctx.check(AnyNaN(b), "nan-not-found", i); }
  ctx.transition(); ctx.validated(); ctx.state(nc);
}
template <typename Eq> void views(mc::Ctx& ctx, const Eq& eq) {
  constexpr int R = Eq::Rank();
  IndexBox<R> box;
  for (int d = 0; d < R; ++d) { box.lower[d] = 1; box.upper[d] = 4; }
  int slot = 0;
  StateField<Eq, Complete> f(eq, box, 1, 1, 0.0, slot, true), g(eq, box, 1, 1, 0.0, slot, true);
  const int nc = int(flat(Complete<Eq>(eq)).size());
  each<R>(f.box, [&](auto& i) { f.set(i, expected<R>(i, nc)); g.set(i, std::vector<double>(nc, -1.0)); });
  auto v = f.view(box), w = g.view(box);
  const ViewBase<Complete<Eq>, layout_stride, R>& vb = v;
  auto& r = (w = vb);
  ctx.check(&r == &w, "assign-view");
  each<R>(box, [&](auto& i) { Complete<Eq> q(eq); Load(q, AsConst(w), i); ctx.check(flat(q) == expected<R>(i, nc), "assigned-view"); ctx.check(g.get(i) == std::vector<double>(nc, -1.0), "assigning-a-view-writes-data"); });
  ctx.transition(); ctx.validated(); ctx.state(R);
}
} // namespace
#define STATES "complete, conservative and primitive states; lengths 1..10; chunk lengths 1..8 at both ends; embeddings and buffer ends"
SCENARIO("states-pg-1d", STATES, 2) { all_states(ctx, pg<1>()); }
SCENARIO("states-pg-2d", STATES, 2) { all_states(ctx, pg<2>()); }
SCENARIO("states-pg-3d", STATES, 2) { all_states(ctx, pg<3>()); }
SCENARIO("states-mix-1d", STATES ", 1..3 species", 2) { all_states(ctx, mix<1>(ctx.range(1, 3))); }
SCENARIO("states-mix-2d", STATES ", 1..3 species", 2) { all_states(ctx, mix<2>(ctx.range(1, 3))); }
SCENARIO("state-values", "assignment, conversion and component numbering of states", 1) {
  switch (ctx.choose(4)) { case 0: return values(ctx, pg<1>()); case 1: return values(ctx, pg<2>()); case 2: return values(ctx, pg<3>()); default: return values(ctx, mix<1>(ctx.range(1, 3))); }
}
SCENARIO("view-values", "assignment of views of states", 1) {
  switch (ctx.choose(4)) { case 0: return views(ctx, pg<1>()); case 1: return views(ctx, pg<2>()); case 2: return views(ctx, pg<3>()); default: return views(ctx, mix<1>(ctx.range(1, 3))); }
}
