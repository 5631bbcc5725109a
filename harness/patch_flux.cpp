// Numerical fluxes and stable time steps of a patch are the base method applied at every interface.
#include "mc.hpp"
#include "fub/core/type_traits.hpp"
#include "fub/flux_method/FluxMethod.hpp"
#include "fub/StateArray.hpp"
#include "fub/StateRow.hpp"
#include "fub/ForEach.hpp"
#include "field.hpp"
template <typename A, typename V> struct TestCons { A a; V v; };
template <typename A, typename V, typename C> struct TestComp : TestCons<A, V> { C c; };
namespace fub {
template <typename... Xs> struct StateTraits<TestCons<Xs...>> {
  static constexpr auto names = std::make_tuple("A", "V");
  static constexpr auto pointers_to_member = std::make_tuple(&TestCons<Xs...>::a, &TestCons<Xs...>::v);
  template <int Rank> using Depths = TestCons<ScalarDepth, VectorDepth<3>>;
};
template <typename... Xs> struct StateTraits<TestComp<Xs...>> {
  static constexpr auto names = std::make_tuple("A", "V", "C");
  static constexpr auto pointers_to_member = std::make_tuple(&TestComp<Xs...>::a, &TestComp<Xs...>::v, &TestComp<Xs...>::c);
  template <int Rank> using Depths = TestComp<ScalarDepth, VectorDepth<3>, ScalarDepth>;
};
} // namespace fub
using namespace fub;
namespace {
template <int R> struct TestEq {
  using ConservativeDepths = TestCons<ScalarDepth, VectorDepth<3>>;
  using CompleteDepths = TestComp<ScalarDepth, VectorDepth<3>, ScalarDepth>;
  using Conservative = ::fub::Conservative<TestEq>;
  using Complete = ::fub::Complete<TestEq>;
  using ConservativeArray = ::fub::ConservativeArray<TestEq>;
  using CompleteArray = ::fub::CompleteArray<TestEq>;
  static constexpr int Rank() noexcept { return R; }
};
// all operations below are exact for the values in use
template <int R, int W> struct TestMethod {
  using Equation = TestEq<R>;
  using Conservative = typename Equation::Conservative;
  using Complete = typename Equation::Complete;
  using ConservativeArray = typename Equation::ConservativeArray;
  using CompleteArray = typename Equation::CompleteArray;
  static constexpr int GetStencilWidth() noexcept { return W; }
  Equation GetEquation() const { return {}; }
  TestMethod() = default;
  static double weight(int k) { const double w[] = {1, 3, 9, 27, 81, 243}; return w[k]; }
  template <typename F, typename S> static void flux(F& f, const S& s, Duration dt, double dx, Direction dir) {
    const double d = 1.0 + int(dir);
    f.a = s[0].a * 0.0 + dt.count() * 2 + dx * 16;
    for (int k = 0; k < 2 * W; ++k) f.a = f.a + weight(k) * s[k].a * d;
    for (int j = 0; j < 3; ++j) {
      auto x = (s[0].a * 0.0 + 0.25 * j).eval();
      for (int k = 0; k < 2 * W; ++k) x = x + weight(k) * (s[k].c * double(j + 1) + s[k].v.row(j)) * d;
      f.v.row(j) = x;
    }
  }
  template <typename S> static void scalar_flux(Conservative& f, const S& s, Duration dt, double dx, Direction dir) {
    const double d = 1.0 + int(dir);
    f.a = dt.count() * 2 + dx * 16;
    for (int k = 0; k < 2 * W; ++k) f.a += weight(k) * s[k].a * d;
    for (int j = 0; j < 3; ++j) {
      f.v[j] = 0.25 * j;
      for (int k = 0; k < 2 * W; ++k) f.v[j] += weight(k) * (s[k].c * double(j + 1) + s[k].v[j]) * d;
    }
  }
  void ComputeNumericFlux(Conservative& f, span<const Complete, 2 * W> s, Duration dt, double dx, Direction dir) { scalar_flux(f, s, dt, dx, dir); }
  void ComputeNumericFlux(ConservativeArray& f, span<const CompleteArray, 2 * W> s, Duration dt, double dx, Direction dir) { flux(f, s, dt, dx, dir); }
  double ComputeStableDt(span<const Complete, 2 * W> s, double dx, Direction dir) {
    double x = 0;
    for (int k = 0; k < 2 * W; ++k) x += weight(k) * (s[k].a + s[k].c + s[k].v[1]);
    return dx * (1e6 + (1 + int(dir)) * x);
  }
  Array1d ComputeStableDt(span<const CompleteArray, 2 * W> s, double dx, Direction dir) {
    Array1d x = Array1d::Zero();
    for (int k = 0; k < 2 * W; ++k) x += weight(k) * (s[k].a + s[k].c + s[k].v.row(1));
    return dx * (1e6 + (1 + int(dir)) * x);
  }
};
template <int R, int W> void run(mc::Ctx& ctx) {
  using FM = FluxMethod<TestMethod<R, W>>;
  using Eq = TestEq<R>;
  constexpr double nan = std::numeric_limits<double>::quiet_NaN();
  const int dir = ctx.choose(R);
  const std::ptrdiff_t org = ctx.pick({0, -3});
  IndexBox<R> faces;
  for (int d = 0; d < R; ++d) faces.lower[d] = org + 2 * d;
  const int nx = R == 1 ? ctx.range(1, ctx.thorough() ? 41 : 19) : R == 2 ? ctx.pick({1, 2, 5, 7, 8, 9, 17}) : ctx.pick({1, 3, 8, 9});
  faces.upper[0] = faces.lower[0] + nx;
  if (R > 1) faces.upper[1] = faces.lower[1] + ctx.range(1, 3);
  if (R > 2) faces.upper[2] = faces.lower[2] + ctx.range(1, 2);
  const int layout = ctx.choose(4);
  const bool at_end = ctx.flip();
  const int lo[] = {0, 1, 0, 3}, hi[] = {0, 0, 2, 1};
  IndexBox<R> need = faces; // the cells the fluxes may depend on
  need.lower[dir] -= W;
  need.upper[dir] += W - 1;
  // views: fluxes may be wider than the states around them, states may have more cells than needed
  auto fa = alloc<R>(faces, lo[layout], hi[layout], R, -7.0, 0, at_end);
  auto fv = alloc<R + 1>(comps(faces, 3), hi[layout], lo[layout], R, -7.0, 1, at_end);
  const int slo = lo[3 - layout], shi = hi[3 - layout];
  auto sa = alloc<R>(need, slo, shi, R, nan, 2, at_end);
  auto sv = alloc<R + 1>(comps(need, 3), slo, shi, R, nan, 3, at_end);
  auto sc = alloc<R>(need, slo, shi, R, nan, 4, at_end);
  auto val = [&](const Index<R>& i, int salt) {
    std::int64_t h = salt;
    for (int d = 0; d < R; ++d) h = (h * 31 + (i[d] + 5) * (d + 3) + 17) % 127;
    return double(h - 63) / 4;
  };
  each(need, [&](auto& i) {
    sa.at(i) = val(i, 1);
    sc.at(i) = val(i, 2);
    for (int j = 0; j < 3; ++j) sv.at(join(i, j)) = val(i, 3 + j);
  });
  // the smallest stable step belongs to an arbitrary interface
  Index<R> spike = faces.lower;
  for (int d = 0; d < R; ++d) spike[d] += ctx.choose(int(faces.upper[d] - faces.lower[d]));
  { // lower the value of exactly one interface below everything else
    Index<R> c = spike;
    c[dir] += W - 1; // the right most cell of the stencil
    sa.at(c) -= 512;
  }
  IndexBox<R> full;
  for (int d = 0; d < R; ++d) { full.lower[d] = sa.box.lower[d]; full.upper[d] = sa.box.upper[d]; }
  View<Conservative<Eq>> fluxes;
  fluxes.a = fa.all().Subview(faces);
  fluxes.v = fv.all().Subview(comps(faces, 3));
  auto states_of = [&](const IndexBox<R>& b) {
    View<const Complete<Eq>> s;
    PatchDataView<const double, R> a = sa.template all<const double>(), c = sc.template all<const double>();
    PatchDataView<const double, R + 1> v = sv.template all<const double>();
    s.a = a.Subview(b);
    s.c = c.Subview(b);
    s.v = v.Subview(comps(b, 3));
    return s;
  };
  const double dt = 0.5, dx = 0.25;
  const Direction D = static_cast<Direction>(dir);
  FM method;
  const bool wide = ctx.flip(); // view of the states is larger than what is needed
  const View<const Complete<Eq>> states = states_of(wide ? full : need), exact = states_of(need);
  double stable = 0;
  const int policy = ctx.choose(5);
  switch (policy) {
  case 0: method.ComputeNumericFluxes(execution::seq, fluxes, states, Duration(dt), dx, D); stable = method.ComputeStableDt(execution::seq, exact, dx, D); break;
  case 1: method.ComputeNumericFluxes(execution::simd, fluxes, states, Duration(dt), dx, D); stable = method.ComputeStableDt(execution::simd, exact, dx, D); break;
  case 2: method.ComputeNumericFluxes(execution::openmp, fluxes, states, Duration(dt), dx, D); stable = method.ComputeStableDt(execution::openmp, exact, dx, D); break;
  case 3: method.ComputeNumericFluxes(execution::openmp_simd, fluxes, states, Duration(dt), dx, D); stable = method.ComputeStableDt(execution::openmp_simd, exact, dx, D); break;
  default: method.ComputeNumericFluxes(fluxes, states, Duration(dt), dx, D); stable = method.ComputeStableDt(exact, dx, D); break;
  }
  double expected_dt = std::numeric_limits<double>::infinity();
  std::size_t na = 0, nv = 0;
  each(faces, [&](auto& f) {
    double x = dt * 2 + dx * 16, t = 0, y[3] = {0, 0.25, 0.5};
    double w = 1;
    for (int k = 0; k < 2 * W; ++k, w *= 3) {
      Index<R> c = f;
      c[dir] += k - W;
      x += w * sa.at(c) * (1 + dir);
      t += w * (sa.at(c) + sc.at(c) + sv.at(join(c, 1)));
      for (int j = 0; j < 3; ++j) y[j] += w * (sc.at(c) * (j + 1) + sv.at(join(c, j))) * (1 + dir);
    }
    expected_dt = std::min(expected_dt, dx * (1e6 + (1 + dir) * t));
    ctx.check(fa.at(f) == x, "interface-flux-differs", "scalar variable, face ", f[0], R > 1 ? f[R - 1] : 0, " policy ", policy, ": ", fa.at(f), " expected ", x);
    for (int j = 0; j < 3; ++j) ctx.check(fv.at(join(f, j)) == y[j], "interface-flux-differs", "component ", j, " face ", f[0], " policy ", policy, ": ", fv.at(join(f, j)), " expected ", y[j]);
    fa.at(f) = -7;
    ++na;
    for (int j = 0; j < 3; ++j, ++nv) fv.at(join(f, j)) = -7;
  });
  for (double x : fa.buf) ctx.check(x == -7, "flux-outside-of-box-written", "scalar variable");
  for (double x : fv.buf) ctx.check(x == -7, "flux-outside-of-box-written", "vector variable");
  ctx.check(stable == expected_dt, "stable-step-not-the-minimum", "policy ", policy, ": ", stable, " expected ", expected_dt, " attained at face ", spike[0]);
  ctx.transition(na + nv);
  ctx.validated();
  mc::Hash h;
  for (int d = 0; d < R; ++d) h.add(faces.lower[d]).add(faces.upper[d]).add(spike[d]);
  ctx.state(h.add(dir).add(layout).add(policy).add(int(at_end)).add(int(wide)).add(W));
}
} // namespace
SCENARIO("flux-1d", "row lengths 1..19 (thorough 41) x stencil width 1..3 x 2 origins x 4 embeddings x guard page behind/before buffers x every position of the smallest stable step x larger/exact view x 5 call forms", 3) {
  switch (ctx.choose(3)) { case 0: run<1, 1>(ctx); break; case 1: run<1, 2>(ctx); break; default: run<1, 3>(ctx); }
}
SCENARIO("flux-2d", "7x3 shapes x 2 directions x stencil width 1,2 x 2 origins x 4 embeddings x guard pages x every position of the smallest stable step x larger/exact view x 5 call forms", 2) {
  if (ctx.flip()) run<2, 2>(ctx); else run<2, 1>(ctx);
}
SCENARIO("flux-3d", "4x3x2 shapes x 3 directions x stencil width 2 x 2 origins x 4 embeddings x guard pages x every position of the smallest stable step x larger/exact view x 5 call forms", 3) { run<3, 2>(ctx); }
