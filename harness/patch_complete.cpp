// Completing a whole patch of conserved variables, and filling reflecting boundaries of a patch.
#include "mc.hpp"
#include "fub/core/type_traits.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/PerfectGasMix.hpp"
#include "fub/equations/ShallowWater.hpp"
#include "fub/equations/Burgers.hpp"
#include "fub/equations/Advection.hpp"
#include "fub/equations/IdealGasMix.hpp"
#include "fub/equations/ideal_gas_mix/mechanism/Burke2012.hpp"
#include "fub/CompleteFromCons.hpp"
#include "fub/ForEach.hpp"
#include "fub/boundary_condition/ReflectiveBoundary.hpp"
#include "pools.hpp"
#include "state_field.hpp"
namespace {
template <typename Eq> Adapter<Eq>& adapter(int variant) { static Adapter<Eq> a[] = {Adapter<Eq>(0), Adapter<Eq>(1)}; return a[variant]; }
template <typename T> struct is_igm : std::false_type {};
template <int D> struct is_igm<IdealGasMix<D>> : std::true_type {};
template <std::size_t N> int hash(const std::array<std::ptrdiff_t, N>& i, int salt, int n) {
  std::int64_t h = salt + 5;
  for (std::size_t d = 0; d < N; ++d) h = (h * 31 + i[d] * (std::ptrdiff_t(d) + 3) + 1017) % 8191;
  return int(h % n);
}
template <int R> IndexBox<R> shape(mc::Ctx& ctx, int nx) {
  IndexBox<R> b;
  const std::ptrdiff_t org = ctx.pick({0, -3});
  for (int d = 0; d < R; ++d) b.lower[d] = org + 2 * d;
  b.upper[0] = b.lower[0] + ctx.range(1, R == 1 ? nx : R == 2 ? std::min(nx, 10) : 3) ;
  if (R == 3 && ctx.flip()) b.upper[0] += 7;
  if (R > 1) b.upper[1] = b.lower[1] + ctx.range(1, 3);
  if (R > 2) b.upper[2] = b.lower[2] + ctx.range(1, 2);
  return b;
}
template <int R> bool inside(const IndexBox<R>& b, const Index<R>& i) { for (int d = 0; d < R; ++d) if (i[d] < b.lower[d] || i[d] >= b.upper[d]) return false; return true; }
template <int R> std::string str(const Index<R>& i) { std::string s; for (auto x : i) s += mc::cat(x, " "); return s; }
template <typename Eq> using Cons = Conservative<Eq>;
template <typename Eq> using Comp = Complete<Eq>;
const int lo_[] = {0, 1, 0, 2, 3}, hi_[] = {0, 1, 2, 0, 3};

template <typename Eq> void complete(mc::Ctx& ctx, int nx) {
  constexpr int R = Eq::Rank();
  auto& A = adapter<Eq>(ctx.choose(is_mix<Eq>::value ? 2 : 1));
  const IndexBox<R> box = shape<R>(ctx, nx);
  const int l = is_igm<Eq>::value || R == 3 ? ctx.pick({0, 4}) : ctx.choose(5), l2 = (l + (box.lower[0] ? 2 : 0)) % 5;
  const bool at_end = ctx.flip();
  const int policy = ctx.choose(5), salt = box.lower[0] ? 1 : 0;
  int slot = 0;
  StateField<Eq, Comp> out(A.eq, box, lo_[l], hi_[l], -7.0, slot, at_end);
  StateField<Eq, Cons> in(A.eq, box, lo_[l2], hi_[l2], std::numeric_limits<double>::quiet_NaN(), slot, at_end);
  each<R>(box, [&](auto& i) { in.set(i, flat(AsCons(A.pool[hash(i, salt, int(A.pool.size()))]))); });
  auto ov = out.view(box);
  auto iv = in.cview(box);
  {
    static CompleteFromConsFn<Eq>* fns[2] = {};
    CompleteFromConsFn<Eq>*& fp = fns[&A - &adapter<Eq>(0)];
    if (!fp) fp = new CompleteFromConsFn<Eq>{A.eq};
    CompleteFromConsFn<Eq>& fn = *fp;
    switch (policy) {
    case 0: fn.CompleteFromCons(execution::seq, ov, iv); break;
    case 1: fn.CompleteFromCons(execution::simd, ov, iv); break;
    case 2: fn.CompleteFromCons(execution::openmp, ov, iv); break;
    case 3: fn.CompleteFromCons(execution::openmp_simd, ov, iv); break;
    default: fub::CompleteFromCons(A.eq, ov, iv);
    }
  }
  const double tol = is_igm<Eq>::value ? 1e-5 : 1e-12;
  const std::size_t nc = in.get(box.lower).size();
  each<R>(out.box, [&](auto& i) {
    const V v = out.get(i);
    if (!inside<R>(box, i)) { for (double x : v) ctx.check(x == -7.0, "cell-outside-of-patch-changed", "cell ", str<R>(i), " policy ", policy); return; }
    const V e = flat(A.pool[hash(i, salt, int(A.pool.size()))]);
    double s = 0;
    for (std::size_t k = 0; k < nc; ++k) s = std::max(s, std::fabs(e[k]));
    for (std::size_t k = 0; k < e.size(); ++k)
      ctx.check(std::fabs(v[k] - e[k]) <= tol * (k < nc ? 0.0 + std::fabs(e[k]) * 1e-3 : std::max(std::fabs(e[k]), is_igm<Eq>::value ? 1e-3 * std::fabs(e[k]) : s * 1e-3)), "completed-cell-differs", "cell ", str<R>(i), " component ", k, ": ", v[k], " expected ", e[k], " policy ", policy, " of patch ", str<R>(box.lower), "- ", str<R>(box.upper));
  });
  each<R>(box, [&](auto& i) { const V v = in.get(i), e = flat(AsCons(A.pool[hash(i, salt, int(A.pool.size()))])); ctx.check(v == e, "input-changed", str<R>(i)); });
  ctx.transition(in.scalars.front().buf.size());
  ctx.validated();
  mc::Hash h;
  for (int d = 0; d < R; ++d) h.add(std::int64_t(box.lower[d])).add(std::int64_t(box.upper[d]));
  ctx.state(h.add(l).add(l2).add(policy).add(int(at_end)).add(salt));
}

template <typename Eq> void reflect(mc::Ctx& ctx) {
  constexpr int R = Eq::Rank();
  auto& A = adapter<Eq>(ctx.choose(is_mix<Eq>::value ? 2 : 1));
  IndexBox<R> box;
  const std::ptrdiff_t org = ctx.pick({0, -3});
  for (int d = 0; d < R; ++d) { box.lower[d] = org + 2 * d; box.upper[d] = box.lower[d] + (R < 3 ? ctx.range(R == 1 ? 2 : 1, d == 0 ? 9 : 8) : d == 0 ? ctx.pick({1, 2, 5, 8}) : ctx.pick({1, 2, 4})); }
  const int dir = ctx.choose(R), side = ctx.choose(2);
  const int n = int(box.upper[dir] - box.lower[dir]);
  if (n < 2) throw mc::Prune{};
  // `width` ghost cells that lie in the patch, and as many cells inside
  const int width = ctx.range(1, std::min(4, n / 2));
  IndexBox<R> ghost = box;
  if (side == 0) ghost.upper[dir] = box.lower[dir] + width; else ghost.lower[dir] = box.upper[dir] - width;
  // also patches that cover only a part of the other directions
  if (R > 1) { const int o = (dir + 1) % R; if (ctx.flip()) ghost.lower[o] += 1; if (ctx.flip()) ghost.upper[o] -= 1; if (ghost.lower[o] > ghost.upper[o]) throw mc::Prune{}; }
  const int l = R == 3 ? ctx.pick({0, 2}) : ctx.choose(3), salt = box.lower[0] ? 1 : 0;
  const bool at_end = ctx.flip();
  int slot = 0;
  StateField<Eq, Comp> f(A.eq, box, lo_[l], hi_[l], -7.0, slot, at_end);
  auto state = [&](const Index<R>& i) -> const Complete<Eq>& { return A.pool[hash(i, salt, int(A.pool.size()))]; };
  each<R>(box, [&](auto& i) { f.set(i, flat(state(i))); });
  auto v = f.view(box);
  ReflectiveBoundary<Eq> bc(A.eq);
  bc.FillBoundary(v, ghost, static_cast<Direction>(dir), side);
  const std::ptrdiff_t wall = side == 0 ? ghost.upper[dir] : ghost.lower[dir]; // first face
  each<R>(f.box, [&](auto& i) {
    const V x = f.get(i);
    if (!inside<R>(box, i)) { for (double y : x) ctx.check(y == -7.0, "cell-outside-of-patch-changed", "cell ", str<R>(i)); return; }
    if (!inside<R>(ghost, i)) { ctx.check(x == flat(state(i)), "inner-cell-changed", "cell ", str<R>(i), " dir ", dir, " side ", side); return; }
    Index<R> j = i;
    j[dir] = 2 * wall - 1 - i[dir];
    const V e = flat(A.mirror(state(j), dir));
    for (std::size_t k = 0; k < e.size(); ++k) ctx.close(x[k], e[k], 1e-13, "ghost-cell-not-mirrored", "cell ", str<R>(i), " component ", k, " dir ", dir, " side ", side, " width ", width);
  });
  ctx.transition(f.scalars.front().buf.size());
  ctx.validated();
  mc::Hash h;
  for (int d = 0; d < R; ++d) h.add(std::int64_t(ghost.lower[d])).add(std::int64_t(ghost.upper[d]));
  ctx.state(h.add(dir).add(side).add(l).add(int(at_end)).add(salt));
}
} // namespace
#define SHAPES "lengths 1..18 (10 for 2D, 1..10 for 3D) x 1..3 x 1..2 x 5 embeddings (2 for 3D and mixtures of ideal gases) x buffers end/start at an inaccessible page x 4 policies and the free function x 2 origins and contents"
SCENARIO("complete-perfect-gas-1d", SHAPES, 1) { complete<PerfectGas<1>>(ctx, ctx.thorough() ? 40 : 18); }
SCENARIO("complete-perfect-gas-2d", SHAPES, 1) { complete<PerfectGas<2>>(ctx, 10); }
SCENARIO("complete-perfect-gas-3d", SHAPES, 2) { complete<PerfectGas<3>>(ctx, 10); }
SCENARIO("complete-perfect-gas-mix-1d", SHAPES, 2) { complete<PerfectGasMix<1>>(ctx, ctx.thorough() ? 40 : 18); }
SCENARIO("complete-perfect-gas-mix-2d", SHAPES, 2) { complete<PerfectGasMix<2>>(ctx, 10); }
SCENARIO("complete-perfect-gas-mix-3d", SHAPES, 2) { complete<PerfectGasMix<3>>(ctx, 10); }
SCENARIO("complete-shallow-water", SHAPES, 1) { complete<ShallowWater>(ctx, 10); }
SCENARIO("complete-advection", SHAPES, 1) { complete<Advection2d>(ctx, 10); }
SCENARIO("complete-burgers", SHAPES, 1) { complete<Burgers1d>(ctx, ctx.thorough() ? 40 : 18); }
SCENARIO("complete-ideal-gas-mix-1d", SHAPES, 2) { complete<IdealGasMix<1>>(ctx, ctx.thorough() ? 40 : 18); }
SCENARIO("complete-ideal-gas-mix-2d", SHAPES, 2) { complete<IdealGasMix<2>>(ctx, 10); }
SCENARIO("complete-ideal-gas-mix-3d", SHAPES, 2) { complete<IdealGasMix<3>>(ctx, 10); }
#define GHOSTS "patch sizes 1..9 x 1..8 (3D: 4 x 3 x 3 sizes up to 8) x all directions and sides x 1..4 ghost cells x partial widths x 3 embeddings x buffers end/start at an inaccessible page x 2 origins and contents"
SCENARIO("reflect-perfect-gas-1d", GHOSTS, 1) { reflect<PerfectGas<1>>(ctx); }
SCENARIO("reflect-perfect-gas-2d", GHOSTS, 2) { reflect<PerfectGas<2>>(ctx); }
SCENARIO("reflect-perfect-gas-3d", GHOSTS, 2) { reflect<PerfectGas<3>>(ctx); }
SCENARIO("reflect-perfect-gas-mix-1d", GHOSTS, 2) { reflect<PerfectGasMix<1>>(ctx); }
SCENARIO("reflect-perfect-gas-mix-2d", GHOSTS, 2) { reflect<PerfectGasMix<2>>(ctx); }
SCENARIO("reflect-perfect-gas-mix-3d", GHOSTS, 2) { reflect<PerfectGasMix<3>>(ctx); }
SCENARIO("reflect-ideal-gas-mix-1d", GHOSTS, 2) { reflect<IdealGasMix<1>>(ctx); }
SCENARIO("reflect-ideal-gas-mix-2d", GHOSTS, 2) { reflect<IdealGasMix<2>>(ctx); }
SCENARIO("reflect-ideal-gas-mix-3d", GHOSTS, 2) { reflect<IdealGasMix<3>>(ctx); }
