// Conservative update of a patch for every shape, stride, direction and policy.
#include "mc.hpp"
#include "guard.hpp"
#include "fub/HyperbolicPatchIntegrator.hpp"
#include "fub/ForEach.hpp"
using namespace fub;
namespace {
template <int N> struct Field {
  IndexBox<N> box; // allocated
  guard::Buf buf;
  template <typename T = double> PatchDataView<T, N> all() {
    std::array<std::ptrdiff_t, N> e;
    for (int i = 0; i < N; ++i) e[i] = box.upper[i] - box.lower[i];
    mdspan<T, N> m(buf.data(), dynamic_extents<N>(e));
    return PatchDataView<T, N>(m, box.lower);
  }
  // independent address computation
  double& at(const Index<N>& i) {
    std::ptrdiff_t o = 0, s = 1;
    for (int d = 0; d < N; ++d) { o += (i[d] - box.lower[d]) * s; s *= box.upper[d] - box.lower[d]; }
    return buf.at(o);
  }
  template <typename F> void each(const IndexBox<N>& b, F f) {
    Index<N> i = b.lower;
    for (int d = 0; d < N; ++d) if (b.lower[d] >= b.upper[d]) return;
    while (true) {
      f(i);
      int d = 0;
      while (d < N && ++i[d] == b.upper[d]) { i[d] = b.lower[d]; ++d; }
      if (d == N) break;
    }
  }
};
template <int N> Field<N> alloc(const IndexBox<N>& b, int lo, int hi, bool pad_comp, double fill, int slot, bool at_end) {
  Field<N> f;
  f.box = b;
  for (int d = 0; d < N - 1; ++d) { f.box.lower[d] -= lo; f.box.upper[d] += hi; }
  if (pad_comp) f.box.upper[N - 1] += 1;
  std::size_t n = 1;
  for (int d = 0; d < N; ++d) n *= f.box.upper[d] - f.box.lower[d];
  f.buf = guard::Buf(slot, n, fill, at_end);
  return f;
}
template <int N, typename Tag> void update(const StridedDataView<double, N>& n, const StridedDataView<const double, N>& p, const StridedDataView<const double, N>& f, double dt, double dx, Direction d) {
  HyperbolicPatchIntegrator<Tag> h{Tag()};
  h.UpdateConservatively(n, p, f, Duration(dt), dx, d);
}
template <int N> void run(mc::Ctx& ctx) {
  constexpr double nan = std::numeric_limits<double>::quiet_NaN();
  const int R = N - 1;
  const int dir = ctx.choose(R);
  IndexBox<N> box;
  const std::ptrdiff_t org = ctx.pick({0, -3});
  for (int d = 0; d < N; ++d) box.lower[d] = d < R ? org + 2 * d : 0;
  const int nx = R == 1 ? ctx.range(1, ctx.thorough() ? 40 : 19) : R == 2 ? ctx.pick({1, 2, 3, 4, 5, 8, 9}) : ctx.pick({1, 2, 3, 5});
  box.upper[0] = box.lower[0] + nx;
  if (R > 1) box.upper[1] = box.lower[1] + ctx.range(1, R == 2 ? 4 : 3);
  if (R > 2) box.upper[2] = box.lower[2] + ctx.range(1, 3);
  const int ncomp = ctx.range(1, R == 3 ? 2 : 3);
  box.upper[N - 1] = ncomp;
  IndexBox<N> faces = box;
  faces.upper[dir] += 1;
  const int layout = ctx.choose(5); // how the views are embedded into larger arrays
  const int lo[] = {0, 1, 0, 2, 3}, hi[] = {0, 1, 2, 0, 3};
  const bool inplace = ctx.flip();
  const bool wide = (layout == 3 || layout == 4) && ctx.flip();
  const bool at_end = ctx.flip(); // all arrays end / begin at an inaccessible page
  auto next = alloc<N>(box, lo[layout], hi[layout], layout == 3, -7.0, 0, at_end);
  auto prev = alloc<N>(box, layout == 1 ? 2 : 0, layout == 2 ? 1 : 0, layout == 4, nan, 1, at_end);
  auto flux = alloc<N>(faces, layout == 4 ? 1 : 0, layout == 3 ? 1 : 0, false, nan, 2, at_end);
  auto val = [&](const Index<N>& i, int salt) {
    std::int64_t h = salt;
    for (int d = 0; d < N; ++d) h = (h * 31 + i[d] * (d + 3) + 17) % 1021;
    return double(h - 500) / 16;
  };
  next.each(box, [&](auto& i) { prev.at(i) = val(i, 1); if (inplace) next.at(i) = val(i, 1); });
  next.each(faces, [&](auto& i) { flux.at(i) = val(i, 2); });
  const double ratios[][2] = {{0.5, 2.0}, {0.3, 0.7}, {0.0, 1.0}};
  const auto& r = ratios[ctx.choose(3)];
  const int tag = ctx.choose(4);
  std::vector<double> before(next.buf.begin(), next.buf.end());
  StridedDataView<double, N> n = next.all().Subview(box);
  PatchDataView<const double, N> pall = prev.template all<const double>(), fall = flux.template all<const double>(), nall = next.template all<const double>();
  StridedDataView<const double, N> p = inplace ? nall.Subview(box) : pall.Subview(box);
  // the fluxes may be given for more faces than the patch has
  StridedDataView<const double, N> f = fall.Subview(wide ? fall.Box() : faces);
  const Direction D = static_cast<Direction>(dir);
  switch (tag) {
  case 0: update<N, execution::SequentialTag>(n, p, f, r[0], r[1], D); break;
  case 1: update<N, execution::SimdTag>(n, p, f, r[0], r[1], D); break;
  case 2: update<N, execution::OpenMpTag>(n, p, f, r[0], r[1], D); break;
  default: update<N, execution::OpenMpSimdTag>(n, p, f, r[0], r[1], D); break;
  }
  double total = 0, scale = 0;
  next.each(box, [&](auto& i) {
    Index<N> R = i;
    R[dir] += 1;
    const double e = prev.at(i) + r[0] / r[1] * (flux.at(i) - flux.at(R));
    ctx.close(next.at(i), e, 4e-16 * 4, "cell-not-updated-by-flux-difference", "cell ", i[0], ",", i[1], " policy ", tag, " layout ", layout);
    total += next.at(i) - prev.at(i);
    scale += 100;
    before[&next.at(i) - next.buf.data()] = next.at(i);
  });
  // only the fluxes over the patch boundary change the total amount
  IndexBox<N> lower = box, upper = box;
  lower.upper[dir] = box.lower[dir] + 1;
  upper.lower[dir] = box.upper[dir];
  upper.upper[dir] = box.upper[dir] + 1;
  double boundary = 0;
  next.each(lower, [&](auto& i) { boundary += flux.at(i); });
  next.each(upper, [&](auto& i) { boundary -= flux.at(i); });
  ctx.check(std::abs(total - r[0] / r[1] * boundary) <= 1e-13 * scale, "total-not-conserved", total, " expected ", r[0] / r[1] * boundary);
  for (std::size_t k = 0; k < before.size(); ++k) ctx.check(before[k] == next.buf[k], "cell-outside-of-patch-changed", "offset ", k);
  ctx.transition(next.buf.size());
  ctx.validated();
  mc::Hash h;
  for (int d = 0; d < N; ++d) h.add(box.lower[d]).add(box.upper[d]);
  ctx.state(h.add(dir).add(layout).add(tag).add(int(inplace)).add(int(at_end)).add(int(wide)).add(r[0]));
}
} // namespace
SCENARIO("update-1d", "lengths 1..19 (thorough 40) x 1..3 components x 5 embeddings (2 of them also with flux views larger than the patch) x in place or not x buffers end/start at an inaccessible page x 3 step ratios x 4 policies x 2 origins", 1) { run<2>(ctx); }
SCENARIO("update-2d", "7x4 shapes x 2 directions x 1..3 components x 5 embeddings (2 of them also with flux views larger than the patch) x in place or not x buffers end/start at an inaccessible page x 3 step ratios x 4 policies x 2 origins", 2) { run<3>(ctx); }
SCENARIO("update-3d", "4x3x3 shapes x 3 directions x 1..2 components x 5 embeddings (2 of them also with flux views larger than the patch) x in place or not x buffers end/start at an inaccessible page x 3 step ratios x 4 policies x 2 origins", 3) { run<4>(ctx); }
