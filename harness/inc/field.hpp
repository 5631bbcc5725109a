// Patch data with an address computation that is independent of the code under test.
#ifndef VERIF_FIELD_HPP
#define VERIF_FIELD_HPP
#include "guard.hpp"
#include "fub/PatchDataView.hpp"
#include "fub/State.hpp"
#include <array>
template <int N> struct Field {
  fub::IndexBox<N> box; // allocated
  guard::Buf buf;
  template <typename T = double> fub::PatchDataView<T, N> all() {
    std::array<std::ptrdiff_t, N> e;
    for (int i = 0; i < N; ++i) e[i] = box.upper[i] - box.lower[i];
    fub::mdspan<T, N> m(buf.data(), fub::dynamic_extents<N>(e));
    return fub::PatchDataView<T, N>(m, box.lower);
  }
  double& at(const fub::Index<N>& i) {
    std::ptrdiff_t o = 0, s = 1;
    for (int d = 0; d < N; ++d) { o += (i[d] - box.lower[d]) * s; s *= box.upper[d] - box.lower[d]; }
    return buf.at(o);
  }
};
// independent iteration over a box
template <int N, typename F> void each(const fub::IndexBox<N>& b, F f) {
  fub::Index<N> i = b.lower;
  for (int d = 0; d < N; ++d) if (b.lower[d] >= b.upper[d]) return;
  while (true) {
    f(i);
    int d = 0;
    while (d < N && ++i[d] == b.upper[d]) { i[d] = b.lower[d]; ++d; }
    if (d == N) break;
  }
}
template <int N> fub::IndexBox<N + 1> comps(const fub::IndexBox<N>& b, int n) {
  fub::IndexBox<N + 1> r;
  for (int d = 0; d < N; ++d) { r.lower[d] = b.lower[d]; r.upper[d] = b.upper[d]; }
  r.lower[N] = 0; r.upper[N] = n;
  return r;
}
template <std::size_t N> std::array<std::ptrdiff_t, N + 1> join(const std::array<std::ptrdiff_t, N>& i, int c) {
  std::array<std::ptrdiff_t, N + 1> r;
  for (std::size_t d = 0; d < N; ++d) r[d] = i[d];
  r[N] = c;
  return r;
}
// box of cells (+1 component dimension), embedded into lo/hi more cells per direction
template <int N> Field<N> alloc(const fub::IndexBox<N>& b, int lo, int hi, int space_dims, double fill, int slot, bool at_end) {
  Field<N> f;
  f.box = b;
  for (int d = 0; d < space_dims; ++d) { f.box.lower[d] -= lo; f.box.upper[d] += hi; }
  std::size_t n = 1;
  for (int d = 0; d < N; ++d) n *= f.box.upper[d] - f.box.lower[d];
  f.buf = guard::Buf(slot, n, fill, at_end);
  return f;
}
#endif
