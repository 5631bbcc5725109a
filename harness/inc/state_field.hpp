// Patch data of a whole state: one guarded buffer per variable.
#ifndef VERIF_STATE_FIELD_HPP
#define VERIF_STATE_FIELD_HPP
#include "field.hpp"
#include "fub/core/mdspan.hpp"
#include <list>
#include <vector>
// strided view of the box `b` of the field, constructed independently of Subview
template <typename T, int N> fub::PatchDataView<T, N, fub::layout_stride> strided(Field<N>& f, const fub::IndexBox<N>& b) {
  std::array<std::ptrdiff_t, N> e, s;
  std::ptrdiff_t acc = 1, off = 0;
  for (int d = 0; d < N; ++d) {
    e[d] = b.upper[d] - b.lower[d];
    s[d] = acc;
    off += (b.lower[d] - f.box.lower[d]) * acc;
    acc *= f.box.upper[d] - f.box.lower[d];
  }
  fub::layout_stride::mapping<fub::dynamic_extents<N>> m{fub::dynamic_extents<N>(e), s};
  return {fub::mdspan<T, N, fub::layout_stride>(f.buf.data() + off, m), b.lower};
}
template <typename Eq, template <typename> class S> struct StateField {
  static constexpr int R = Eq::Rank();
  using State = S<Eq>;
  fub::IndexBox<R> box; // allocated
  State proto;
  std::list<Field<R>> scalars;
  std::list<Field<R + 1>> vectors;
  StateField(const Eq& eq, const fub::IndexBox<R>& b, int lo, int hi, double fill, int& slot, bool at_end) : proto(eq) {
    fub::ForEachVariable([&](const auto& v) {
      if constexpr (std::is_same_v<std::decay_t<decltype(v)>, double>) scalars.push_back(alloc<R>(b, lo, hi, R, fill, slot++, at_end));
      else vectors.push_back(alloc<R + 1>(comps(b, int(v.size())), lo, hi, R, fill, slot++, at_end));
    }, proto);
    box = b;
    for (int d = 0; d < R; ++d) { box.lower[d] -= lo; box.upper[d] += hi; }
  }
  template <typename View, bool Const> View make(const fub::IndexBox<R>& b) {
    using T = std::conditional_t<Const, const double, double>;
    View v{};
    auto s = scalars.begin(); auto w = vectors.begin();
    fub::ForEachVariable([&](auto& pdv) {
      if constexpr (std::decay_t<decltype(pdv)>::rank() == R) pdv = strided<T, R>(*s++, b);
      else { fub::IndexBox<R + 1> bb = comps(b, int(w->box.upper[R])); pdv = strided<T, R + 1>(*w++, bb); }
    }, v);
    return v;
  }
  fub::View<State> view(const fub::IndexBox<R>& b) { return make<fub::View<State>, false>(b); }
  fub::View<const State> cview(const fub::IndexBox<R>& b) { return make<fub::View<const State>, true>(b); }
  std::vector<double> get(const fub::Index<R>& i) {
    std::vector<double> r;
    auto s = scalars.begin(); auto w = vectors.begin();
    fub::ForEachVariable([&](const auto& v) {
      if constexpr (std::is_same_v<std::decay_t<decltype(v)>, double>) r.push_back((s++)->at(i));
      else { for (int c = 0; c < int(v.size()); ++c) r.push_back(w->at(join(i, c))); ++w; }
    }, proto);
    return r;
  }
  void set(const fub::Index<R>& i, const std::vector<double>& x) {
    std::size_t k = 0;
    auto s = scalars.begin(); auto w = vectors.begin();
    fub::ForEachVariable([&](const auto& v) {
      if constexpr (std::is_same_v<std::decay_t<decltype(v)>, double>) (s++)->at(i) = x[k++];
      else { for (int c = 0; c < int(v.size()); ++c) w->at(join(i, c)) = x[k++]; ++w; }
    }, proto);
  }
};
#endif
