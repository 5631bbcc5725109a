// Pieces shared by the harnesses that run /repo's AMReX layer on the
// single-process AMReX double in harness/amrex.
#ifndef VERIF_AMREX_COMMON_HPP
#define VERIF_AMREX_COMMON_HPP
#include <algorithm>
#include <cmath>
#include <numeric>
#include "mc.hpp"
#include "fub/core/type_traits.hpp"
#include <range/v3/view/zip.hpp>
#include "fub/Equation.hpp"
#include "fub/ForEach.hpp"
#include "fub/State.hpp"
#include "fub/StateArray.hpp"
#include "fub/AMReX/FluxMethodAdapter.hpp"
#include "fub/AMReX/GriddingAlgorithm.hpp"
#include "fub/AMReX/IntegratorContext.hpp"
#include "fub/AMReX/Reconstruction.hpp"
#include "fub/AMReX/TimeIntegrator.hpp"
#include "fub/CompleteFromCons.hpp"
#include "fub/solver/DimensionalSplitLevelIntegrator.hpp"
#include "fub/solver/NoSubcycleSolver.hpp"
#include "fub/solver/SubcycleFineFirstSolver.hpp"
#include "fub/split_method/GodunovSplitting.hpp"
#include "fub/split_method/StrangSplitting.hpp"

namespace ax = ::amrex;
constexpr int D = AMREX_SPACEDIM;

// one conserved quantity and one derived quantity, twice = 2 * mass
template <class M> struct QCons { M mass; };
template <class M, class T> struct QComplete : QCons<M> { T twice; };
namespace fub {
template <class... Xs> struct StateTraits<QCons<Xs...>> {
  static constexpr auto names = std::make_tuple("Mass");
  static constexpr auto pointers_to_member = std::make_tuple(&QCons<Xs...>::mass);
  template <int> using Depths = QCons<ScalarDepth>;
};
template <class... Xs> struct StateTraits<QComplete<Xs...>> {
  static constexpr auto names = std::make_tuple("Mass", "Twice");
  static constexpr auto pointers_to_member = std::make_tuple(&QComplete<Xs...>::mass, &QComplete<Xs...>::twice);
  template <int> using Depths = QComplete<ScalarDepth, ScalarDepth>;
};
}
struct QEq {
  using ConservativeDepths = QCons<fub::ScalarDepth>;
  using CompleteDepths = QComplete<fub::ScalarDepth, fub::ScalarDepth>;
  using Complete = fub::Complete<QEq>;
  using Conservative = fub::Conservative<QEq>;
  static constexpr int Rank() { return D; }
  template <class C, class Q> void CompleteFromCons(C& c, const Q& q) const { c.mass = q.mass; c.twice = 2 * q.mass; }
  void CompleteFromCons(fub::CompleteArray<QEq>& c, const fub::ConservativeArrayBase<QEq>& q, fub::MaskArray m) const {
    for (int i = 0; i < m.size(); ++i) if (m(i)) { c.mass(i) = q.mass(i); c.twice(i) = 2 * q.mass(i); }
  }
};

namespace fub {
// at walls the quantity is mirrored around 1.5
inline void Reflect(Complete<QEq>& r, const Complete<QEq>& s, const Eigen::Matrix<double, D, 1>&, const QEq&) { r.mass = 3 - s.mass; r.twice = 2 * r.mass; }
}
// an arbitrary flux function, different in every direction and nonlinear
inline double numeric_flux(double l, double r, int d) {
  static const double a[3] = {0.5, 0.25, 0.375}, b[3] = {0.125, -0.25, -0.125};
  return a[d] * l + b[d] * r + 0.0625 * l * r;
}
// what ComputeStableDt answers: value / (largest mass) * dx, and something small once the countdown reaches zero
struct Limit {
  double value = 1e9, small = 1e-3;
  int countdown = -1;
  double answer(double largest, double dx) {
    if (countdown == 0) { --countdown; return small; }
    if (countdown > 0) --countdown;
    return value / largest * dx;
  }
};
struct QFlux {
  Limit* limit;
  QEq GetEquation() const { return {}; }
  int GetStencilWidth() const { return 1; }
  template <class Tag> double ComputeStableDt(Tag, const fub::View<const QEq::Complete>& s, double dx, fub::Direction) {
    double largest = 0;
    fub::ForEachIndex(fub::Box<0>(s), [&](auto... is) { largest = std::max(largest, s.mass(is...)); });
    return limit->answer(largest, dx);
  }
  template <class Tag> void ComputeNumericFluxes(Tag, const fub::View<QEq::Conservative>& f, const fub::View<const QEq::Complete>& s, fub::Duration, double, fub::Direction dir) {
    fub::ForEachIndex(fub::Box<0>(f), [&](auto... is) {
      std::array<std::ptrdiff_t, D> r{is...}, l = r;
      l[std::size_t(dir)] -= 1;
      // the derived quantity is used, so that it has to be right, too
      std::apply([&](auto... i) { f.mass(i...) = numeric_flux(s.twice(l) / 2, s.twice(r) / 2, int(dir)); }, r);
    });
  }
};

// dense data on the index space of one level: periodic directions wrap around, the others have g ghost cells
struct Dense {
  ax::Box dom, all;
  std::array<int, D> per{};
  std::vector<double> v;
  std::vector<char> on;
  Dense() = default;
  explicit Dense(const ax::Geometry& geom, int g = 0) : dom(geom.Domain()), all(dom) {
    for (int d = 0; d < D; ++d) { per[std::size_t(d)] = geom.isPeriodic(d); if (!per[std::size_t(d)]) all.grow(d, g); }
    v.assign(std::size_t(all.numPts()), std::numeric_limits<double>::quiet_NaN());
    on.assign(v.size(), 0);
  }
  bool has(const ax::IntVect& p) const { for (int d = 0; d < D; ++d) if (!per[std::size_t(d)] && (p[d] < all.smallEnd(d) || p[d] > all.bigEnd(d))) return false; return true; }
  bool inside(const ax::IntVect& p) const { for (int d = 0; d < D; ++d) if (!per[std::size_t(d)] && (p[d] < dom.smallEnd(d) || p[d] > dom.bigEnd(d))) return false; return true; }
  std::size_t at(const ax::IntVect& p) const {
    std::size_t k = 0;
    for (int d = D - 1; d >= 0; --d) {
      const int n = all.length(d), i = p[d] - all.smallEnd(d);
      assert(per[std::size_t(d)] || (0 <= i && i < n));
      k = k * std::size_t(n) + std::size_t(((i % n) + n) % n);
    }
    return k;
  }
  double& operator()(const ax::IntVect& p) { return v[at(p)]; }
  double operator()(const ax::IntVect& p) const { return v[at(p)]; }
};
inline bool near(double a, double b) { return std::abs(a - b) <= 1e-11 * (1 + std::abs(a) + std::abs(b)); }
#endif
