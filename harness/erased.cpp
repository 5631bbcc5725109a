// Type-erased components are values: all histories of constructions, copies, moves, assignments and calls.
#include "mc.hpp"
#include <algorithm>
#include <cmath>
#include <numeric>
#include <optional>
#include "fub/core/type_traits.hpp"
#include "fub/Direction.hpp"
#include "fub/AnyBoundaryCondition.hpp"
#include "fub/AnyInitialData.hpp"
#include "fub/AnyTaggingMethod.hpp"
#include "fub/HyperbolicMethod.hpp"
#include "fub/core/function_ref.hpp"
#include "fub/ext/omp.hpp"
using namespace fub;
namespace {
struct Call { int what, id, uses, level; double t; int dir; const void* data; const void* grid; std::pair<int, int> sub; };
std::vector<Call> calls;
int alive = 0, copies = 0;
// counts its calls, so that two owners of one object are told apart
struct Payload {
  int id = -1, uses = 0;
  explicit Payload(int i) : id(i) { ++alive; }
  Payload(const Payload& o) : id(o.id), uses(o.uses) { ++alive; ++copies; }
  Payload(Payload&& o) noexcept : id(o.id), uses(o.uses) { ++alive; o.id = -2; }
  Payload& operator=(const Payload&) = default;
  ~Payload() { --alive; id = -3; }
  void log(int what, int level, double t, int dir, const void* data, const void* grid, std::pair<int, int> sub = {-1, -1}) { ++uses; calls.push_back({what, id, uses, level, t, dir, data, grid, sub}); }
};
struct Data { int x; };
struct Grid { int x; };
struct Context { int x; };
} // namespace
namespace fub { template <> struct GridTraits<Grid> { using DataReference = Data&; using TagDataHandle = Data&; using PatchLevel = Data; }; }
namespace {
// two kinds of each component, the first with and the second without the optional functions
struct BcA : Payload { using Payload::Payload; void FillBoundary(Data& d, const Grid& g, int l) { log(0, l, -1, -1, &d, &g); } void FillBoundary(Data& d, const Grid& g, int l, Direction dir) { log(1, l, -1, int(dir), &d, &g); } void PreAdvanceHierarchy(const Grid& g) { log(2, -1, -1, -1, nullptr, &g); } };
struct BcB : Payload { using Payload::Payload; void FillBoundary(Data& d, const Grid& g, int l) { log(10, l, -1, -1, &d, &g); } void FillBoundary(Data& d, const Grid& g, int l, Direction dir) { log(11, l, -1, int(dir), &d, &g); } };
struct TagA : Payload { using Payload::Payload; void TagCellsForRefinement(Data& d, Grid& g, int l, Duration t) { log(0, l, t.count(), -1, &d, &g); } };
struct TagB : Payload { using Payload::Payload; void TagCellsForRefinement(Data& d, Grid& g, int l, Duration t) { log(10, l, t.count(), -1, &d, &g); } };
struct IniA : Payload { using Payload::Payload; void InitializeData(Data& d, const Grid& g, int l, Duration t) { log(0, l, t.count(), -1, &d, &g); } };
struct IniB : Payload { using Payload::Payload; void InitializeData(Data& d, const Grid& g, int l, Duration t) { log(10, l, t.count(), -1, &d, &g); } };
struct RecA : Payload { using Payload::Payload; void CompleteFromCons(Context& c, int l, Duration t) { log(0, l, t.count(), -1, nullptr, &c); } };
struct RecB : Payload { using Payload::Payload; void CompleteFromCons(Context& c, int l, Duration t) { log(10, l, t.count(), -1, nullptr, &c); } };
struct TimA : Payload { using Payload::Payload; void UpdateConservatively(Context& c, int l, Duration t, Direction d) { log(0, l, t.count(), int(d), nullptr, &c); } };
struct TimB : Payload { using Payload::Payload; void UpdateConservatively(Context& c, int l, Duration t, Direction d) { log(10, l, t.count(), int(d), nullptr, &c); } };
struct FluxA : Payload {
  using Payload::Payload;
  Duration ComputeStableDt(Context& c, int l, Direction d) { log(0, l, -1, int(d), nullptr, &c); return Duration(0.5 + id); }
  void ComputeNumericFluxes(Context& c, int l, Duration t, Direction d) { log(1, l, t.count(), int(d), nullptr, &c); }
  int GetStencilWidth() const { return 1 + id; }
  void PreAdvanceHierarchy(Context& c) { log(2, -1, -1, -1, nullptr, &c); }
  void PreSplitStep(Context& c, int l, Duration t, Direction d, std::pair<int, int> s) { log(3, l, t.count(), int(d), nullptr, &c, s); }
};
struct FluxB : Payload {
  using Payload::Payload;
  Duration ComputeStableDt(Context& c, int l, Direction d) { log(10, l, -1, int(d), nullptr, &c); return Duration(100.5 + id); }
  void ComputeNumericFluxes(Context& c, int l, Duration t, Direction d) { log(11, l, t.count(), int(d), nullptr, &c); }
  int GetStencilWidth() const { return 100 + id; }
};
Data data{1}, other_data{2};
Grid grid{3};
Context context{4};
// every function of a wrapper that holds `kind` (0, 1; -1: nothing) with the object `id` that was used `uses` times
template <typename Any> struct Functions;
struct Judge {
  mc::Ctx& ctx; const std::string& h; int kind, id, uses;
  // the next call reached the right object with the right arguments
  void operator()(int what, int level, double t, int dir, const void* d, const void* g, std::pair<int, int> sub = {-1, -1}, bool optional = false) {
    if (kind < 0 || (kind == 1 && optional)) { if (!calls.empty()) ctx.check(false, "spurious-call", h); return; }
    if (calls.size() != 1) ctx.check(false, "call-does-not-arrive-once", calls.size(), " calls after ", h);
    const Call& c = calls[0];
    ++uses;
    if (c.what != what + 10 * kind) ctx.check(false, "wrong-function", c.what, " after ", h);
    if (c.id != id || c.uses != uses) ctx.check(false, "wrong-object", "object ", c.id, " used ", c.uses, " times instead of ", id, " used ", uses, " times after ", h);
    if (c.level != level || c.t != t || c.dir != dir || c.data != d || c.grid != g || c.sub != sub) ctx.check(false, "wrong-arguments", h);
    calls.clear();
  }
};
template <> struct Functions<AnyBoundaryCondition<Grid>> {
  using A = BcA; using B = BcB; static constexpr bool empty = true;
  static void all(AnyBoundaryCondition<Grid>& x, Judge& j) {
    x.FillBoundary(data, grid, 2); j(0, 2, -1, -1, &data, &grid);
    x.FillBoundary(other_data, grid, 1, Direction::Y); j(1, 1, -1, 1, &other_data, &grid);
    x.PreAdvanceHierarchy(grid); j(2, -1, -1, -1, nullptr, &grid, {-1, -1}, true);
    BcA* a = x.template Cast<BcA>(); BcB* b = x.template Cast<BcB>();
    const auto& cx = x;
    const BcA* ca = cx.template Cast<const BcA>();
    if ((a != nullptr) != (j.kind == 0) || (b != nullptr) != (j.kind == 1) || (ca != nullptr) != (j.kind == 0) || (a && (a->id != j.id || a->uses != j.uses || ca != a)) || (b && (b->id != j.id || b->uses != j.uses))) j.ctx.check(false, "cast", j.h);
    if (a) { a->FillBoundary(data, grid, 5); j(0, 5, -1, -1, &data, &grid); }
  }
};
template <> struct Functions<AnyTaggingMethod<Grid>> { using A = TagA; using B = TagB; static constexpr bool empty = true; static void all(AnyTaggingMethod<Grid>& x, Judge& j) { x.TagCellsForRefinement(data, grid, 2, Duration(0.25)); j(0, 2, 0.25, -1, &data, &grid); } };
template <> struct Functions<AnyInitialData<Grid>> { using A = IniA; using B = IniB; static constexpr bool empty = true; static void all(AnyInitialData<Grid>& x, Judge& j) { x.InitializeData(data, grid, 2, Duration(0.25)); j(0, 2, 0.25, -1, &data, &grid); } };
template <> struct Functions<AnyReconstruction<Context>> { using A = RecA; using B = RecB; static constexpr bool empty = false; static void all(AnyReconstruction<Context>& x, Judge& j) { x.CompleteFromCons(context, 2, Duration(0.25)); j(0, 2, 0.25, -1, nullptr, &context); } };
template <> struct Functions<AnyTimeIntegrator<Context>> {
  using A = TimA; using B = TimB; static constexpr bool empty = false;
  static void all(AnyTimeIntegrator<Context>& x, Judge& j) {
    x.UpdateConservatively(context, 2, Duration(0.25), Direction::Z); j(0, 2, 0.25, 2, nullptr, &context);
    int good = 0, thrown = 0;
    auto cast = [&](auto* p) { using T = std::decay_t<decltype(*p)>; try { T& t = AnyCast<T>(x); good += t.id == j.id && t.uses == j.uses; } catch (std::runtime_error&) { ++thrown; } };
    cast(static_cast<TimA*>(nullptr)); cast(static_cast<TimB*>(nullptr));
    if (good != 1 || thrown != 1) j.ctx.check(false, "cast", j.h);
  }
};
template <> struct Functions<AnyFluxMethod<Context>> {
  using A = FluxA; using B = FluxB; static constexpr bool empty = false;
  static void all(AnyFluxMethod<Context>& x, Judge& j) {
    const double base = j.kind == 1 ? 100.0 : 0.0;
    if (x.ComputeStableDt(context, 2, Direction::Y).count() != base + 0.5 + j.id) j.ctx.check(false, "returned-step", j.h);
    j(0, 2, -1, 1, nullptr, &context);
    x.ComputeNumericFluxes(context, 1, Duration(0.125), Direction::Z); j(1, 1, 0.125, 2, nullptr, &context);
    if (x.GetStencilWidth() != (j.kind == 1 ? 100 : 1) + j.id) j.ctx.check(false, "returned-width", j.h);
    x.PreAdvanceHierarchy(context); j(2, -1, -1, -1, nullptr, &context, {-1, -1}, true);
    x.PreSplitStep(context, 3, Duration(0.5), Direction::X, {1, 4}); j(3, 3, 0.5, 0, nullptr, &context, {1, 4}, true);
    int good = 0, thrown = 0;
    auto cast = [&](auto* p) { using T = std::decay_t<decltype(*p)>; try { T& t = AnyCast<T>(x); good += t.id == j.id && t.uses == j.uses; } catch (std::runtime_error&) { ++thrown; } };
    cast(static_cast<FluxA*>(nullptr)); cast(static_cast<FluxB*>(nullptr));
    if (good != 1 || thrown != 1) j.ctx.check(false, "cast", j.h);
  }
};
template <typename Any> void history(mc::Ctx& ctx) {
  using F = Functions<Any>;
  struct Slot { std::optional<Any> x; int kind = -1, id = -1, uses = 0; bool usable = false; };
  calls.clear();
  const int before = alive;
  std::string h;
  mc::Hash hash;
  {
    Slot s[2];
    int next = 0;
    const int depth = ctx.thorough() ? 5 : 4;
    for (int k = 0; k < depth; ++k) {
      const int op = ctx.choose(9), i = ctx.choose(2), j = 1 - i;
      hash.add(op).add(i);
      Slot &a = s[i], &b = s[j];
      auto set = [&](int kind, int id, int uses, bool usable) { a.kind = kind; a.id = id; a.uses = uses; a.usable = usable; };
      const int id = next;
      if (op < 4) { // store a new object, from an lvalue or an rvalue
        ++next;
        const int kind = op & 1;
        h += mc::cat(op < 2 ? "store a copy of " : "store ", kind ? "B" : "A", id, " in ", i, "; ");
        auto store = [&](auto payload) {
          payload.uses = 7;
          if (op < 2) { const auto& ref = payload; if (a.x) *a.x = Any(ref); else a.x.emplace(ref); if (payload.id != id) ctx.check(false, "argument-changed", h); }
          else if (a.x) *a.x = Any(std::move(payload)); else a.x.emplace(std::move(payload));
        };
        if (kind) store(typename F::B(id)); else store(typename F::A(id));
        set(kind, id, 7, true);
      } else if (op == 4) { // copy construction
        if (!b.x || (!F::empty && !b.usable)) throw mc::Prune{};
        h += mc::cat("copy ", j, " to new ", i, "; ");
        a.x.reset(); a.x.emplace(static_cast<const Any&>(*b.x));
        set(b.kind, b.id, b.uses, b.usable);
      } else if (op == 5) { // copy assignment
        if (!b.x || !a.x || (!F::empty && !b.usable)) throw mc::Prune{};
        h += mc::cat("assign ", j, " to ", i, "; ");
        Any& r = (*a.x = static_cast<const Any&>(*b.x));
        if (&r != &*a.x) ctx.check(false, "result-of-assignment", h);
        set(b.kind, b.id, b.uses, b.usable);
      } else if (op == 6) { // move
        if (!b.x || !b.usable) throw mc::Prune{};
        h += mc::cat("move ", j, " to ", i, "; ");
        const int n = copies;
        if (a.x) *a.x = std::move(*b.x); else a.x.emplace(std::move(*b.x));
        if (copies != n) ctx.check(false, "move-copies", h);
        set(b.kind, b.id, b.uses, true);
        b.kind = -1; b.usable = F::empty;
      } else if (op == 7) { // self assignment, or destruction
        if (!a.x) throw mc::Prune{};
        if (a.usable || F::empty) { h += mc::cat("assign ", i, " to itself; "); const Any& self = *a.x; *a.x = self; }
        else { h += mc::cat("end ", i, "; "); a.x.reset(); set(-1, -1, 0, false); }
      } else {
        if constexpr (F::empty) { h += mc::cat("empty ", i, "; "); if (a.x) *a.x = Any(); else a.x.emplace(); set(-1, -1, 0, true); }
        else { if (!a.x) throw mc::Prune{}; h += mc::cat("end ", i, "; "); a.x.reset(); set(-1, -1, 0, false); }
      }
      for (Slot& x : s) if (x.x && (x.usable || F::empty)) { Judge judge{ctx, h, x.kind, x.id, x.uses}; F::all(*x.x, judge); x.uses = judge.uses; }
      int held = 0;
      for (Slot& x : s) held += x.x && x.kind >= 0;
      if (alive - before != held) ctx.check(false, "number-of-objects", alive - before, " instead of ", held, " after ", h);
      ctx.transition();
    }
  }
  if (alive != before) ctx.check(false, "object-not-destroyed", h);
  ctx.validated();
  ctx.state(hash);
}
// a reference to a function forwards its arguments and result and does not copy
void references(mc::Ctx& ctx) {
  struct F { int n = 0; int operator()(int& a, const Payload& p) { ++n; a += p.id; return a * 2 + n; } };
  F f;
  const F* addr = &f;
  const int k = ctx.range(1, 4), id = ctx.range(0, 3);
  Payload p(id);
  const int c0 = copies;
  function_ref<int(int&, const Payload&)> r(f), second = r;
  int a = 1, want = 1;
  for (int i = 1; i <= k; ++i) {
    auto& use = ctx.flip() ? r : second;
    const int got = use(a, p);
    want += id;
    ctx.check(a == want && got == want * 2 + i && f.n == i, "function-reference", i);
    ctx.transition();
  }
  ctx.check(addr->n == k && copies == c0, "function-copied");
  const auto lambda = [&](int x) { return x + id; };
  function_ref<int(int)> q(lambda);
  ctx.check(q(5) == 5 + id, "reference-to-constant-function");
  ctx.validated();
  ctx.state(mc::Hash().add(k).add(id).add(a));
}
} // namespace
int omp_threads = 1, omp_thread = 0;
extern "C" int omp_get_max_threads() { return omp_threads; }
extern "C" int omp_get_thread_num() { return omp_thread; }
namespace {
// each thread has its own instance, for every order in which the threads work
void thread_local_objects(mc::Ctx& ctx) {
  omp_threads = ctx.range(1, ctx.thorough() ? 5 : 4);
  omp_thread = ctx.choose(omp_threads); // creates the object
  OmpLocal<double> x(10.0);
#if defined(_OPENMP)
  const int n = omp_threads;
#else
  const int n = 1;
#endif
  std::vector<double> want(n, 10.0);
  mc::Hash h;
  h.add(omp_threads);
  for (int k = 0; k < 4; ++k) {
    omp_thread = ctx.choose(n);
    const int op = ctx.choose(2);
    h.add(omp_thread * 2 + op);
    double& w = want[omp_thread];
    if (op) { *x -= k + 1.5; w -= k + 1.5; } else { x.Get() += 100.0 * k; w += 100.0 * k; }
    for (omp_thread = 0; omp_thread < n; ++omp_thread) {
      const auto& c = x;
      ctx.check(*x == want[omp_thread] && c.Get() == want[omp_thread] && *c == want[omp_thread] && x.operator->() == &x.Get() && c.operator->() == &c.Get(), "instance-of-thread", omp_thread);
    }
    OmpLocal<double> copy = x;
    ctx.check(copy.Min() == *std::min_element(want.begin(), want.end()), "minimum-over-threads");
    ctx.check(std::fabs(copy.Accumulate() - std::accumulate(want.begin(), want.end(), 0.0)) < 1e-9, "sum-over-threads");
    ctx.check(copy.Accumulate([](double a, double b) { return std::max(a, b); }) == *std::max_element(want.begin(), want.end()), "reduction-over-threads");
    for (omp_thread = 0; omp_thread < n; ++omp_thread) *copy = -1e9;
    omp_thread = 0;
    ctx.check(x.Min() == *std::min_element(want.begin(), want.end()), "copy-shares-instances");
    ctx.transition();
  }
  ctx.validated();
  ctx.state(h);
}
} // namespace
SCENARIO("boundary-conditions", "all histories of 4 (5) out of 9 operations on 2 wrappers", 3) { history<AnyBoundaryCondition<Grid>>(ctx); }
SCENARIO("tagging-methods", "all histories of 4 (5) out of 9 operations on 2 wrappers", 3) { history<AnyTaggingMethod<Grid>>(ctx); }
SCENARIO("initial-data", "all histories of 4 (5) out of 9 operations on 2 wrappers", 3) { history<AnyInitialData<Grid>>(ctx); }
SCENARIO("reconstructions", "all histories of 4 (5) out of 9 operations on 2 wrappers", 3) { history<AnyReconstruction<Context>>(ctx); }
SCENARIO("time-integrators", "all histories of 4 (5) out of 9 operations on 2 wrappers", 3) { history<AnyTimeIntegrator<Context>>(ctx); }
SCENARIO("flux-methods", "all histories of 4 (5) out of 9 operations on 2 wrappers", 3) { history<AnyFluxMethod<Context>>(ctx); }
SCENARIO("function-references", "1..4 calls through two references", 1) { references(ctx); }
SCENARIO("thread-local-objects", "1..4 (5) threads x creating thread x all orders of 4 accesses", 3) { thread_local_objects(ctx); }
