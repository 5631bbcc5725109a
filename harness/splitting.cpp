// Splitting methods: full time per operator, symmetry, order, failures, type erasure.
#include "mc.hpp"
#include <functional>
#include "fub/Direction.hpp"
#include "fub/split_method/GodunovSplitting.hpp"
#include "fub/split_method/StrangSplitting.hpp"
#include "fub/split_method/StrangSplittingLumped.hpp"
using namespace fub;
using R = Result<void, TimeStepTooLarge>;

namespace {
struct Call { int op; double dt; };
using Calls = std::vector<Call>;
std::string show(const Calls& c) { std::string s; for (auto& x : c) s += mc::cat("a", x.op, "(", x.dt, ") "); return s; }

Calls halves(Calls in) { for (auto& c : in) c.dt *= 0.5; return in; }
Calls plus(Calls a, const Calls& b) { a.insert(a.end(), b.begin(), b.end()); return a; }

// what the documentation promises for two operators (ops i, i+1)
enum Kind { kGodunov, kStrang, kLumped };
// neighbouring calls of one operator are the same evolution as one longer call
Calls merge(Calls in) {
  Calls out;
  for (auto& c : in) { if (!out.empty() && out.back().op == c.op) out.back().dt += c.dt; else out.push_back(c); }
  return out;
}

struct Run { Calls calls; bool ok; double err_dt; int err_level; };

// fail_at: index of the call which fails, -1: none
Run run(const SplittingMethod& m, int nops, double dt, int fail_at, bool recursive) {
  Run r{{}, true, 0, 0};
  auto op = [&](int i) {
    return [&r, i, fail_at](Duration d) -> R {
      r.calls.push_back({i, d.count()});
      if (int(r.calls.size()) - 1 == fail_at) return TimeStepTooLarge{Duration(0.125 + i), 7 + i};
      return boost::outcome_v2::success();
    };
  };
  auto o0 = op(0), o1 = op(1), o2 = op(2), o3 = op(3), o4 = op(4);
  R res = boost::outcome_v2::success();
  const Duration D(dt);
  switch (nops) {
  case 1: res = m.Advance(D, o0); break;
  case 2: res = recursive ? m.AdvanceRecursively(D, o0, o1) : m.Advance(D, o0, o1); break;
  case 3: res = recursive ? m.AdvanceRecursively(D, o0, o1, o2) : m.Advance(D, o0, o1, o2); break;
  case 4: res = m.AdvanceRecursively(D, o0, o1, o2, o3); break;
  default: res = m.AdvanceRecursively(D, o0, o1, o2, o3, o4); break;
  }
  if (!res) { r.ok = false; r.err_dt = res.error().dt.count(); r.err_level = res.error().level; }
  return r;
}

template <typename M> void scheme(mc::Ctx& ctx, Kind kind, M method) {
  const int nops = ctx.range(1, 5);
  const bool rec = nops == 2 || nops == 3 ? ctx.flip() : nops > 3;
  const double dt = ctx.pick({1.0, 0.3, 1e-12, 0.0, 7e5, 1.0 / 3.0});
  const int erased = ctx.choose(3); // plain, converted, assigned
  AnySplitMethod any = method;
  if (erased == 2) {
    any = kind == kStrang ? AnySplitMethod(GodunovSplitting()) : AnySplitMethod(StrangSplitting());
    any = method;
  }
  AnySplitMethod copy = any;
  const SplittingMethod& m = erased ? static_cast<const SplittingMethod&>(copy) : method;
  Run r = run(m, nops, dt, -1, rec);
  ctx.check(r.ok, "failed-without-reason");
  // 1. every operator gets the full time
  for (int i = 0; i < nops; ++i) {
    double sum = 0;
    for (auto& c : r.calls) if (c.op == i) sum += c.dt;
    ctx.check(std::abs(sum - dt) <= 1e-15 * std::abs(dt), "operator-not-advanced-by-full-step", "op ", i, ": ", show(r.calls));
  }
  // 2. the order in which operators first act
  int seen = 0;
  for (auto& c : r.calls) { ctx.check(c.op <= seen, "operator-order", show(r.calls)); seen = std::max(seen, c.op + 1); }
  // 3. documented schemes
  Calls m0 = merge(r.calls);
  if (kind == kGodunov || nops == 1) {
    ctx.check(int(r.calls.size()) == nops, "number-of-operator-calls", show(r.calls));
  } else {
    for (std::size_t k = 0; k < m0.size(); ++k) {
      auto &a = m0[k], &b = m0[m0.size() - 1 - k];
      ctx.check(a.op == b.op && a.dt == b.dt, "second-order-scheme-is-not-symmetric", show(r.calls));
    }
    ctx.check(m0.front().op == 0 && m0.front().dt == 0.5 * dt && m0.size() >= 3, "first-half-step", show(r.calls));
    if (nops == 2) {
      ctx.check(m0.size() == 3 && m0[1].op == 1 && m0[1].dt == dt, "documented-two-operator-scheme", show(r.calls));
      const std::size_t expect = kind == kStrang ? 4 : 3;
      ctx.check(r.calls.size() == expect, "number-of-operator-calls", show(r.calls));
    }
    if (kind == kStrang && nops == 3 && !rec) {
      ctx.check(m0.size() == 5 && m0[1].op == 1 && m0[1].dt == 0.5 * dt && m0[2].op == 2 && m0[2].dt == dt, "three-operator-scheme", show(r.calls));
    }
  }
  // 4. type erasure changes nothing
  Run plain = run(method, nops, dt, -1, rec);
  ctx.check(show(plain.calls) == show(r.calls), "type-erased-method-differs", show(r.calls), " instead of ", show(plain.calls));
  ctx.transition(r.calls.size());
  // 5. every single failure
  for (int f = 0; f < int(r.calls.size()); ++f) {
    Run e = run(m, nops, dt, f, rec);
    ctx.check(!e.ok, "failure-is-ignored", "call ", f, ": ", show(r.calls));
    ctx.check(int(e.calls.size()) == f + 1, "operators-called-after-failure", "call ", f, ": ", show(e.calls));
    const int op = r.calls[f].op;
    ctx.check(e.err_dt == 0.125 + op && e.err_level == 7 + op, "failure-reason-changed", e.err_dt, " ", e.err_level);
    ctx.transition(e.calls.size());
    mc::Hash h; ctx.state(h.add(int(kind)).add(nops).add(dt).add(int(rec)).add(f));
  }
  ctx.validated();
  ctx.sample(show(r.calls));
}

} // namespace

SCENARIO("schemes", "Godunov, Strang, lumped Strang x 1..5 operators x direct/recursive x 6 step sizes x plain/type-erased/reassigned; every operator call may fail", 3) {
  switch (ctx.choose(3)) {
  case 0: return scheme(ctx, kGodunov, GodunovSplitting());
  case 1: return scheme(ctx, kStrang, StrangSplitting());
  default: return scheme(ctx, kLumped, StrangSplittingLumped());
  }
}

template <int N> void dirs(mc::Ctx& ctx) {
  const int cycle = ctx.range(0, 9);
  const int n = ctx.range(1, 4), s = ctx.choose(n);
  auto d = MakeSplitDirections<N>(cycle, {s, n});
  auto e = MakeSplitDirections<N>(cycle + 1, {s, n});
  auto f = MakeSplitDirections<N>(cycle, {s + 1, n});
  bool seen[3] = {};
  for (int i = 0; i < N; ++i) {
    int k = int(d[i]);
    ctx.check(k >= 0 && k < N && !seen[k], "directions-are-not-a-permutation");
    seen[k] = true;
    ctx.check(e[N - 1 - i] == d[i] && f[N - 1 - i] == d[i], "direction-order-does-not-alternate", "cycle ", cycle, " subcycle ", s);
  }
  auto first = MakeSplitDirections<N>(0, {0, 1});
  for (int i = 0; i < N; ++i) ctx.check(int(first[i]) == i, "first-step-direction-order");
  mc::Hash h; ctx.state(h.add(N).add(cycle).add(s).add(n));
  ctx.transition(); ctx.validated();
}
SCENARIO("direction-order", "space dim 1..3 x cycles 0..9 x subcycles 0..3 of 1..4", 1) {
  switch (ctx.choose(3)) { case 0: return dirs<1>(ctx); case 1: return dirs<2>(ctx); default: return dirs<3>(ctx); }
}
