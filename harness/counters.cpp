// Counters, timers, their registry, statistics over several processes and the printed table; time and MPI are simulated.
#include "mc.hpp"
#include <cmath>
#include <set>
#include <sstream>
#include "fub/core/type_traits.hpp"
#include "fub/counter/CounterRegistry.hpp"
#include "fub/ext/Log.hpp"
#include <boost/log/sources/record_ostream.hpp>
#include <boost/log/sources/severity_logger.hpp>
#include <boost/log/attributes/value_extraction.hpp>
#include <boost/log/utility/formatting_ostream.hpp>
#include "fub/output/CounterOutput.hpp"
#include <boost/core/null_deleter.hpp>
#include <boost/log/core.hpp>
#include <boost/log/sinks/sync_frontend.hpp>
#include <boost/log/sinks/text_ostream_backend.hpp>
namespace { long long clock_ns = 0; int sim_rank = 0, sim_size = 1; std::vector<std::vector<std::vector<char>>> sent; std::size_t n_gather = 0; bool mismatch = false; }
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(nanoseconds(clock_ns)); }
} } }
extern "C" {
int MPI_Comm_size(MPI_Comm, int* n) { *n = sim_size; return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm, int* r) { *r = sim_rank; return MPI_SUCCESS; }
// the other ranks run before the root and leave their messages behind
int MPI_Gather(const void* s, int n, MPI_Datatype, void* r, int rn, MPI_Datatype, int root, MPI_Comm) {
  const std::size_t bytes = std::size_t(n) * 8;
  const char* c = static_cast<const char*>(s);
  if (sim_rank != root) { sent[sim_rank].emplace_back(c, c + bytes); return MPI_SUCCESS; }
  if (rn != n) mismatch = true;
  for (int k = 0; k < sim_size; ++k) {
    char* to = static_cast<char*>(r) + bytes * std::size_t(k);
    if (k == root) std::memcpy(to, c, bytes);
    else if (n_gather < sent[k].size()) std::memcpy(to, sent[k][n_gather].data(), bytes);
    else mismatch = true;
  }
  ++n_gather;
  return MPI_SUCCESS;
}
}
using namespace fub;
namespace {
using LL = long long;
double variance_of(const std::vector<double>& v) { if (v.empty()) return 0; double m = 0, s = 0; for (double x : v) m += x / double(v.size()); for (double x : v) s += (x - m) * (x - m) / double(v.size()); return s; }
bool near(double a, double b, double scale = 1) { return std::fabs(a - b) <= 1e-9 * (scale + std::fabs(b)); }
void judge(mc::Ctx& ctx, const Counter& c, const std::vector<LL>& v, const std::string& where) {
  LL sum = 0, lo = 0, hi = 0;
  std::vector<double> d;
  for (std::size_t i = 0; i < v.size(); ++i) { sum += v[i]; lo = i ? std::min(lo, v[i]) : v[i]; hi = i ? std::max(hi, v[i]) : v[i]; d.push_back(double(v[i])); }
  const double mean = v.empty() ? 0 : double(sum) / double(v.size());
  ctx.check(c.get_count() == v.size(), "count", where, ": ", c.get_count(), " instead of ", v.size());
  ctx.check(c.get_value() == sum, "sum", where, ": ", c.get_value(), " instead of ", sum);
  ctx.check(c.get_min() == lo, "minimum", where, ": ", c.get_min(), " instead of ", lo);
  ctx.check(c.get_max() == hi, "maximum", where, ": ", c.get_max(), " instead of ", hi);
  ctx.check(near(c.get_mean(), mean), "mean", where, ": ", c.get_mean(), " instead of ", mean);
  ctx.check(near(c.get_variance(), variance_of(d), 1 + mean * mean * 1e-6), "variance", where, ": ", c.get_variance(), " instead of ", variance_of(d));
  ctx.check(near(c.get_stddev() * c.get_stddev(), variance_of(d), 1 + mean * mean * 1e-6), "standard-deviation", where);
}
void values(mc::Ctx& ctx) {
  Counter c("name");
  std::vector<LL> v;
  const LL pool[] = {0, 1, -3, 7, 4000000000LL, -(1LL << 40)};
  std::string h;
  mc::Hash hash;
  for (int k = 0; k < (ctx.thorough() ? 7 : 5); ++k) {
    const int a = ctx.choose(7);
    hash.add(a);
    if (a == 6) { c.reset(); v.clear(); h += "reset "; }
    else { c.add(pool[a]); v.push_back(pool[a]); h += mc::cat(pool[a], " "); }
    judge(ctx, c, v, h);
    ctx.transition();
  }
  ctx.check(c.get_name() == "name", "name", c.get_name());
  ctx.validated();
  ctx.state(hash);
}
// timers are started, moved, assigned and ended in any order: every interval is counted once, under the name it was started with
void timers(mc::Ctx& ctx) {
  clock_ns = 1000; sim_rank = 0; sim_size = 1;
  CounterRegistry reg;
  const char* names[] = {"a", "b"};
  std::map<std::string, std::vector<LL>> want;
  struct Slot { std::optional<Timer> t; int name = -1; LL start = 0; };
  Slot s[2];
  Counter* first[2] = {nullptr, nullptr};
  std::string h;
  mc::Hash hash;
  auto finish = [&](Slot& x) { if (x.name >= 0) want[names[x.name]].push_back(clock_ns - x.start); x.name = -1; };
  const int depth = ctx.thorough() ? 6 : 5;
  for (int k = 0; k < depth; ++k) {
    clock_ns += 1LL << (4 + 3 * k);
    const int op = ctx.choose(5), i = ctx.choose(2);
    hash.add(op * 2 + i);
    if (op < 2) { // start into slot i, which ends what ran there
      h += mc::cat("start ", names[op], " in ", i, "; ");
      Timer t = reg.get_timer(names[op]);
      if (s[i].t) *s[i].t = std::move(t); else s[i].t.emplace(std::move(t));
      finish(s[i]);
      s[i].name = op; s[i].start = clock_ns;
      Counter* c = reg.get(names[op]);
      if (first[op]) ctx.check(first[op] == c, "counter-moved", h);
      first[op] = c;
      ctx.check(s[i].t->get_name() == names[op], "timer-name", h);
    } else if (op == 2) { // move the other slot here
      const int j = 1 - i;
      if (!s[j].t) throw mc::Prune{};
      h += mc::cat("move ", j, " to ", i, "; ");
      if (s[i].t) *s[i].t = std::move(*s[j].t); else s[i].t.emplace(std::move(*s[j].t));
      finish(s[i]);
      s[i].name = s[j].name; s[i].start = s[j].start;
      s[j].name = -1;
    } else if (op == 3) {
      if (!s[i].t) throw mc::Prune{};
      h += mc::cat("end ", i, "; ");
      s[i].t.reset();
      finish(s[i]);
    } else { // plain counter
      h += mc::cat("add to ", names[i], "; ");
      reg.get(names[i])->add(k + 1);
      want[names[i]].push_back(k + 1);
    }
    for (int n = 0; n < 2; ++n) if (reg.get(names[n])->get_count() != want[names[n]].size() || reg.get(names[n])->get_value() != std::accumulate(want[names[n]].begin(), want[names[n]].end(), 0LL)) { ctx.check(false, "measured-interval", "counter ", names[n], " has ", reg.get(names[n])->get_count(), " values of sum ", reg.get(names[n])->get_value(), " instead of ", want[names[n]].size(), " after ", h); }
    ctx.transition();
  }
  clock_ns += 1LL << 40;
  for (auto& x : s) { x.t.reset(); finish(x); }
  for (int n = 0; n < 2; ++n) judge(ctx, *reg.get(names[n]), want[names[n]], mc::cat("counter ", names[n], " after ", h));
  ctx.validated();
  ctx.state(hash);
}
// statistics of up to three processes which create the same counters in any order
void gathered(mc::Ctx& ctx) {
  sim_size = ctx.range(1, 3);
  const int n_names = ctx.range(0, sim_size == 3 && !ctx.thorough() ? 2 : 3);
  const std::string names[] = {"Advance", "Output::hdf5", "x"};
  const std::vector<LL> pool[] = {{}, {5}, {2, 9}, {-4, 0, 1}};
  std::vector<CounterRegistry> reg(sim_size);
  std::vector<std::vector<LL>> v[3];
  mc::Hash hash;
  for (int r = 0; r < sim_size; ++r) {
    std::vector<int> left;
    for (int n = 0; n < n_names; ++n) left.push_back(n);
    while (!left.empty()) {
      const int k = ctx.choose(int(left.size()));
      reg[r].get(names[left[k]]);
      hash.add(left[k]);
      left.erase(left.begin() + k);
    }
  }
  for (int n = 0; n < n_names; ++n) for (int r = 0; r < sim_size; ++r) {
    const int k = n == 0 || (ctx.thorough() && (sim_size < 3 || r == 0)) ? ctx.choose(4) : (r + n + 1) % 4;
    hash.add(k);
    v[n].push_back(pool[k]);
    for (LL x : pool[k]) reg[r].get(names[n])->add(x);
  }
  const bool map = ctx.flip();
  sent.assign(sim_size, {}); n_gather = 0; mismatch = false;
  std::vector<CounterResult> out;
  for (int r = sim_size - 1; r >= 0; --r) {
    sim_rank = r;
    std::vector<CounterResult> res;
    if (map) for (auto& [n, x] : reg[r].gather_statistics_map()) { ctx.check(n == x.name, "name-of-result", n); res.push_back(x); }
    else res = reg[r].gather_statistics();
    if (r) ctx.check(res.empty(), "result-on-other-process", r); else out = res;
  }
  std::vector<CounterResult> own = out;
  sim_rank = 0;
  for (auto& s : sent) if (&s != &sent[0]) ctx.check(s.size() == n_gather, "number-of-messages", s.size(), " ", n_gather);
  ctx.check(!mismatch, "missing-message");
  ctx.check(int(out.size()) == n_names, "number-of-results", out.size(), " instead of ", n_names);
  std::set<std::string> seen;
  for (auto& x : out) {
    ctx.check(seen.insert(x.name).second, "twice", x.name);
    int n = 0;
    while (n < n_names && names[n] != x.name) ++n;
    ctx.check(n < n_names, "unknown-counter", x.name);
    LL lo = 0, hi = 0; std::vector<double> means;
    for (int r = 0; r < sim_size; ++r) {
      auto& w = v[n][r];
      const LL l = w.empty() ? 0 : *std::min_element(w.begin(), w.end()), m = w.empty() ? 0 : *std::max_element(w.begin(), w.end());
      lo = r ? std::min(lo, l) : l; hi = r ? std::max(hi, m) : m;
      means.push_back(w.empty() ? 0 : double(std::accumulate(w.begin(), w.end(), 0LL)) / double(w.size()));
    }
    const double mean = std::accumulate(means.begin(), means.end(), 0.0) / double(sim_size), var = variance_of(means);
    auto all = [&] { std::string t; for (auto& w : v[n]) { t += "["; for (LL y : w) t += mc::cat(y, " "); t += "]"; } return t; };
    ctx.check(x.count == v[n][0].size(), "gathered-count", x.name, " ", x.count);
    if (x.min != lo || x.max != hi || !near(x.mean, mean) || !near(x.variance, var) || !near(x.stddev, std::sqrt(var))) ctx.check(false, "gathered-statistics", x.name, " on ", sim_size, " processes ", all(), ": minimum ", x.min, " maximum ", x.max, " mean ", x.mean, " variance ", x.variance);
    ctx.transition();
  }
  ctx.validated();
  ctx.state(hash.add(sim_size).add(n_names).add(int(map)));
}
std::vector<std::string> words(const std::string& l) { std::istringstream is(l); std::vector<std::string> w; std::string s; while (is >> s) w.push_back(s); return w; }
template <typename Unit, typename Range> void table(mc::Ctx& ctx, const Range& range, const std::vector<CounterResult>& res, LL reference, LL ns, const char* unit) {
  std::istringstream is(print_statistics<Unit>(range, reference));
  std::vector<std::string> lines;
  std::string l;
  while (std::getline(is, l)) lines.push_back(l);
  ctx.check(lines.size() == res.size() + (res.empty() ? 4 : 3), "lines-of-table", lines.size());
  ctx.check(lines[0].find("Table of Counters") == 0, "title", lines[0]);
  ctx.check(lines[1].find(mc::cat("[", unit, "]")) != std::string::npos && (lines[1].find(reference == -1 ? "Total" : "Percent") != std::string::npos), "header", lines[1]);
  std::set<std::string> seen;
  double before = std::numeric_limits<double>::infinity();
  for (std::size_t i = 0; i < res.size(); ++i) {
    const auto w = words(lines[2 + i]);
    ctx.check(w.size() == 7, "columns", lines[2 + i]);
    ctx.check(seen.insert(w[0]).second, "row-twice", w[0]);
    const CounterResult* x = nullptr;
    for (auto& y : res) if (y.name == w[0]) x = &y;
    ctx.check(x != nullptr, "unknown-row", w[0]);
    const double total = double(x->count) * x->mean;
    if constexpr (!IsMapType<Range>()) ctx.check(total <= before, "order-of-rows", lines[2 + i]);
    before = total;
    const LL want[] = {LL(x->count), x->min / ns, x->max / ns, std::llround(x->mean) / ns, std::llround(x->stddev) / ns};
    for (int k = 0; k < 5; ++k) ctx.check(std::stoll(w[1 + k]) == want[k], "number-in-table", "column ", k + 1, " of ", lines[2 + i], " is not ", want[k]);
    const double last = reference == -1 ? double(std::llround(total) / ns) : total / double(reference) * 100, is_ = std::stod(w[6]);
    ctx.check(std::fabs(is_ - last) <= 0.051 * std::fabs(last), "last-column", lines[2 + i], " is not ", last);
    ctx.transition();
  }
}
void printed(mc::Ctx& ctx) {
  const CounterResult pool[] = {{"a", 3, 1000, 5000000, 2500000.4, 12345.6, 12345.6 * 12345.6}, {"Long::Counter::Name", 1, 7000000000LL, 7000000000LL, 7e9, 0, 0}, {"zero", 0, 0, 0, 0, 0, 0}, {"many", 100000, 20, 999, 75.5, 3.5, 12.25}};
  std::vector<CounterResult> res;
  std::vector<int> left{0, 1, 2, 3};
  const int n = ctx.choose(5);
  for (int k = 0; k < n; ++k) { const int i = ctx.choose(int(left.size())); res.push_back(pool[left[i]]); left.erase(left.begin() + i); }
  const LL reference = ctx.pick<LL>({-1, 10000000000LL, 5});
  const int unit = ctx.choose(4);
  auto both = [&](auto u, LL ns, const char* name) {
    using U = decltype(u);
    table<U>(ctx, res, res, reference, ns, name);
    std::unordered_map<std::string, CounterResult> m;
    for (auto& x : res) m.emplace(x.name, x);
    table<U>(ctx, m, res, reference, ns, name);
  };
  if (unit == 0) both(std::chrono::nanoseconds{}, 1, "ns");
  if (unit == 1) both(std::chrono::microseconds{}, 1000, "us");
  if (unit == 2) both(std::chrono::milliseconds{}, 1000000, "ms");
  if (unit == 3) both(std::chrono::seconds{}, 1000000000, "s");
  ctx.validated();
  mc::Hash h; for (auto& r : res) h.add(int(r.count)); ctx.state(h.add(int(reference % 100)).add(unit));
}
// the output of the table reports the statistics since the start of the run
struct OutHierarchy { std::shared_ptr<CounterRegistry> reg; const std::shared_ptr<CounterRegistry>& GetCounterRegistry() const { return reg; } };
struct OutGrid { OutHierarchy h; double t; std::ptrdiff_t c; const OutHierarchy& GetPatchHierarchy() const { return h; } Duration GetTimePoint() const { return Duration(t); } std::ptrdiff_t GetCycles() const { return c; } };
void counter_output(mc::Ctx& ctx) {
  namespace log = boost::log;
  using sink = log::sinks::synchronous_sink<log::sinks::text_ostream_backend>;
  std::ostringstream text;
  boost::shared_ptr<sink> s = boost::make_shared<sink>();
  s->locked_backend()->add_stream(boost::shared_ptr<std::ostream>(&text, boost::null_deleter{}));
  struct Seen { int n = 0; std::string channel; double time = -1; } seen;
  s->set_formatter([&](const log::record_view& rec, log::formatting_ostream& os) {
    ++seen.n;
    if (auto c = log::extract<std::string>("Channel", rec)) seen.channel = c.get();
    if (auto t = log::extract<double>("Time", rec)) seen.time = t.get();
    os << rec[log::expressions::smessage].get();
  });
  log::core::get()->add_sink(s);
  sim_rank = 0; sim_size = 1; n_gather = 0; sent.assign(1, {});
  const LL start = ctx.pick<LL>({0, 5000}), elapsed = ctx.pick<LL>({1000000000LL, 250000000LL, 7});
  const int n = ctx.choose(3), ctor = ctx.choose(2), unit = ctx.choose(2);
  OutGrid g{{std::make_shared<CounterRegistry>()}, ctx.pick({0.0, 0.125}), ctx.pick<std::ptrdiff_t>({0, 4})};
  const std::string names[] = {"Advance", "Output"};
  const LL values[] = {100000000LL, 25000000LL};
  for (int k = 0; k < n; ++k) g.h.reg->get(names[k])->add(values[k]);
  clock_ns = start;
  using time_point = std::chrono::steady_clock::time_point;
  auto run = [&](auto u) {
    using U = decltype(u);
    using Out = CounterOutput<OutGrid, U>;
    const ProgramOptions none;
    Out out = ctor == 0 ? Out(none) : Out(time_point(std::chrono::nanoseconds(start)), {2}, {});
    ctx.check(out.ShallOutputNow(g) == (g.t == 0 || ctor == 1), "due", ctor, " ", g.t);
    clock_ns = start + elapsed;
    out(g);
  };
  if (unit) run(std::chrono::milliseconds{}); else run(std::chrono::nanoseconds{});
  log::core::get()->flush();
  log::core::get()->remove_sink(s);
  ctx.check(seen.n == (n > 0), "number-of-tables", seen.n);
  if (n) {
    ctx.check(seen.channel == "CounterOutput" && seen.time == g.t, "origin-of-table", seen.channel, " ", seen.time);
    std::istringstream is(text.str());
    std::string l;
    int found = 0;
    while (std::getline(is, l)) for (int k = 0; k < n; ++k) {
      const auto w = words(l);
      if (w.empty() || w[0] != names[k]) continue;
      ++found;
      ctx.check(std::stoll(w[1]) == 1 && std::stoll(w[3]) == values[k] / (unit ? 1000000 : 1), "row-of-table", l);
      const double want = double(values[k]) / double(elapsed) * 100;
      ctx.check(std::fabs(std::stod(w[6]) - want) <= 0.051 * want, "percentage-of-run", l, " elapsed ", elapsed);
    }
    ctx.check(found == n, "rows-of-table", found);
  }
  ctx.transition();
  ctx.validated();
  ctx.state(mc::Hash().add(int(start)).add(int(elapsed)).add(n).add(ctor).add(unit).add(g.t).add(int(g.c)));
}
} // namespace
SCENARIO("table-output", "2 starts x 3 elapsed times x 0..2 counters x 2 constructors x 2 units x 2 times x 2 cycles", 1) { counter_output(ctx); }
SCENARIO("values", "all histories of 5 (7) values and resets", 2) { values(ctx); }
SCENARIO("timers", "all histories of 5 (6) starts, moves, assignments and ends in 2 slots with 2 names", 2) { timers(ctx); }
SCENARIO("gathered", "1..3 processes x up to 3 counters x all orders of creation on every process x values", 2) { gathered(ctx); }
SCENARIO("printed", "all sequences of up to 4 results x 3 references x 4 units, list and map", 1) { printed(ctx); }
