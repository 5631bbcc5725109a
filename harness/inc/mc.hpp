// Small stateless model checker used by every harness in /verif.
//
// A *scenario* is a deterministic function of a sequence of choices.  The
// explorer runs it once for every possible sequence (depth first, complete
// within the bounds that the scenario itself states through the arity of its
// choices), i.e. it enumerates every execution of the real code under the
// environment modelled by the choices.  Nothing is sampled.
//
// Every scenario (or shard of one) runs in its own forked process, so that
// crashes, failed assertions and non-termination of the code under test are
// observed, attributed to the exact choice sequence, and do not stop the
// exploration of the remaining executions.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <initializer_list>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>

namespace mc {

struct Violation {
  std::string key;
  std::string msg;
};
// The scenario found out that this path is outside of its bounds.
struct Prune {};

inline std::string cat() { return {}; }
template <typename T, typename... Ts> std::string cat(const T& x, const Ts&... xs) {
  std::ostringstream ss;
  ss.precision(17);
  ss << x;
  return ss.str() + cat(xs...);
}

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}
struct Hash {
  std::uint64_t h = 0x243f6a8885a308d3ull;
  Hash& add(std::uint64_t v) { h = mix(h, v); return *this; }
  Hash& add(std::int64_t v) { return add(static_cast<std::uint64_t>(v)); }
  Hash& add(int v) { return add(static_cast<std::uint64_t>(static_cast<std::int64_t>(v))); }
  Hash& add(double d) {
    if (d == 0.0) d = 0.0;
    std::uint64_t u;
    std::memcpy(&u, &d, 8);
    return add(u);
  }
  Hash& add(const std::string& s) {
    for (unsigned char c : s) add(static_cast<std::uint64_t>(c));
    return add(static_cast<std::uint64_t>(s.size()));
  }
  operator std::uint64_t() const { return h; }
};

constexpr int kMaxDepth = 4096;

struct Shared {
  // live trace of the execution in progress
  volatile int depth;
  volatile int val[kMaxDepth];
  volatile int arity[kMaxDepth];
  volatile std::uint64_t executions;
  volatile int in_execution;
  volatile int truncated;
};

class Ctx {
public:
  // ---- choice points -------------------------------------------------
  int choose(int n) {
    if (n <= 0) throw Prune{};
    int d = pos_++;
    if (d >= kMaxDepth) { std::fprintf(stderr, "mc: path too deep\n"); _exit(97); }
    if (d < static_cast<int>(stack_.size())) {
      if (!replay_ && stack_[d].second != n) {
        std::fprintf(stderr, "mc: scenario is not deterministic at depth %d (%d vs %d)\n", d, stack_[d].second, n);
        _exit(98);
      }
      if (replay_ && stack_[d].first >= n) throw Prune{};
    } else {
      int first = (d == 0 && !replay_) ? shard_ : 0;
      if (first >= n) throw Prune{};
      stack_.push_back({first, n});
    }
    if (shared_) {
      shared_->val[d] = stack_[d].first;
      shared_->arity[d] = n;
      shared_->depth = d + 1;
    }
    return stack_[d].first;
  }
  bool flip() { return choose(2) == 1; }
  int range(int lo, int hi) { return lo + choose(hi - lo + 1); }
  template <typename T> T pick(std::initializer_list<T> l) {
    return *(l.begin() + choose(static_cast<int>(l.size())));
  }
  template <typename T> const T& pick(const std::vector<T>& l) {
    return l[choose(static_cast<int>(l.size()))];
  }
  // ---- bookkeeping -----------------------------------------------------
  bool thorough() const { return thorough_; }
  void state(std::uint64_t h) { states_.insert(h); }
  void transition(std::uint64_t n = 1) { transitions_ += n; }
  void validated(std::uint64_t n = 1) { validated_ += n; }
  void outcome(const std::string& s) { if (outcomes_.size() < 200 || outcomes_.count(s)) outcomes_[s] += 1; }
  template <typename... Ts> void sample(const Ts&... xs) {
    if (samples_.size() < 3) samples_.push_back(cat(xs...));
  }
  template <typename... Ts> void trace(const Ts&... xs) {
    if (replay_) std::printf("  %s\n", cat(xs...).c_str());
  }
  bool replaying() const { return replay_; }
  // ---- oracles ---------------------------------------------------------
  template <typename... Ts> void check(bool cond, const char* key, const Ts&... xs) {
    if (!cond) throw Violation{key, cat(xs...)};
  }
  // A violation which does not end the execution.
  template <typename... Ts> void report(const char* key, const Ts&... xs) {
    soft_.push_back({key, cat(xs...)});
  }
  // relative/absolute closeness of two finite numbers
  template <typename... Ts>
  void close(double a, double b, double tol, const char* key, const Ts&... xs) {
    double scale = std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b)));
    if (!(std::fabs(a - b) <= tol * scale)) {
      throw Violation{key, cat("got ", a, " expected ", b, ": ") + cat(xs...)};
    }
  }

  std::vector<std::pair<int, int>> stack_;
  int pos_ = 0;
  int shard_ = 0, shards_ = 1;
  bool replay_ = false;
  bool thorough_ = false;
  Shared* shared_ = nullptr;
  std::unordered_set<std::uint64_t> states_;
  std::uint64_t transitions_ = 0, validated_ = 0;
  std::map<std::string, std::uint64_t> outcomes_;
  std::vector<std::string> samples_;
  std::vector<Violation> soft_;

  bool advance() {
    while (!stack_.empty()) {
      int step = stack_.size() == 1 ? shards_ : 1;
      if (stack_.back().first + step < stack_.back().second) {
        stack_.back().first += step;
        return true;
      }
      stack_.pop_back();
    }
    return false;
  }
};

struct Scenario {
  std::string name;
  std::function<void(Ctx&)> fn;
  int shards = 1;
  std::string bounds;
};

inline std::vector<Scenario>& scenarios() {
  static std::vector<Scenario> s;
  return s;
}
struct Register {
  Register(const char* name, const char* bounds, std::function<void(Ctx&)> f, int shards = 1) {
    scenarios().push_back({name, std::move(f), shards, bounds});
  }
};
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
// SCENARIO("name", "stated bounds", shards) { ... uses ctx ... }
#define SCENARIO_IMPL(ID, NAME, BOUNDS, SHARDS)                                \
  static void ID(mc::Ctx&);                                                    \
  static mc::Register MC_CAT(ID, _reg){NAME, BOUNDS, ID, SHARDS};              \
  static void ID(mc::Ctx& ctx)
#define SCENARIO(NAME, BOUNDS, SHARDS)                                         \
  SCENARIO_IMPL(MC_CAT(mc_scenario_, __COUNTER__), NAME, BOUNDS, SHARDS)

inline std::string jesc(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o + "\"";
}

inline double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

inline void write_violation(std::FILE* f, const std::string& scen, const Violation& v, const std::vector<int>& path) {
  std::string p = "[";
  for (std::size_t i = 0; i < path.size(); ++i) p += (i ? "," : "") + std::to_string(path[i]);
  p += "]";
  std::fprintf(f, "{\"type\":\"violation\",\"scenario\":%s,\"key\":%s,\"msg\":%s,\"path\":%s}\n",
               jesc(scen).c_str(), jesc(v.key).c_str(), jesc(v.msg).c_str(), p.c_str());
  std::fflush(f);
}

// Runs one execution; returns violations found in it.
inline std::vector<Violation> run_once(const Scenario& s, Ctx& ctx) {
  ctx.pos_ = 0;
  ctx.soft_.clear();
  std::vector<Violation> out;
  try {
    s.fn(ctx);
  } catch (const Prune&) {
  } catch (const Violation& v) {
    out.push_back(v);
  } catch (const std::exception& e) {
    out.push_back({cat("unexpected-exception"), cat(typeid(e).name(), ": ", e.what())});
  } catch (...) {
    out.push_back({"unexpected-exception", "unknown exception type"});
  }
  for (auto& v : ctx.soft_) out.push_back(v);
  return out;
}

constexpr int kMaxViolationsPerKey = 1;
constexpr int kExecutionTimeoutSeconds = 60; // CPU time of one execution

inline int child(const Scenario& s, int shard, int nshards, bool thorough, Shared* sh, const std::string& outfile,
                 std::vector<std::pair<int, int>> resume, double deadline) {
  Ctx ctx;
  ctx.shared_ = sh;
  ctx.shard_ = shard;
  ctx.shards_ = nshards;
  ctx.thorough_ = thorough;
  ctx.stack_ = std::move(resume);
  std::FILE* f = std::fopen(outfile.c_str(), "a");
  std::map<std::string, int> seen;
  std::uint64_t execs = 0;
  bool more = true;
  if (!ctx.stack_.empty()) more = ctx.advance();
  bool truncated = false;
  double last_arm = 0;
  while (more) {
    if ((execs & 0x3f) == 0 || now() - last_arm > 1) {
      last_arm = now();
      itimerval it{};
      it.it_value.tv_sec = kExecutionTimeoutSeconds;
      setitimer(ITIMER_VIRTUAL, &it, nullptr);
      if (last_arm > deadline) { truncated = true; break; }
    }
    sh->depth = 0;
    sh->in_execution = 1;
    auto vs = run_once(s, ctx);
    sh->in_execution = 0;
    ++execs;
    sh->executions = sh->executions + 1;
    for (auto& v : vs) {
      if (seen[v.key]++ < kMaxViolationsPerKey) {
        std::vector<int> path;
        for (auto& p : ctx.stack_) path.push_back(p.first);
        path.resize(std::min<std::size_t>(path.size(), ctx.pos_));
        write_violation(f, s.name, v, path);
      }
    }
    // choices beyond what this execution consumed cannot exist
    more = ctx.advance();
  }
  std::string o = "{";
  bool first = true;
  for (auto& kv : ctx.outcomes_) {
    o += (first ? "" : ",") + jesc(kv.first) + ":" + std::to_string(kv.second);
    first = false;
  }
  o += "}";
  std::string smp = "[";
  for (std::size_t i = 0; i < ctx.samples_.size(); ++i) smp += (i ? "," : "") + jesc(ctx.samples_[i]);
  smp += "]";
  std::fprintf(f,
               "{\"type\":\"stats\",\"scenario\":%s,\"shard\":%d,\"executions\":%llu,\"states\":%zu,"
               "\"transitions\":%llu,\"validated\":%llu,\"truncated\":%s,\"bounds\":%s,\"outcomes\":%s,\"samples\":%s}\n",
               jesc(s.name).c_str(), shard, (unsigned long long)execs, ctx.states_.size(),
               (unsigned long long)ctx.transitions_, (unsigned long long)ctx.validated_, truncated ? "true" : "false",
               jesc(s.bounds).c_str(), o.c_str(), smp.c_str());
  std::fclose(f);
  return 0;
}

inline int main(int argc, char** argv) {
  std::string out = "/dev/stdout", only, replay_path;
  bool thorough = false, replay = false;
  int jobs = 8;
  double budget = 600;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(argv[++i]); };
    if (a == "--out") out = next();
    else if (a == "--tier") thorough = next() == "thorough";
    else if (a == "--jobs") jobs = std::stoi(next());
    else if (a == "--budget") budget = std::stod(next());
    else if (a == "--scenario") only = next();
    else if (a == "--replay") { replay = true; replay_path = next(); }
    else if (a == "--list") {
      for (auto& s : scenarios()) std::printf("%s: %s\n", s.name.c_str(), s.bounds.c_str());
      return 0;
    }
  }
  if (replay) {
    // --scenario NAME --replay "1,0,2"
    for (auto& s : scenarios()) {
      if (s.name != only) continue;
      Ctx ctx;
      ctx.replay_ = true;
      ctx.thorough_ = thorough;
      std::stringstream ss(replay_path);
      std::string tok;
      while (std::getline(ss, tok, ','))
        if (!tok.empty()) ctx.stack_.push_back({std::stoi(tok), 1 << 30});
      auto vs = run_once(s, ctx);
      for (auto& v : vs) std::printf("VIOLATED %s: %s\n", v.key.c_str(), v.msg.c_str());
      if (vs.empty()) std::printf("no violation on this execution\n");
      return vs.empty() ? 0 : 1;
    }
    std::fprintf(stderr, "no such scenario\n");
    return 2;
  }
  struct Task { const Scenario* s; int shard; int restarts = 0; std::vector<std::pair<int, int>> resume; };
  std::vector<Task> queue;
  for (auto& s : scenarios()) {
    if (!only.empty() && s.name != only) continue;
    for (int k = 0; k < s.shards; ++k) queue.push_back({&s, k});
  }
  double deadline = now() + budget;
  std::map<pid_t, std::pair<Task, Shared*>> running;
  std::map<std::string, int> crash_seen;
  std::size_t next = 0;
  int rc = 0;
  while (next < queue.size() || !running.empty()) {
    while (next < queue.size() && static_cast<int>(running.size()) < jobs) {
      Task t = queue[next++];
      auto* sh = static_cast<Shared*>(
          mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
      std::fflush(nullptr);
      pid_t p = fork();
      if (p == 0) {
        signal(SIGVTALRM, SIG_DFL);
        rlimit core{0, 0};
        setrlimit(RLIMIT_CORE, &core);
#ifndef __SANITIZE_ADDRESS__
        rlimit as{rlim_t(8) << 30, rlim_t(8) << 30};
        setrlimit(RLIMIT_AS, &as);
#endif
        int r = child(*t.s, t.shard, t.s->shards, thorough, sh, out, t.resume, deadline);
        std::fflush(nullptr);
        _exit(r);
      }
      running[p] = {t, sh};
    }
    int status = 0;
    pid_t p = waitpid(-1, &status, 0);
    if (p < 0) break;
    auto it = running.find(p);
    if (it == running.end()) continue;
    Task t = it->second.first;
    Shared* sh = it->second.second;
    running.erase(it);
    bool ok = WIFEXITED(status) && WEXITSTATUS(status) == 0;
    if (!ok) {
      if (WIFEXITED(status) && (WEXITSTATUS(status) == 97 || WEXITSTATUS(status) == 98)) {
        std::fprintf(stderr, "mc: harness error in scenario %s\n", t.s->name.c_str());
        rc = 3;
      } else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
        std::fprintf(stderr, "mc: scenario %s was killed (out of memory?)\n", t.s->name.c_str());
        rc = 3;
      } else {
        std::vector<int> path;
        std::vector<std::pair<int, int>> resume;
        for (int i = 0; i < sh->depth; ++i) {
          const int v = sh->val[i], n = sh->arity[i];
          path.push_back(v);
          resume.push_back({v, n});
        }
        std::string key, msg;
        if (WIFSIGNALED(status)) {
          int sig = WTERMSIG(status);
          key = sig == SIGVTALRM ? "no-termination" : cat("crash-signal-", sig);
          msg = sig == SIGVTALRM ? cat("execution used more than ", kExecutionTimeoutSeconds, " s of CPU time")
                                 : cat("execution ended by signal ", sig, " (", strsignal(sig), ")");
        } else {
          key = cat("exit-", WEXITSTATUS(status));
          msg = "the code under test ended the process (sanitizer report or exit call), see stderr";
        }
        if (crash_seen[t.s->name + key]++ < kMaxViolationsPerKey) {
          std::FILE* f = std::fopen(out.c_str(), "a");
          write_violation(f, t.s->name, {key, msg}, path);
          std::fclose(f);
        }
        // continue behind the crashing execution, a bounded number of times
        if (t.restarts < 40 && sh->in_execution && !resume.empty() && key != "no-termination") {
          t.restarts += 1;
          t.resume = resume;
          queue.push_back(t);
        } else {
          std::FILE* f = std::fopen(out.c_str(), "a");
          std::fprintf(f,
                       "{\"type\":\"stats\",\"scenario\":%s,\"shard\":%d,\"executions\":%llu,\"states\":0,"
                       "\"transitions\":0,\"validated\":0,\"truncated\":true,\"bounds\":%s,\"outcomes\":{},"
                       "\"samples\":[]}\n",
                       jesc(t.s->name).c_str(), t.shard, (unsigned long long)sh->executions,
                       jesc(t.s->bounds).c_str());
          std::fclose(f);
        }
      }
    }
    munmap(sh, sizeof(Shared));
  }
  return rc;
}

} // namespace mc

#ifndef MC_NO_MAIN
__attribute__((weak)) int main(int argc, char** argv) { return mc::main(argc, argv); }
#endif

#endif
