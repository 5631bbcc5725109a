// Options from scripts and the command line, log files of several processes, copies of the input file. MPI is simulated.
#include "mc.hpp"
#include <algorithm>
#include <cmath>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <numeric>
#include <set>
#include <sstream>
#include <unistd.h>
#include "fub/core/type_traits.hpp"
#include "fub/ext/CopyInputFile.hpp"
#include "fub/ext/Log.hpp"
#include "fub/ext/Mpi.hpp"
#include "fub/ext/ProgramOptions.hpp"
#include <fmt/format.h>
#include <boost/log/core.hpp>
#include <boost/log/sources/record_ostream.hpp>
namespace fs = std::filesystem;
namespace py = pybind11;
namespace { int sim_rank = 0; std::vector<std::vector<char>> casts; std::size_t n_cast = 0; bool cast_mismatch = false; }
extern "C" {
int MPI_Comm_rank(MPI_Comm, int* r) { *r = sim_rank; return MPI_SUCCESS; }
int MPI_Bcast(void* p, int n, MPI_Datatype t, int root, MPI_Comm) {
  const std::size_t bytes = std::size_t(n) * (t == MPI_INT ? 4 : 1);
  char* c = static_cast<char*>(p);
  if (sim_rank == root) casts.emplace_back(c, c + bytes);
  else if (n_cast < casts.size() && casts[n_cast].size() == bytes) { if (bytes) std::memcpy(c, casts[n_cast].data(), bytes); ++n_cast; }
  else cast_mismatch = true;
  return MPI_SUCCESS;
}
}
using namespace fub;
namespace fub { std::map<std::string, pybind11::object> ParsePythonScript(const boost::filesystem::path& path, MPI_Comm comm, const std::vector<std::string>& args); }
namespace {
void python() { static py::scoped_interpreter* i = new py::scoped_interpreter{}; (void)i; }
void forget_globals() { auto g = py::globals(); std::vector<std::string> keys; for (auto& [k, v] : g) keys.push_back(k.cast<std::string>()); for (auto& k : keys) if (k.substr(0, 2) != "__") PyDict_DelItemString(g.ptr(), k.c_str()); }
std::string repr(const py::object& o) { return py::repr(o).cast<std::string>(); }
// every execution works in its own directory
struct Scratch {
  fs::path root, old;
  Scratch() { char t[] = "/tmp/verif_log_XXXXXX"; if (!mkdtemp(t)) std::abort(); root = t; old = fs::current_path(); fs::current_path(root); }
  ~Scratch() { fs::current_path(old); if (root.string().rfind("/tmp/verif_log_", 0) == 0) fs::remove_all(root); }
};
std::string slurp(const fs::path& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
void spit(const fs::path& p, const std::string& t) { if (p.has_parent_path()) fs::create_directories(p.parent_path()); std::ofstream(p, std::ios::binary) << t; }
struct Capture { std::ostringstream out, err; std::streambuf *o, *e; Capture() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(err.rdbuf())) {} ~Capture() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };

template <typename T> void typed(mc::Ctx& ctx, const char* name, const T& given, const T& fallback, py::object wrong) {
  ProgramOptions o;
  const int kind = ctx.choose(4);
  if (kind == 1) o["key"] = py::cast(given);
  if (kind == 2) { o["key2"] = py::cast(given); o["ke"] = py::cast(given); o["Key"] = py::cast(given); }
  if (kind == 3) o["key"] = wrong;
  bool threw = false;
  T is = fallback;
  try { is = GetOptionOr(o, "key", fallback); } catch (py::cast_error&) { threw = true; } catch (py::error_already_set&) { threw = true; }
  if (kind == 3) ctx.check(threw, "value-of-wrong-type-accepted", name);
  else { ctx.check(!threw, "value-of-right-type-rejected", name); ctx.check(is == (kind == 1 ? given : fallback), kind == 1 ? "given-value-ignored" : "fallback-ignored", name); }
  ctx.transition();
  ctx.state(mc::Hash().add(std::string(name)).add(kind));
}
void values(mc::Ctx& ctx) {
  python();
  const py::object text = py::cast(std::string("text"));
  const int t = ctx.choose(10), v = ctx.choose(2);
  if (t == 0) typed<int>(ctx, "int", v ? -7 : 123456, 5, v ? text : py::cast(2.5));
  if (t == 1) typed<double>(ctx, "double", v ? -7.25 : 1e-300, 0.1, v ? text : py::cast(std::vector<double>{1.0}));
  if (t == 2) typed<std::string>(ctx, "string", v ? "" : "a b\nc", "fallback", v ? py::cast(3) : py::none());
  if (t == 3) typed<bool>(ctx, "bool", v, !v, text);
  if (t == 4) typed<std::vector<double>>(ctx, "doubles", v ? std::vector<double>{} : std::vector<double>{1.0, -2.5}, {3.0}, v ? py::cast(3) : py::cast(std::vector<std::string>{"x"}));
  if (t == 5) typed<std::vector<int>>(ctx, "ints", v ? std::vector<int>{} : std::vector<int>{4, 1, 4}, {9}, py::cast(1.5));
  if (t == 6) typed<std::vector<std::string>>(ctx, "strings", v ? std::vector<std::string>{} : std::vector<std::string>{"b", "", "a"}, {"z"}, py::cast(7));
  if (t == 7) typed<std::array<double, 2>>(ctx, "array", {1.0, v + 2.0}, {0.0, 0.0}, v ? py::cast(std::vector<double>{1.0}) : text);
  if (t == 8) { // Direction is given as number
    ProgramOptions o;
    const int k = ctx.choose(4), d = ctx.choose(3);
    if (k) o[k == 1 ? "dir" : "dirs"] = py::cast(int(k == 1 ? d : 2 - d));
    ctx.check(GetOptionOr(o, "dir", static_cast<Direction>((d + 1) % 3)) == static_cast<Direction>(k == 1 ? d : (d + 1) % 3), "direction-option", k, " ", d);
  }
  if (t == 9) {
    ProgramOptions o;
    const int k = ctx.choose(3);
    if (k) o[k == 1 ? "dt" : "DT"] = v ? py::cast(0.125) : py::cast(3);
    ctx.check(GetOptionOr(o, "dt", Duration(7.5)).count() == (k == 1 ? (v ? 0.125 : 3.0) : 7.5), "duration-option", k);
  }
  ctx.validated();
}
void nested(mc::Ctx& ctx) {
  python();
  const char* names[] = {"a", "b", "c"};
  ProgramOptions o;
  std::map<std::string, std::map<std::string, int>> want;
  mc::Hash h;
  for (int i = 0; i < 2; ++i) {
    const int present = ctx.choose(4);
    h.add(present);
    if (!present) continue;
    py::dict d;
    want[names[i]];
    for (int j = 0; j < present - 1; ++j) { const int v = ctx.range(1, 3); d[names[(i + j) % 3]] = v; want[names[i]][names[(i + j) % 3]] = v; h.add(v); }
    py::dict deep; deep["x"] = d;
    if (present == 3) d["deep"] = deep;
    o[names[i]] = d;
  }
  for (const char* n : names) {
    const ProgramOptions got = GetOptions(o, n);
    const auto& w = want[n];
    const bool deep = got.count("deep");
    ctx.check(got.size() - std::size_t(deep) == w.size(), "size-of-nested-options", n);
    for (auto& [k, v] : w) { ctx.check(got.count(k) == 1, "nested-option-missing", n, ".", k); ctx.check(GetOptionOr(got, k, -1) == v, "nested-option", n, ".", k); }
    if (deep) ctx.check(GetOptions(GetOptions(got, "deep"), "x").count("deep") == 1, "deeply-nested-option", n);
    ctx.transition();
  }
  ctx.validated();
  ctx.state(h);
}
void structs(mc::Ctx& ctx) {
  python();
  mc::Hash h;
  ProgramOptions o;
  if (ctx.flip()) {
    LogOptions want;
    const int a = ctx.choose(3), b = ctx.choose(3), c = ctx.choose(3);
    h.add(a).add(b).add(c);
    if (a) o["file_template"] = py::cast(want.file_template = a == 1 ? "" : "x/{rank}.log");
    if (b) o["which_mpi_ranks_do_log"] = py::cast(want.which_mpi_ranks_do_log = b == 1 ? std::vector<int>{} : std::vector<int>{3, 1});
    if (c) o["channel_blacklist"] = py::cast(want.channel_blacklist = c == 1 ? std::vector<std::string>{"z", "a"} : std::vector<std::string>{});
    const LogOptions is(o);
    ctx.check(is.file_template == want.file_template && is.which_mpi_ranks_do_log == want.which_mpi_ranks_do_log && is.channel_blacklist == want.channel_blacklist, "log-options", a, b, c);
  } else {
    InputFileOptions want;
    const int a = ctx.choose(3), b = ctx.choose(3);
    h.add(a).add(b).add(77);
    if (a) o["file_template"] = py::cast(want.file_template = a == 1 ? "y.py" : "x/y.py");
    if (b) o["copy_input_file"] = py::cast(want.copy_input_file = b == 2);
    const InputFileOptions is(o);
    ctx.check(is.file_template == want.file_template && is.copy_input_file == want.copy_input_file, "input-file-options", a, b);
  }
  ctx.transition();
  ctx.validated();
  ctx.state(h);
}
// scripts out of a small grammar with a model of what they define
struct Statement { const char* text; const char* name; const char* value; const char* needs; };
const Statement statements[] = {
    {"a = 1", "a", "1", nullptr}, {"a = a * 2.5", "a", nullptr, "a"}, {"__hidden = 3", nullptr, nullptr, nullptr}, {"_x = 'y'", "_x", "'y'", nullptr},
    {"d = {'k': [1, 2.0], 'n': {'m': None}}", "d", "{'k': [1, 2.0], 'n': {'m': None}}", nullptr}, {"# comment", nullptr, nullptr, nullptr}, {"s = \"\"\"two\nlines\"\"\"", "s", "'two\\nlines'", nullptr},
    {"def f(x):\n  y = x + 1\n  return y\ng = f(2)", "g", "3", nullptr}, {"for i in range(3):\n  j = i", "j", "2", nullptr}, {"import math\nt = math.floor(2.5)", "t", "2", nullptr}, {"raise ValueError('no')", nullptr, "raise", nullptr}, {"b = = 1", nullptr, "syntax", nullptr}};
struct Model { std::map<std::string, std::string> want; bool fails = false, hidden = false; };
std::string script(mc::Ctx& ctx, int n, Model& m) {
  std::string text;
  bool syntax = false;
  double a = 0;
  bool has_a = false, a_float = false;
  const int sep = ctx.choose(2);
  for (int k = 0; k < n; ++k) {
    const int i = ctx.choose(int(std::size(statements)));
    const Statement& s = statements[i];
    text += s.text;
    if (k + 1 < n || sep) text += "\n";
    if (s.value && std::string(s.value) == "syntax") { syntax = true; continue; }
    if (m.fails) continue;
    if (s.value && std::string(s.value) == "raise") { m.fails = true; continue; }
    if (i == 0) { a = 1; has_a = true; a_float = false; m.want["a"] = "1"; continue; }
    if (i == 1) { if (!has_a) { m.fails = true; continue; } a *= 2.5; a_float = true; m.want["a"] = repr(py::cast(a)); continue; }
    if (i == 2) m.hidden = true;
    if (s.name) m.want[s.name] = s.value;
  }
  (void)a_float;
  if (syntax) m.fails = true;
  return text;
}
void judge_options(mc::Ctx& ctx, const ProgramOptions& o, const Model& m, const std::string& text) {
  for (auto& [k, v] : m.want) {
    ctx.check(o.count(k) == 1, "definition-missing", k, " in\n", text);
    ctx.check(repr(o.at(k)) == v, "definition", k, " = ", repr(o.at(k)), " instead of ", v, " in\n", text);
  }
  for (auto& [k, v] : o) {
    ctx.check(k.rfind("__", 0) != 0, "hidden-name", k);
    static const std::set<std::string> helper{"f", "i", "math", "args"};
    ctx.check(m.want.count(k) || helper.count(k), "spurious-definition", k, " in\n", text);
  }
}
void scripts(mc::Ctx& ctx) {
  python();
  Scratch dir;
  Model m;
  const int n = ctx.range(0, ctx.thorough() ? 4 : 3);
  const std::string text = script(ctx, n, m);
  spit("in.py", text);
  casts.clear(); n_cast = 0; cast_mismatch = false;
  for (int rank = 0; rank < 2; ++rank) {
    sim_rank = rank;
    if (rank == 1) spit("in.py", "wrong = 1\n"); // only the first process reads the file
    forget_globals();
    bool threw = false;
    ProgramOptions o;
    try { o = ParsePythonScript("in.py", MPI_COMM_WORLD, {}); } catch (std::exception&) { threw = true; }
    ctx.check(threw == m.fails, m.fails ? "failing-script-accepted" : "script-rejected", text);
    if (!threw) judge_options(ctx, o, m, text);
    ctx.transition();
  }
  ctx.check(!cast_mismatch && n_cast == casts.size(), "broadcast-mismatch");
  sim_rank = 0;
  bool threw = false;
  try { ParsePythonScript("missing.py", MPI_COMM_WORLD, {}); } catch (std::exception&) { threw = true; }
  ctx.check(threw, "missing-script-accepted");
  ctx.validated();
  ctx.state(mc::Hash().add(text));
}
struct Args { std::vector<std::string> s; std::vector<char*> p; int argc() { p.clear(); for (auto& x : s) p.push_back(x.data()); p.push_back(nullptr); return int(s.size()); } };
void command_lines(mc::Ctx& ctx) {
  python();
  Scratch dir;
  // 0 --config ok  1 --config=ok  2 --config missing  3 --config broken  4 --args x 2  5 --help  6 --nonsense  7 --config <nothing>
  Args a;
  a.s = {"program"};
  spit("ok.py", "a = 4\nn = len(args) if 'args' in globals() else -1\nlast = args[-1] if n > 0 else ''\n");
  spit("broken.py", "a = undefined\n");
  std::set<int> used;
  const int n = ctx.range(0, 3);
  bool error = false, help = false, config = false, broken = false;
  int n_args = -1;
  for (int k = 0; k < n; ++k) {
    const int w = ctx.choose(8);
    const bool conf = w < 4 || w == 7;
    if (used.count(conf ? 0 : w)) throw mc::Prune{};
    used.insert(conf ? 0 : w);
    if (w == 7 && k + 1 != n) throw mc::Prune{};
    const std::vector<std::string> words[] = {{"--config", "ok.py"}, {"--config=ok.py"}, {"--config", "missing.py"}, {"--config", "broken.py"}, {"--args", "x", "2"}, {"--help"}, {"--nonsense"}, {"--config"}};
    for (auto& x : words[w]) a.s.push_back(x);
    if (w == 0 || w == 1) config = true;
    if (w == 2 || w == 3) broken = true;
    if (w == 4) n_args = 2;
    if (w == 5) help = true;
    if (w == 6 || w == 7) error = true;
  }
  std::string h; for (auto& x : a.s) h += x + " ";
  casts.clear(); n_cast = 0; cast_mismatch = false;
  for (int rank = 0; rank < 2; ++rank) {
    sim_rank = rank;
    forget_globals();
    Capture c;
    std::optional<ProgramOptions> o;
    const int argc = a.argc();
    o = ParseCommandLine(argc, a.p.data());
    const bool fails = error || broken;
    ctx.check(o.has_value() == !(fails || help), fails ? "error-accepted" : help ? "help-continues" : "valid-command-line-rejected", h, " rank ", rank);
    if (rank) ctx.check(c.out.str().empty() && c.err.str().empty(), "message-of-other-process", h, c.out.str(), c.err.str());
    else if (fails) ctx.check(!c.err.str().empty(), "error-not-reported", h);
    else if (help) for (const char* w : {"--config", "--args", "--help"}) ctx.check(c.out.str().find(w) != std::string::npos, "help-text", c.out.str());
    else ctx.check(c.out.str().empty() && c.err.str().empty(), "spurious-message", h, c.out.str(), c.err.str());
    if (o) {
      if (!config) ctx.check(o->empty(), "options-without-config", h);
      else {
        ctx.check(GetOptionOr(*o, "a", -1) == 4, "option-of-script", h);
        ctx.check(GetOptionOr(*o, "n", -5) == n_args, "number-of-arguments", h, GetOptionOr(*o, "n", -5));
        if (n_args > 0) ctx.check(GetOptionOr(*o, "last", std::string()) == "2", "argument", h);
      }
    }
    ctx.transition();
  }
  sim_rank = 0;
  ctx.check(!cast_mismatch && n_cast == casts.size(), "broadcast-mismatch", h);
  ctx.validated();
  ctx.state(mc::Hash().add(h));
}
// ---- log files ----
struct Message { int severity; std::string channel; bool time, level; std::string text; };
std::string prefix_of(const Message& m) {
  static const char* sev[] = {"trace", "debug", "info", "warning", "error", "fatal"};
  std::string p;
  if (!m.channel.empty()) p += "[" + m.channel + "] ";
  p += std::string("[") + sev[m.severity] + "] ";
  if (m.time) p += "[T =         0.25s] ";
  if (m.level) p += "[level = 3] ";
  return p;
}
void write(const Message& m) {
  using namespace boost::log::trivial;
  SeverityLogger log = GetLogger(static_cast<severity_level>(m.severity));

  if (!m.channel.empty()) log.add_attribute("Channel", boost::log::attributes::constant<std::string>(m.channel));
  if (m.time) log.add_attribute("Time", boost::log::attributes::constant<double>(0.25));
  if (m.level) log.add_attribute("Level", boost::log::attributes::constant<int>(3));
  BOOST_LOG(log) << m.text;
}
// what is written for the messages, without time stamps
std::vector<std::string> lines_of(const std::string& text, bool& ok) {
  std::vector<std::string> r;
  std::istringstream is(text);
  std::string l;
  while (std::getline(is, l)) { if (l.empty()) continue; auto p = l.find(" -- "); if (p == std::string::npos) { ok = false; r.push_back(l); } else r.push_back(l.substr(p + 4)); }
  return r;
}
std::vector<std::string> expected_lines(const std::vector<Message>& ms, const std::set<std::string>& blacklist, int least) {
  std::vector<std::string> r;
  for (auto& m : ms) {
    if (m.severity < least || blacklist.count(m.channel)) continue;
    if (m.text.empty() || m.text == "\n") continue;
    std::istringstream is(m.text + "\n");
    std::string l;
    while (std::getline(is, l)) r.push_back(prefix_of(m) + l);
  }
  return r;
}
struct Process {
  int rank; bool logs; std::string file;
};
void reset_log() { auto c = boost::log::core::get(); c->flush(); c->remove_all_sinks(); c->reset_filter(); }
void formats(mc::Ctx& ctx) {
  python();
  Scratch dir;
  const std::string texts[] = {"word", "x", "two\nlines", "three\n\nlines", "ends\n", "percent % {} brace"};
  LogOptions o;
  const int bl = ctx.choose(4);
  std::set<std::string> black;
  if (bl == 1) black = {"Solver"};
  if (bl == 2) { black = {"Solver", "HDF5", "Zeta"}; }
  if (bl == 3) { black = {"Alpha", "Omega"}; }
  o.channel_blacklist.assign(black.rbegin(), black.rend());
  std::vector<Message> ms;
  mc::Hash h;
  h.add(bl);
  const int n = ctx.range(1, 2);
  for (int k = 0; k < n; ++k) {
    Message m;
    m.severity = k ? ctx.pick({0, 2, 4}) : ctx.choose(6);
    const char* channels[] = {"", "Solver", "HDF5", "Solve"};
    m.channel = channels[ctx.choose(k && !ctx.thorough() ? 2 : 4)];
    m.time = k && !ctx.thorough() ? false : ctx.flip(); m.level = k ? m.severity == 2 : ctx.flip();
    m.text = texts[ctx.choose(k && !ctx.thorough() ? 3 : 6)];
    ms.push_back(m);
    h.add(m.severity).add(m.channel).add(int(m.time)).add(int(m.level)).add(m.text);
  }
  sim_rank = 0;
  reset_log();
  std::string console;
  { Capture c; InitializeLogging(MPI_COMM_WORLD, o); for (auto& m : ms) write(m); reset_log(); console = c.out.str(); }
  bool ok = true;
  const auto file = lines_of(slurp("0000.log"), ok), term = lines_of(console, ok);
  auto want = expected_lines(ms, black, 0), want_term = expected_lines(ms, {}, 2);
  ctx.check(ok, "line-without-prefix", slurp("0000.log"), console);
  auto show = [](const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += "|" + x + "|\n"; return s; };
  auto trim = [](std::vector<std::string> v) { for (auto& x : v) while (!x.empty() && x.back() == ' ') x.pop_back(); return v; };
  // a trailing line break may or may not yield an empty line
  auto drop = [&](std::vector<std::string> v) { std::vector<std::string> r; for (auto& x : trim(v)) if (x.empty() || x.back() != ']') r.push_back(x); return r; };
  ctx.check(drop(file) == drop(want), "log-file", "file:\n", show(file), "expected:\n", show(want));
  ctx.check(black.count("Solver") || black.count("HDF5") || drop(term) == drop(want_term), "console", "console:\n", show(term), "expected:\n", show(want_term));
  ctx.transition();
  ctx.validated();
  ctx.state(h);
}
// several processes, in any order, start to log in a directory which has some history
void files(mc::Ctx& ctx) {
  python();
  Scratch dir;
  const std::string templates[] = {"{rank:04d}.log", "out/logs/{rank}.txt", "./{rank}"};
  LogOptions o;
  o.file_template = templates[ctx.choose(3)];
  const int n_ranks = ctx.range(1, 3);
  o.which_mpi_ranks_do_log = ctx.pick<std::vector<int>>({{0}, {1}, {0, 1}, {}, {2, 0}});
  auto name = [&](int r) { return fmt::format(o.file_template, fmt::arg("rank", r)); };
  std::map<std::string, std::string> before; // content -> kind
  mc::Hash h;
  auto old = [&](const std::string& p) { const std::string c = "old content of <" + p + ">"; spit(p, c); before[c] = p; };
  const int history = ctx.choose(6), second = ctx.choose(3);
  h.add(history).add(second).add(o.file_template).add(n_ranks).add(int(o.which_mpi_ranks_do_log.size()));
  if (history >= 1 && history <= 4) old(name(0));
  if (history == 2 || history == 3) old(name(0) + ".1");
  if (history == 3 || history == 4) old(name(0) + ".2");
  if (history == 5) { fs::create_directories(name(0)); old(name(0) + "/inside"); }
  if (second >= 1) old(name(1));
  if (second == 2) old(name(1) + ".1");
  std::vector<int> left(n_ranks);
  std::iota(left.begin(), left.end(), 0);
  std::map<int, std::string> said;
  std::string order, console_other;
  while (!left.empty()) {
    const int k = ctx.choose(int(left.size()));
    sim_rank = left[k];
    left.erase(left.begin() + k);
    order += mc::cat(sim_rank, " ");
    h.add(sim_rank);
    said[sim_rank] = mc::cat("message of process ", sim_rank);
    reset_log();
    Capture c;
    InitializeLogging(MPI_COMM_WORLD, o);
    write({4, "", false, false, said[sim_rank]});
    reset_log();
    const auto& w = o.which_mpi_ranks_do_log;
    const bool logs = std::find(w.begin(), w.end(), sim_rank) != w.end();
    ctx.check((c.out.str().find(said[sim_rank]) != std::string::npos) == logs, logs ? "console-silent" : "console-of-silent-process", sim_rank, " order ", order);
  }
  std::vector<std::string> contents;
  std::string all;
  for (auto& e : fs::recursive_directory_iterator(dir.root)) if (e.is_regular_file()) { contents.push_back(slurp(e.path())); all += mc::cat(e.path().filename().string(), " "); }
  auto count = [&](const std::string& t) { int n = 0; for (auto& c : contents) n += c.find(t) != std::string::npos; return n; };
  for (auto& [c, p] : before) ctx.check(count(c) == 1, "old-log-lost", p, " in order ", order, " files: ", all);
  for (auto& [r, t] : said) {
    const auto& w = o.which_mpi_ranks_do_log;
    const bool logs = std::find(w.begin(), w.end(), r) != w.end();
    ctx.check(count(t) == int(logs), logs ? "message-not-logged" : "silent-process-logs", r, " in order ", order, " files: ", all);
    if (logs && !(history == 5 && r == 0)) ctx.check(slurp(name(r)).find(t) != std::string::npos, "log-in-wrong-file", r, " files: ", all);
    ctx.transition();
  }
  // the first free number is used
  if (history >= 1 && history <= 4 && std::count(o.which_mpi_ranks_do_log.begin(), o.which_mpi_ranks_do_log.end(), 0)) {
    const int number[] = {0, 1, 2, 3, 1};
    ctx.check(slurp(mc::cat(name(0), ".", number[history])) == "old content of <" + name(0) + ">", "number-of-old-log", history, " files: ", all);
  }
  sim_rank = 0;
  ctx.validated();
  ctx.state(h);
}
void copies(mc::Ctx& ctx) {
  Scratch dir;
  InputFileOptions o;
  o.copy_input_file = ctx.flip();
  const std::string targets[] = {"input.py", "out/input.py", "a/b/c.py", "in.py", "./in.py"};
  const int t = ctx.choose(5), form = ctx.choose(4), old = ctx.choose(3);
  sim_rank = ctx.choose(2);
  o.file_template = targets[t];
  const std::string content = "a = 1\n# input\n";
  spit("in.py", content);
  std::string before;
  const bool itself = t >= 3;
  if (old && !itself) { before = old == 1 ? "x" : std::string(5000, 'y'); spit(targets[t], before); }
  if (old && itself) throw mc::Prune{};
  Args a;
  a.s = {"program"};
  if (form == 1) a.s.insert(a.s.end(), {"--config", "in.py"});
  if (form == 2) a.s.insert(a.s.end(), {"--args", "x", "y", "--config=in.py"});
  if (form == 3) a.s.insert(a.s.end(), {"--args", "x"});
  const int argc = a.argc();
  std::string what;
  try { CopyInputFile(MPI_COMM_WORLD, o, argc, a.p.data()); } catch (std::exception& e) { what = e.what(); }
  ctx.check(what.empty(), "copy-fails", targets[t], ": ", what);
  ctx.check(slurp("in.py") == content, "input-file-changed", targets[t]);
  const bool copied = o.copy_input_file && sim_rank == 0 && (form == 1 || form == 2);
  if (copied) ctx.check(slurp(targets[t]) == content, "copy", targets[t], " is '", slurp(targets[t]).substr(0, 100), "'");
  else if (!itself) ctx.check(fs::exists(targets[t]) == !before.empty() && slurp(targets[t]) == before, "spurious-copy", targets[t]);
  ctx.transition();
  sim_rank = 0;
  ctx.validated();
  ctx.state(mc::Hash().add(t).add(form).add(old).add(int(o.copy_input_file)));
}
} // namespace
SCENARIO("option-values", "10 types x 2 values x given, absent, similar names, wrong type", 2) { values(ctx); }
SCENARIO("nested-options", "2 groups with 0..3 entries each, values 1..3, two levels deep", 2) { nested(ctx); }
SCENARIO("option-structures", "all subsets of the log and input file options x 2 values", 1) { structs(ctx); }
SCENARIO("scripts", "all scripts of up to 3 (4) out of 12 statements, on two processes", 3) { scripts(ctx); }
SCENARIO("command-lines", "all sequences of up to 3 out of 8 arguments, on two processes", 2) { command_lines(ctx); }
SCENARIO("log-lines", "1 or 2 messages x severity x channel x time x level x text x blacklist", 3) { formats(ctx); }
SCENARIO("log-files", "3 templates x 1..3 processes in all orders x 5 sets of logging processes x 6x3 directories", 3) { files(ctx); }
SCENARIO("input-copies", "5 targets x 4 command lines x 3 directories x copy flag x process", 2) { copies(ctx); }
