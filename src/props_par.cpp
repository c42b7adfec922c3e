// P27: conversions do not influence one another: one after the other, one inside the other, or side by side.
#include "core.hpp"
#include "machine.hpp"
#include "weld.hpp"
#include "gen.hpp"
#include "straight.hpp"
#include "proc.hpp"
#include <atomic>
#include <cfenv>
#include <clocale>
#include <csignal>
#include <locale>
#include <thread>
#include <mutex>

namespace vh {
// A job is a whole conversion; the jobs of a case are kept in it as keys "k.name" and lines "k|text".
static Case jobOf(const Case& c, int k) {
  Case j; std::string p = std::to_string(k);
  for (auto& e : c.kv) if (e.first.compare(0, p.size() + 1, p + ".") == 0) j.kv[e.first.substr(p.size() + 1)] = e.second;
  for (auto& l : c.lines) if (l.compare(0, p.size() + 1, p + "|") == 0) j.lines.push_back(l.substr(p.size() + 1));
  return j;
}
static void addJob(Case& c, int k, const Case& j) { std::string p = std::to_string(k); for (auto& e : j.kv) c.kv[p + "." + e.first] = e.second; for (auto& l : j.lines) c.lines.push_back(p + "|" + l); }
static std::string jobText(const Case& j) { std::string t = caseText(j); long long rep = std::min(60LL, j.integer("rep", 1)); if (rep > 1) { if (!t.empty() && t.back() != '\n') t += "\n"; std::string o; while (rep-- > 0) o += t; return o; } return t; }
struct NoBuf : std::streambuf { int overflow(int ch) override { return ch == EOF ? 0 : ch; } std::streamsize xsputn(const char*, std::streamsize k) override { return k; } }; // has no state, so threads may share it
struct Quiet { std::streambuf* o; NoBuf sink; Quiet() { o = std::cout.rdbuf(&sink); } ~Quiet() { std::cout.rdbuf(o); } };

// runs one job on files of its own in dir (which other jobs use too); the answer is everything there is to see of it
static std::string runJob(const Case& j, const std::string& dir, const std::string& name, logger& lg, progress_callback cb = nullptr) {
  std::string s = dir + "/" + name + ".gcode", d = j.integer("inplace", 0) ? s : dir + "/" + name + ".out", text = jobText(j), out, r; writeFile(s, text); if (d != s) remove(d.c_str());
  if (j.get("tool") == "str") {
    arc_interpolation_args g; g.firmware_args = fwArgs(FwCfg::of(j), j); g.source_path = s; g.target_path = d; bool ok; { arc_interpolation i(g); ok = i.process(); } r = fmt("success=%d\n", (int)ok);
  } else {
    WeldCfg w = WeldCfg::of(j); if (cb) w.period = -1; arc_welder_results x; { arc_welder a(weldArgs(w, s, d, &lg, cb)); x = a.process(); }
    auto& p = x.progress; auto& q = p.segment_statistics;
    r = fmt("success=%d cancelled=%d lines=%d commands=%d points=%d arcs=%d rate=%d comp=%d len=%d src=%ld tgt=%ld %.9g%% ratio=%.9g counts=%d/%d lengths=%.9g/%.9g retract=%d/%d travel=%d/%d", (int)x.success, (int)x.cancelled, p.lines_processed, p.gcodes_processed, p.points_compressed, p.arcs_created, p.arcs_aborted_by_flow_rate, p.num_firmware_compensations, p.num_gcode_length_exceptions, p.source_file_size, p.target_file_size, p.percent_complete, p.compression_ratio, q.total_count_source, q.total_count_target, q.total_length_source, q.total_length_target, p.segment_retraction_statistics.total_count_source, p.segment_retraction_statistics.total_count_target, p.travel_statistics.total_count_source, p.travel_statistics.total_count_target);
    for (int k = 0; k < 13; ++k) r += fmt(" %d/%d", q.source_segments[k].count, q.target_segments[k].count); r += " '" + x.message + "'\n";
  }
  bool read = readFile(d, out); if (d != s) { std::string src; readFile(s, src); if (src != text) r += "the source was changed\n"; }
  return r + (read ? out : "no target\n");
}
// What a conversion could leave changed for everything else in the process.
extern "C" char** environ;
static std::string processState() {
  std::string s = fmt("synchronised with C streams=%d", (int)std::ios_base::sync_with_stdio(true)); // asking for what is the default changes nothing
  auto st = [&](const char* n, std::ios& x) { s += fmt("|%s buffer=%p format=%x/%d/%d/%d exceptions=%x tied=%p locale=%s", n, (void*)x.rdbuf(), (unsigned)x.flags(), (int)x.precision(), (int)x.width(), (int)x.fill(), (unsigned)x.exceptions(), (void*)x.tie(), x.getloc().name().c_str()); };
  st("cout", std::cout); st("cerr", std::cerr); st("clog", std::clog); st("cin", std::cin);
  s += "|C++ locale=" + std::locale().name() + fmt("|C locale=%s|rounding=%d", setlocale(LC_ALL, nullptr), fegetround()); char b[4096]; s += std::string("|directory=") + (getcwd(b, sizeof b) ? b : "?"); mode_t m = umask(022); umask(m); s += fmt("|umask=%o", (unsigned)m);
  for (int i = 1; i < 32; ++i) { struct sigaction a; if (i != SIGALRM && !sigaction(i, nullptr, &a)) s += fmt("|signal %d=%p", i, (void*)a.sa_handler); } uint64_t h = 0; for (char** e = environ; e && *e; ++e) h = h * 31 + fnv(*e); return s + fmt("|environment=%llx", (unsigned long long)h);
}
static std::string changedState(const std::string& a, const std::string& b) { if (a == b) return ""; std::stringstream x(a), y(b); std::string p, q; while (std::getline(x, p, '|') && std::getline(y, q, '|') && p == q) {} return "the process's " + p + " becomes " + q; }
static logger* jobLogger() { auto* l = new logger({"arc_welder.gcode_conversion"}, {(int)log_levels::CRITICAL}); l->set_log_level(log_levels::CRITICAL); return l; }

// A process that has converted nothing yet forks one child per job: what the job gives alone.
static int g_ask[2], g_ans[2]; static pid_t g_zygote;
static void startZygote() {
  if (g_zygote) return; scratch(); if (pipe(g_ask) || pipe(g_ans)) exit(3); g_zygote = fork(); if (g_zygote < 0) exit(3); if (g_zygote > 0) { close(g_ask[0]); close(g_ans[1]); return; }
  close(g_ask[1]); close(g_ans[0]); alarm(0); char b;
  while (read(g_ask[0], &b, 1) == 1) {
    pid_t p = fork(); if (p == 0) { alarm(60); std::string t, d = scratch() + "/solo"; Quiet q; readFile(d + "/job.case", t); mkdir((d + "/w").c_str(), 0755); logger* l = jobLogger(); std::string s0 = processState(), r = runJob(Case::parse(t), d + "/w", "j", *l), ch = changedState(s0, processState()); writeFile(d + "/answer", r); writeFile(d + "/state", ch); _exit(0); }
    int st = 0; waitpid(p, &st, 0); char a = WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 'y' : 'n'; if (write(g_ans[1], &a, 1) != 1) break;
  }
  _exit(0);
}
static bool solo(const Case& j, std::string& out, std::string& changed) { std::string d = scratch() + "/solo"; mkdir(d.c_str(), 0755); unlink((d + "/answer").c_str()); writeFile(d + "/job.case", j.str()); char b = 'x'; if (write(g_ask[1], &b, 1) != 1 || read(g_ans[0], &b, 1) != 1) exit(3); return b == 'y' && readFile(d + "/answer", out) && readFile(d + "/state", changed); }

static std::string diff(const std::string& a, const std::string& b) { auto x = splitLines(a), y = splitLines(b); size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) ++i; return fmt("line %zu of the result is '%s', alone it is '%s'", i + 1, i < y.size() ? escape(y[i]).substr(0, 700).c_str() : "<end>", i < x.size() ? escape(x[i]).substr(0, 700).c_str() : "<end>"); }

// nested: the outer conversion's callback converts another file
struct Nest { const Case* inner; const std::string* want; std::string dir, bad; int calls = 0, done = 0; };
static Nest* g_nest;
static bool nestCall(arc_welder_progress p, logger*, int) { Nest* n = g_nest; ++n->calls; if (n->done < 6) { ++n->done; g_nest = nullptr; logger* l = jobLogger(); std::string r = runJob(*n->inner, n->dir, "inner", *l); delete l; g_nest = n; if (r != *n->want && n->bad.empty()) n->bad = fmt("inside update %d (line %d) of another: ", n->calls, p.lines_processed) + diff(*n->want, r); } return true; }

static Case genP27(Rng& r) {
  Case c; int kind = (int)r.range(0, 2); c.set("kind", kind == 0 ? "seq" : kind == 1 ? "nest" : "par"); int n = kind == 1 ? 2 : (int)r.range(2, 4); c.seti("n", n);
  for (int k = 0; k < n; ++k) {
    Profile p; p.maxBlocks = (int)r.range(1, 4); p.pRateVar = 0.2; Case j;
    if (k && r.chance(0.3)) { j = jobOf(c, k - 1); if (r.chance(0.7)) { for (auto key : {"res", "ptol", "dyn", "xp", "ep", "d3", "travel", "g90e", "erv", "maxlen"}) if (r.chance(0.5)) j.kv.erase(key); Case o; genWeldCfg(r, o, p); for (auto& e : o.kv) j.kv[e.first] = e.second; } } // the same program with other settings
    else j = genWeldCase(r, p);
    if ((kind != 1 || k) && r.chance(0.3)) { j.set("tool", "str"); genFwArgs(r, j); p.pSourceArc = 0.5; p.pState = 0.8; Case t = genWeldCase(r, p); j.lines = t.lines; }
    if (kind == 1 && !k) { j.kv.erase("tool"); j.seti("rep", std::min<long long>(60, 1 + r.range(1000, 4000) / std::max<long long>(1, (long long)j.lines.size()))); }
    if (r.chance(0.3) && j.get("tool") != "str") j.seti("inplace", 1);
    addJob(c, k, j);
  }
  if (kind == 0) { std::string o; int m = (int)r.range(n, 8); for (int i = 0; i < m; ++i) o += (char)('0' + (i < n ? i : (int)r.range(0, n - 1))); c.set("order", o); }
  if (kind == 2) c.seti("rounds", r.range(2, 10));
  return c;
}
static Result p27(const Case& c) {
  Result R; startZygote(); int n = (int)std::min(8LL, c.integer("n", 2)); std::string kind = c.get("kind", "seq"), dir = scratch() + "/jobs"; if (n < 1) { R.discard = true; return R; }
  std::vector<Case> jobs; std::vector<std::string> want(n); int worked = 0;
  for (int k = 0; k < n; ++k) { jobs.push_back(jobOf(c, k)); std::string changed; if (!solo(jobs[k], want[k], changed)) { R.discard = true; R.msg = "the job alone does not end"; return R; } // not this property's business
    if (!changed.empty()) { R.fail(fmt("after job %d ", k) + changed); return R; }
    std::string o = want[k]; worked += o.find("\nG2 ") != std::string::npos || o.find("\nG3 ") != std::string::npos || (jobs[k].get("tool") == "str" && o.find("\nG1 ") != std::string::npos); }
  if (system(("rm -rf '" + dir + "' && mkdir '" + dir + "'").c_str())) exit(3);
  std::vector<bool> ran(n, false); std::string s0;
  { Quiet q; s0 = processState();
    if (kind == "seq") {
      std::string order = c.get("order"); if (order.empty()) order = "01"; std::string before;
      static logger* shared = jobLogger();
      for (char ch : order) { int k = (ch - '0') % n; if (k < 0) k = 0; ran[k] = true; std::string r = runJob(jobs[k], dir, "j" + std::to_string(k), *shared); if (r != want[k]) { R.fail("job " + std::string(1, (char)('0' + k)) + " after jobs " + (before.empty() ? "of earlier cases" : before) + ": " + diff(want[k], r)); break; } before += (char)('0' + k); R.stat["conversions_in_sequence"]++; }
    } else if (kind == "nest") {
      if (n < 2) { R.discard = true; return R; } Nest x; x.inner = &jobs[1]; x.want = &want[1]; x.dir = dir; g_nest = &x; logger* l = jobLogger(); std::string r = runJob(jobs[0], dir, "outer", *l, nestCall); g_nest = nullptr; delete l; ran[0] = ran[1] = true;
      if (!x.bad.empty()) R.fail("a conversion " + x.bad); else if (r != want[0]) R.fail(fmt("a conversion with %d others inside its updates: ", x.done) + diff(want[0], r)); R.stat["conversions_inside_another"] += x.done; if (x.calls > 2) R.stat["nested_in_mid_run"]++;
    } else {
      long long rounds = std::min(50LL, c.integer("rounds", 3)); std::vector<std::thread> th; std::mutex mu; std::string bad; std::atomic<int> ready{0}, done{0};
      for (int k = 0; k < n; ++k) th.emplace_back([&, k] { logger* l = jobLogger(); ++ready; while (ready < n) std::this_thread::yield(); for (long long i = 0; i < rounds; ++i) { std::string r = runJob(jobs[k], dir, "j" + std::to_string(k), *l); ++done; if (r != want[k]) { std::lock_guard<std::mutex> g(mu); if (bad.empty()) bad = fmt("job %d beside %d others: ", k, n - 1) + diff(want[k], r); break; } } delete l; });
      for (auto& t : th) t.join(); ran.assign(n, true); if (!bad.empty()) R.fail(bad); R.stat["conversions_side_by_side"] += done;
    }
    std::string ch = changedState(s0, processState()); if (R.ok && !ch.empty()) R.fail("after the jobs " + ch);
  }
  // nothing else appears in the directory they share
  std::set<std::string> expect; auto put = [&](int k, const std::string& nm) { if (!ran[k]) return; expect.insert(nm + ".gcode"); if (!jobs[k].integer("inplace", 0)) expect.insert(nm + ".out"); };
  if (kind == "nest") { put(0, "outer"); put(1, "inner"); } else for (int k = 0; k < n; ++k) put(k, "j" + std::to_string(k));
  if (R.ok) for (auto& f : listDir(dir)) if (!expect.count(f)) R.fail("a file is left over: " + f);
  R.nontrivial = worked >= 2; R.stat["kind_" + kind]++; return R;
}
static Registrar a27({"P27", "two to four conversions (welding and straightening, settings of their own, files in one directory), in sequence with repetitions, inside each other's progress updates, or in threads side by side; each compared with the same conversion alone in a fresh process; non-trivial: at least two of them wrote arcs or segments", genP27, p27, true, 800, 15000});
} // namespace vh
