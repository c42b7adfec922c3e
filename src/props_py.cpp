// P22: the Python module against the library and the command-line tool.
#include "core.hpp"
#include "machine.hpp"
#include "weld.hpp"
#include "gen.hpp"
#include "straight.hpp" // Silence
#include "proc.hpp"
#include <poll.h>
#include <regex>

namespace vh {
// ---- the interpreter, one per worker process
struct Py {
  pid_t pid = -1; int in = -1, out = -1; std::string buf;
  void stop() { if (pid > 0) { close(in); close(out); kill(pid, SIGKILL); int s; waitpid(pid, &s, 0); } pid = -1; buf.clear(); }
  bool start() {
    int a[2], b[2]; if (pipe(a) || pipe(b)) return false; signal(SIGPIPE, SIG_IGN); pid = fork(); if (pid < 0) return false;
    if (pid == 0) { setpgid(0, 0); dup2(a[0], 0); dup2(b[1], 1); int n = open("/dev/null", O_WRONLY); dup2(n, 2); for (int f = 3; f < 64; ++f) close(f); const char* d = getenv("VH_DATA"); std::string s = std::string(d ? d : "/verif/data") + "/pyserver.py"; setenv("VH_BIN", binDir().c_str(), 1); setenv("VH_DATA", d ? d : "/verif/data", 1); setenv("VH_PRINTED", (scratch() + "/printed").c_str(), 1); setenv("VH_NESTED", (scratch() + "/nested.gcode").c_str(), 1); setenv("PYTHONDONTWRITEBYTECODE", "1", 1); setenv("LD_PRELOAD", (binDir() + "/clockstep.so").c_str(), 1); alarm(0); signal(SIGALRM, SIG_DFL); const char* e = getenv("VH_PYTHON"); execl(e ? e : "/usr/bin/python3", "python3", "-s", s.c_str(), (char*)nullptr); _exit(127); }
    close(a[0]); close(b[1]); in = a[1]; out = b[0]; return true;
  }
  // lines of the answer; false when the interpreter died or hangs
  bool ask(const std::string& file, std::vector<std::string>& ans, std::string& why) {
    if (pid < 0 && !start()) { why = "cannot start python"; return false; }
    std::string q = file + "\n"; if (write(in, q.data(), q.size()) != (ssize_t)q.size()) { why = death(); return false; }
    for (;;) {
      size_t e; while ((e = buf.find('\n')) != std::string::npos) { std::string l = buf.substr(0, e); buf.erase(0, e + 1); if (l == "END") return true; ans.push_back(l); }
      struct pollfd p { out, POLLIN, 0 }; int k = poll(&p, 1, 60000); if (k <= 0) { why = "no answer within 60 s"; stop(); return false; }
      char t[65536]; ssize_t n = read(out, t, sizeof t); if (n <= 0) { why = death(); return false; } buf.append(t, (size_t)n);
    }
  }
  std::string death() { int s = 0; close(in); close(out); waitpid(pid, &s, 0); pid = -1; buf.clear(); return WIFSIGNALED(s) ? fmt("the interpreter was ended by signal %d", WTERMSIG(s)) : fmt("the interpreter ended with %d", WEXITSTATUS(s)); }
};
static Py& py() { static Py p; return p; }
struct PyCall { arc_welder_progress p; };
static std::vector<arc_welder_progress>* g_pl; static int g_ps;
static bool pyRecord(arc_welder_progress p, logger*, int) { int n = (int)g_pl->size(); g_pl->push_back(p); return n != g_ps; }

static const std::vector<std::string> kDbl{"resolution_mm", "path_tolerance_percent", "max_radius_mm", "mm_per_arc_segment", "extrusion_rate_variance_percent", "default_xyz_precision", "default_e_precision"};
static const std::vector<std::string> kInt{"min_arc_segments", "max_gcode_length", "allow_3d_arcs", "allow_travel_arcs", "allow_dynamic_precision", "g90_g91_influences_extruder", "log_level"};
static const std::vector<std::string> kReq{"guid", "source_path", "target_path", "on_progress_received"};
static Case genP22(Rng& r) {
  Profile p; p.maxBlocks = (int)r.range(1, 4); p.pRateVar = 0.4; Case g = genWeldCase(r, p), c; c.lines = g.lines; for (auto k : {"crlf", "nonl"}) if (g.has(k)) c.kv[k] = g.kv[k];
  double dens = r.chance(0.1) ? 0 : r.chance(0.3) ? 1 : r.real(0.1, 0.9); auto some = [&] { return r.chance(dens); }; auto put = [&](const char* k, const std::vector<std::string>& v) { if (some()) c.set(std::string("a_") + k, r.pick(v)); };
  put("resolution_mm", {"0.05", "0.1", "0.01", "0.2", "1", "0.5", "0", "-1", "-0.0", "0.025", "True"}); put("path_tolerance_percent", {"0.05", "0.01", "0.001", "0.5", "0.99", "-0.1", "-3", "0.02"}); put("max_radius_mm", {"9999", "100", "20", "5", "1000000", "1e12", "9999.5", "10000", "2.5", "inf", "2000", "1000", "500.5"});
  if (r.chance(dens * 0.4)) { c.set("a_mm_per_arc_segment", r.pick(std::vector<std::string>{"1", "0.5", "0", "-1", "2.5"})); c.set("a_min_arc_segments", r.pick(std::vector<std::string>{"14", "0", "-3", "6", "24", "1", "2"})); } else { put("mm_per_arc_segment", {"0", "0.0", "-1", "1"}); if (!c.has("a_mm_per_arc_segment")) put("min_arc_segments", {"0", "-1", "5", "1"}); }
  put("extrusion_rate_variance_percent", {"0", "0.05", "0.01", "0.5", "-0.05", "-1", "2"}); put("default_xyz_precision", {"3", "4", "5", "6", "2", "0", "-5", "7", "260", "4.0", "5.9", "2.999", "1e9", "nan"}); put("default_e_precision", {"3", "4", "5", "6", "2", "-1", "9", "259", "3.5", "6.5", "256"});
  put("max_gcode_length", {"0", "31", "45", "50", "60", "100", "-1", "40"}); for (auto k : {"allow_3d_arcs", "allow_travel_arcs", "allow_dynamic_precision", "g90_g91_influences_extruder"}) put(k, {"True", "False", "1", "0", "True", "False", "-1", "2"}); put("log_level", {"0", "5", "10", "20", "30", "40", "50", "17", "-1"});
  c.set("cb", r.chance(0.4) ? r.pick(std::vector<std::string>{"none", "true", "mix"}) : r.pick(std::vector<std::string>{"false", "zero", "neg", "raise", "odd", "exit", "intr", "str", "float", "list", "big", "negbig"}) + "@" + std::to_string(r.pick(std::vector<int>{0, 1, 1, 2, 2, 3, 4, 6})));
  if (r.chance(0.15)) { c.set("cb", r.pick(std::vector<std::string>{"nest", "thread"}) + "@" + std::to_string(r.pick(std::vector<int>{0, 0, 1, 1, 2, 3}))); c.set("change", r.pick(std::vector<std::string>{"{}", "{'log_level': 40}", "{'log_level': 5}"})); }
  c.seti("rep", r.pick(std::vector<int>{1, 1, 5, 20, 40})); if (r.chance(0.6)) c.seti("pad", r.range(0, 3100));
  if (r.chance(0.35)) c.seti("inplace", 1); c.seti("name", r.range(0, 4)); if (r.chance(0.35)) c.seti("cli", 1); if (r.chance(0.3)) c.set("pre", r.pick(std::vector<std::string>{"raise", "drop", "type", "cancel", "none", "nosrc"}));
  if (r.chance(0.22)) { // one thing that must raise
    static const std::vector<std::string> wrongNum{"'1'", "None", "[]", "10**400", "1j", "b'1'", "object()", "{}"};
    switch (r.range(0, 6)) {
      case 0: c.set("drop", r.pick(kReq)); break; case 1: c.set("a_" + r.pick(kReq), r.pick(std::vector<std::string>{"None", "5", "b'x'", "[]", "'\\ud800'"})); break;
      case 2: c.set("a_" + r.pick(kDbl), r.pick(wrongNum)); break; case 3: c.set("a_" + r.pick(kInt), r.chance(0.3) ? "1.5" : r.pick(wrongNum)); break;
      case 4: c.set("arg", r.pick(std::vector<std::string>{"None", "[]", "5", "", "args, args", "'x'", "args=args", "{}", "[args]"})); break; default: c.set("env", r.pick(std::vector<std::string>{"nosrc", "nodir", "srcdir", "dstdir"})); c.kv.erase("inplace"); } }
  if (c.has("a_on_progress_received") && c.get("a_on_progress_received")[0] == '\'') c.set("a_on_progress_received", "'x'");
  return c;
}
static bool isInt(const std::string& e, long long& v) { if (e == "True") { v = 1; return true; } if (e == "False") { v = 0; return true; } size_t i = e.size() && e[0] == '-'; if (i >= e.size() || e.size() > 18) return false; for (size_t k = i; k < e.size(); ++k) if (!isdigit((unsigned char)e[k])) return false; v = strtoll(e.c_str(), nullptr, 10); return true; }
static bool isNum(const std::string& e, double& v) { long long i; if (isInt(e, i)) { v = (double)i; return true; } if (e == "inf" || e == "nan") { v = strtod(e.c_str(), nullptr); return true; } char* q; v = strtod(e.c_str(), &q); return !e.empty() && !*q && (isdigit((unsigned char)e[0]) || e[0] == '-' || e[0] == '.'); }
static std::string pyStr(const std::string& s) { std::string o = "'"; for (char ch : s) { if (ch == '\'' || ch == '\\') o += '\\'; o += ch; } return o + "'"; }
typedef std::map<std::string, std::string> Dict;
static std::string cmpProgress(const Dict& d, const arc_welder_progress& p, const std::string& guid, bool) {
  auto& s = p.segment_statistics; auto& t = p.travel_statistics;
  std::vector<std::pair<const char*, double>> want{{"percent_complete", p.percent_complete}, {"gcodes_processed", (double)p.gcodes_processed}, {"lines_processed", (double)p.lines_processed}, {"points_compressed", (double)p.points_compressed}, {"arcs_created", (double)p.arcs_created}, {"arcs_aborted_by_flowrate", (double)p.arcs_aborted_by_flow_rate}, {"num_firmware_compensations", (double)p.num_firmware_compensations}, {"num_gcode_length_exceptions", (double)p.num_gcode_length_exceptions}, {"source_file_position", (double)p.source_file_position}, {"source_file_size", (double)p.source_file_size}, {"target_file_size", (double)p.target_file_size}, {"compression_ratio", p.compression_ratio}, {"compression_percent", p.compression_percent},
    {"source_file_total_length", s.total_length_source}, {"target_file_total_length", s.total_length_target}, {"source_file_total_count", (double)s.total_count_source}, {"target_file_total_count", (double)s.total_count_target}, {"source_file_total_travel_length", t.total_length_source}, {"target_file_total_travel_length", t.total_length_target}, {"source_file_total_travel_count", (double)t.total_count_source}, {"target_file_total_travel_count", (double)t.total_count_target},
    {"total_count_reduction_percent", s.total_count_source ? 100.0 * ((double)s.total_count_target / (double)s.total_count_source - 1.0) : s.get_total_count_reduction_percent()}, {"total_travel_count_reduction_percent", t.total_count_source ? 100.0 * ((double)t.total_count_target / (double)t.total_count_source - 1.0) : t.get_total_count_reduction_percent()}};
  for (auto& w : want) { auto i = d.find(w.first); if (i == d.end()) return std::string("no '") + w.first + "' is given"; double v = strtod(i->second.c_str(), nullptr); if (!(v == w.second || (std::isnan(v) && std::isnan(w.second)) || std::fabs(v - w.second) <= 1e-5 * std::max(1.0, std::fabs(w.second)))) return std::string(w.first) + fmt(" is %s, should be %.9g", i->second.c_str(), w.second); }
  for (auto k : {"seconds_elapsed", "seconds_remaining"}) { auto i = d.find(k); if (i == d.end()) return std::string("no '") + k + "' is given"; double v = strtod(i->second.c_str(), nullptr); if (!(v >= 0)) return std::string(k) + " is " + i->second; }
  auto g = d.find("guid"); if (g == d.end() || g->second != pyStr(guid)) return "the job's guid is not given back"; return "";
}
static Result p22(const Case& c) {
  Result R; std::string unit = caseText(c), text; bool nonl = c.integer("nonl", 0); long long rep = std::max(1LL, std::min(40LL, c.integer("rep", 1)));
  for (long long i = 0; i < std::min(5000LL, c.integer("pad", 0)); ++i) text += i % 3 ? "M106 S5\n" : "\n"; for (long long i = 0; i < rep; ++i) { text += unit; if (nonl && i + 1 < rep) text += "\n"; } if (text.size() > 1500000) { R.discard = true; return R; }
  std::string dir = scratch() + "/py"; mkdir(dir.c_str(), 0755); for (auto& n : listDir(dir)) { remove((dir + "/" + n).c_str()); rmdir((dir + "/" + n).c_str()); }
  static const char* names[] = {"in.gcode", "a b.gcode", "\xc3\xbc\xe6\x97\xa5.gcode", "it's.gco", "x"}; std::string src = dir + "/" + names[c.integer("name", 0) % 5], dst = dir + "/out \xc3\xa9.gcode", env = c.get("env"); if (env == "nosrc") src = dir + "/missing.gcode"; else if (env == "srcdir") mkdir(src.c_str(), 0755); else writeFile(src, text);
  bool inplace = c.integer("inplace", 0); if (c.get("cb").rfind("thread", 0) == 0) inplace = false; if (inplace) dst = src; if (env == "nodir") dst = dir + "/none/out.gcode"; if (env == "dstdir") mkdir(dst.c_str(), 0755); std::string guid = "guid-" + std::to_string(c.integer("rep", 1));
  // what the options mean
  WeldCfg w; w.erv = 0.05; w.buf = 10; w.period = -1; std::string must; // why it has to raise
  Dict args{{"guid", pyStr(guid)}, {"source_path", pyStr(src)}, {"target_path", pyStr(dst)}, {"on_progress_received", "CB"}};
  for (auto& kv : c.kv) if (kv.first.rfind("a_", 0) == 0) args[kv.first.substr(2)] = kv.second;
  for (auto& k : kReq) if (c.has("a_" + k)) must = "'" + k + "' has the wrong type";
  for (auto& k : kDbl) if (args.count(k)) { double v; if (!isNum(args[k], v)) { must = "'" + k + "' has the wrong type"; continue; }
    if (k == "resolution_mm") w.res = v <= 0 ? 0.05 : v; if (k == "path_tolerance_percent") w.ptol = v < 0 ? 0.05 : v; if (k == "max_radius_mm") w.maxr = v > 9999 ? 9999 : v; if (k == "mm_per_arc_segment") w.mmas = v < 0 ? 0 : v; if (k == "extrusion_rate_variance_percent") w.erv = v < 0 ? 0.05 : v;
    int pr = !(v >= 3) ? 3 : v > 6 ? 6 : (int)v; if (k == "default_xyz_precision") w.xp = pr; if (k == "default_e_precision") w.ep = pr; }
  for (auto& k : kInt) if (args.count(k)) { long long v; if (!isInt(args[k], v)) { must = "'" + k + "' has the wrong type"; continue; }
    if (k == "min_arc_segments") w.mas = v < 0 ? 0 : (int)v; if (k == "max_gcode_length") w.maxlen = v < 0 ? 0 : (int)v; if (k == "allow_3d_arcs") w.d3 = v > 0; if (k == "allow_travel_arcs") w.travel = v > 0; if (k == "allow_dynamic_precision") w.dyn = v > 0; if (k == "g90_g91_influences_extruder") w.g90e = v > 0; }
  if (c.has("drop")) { args.erase(c.get("drop")); must = "'" + c.get("drop") + "' is missing"; } if (c.has("arg")) must = "the argument is not a dictionary with the settings";
  if (!env.empty()) must = "the files cannot be used (" + env + ")";
  std::string cb = c.get("cb", "none"), what = cb.substr(0, cb.find('@')); int k = cb.find('@') == std::string::npos ? -1 : atoi(cb.c_str() + cb.find('@') + 1); bool other = what == "nest" || what == "thread", raises = k >= 0 && !other && what != "false" && what != "zero" && what != "neg";
  // the library
  arc_welder_results lr; std::vector<arc_welder_progress> log; std::string lout;
  if (must.empty()) { std::string s2 = scratch() + "/in.gcode", d2 = scratch() + "/out.gcode"; writeFile(s2, text); remove(d2.c_str()); g_pl = &log; g_ps = other ? -1 : k; Silence q; arc_welder_args la = weldArgs(w, s2, d2, nullptr, pyRecord); arc_welder a(la); lr = a.process(); readFile(d2, lout); if (!lr.success && !lr.cancelled) { R.discard = true; return R; } }
  // the module, perhaps after another call
  auto request = [&](const Dict& d, const std::string& how, const std::string& whole) { std::string q; q += "#cb\t" + how + "\n"; if (c.has("change")) q += "#change\t" + c.get("change") + "\n"; if (whole != "\1") q += "#arg\t" + whole + "\n"; for (auto& x : d) q += x.first + "\t" + x.second + "\n"; writeFile(scratch() + "/request", q); };
  std::string nested = scratch() + "/nested.gcode"; remove(nested.c_str()); std::vector<std::string> ans; std::string why, pre = c.get("pre");
  if (!pre.empty()) {
    std::string ps = scratch() + "/pre.gcode"; writeFile(ps, text.substr(0, 3000)); Dict d{{"guid", "'pre'"}, {"source_path", pyStr(pre == "nosrc" ? ps + ".none" : ps)}, {"target_path", pyStr(scratch() + "/pre.out")}, {"on_progress_received", "CB"}, {"log_level", "5"}}; if (pre == "drop") d.erase("guid"); if (pre == "type") d["allow_3d_arcs"] = "'x'";
    request(d, pre == "raise" ? "raise@0" : pre == "cancel" ? "false@0" : "none", "\1"); if (!py().ask(scratch() + "/request", ans, why)) { R.fail("the call before (" + pre + "): " + why); return R; } ans.clear();
  }
  request(args, cb, c.has("arg") ? c.get("arg") : "\1"); if (!py().ask(scratch() + "/request", ans, why)) { R.fail(why); return R; }
  Dict a; std::vector<Dict> calls; for (auto& l : ans) { size_t t = l.find('\t'); std::string n = l.substr(0, t), v = t == std::string::npos ? "" : l.substr(t + 1); if (n == "c") { Dict d; std::istringstream in(v); std::string e; while (in >> e) { size_t q = e.find('='); d[e.substr(0, q)] = e.substr(q + 1); } calls.push_back(d); } else a[n] = v; }
  std::string now, got; bool haveSrc = readFile(src, now), haveDst = env == "dstdir" ? false : readFile(dst, got); struct stat st; std::string left; for (auto& n : listDir(dir)) if (dir + "/" + n != src && dir + "/" + n != dst) left += " " + n;
  if (!left.empty()) R.fail("left" + escape(left) + " behind"); if (a.count("bad")) R.fail("the callback was " + a["bad"]); if (a.count("changed")) R.fail("the argument dictionary was changed");
  if (a.count("raised") && a["raised"] == "SystemError") R.fail("SystemError: " + a["message"]);
  if (!must.empty()) {
    if (!a.count("raised")) R.fail("nothing is raised although " + must); if (env != "nosrc" && env != "srcdir" && (!haveSrc || now != text)) R.fail(must + ", but the source changed"); if (!inplace && (env == "dstdir" ? !(stat(dst.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) : haveDst && env != "srcdir")) R.fail(must + ", but a target was written"); if (!calls.empty() && env.empty()) R.fail(must + ", but the callback was called");
    R.stat["refused"] = 1; R.nontrivial = true; return R;
  }
  if (other && a.count("other")) { std::string no; R.stat["calls_within_calls"] = 1; if (a["other"] != "success=1 cancelled=0 guid='the other'") R.fail("a conversion started by the callback (" + what + "): " + a["other"]); else if (!readFile(nested, no) || no != lout) R.fail("a conversion started by the callback (" + what + ") writes another result"); } else if (other && (int)log.size() > k && must.empty()) R.fail("the callback was not called for update " + std::to_string(k));
  bool reached = k >= 0 && !other && (int)log.size() > k, last = reached && k + 1 == (int)log.size(); bool cancelled = reached && lr.cancelled;
  if (!inplace && now != text) R.fail("the source changed"); 
  if (inplace && cancelled) { if (now != text) R.fail("cancelled, but the source was changed"); }
  else if (!haveDst || got != lout) { auto x = splitLines(lout), y = splitLines(got); size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) ++i; R.fail(!haveDst ? std::string("no target was written") : fmt("result differs from the library's at line %zu: '%s' instead of '%s'", i + 1, i < y.size() ? escape(y[i]).c_str() : "<end>", i < x.size() ? escape(x[i]).c_str() : "<end>")); }
  size_t due = log.size(); if (reached && raises && !last && calls.size() + 1 == due) --due; // a callback that has failed need not be called again
  if (calls.size() != due) R.fail(fmt("the callback was called %zu times, %zu updates were due", calls.size(), due));
  for (size_t i = 0; i < calls.size() && R.ok; ++i) { std::string e = cmpProgress(calls[i], log[i], guid, false); if (!e.empty()) R.fail(fmt("update %zu of %zu: ", i + 1, calls.size()) + e); }
  if (reached && raises) {
    static const Dict ex{{"raise", "ValueError"}, {"odd", "Odd"}, {"exit", "SystemExit"}, {"intr", "KeyboardInterrupt"}, {"str", "TypeError"}, {"float", "TypeError"}, {"list", "TypeError"}, {"big", "OverflowError"}, {"negbig", "OverflowError"}};
    bool own = what == "raise" || what == "odd" || what == "exit" || what == "intr"; auto i = ex.find(what);
    if (!a.count("raised")) R.fail("the callback " + std::string(own ? "raised" : "answered with a wrong type") + ", but nothing is raised"); else if (i != ex.end() && a["raised"] != i->second) R.fail("the callback's " + i->second + " comes out as " + a["raised"] + ": " + a["message"]); else if (own && a["same"] != "1") R.fail("not the callback's own exception is raised");
  } else if (a.count("raised")) R.fail("raised " + a["raised"] + ": " + a["message"]);
  else {
    if (a["result"] != "dict") R.fail("the result is a " + a["result"]); bool wantOk = !cancelled; if (a["r.success"] != (wantOk ? "1" : "0") || a["r.is_cancelled"] != (cancelled ? "1" : "0")) R.fail(fmt("the result says success=%s is_cancelled=%s, ", a["r.success"].c_str(), a["r.is_cancelled"].c_str()) + (cancelled ? "a stop was asked for" : "nobody asked to stop")); if (!a.count("r.message")) R.fail("the result has no message");
    Dict d; for (auto& x : a) if (x.first.rfind("p.", 0) == 0) d[x.first.substr(2)] = x.second; std::string e = cmpProgress(d, lr.progress, guid, true); if (R.ok && !e.empty()) R.fail("result: " + e);
    auto hex = [](const std::string& s) { std::string o; for (unsigned char ch : s) o += fmt("%02x", ch); return o; }; auto& pr = lr.progress;
    std::pair<const char*, std::string> texts[] = {{"segment_statistics_text", source_target_segment_statistics::add(pr.segment_statistics, pr.segment_retraction_statistics).str("", utilities::box_drawing::HTML)}, {"segment_travel_statistics_text", pr.travel_statistics.str("", utilities::box_drawing::HTML)}};
    for (auto& t : texts) if (R.ok && (!a.count(std::string("t.") + t.first) || a[std::string("t.") + t.first] != hex(t.second))) R.fail(std::string("result: ") + t.first + " is not the table of the conversion's statistics");
  }
  if (R.ok && c.integer("cli", 0) && !cancelled && w.ptol > 0 && w.ptol < 1 && (w.maxlen == 0 || w.maxlen > 30) && ((w.mmas > 0) == (w.mas > 0)) && w.maxr > 0) {
    std::string s2 = scratch() + "/in.gcode", d2 = scratch() + "/cli.gcode", co; writeFile(s2, text); remove(d2.c_str()); std::vector<std::string> av{binDir() + "/ArcWelder", fmt("-r=%.17g", w.res), fmt("-t=%.17g", w.ptol), fmt("-m=%.17g", w.maxr), fmt("-x=%d", w.xp), fmt("-e=%d", w.ep), fmt("-v=%.17g", w.erv), fmt("-c=%d", w.maxlen), fmt("-s=%.17g", w.mmas), fmt("-a=%d", w.mas)};
    if (w.d3) av.push_back("-z"); if (w.travel) av.push_back("-y"); if (w.dyn) av.push_back("-d"); if (w.g90e) av.push_back("-g"); av.push_back(s2); av.push_back(d2); ProcOut po = runProc(av); bool rc = readFile(d2, co);
    if (!po.ok() || !rc) R.fail("the command-line tool: " + po.str()); else if (co != got) { auto x = splitLines(co), y = splitLines(got); size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) ++i; R.fail(fmt("result differs from the command-line tool's at line %zu: '%s' instead of '%s'", i + 1, i < y.size() ? escape(y[i]).c_str() : "<end>", i < x.size() ? escape(x[i]).c_str() : "<end>")); } R.stat["cli_runs"] = 1;
  }
  R.nontrivial = reached || a.count("other") || lr.progress.arcs_created > 0; R.stat["stops"] = reached && !last; R.stat["updates"] = (long long)log.size(); R.stat["arcs"] = lr.progress.arcs_created; return R;
}
// ---------------------------------------------------------------- P30
static Case genP30(Rng& r) { Case c = genP22(r); for (auto k : {"inplace", "cli", "pre"}) c.kv.erase(k); if (c.has("change")) c.set("cb", "none"); if (c.has("rep")) c.seti("rep", std::min(5LL, c.integer("rep", 1))); if (c.integer("pad", 0) > 1200) c.seti("pad", 1200); if (r.chance(0.25)) { c.seti("fail", r.range(-1, r.chance(0.5) ? 4 : 40)); c.set("fkind", r.pick(std::vector<std::string>{"value", "os", "unicode"})); } return c; }
static Result p30(const Case& c) {
  Result R; std::string unit = caseText(c), text; if (!unit.empty() && unit.back() != '\n') unit += '\n'; for (long long i = 0; i < std::min(5000LL, c.integer("pad", 0)); ++i) text += i % 3 ? "M106 S5\n" : "\n"; for (long long i = 0; i < std::max(1LL, std::min(5LL, c.integer("rep", 1))); ++i) text += unit; if (text.size() > 300000) { R.discard = true; return R; }
  std::string dir = scratch() + "/pyr"; mkdir(dir.c_str(), 0755); for (auto& n : listDir(dir)) { remove((dir + "/" + n).c_str()); rmdir((dir + "/" + n).c_str()); }
  std::string src = dir + "/in.gcode", dst = dir + "/out \xc3\xa9.gcode", env = c.get("env"); if (env == "nosrc") src = dir + "/missing.gcode"; else if (env == "srcdir") mkdir(src.c_str(), 0755); else writeFile(src, text); if (env == "nodir") dst = dir + "/none/out.gcode"; if (env == "dstdir") mkdir(dst.c_str(), 0755);
  Dict args{{"guid", "'guid-' + str(len('abc'))"}, {"source_path", pyStr(src)}, {"target_path", pyStr(dst)}, {"on_progress_received", "CB"}}; for (auto& kv : c.kv) if (kv.first.rfind("a_", 0) == 0) args[kv.first.substr(2)] = kv.second; if (c.has("drop")) args.erase(c.get("drop"));
  std::string q = "#cb\t" + c.get("cb", "none") + "\n#again\t6\n"; if (c.has("fail")) q += "#log\t0 " + c.get("fail") + " " + c.get("fkind", "value") + "\n"; if (c.has("arg")) q += "#arg\t" + c.get("arg") + "\n"; for (auto& x : args) q += x.first + "\t" + x.second + "\n"; writeFile(scratch() + "/request", q);
  std::vector<std::string> ans; std::string why; if (!py().ask(scratch() + "/request", ans, why)) { R.fail(why); return R; }
  for (auto& l : ans) { size_t t = l.find('\t'); std::string n = l.substr(0, t), v = t == std::string::npos ? "" : l.substr(t + 1); long long d = atoll(v.c_str());
    if (n == "refs") R.fail("six calls change the number of references to " + v); else if (n == "blocks" && d >= 6) R.fail(fmt("six calls leave %lld objects behind", d)); else if (n == "bytes" && d >= 96) R.fail(fmt("six calls leave %lld bytes behind", d)); else if (n == "files" && d > 0) R.fail(fmt("six calls leave %lld files open", d)); }
  if (ans.size() < 3) R.fail("no answer"); std::string cb = c.get("cb", "none"); R.nontrivial = true; R.stat["calls"] += 9; if (!env.empty() || c.has("drop") || c.has("arg")) R.stat["refused"]++; if (cb.find('@') != std::string::npos) R.stat["callback_stops_or_fails"]++; return R;
}
// ---------------------------------------------------------------- P31
struct RecLog : logger {
  std::vector<std::pair<int, std::string>> got;
  RecLog(int level) : logger(std::vector<std::string>{"arc_welder.gcode_conversion"}, std::vector<int>{0}) { set_log_level((log_levels)level); }
  void log(const int, log_levels l, const std::string& m) override { got.push_back({get_log_level_value(l), m}); }
  void log(const int, log_levels l, const std::string& m, bool) override { got.push_back({get_log_level_value(l), m}); }
  void log_exception(const int, const std::string& m) override { got.push_back({40, m}); }
};
// the plugin's logging module, whole and broken
static const std::vector<std::string> kLogMods{"class L:\n def __getattr__(self, n): return lambda *a: None\nclass LoggingConfigurator:\n def __init__(self, *a): pass\n def get_logger(self, *a): return L()\n", "", "raise ValueError(1)\n", "LoggingConfigurator = 5\n", "LoggingConfigurator = None\n", "class LoggingConfigurator:\n def __init__(self, *a): raise KeyError(3)\n", "class LoggingConfigurator:\n def __init__(self): pass\n", "class LoggingConfigurator:\n def __init__(self, *a): pass\n", "class LoggingConfigurator:\n def __init__(self, *a): pass\n def get_logger(self, *a): raise OSError('no log')\n", "import no_such_module\n", "syntax error\n"};
static Result p31import(const Case& c) {
  Result R; std::string dir = scratch() + "/pyi", pkg = dir + "/octoprint_arc_welder"; int v = (int)c.integer("import", 0); mkdir(dir.c_str(), 0755); mkdir(pkg.c_str(), 0755); for (auto& n : listDir(pkg)) remove((pkg + "/" + n).c_str());
  writeFile(pkg + "/__init__.py", ""); if (v < (int)kLogMods.size()) writeFile(pkg + "/log.py", kLogMods[v]); writeFile(dir + "/good.py", kLogMods[0]); writeFile(dir + "/in.gcode", caseText(c)); remove((dir + "/out.gcode").c_str());
  writeFile(dir + "/run.py", "import sys, types\nsys.dont_write_bytecode = True\nsys.path[:0] = [sys.argv[1], sys.argv[2]]\ntry:\n    import PyArcWelder\n    print('\\nGOT fine')\nexcept BaseException as e:\n    print('\\nGOT', type(e).__name__, e)\nfor k in [k for k in sys.modules if k.startswith('octoprint')]:\n    del sys.modules[k]\nm = types.ModuleType('octoprint_arc_welder.log')\nexec(open(sys.argv[1] + '/good.py').read(), m.__dict__)\nsys.modules['octoprint_arc_welder.log'] = m\nsys.modules['octoprint_arc_welder'] = types.ModuleType('octoprint_arc_welder')\nimport PyArcWelder\nr = PyArcWelder.ConvertFile(dict(guid='g', source_path=sys.argv[1] + '/in.gcode', target_path=sys.argv[1] + '/out.gcode', on_progress_received=lambda p: True))\nprint('\\nTHEN', r['success'])\n");
  ProcOut o = runProc({getenv("VH_PYTHON") ? getenv("VH_PYTHON") : "/usr/bin/python3", "-s", dir + "/run.py", dir, binDir()}); std::string got, then; for (auto& l : splitLines(o.out)) { if (l.rfind("GOT ", 0) == 0) got = l.substr(4); if (l.rfind("THEN ", 0) == 0) then = l.substr(5); } std::string mod = v < (int)kLogMods.size() ? "log.py '" + escape(kLogMods[v]) + "'" : "no log.py";
  if (v == 0 ? got != "fine" : got.rfind("ImportError", 0) != 0) R.fail("import with " + mod + ": " + (got.empty() ? o.str() : got)); else if (then != "1") R.fail("import with " + mod + ", and again when it is repaired: " + (then.empty() ? o.str() : then));
  R.nontrivial = true; R.stat["imports"]++; return R;
}
static Case genP31(Rng& r) {
  if (r.chance(0.02)) { Case c; Profile p; p.maxBlocks = 1; c.lines = genWeldCase(r, p).lines; c.seti("import", r.range(0, (int)kLogMods.size())); return c; }
  Case c = genP22(r); for (auto k : {"cli", "pre"}) c.kv.erase(k); c.seti("rep", 1); if (c.integer("pad", 0) > 40) c.seti("pad", r.chance(0.1) ? 1100 : 40);
  if (!c.has("a_log_level") || r.chance(0.8)) c.set("a_log_level", r.pick(std::vector<std::string>{"5", "5", "10", "10", "20", "0", "30", "17"})); if (r.chance(0.3)) c.kv.erase("a_log_level");
  c.set("cb", r.chance(0.7) || c.has("change") ? "none" : c.get("cb")); c.seti("least", r.pick(std::vector<int>{0, 0, 0, 5, 10, 20, 30, 40, 50})); if (r.chance(0.35)) { c.seti("fail", r.chance(0.3) ? 0 : r.range(1, r.chance(0.5) ? 6 : 60)); c.set("fkind", r.pick(std::vector<std::string>{"value", "os", "memory", "unicode"})); }
  static const std::vector<std::string> odd{"M117 M\xc3\xbcller", "M117 M\xfcller", "FOO \xff\xfe", "G1 X1 \x80", "M117 %s %d %", "M117 100%", "@OBJ {0} \xe2\x82", "G28 ; \xe9", "M117 {}", "M117 \\n \\x41", "M117 \xf0\x9f\x98\x80", "M117 \xed\xa0\x80", "Q %n"};
  for (int i = (int)r.range(0, 4); i > 0; --i) c.lines.insert(c.lines.begin() + r.range(0, (int)c.lines.size()), r.pick(odd));
  if (c.lines.size() > 250) c.lines.resize(250); return c;
}
static std::string maskLog(const std::string& s) { // the name of the temporary file is new every time; what is no ASCII may be replaced
  static const std::regex id("[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}"); return std::regex_replace(s, id, "<uuid>");
}
static bool validUtf8(const std::string& s) { for (size_t i = 0; i < s.size();) { unsigned char a = s[i]; int n = a < 0x80 ? 0 : a >= 0xc2 && a < 0xe0 ? 1 : (a & 0xf0) == 0xe0 ? 2 : a >= 0xf0 && a < 0xf5 ? 3 : -1; if (n < 0 || i + n >= s.size() + 0) { if (n != 0) return false; } for (int k = 1; k <= n; ++k) if (((unsigned char)s[i + k] & 0xc0) != 0x80) return false; if (n == 2) { unsigned b = (unsigned char)s[i + 1]; if ((a == 0xe0 && b < 0xa0) || (a == 0xed && b >= 0xa0)) return false; } if (n == 3) { unsigned b = (unsigned char)s[i + 1]; if ((a == 0xf0 && b < 0x90) || (a == 0xf4 && b >= 0x90)) return false; } i += n + 1; } return true; }
static bool sameMessage(const std::string& want, const std::string& got) {
  if (validUtf8(want)) return want == got; size_t i = 0, j = 0; // around what is no text the readable part has to be there, in order
  std::string w; for (char ch : want) if ((unsigned char)ch < 0x80) w += ch; for (; j < got.size() && i < w.size(); ++j) if (got[j] == w[i]) ++i; return i == w.size();
}
static Result p31(const Case& c) {
  if (c.has("import")) return p31import(c);
  Result R; std::string unit = caseText(c), text; for (long long i = 0; i < std::min(2000LL, c.integer("pad", 0)); ++i) text += i % 3 ? "M106 S5\n" : "\n"; text += unit; if (text.size() > 200000 || text.find('\0') != std::string::npos) { R.discard = true; return R; }
  std::string dir = scratch() + "/pyl"; mkdir(dir.c_str(), 0755); for (auto& n : listDir(dir)) { remove((dir + "/" + n).c_str()); rmdir((dir + "/" + n).c_str()); }
  std::string src = dir + "/in.gcode", dst = dir + "/out \xc3\xa9.gcode", env = c.get("env"); bool inplace = c.integer("inplace", 0); auto lay = [&] { for (auto& n : listDir(dir)) { remove((dir + "/" + n).c_str()); rmdir((dir + "/" + n).c_str()); } if (env == "srcdir") mkdir(src.c_str(), 0755); else if (env != "nosrc") writeFile(src, text); if (env == "dstdir") mkdir(dst.c_str(), 0755); };
  if (env == "nosrc") src = dir + "/missing.gcode"; if (inplace) dst = src; if (env == "nodir") dst = dir + "/none/out.gcode"; lay();
  WeldCfg w; w.erv = 0.05; w.buf = 10; w.period = -1; bool must = c.has("drop") || c.has("arg"); int level = INFO;
  Dict args{{"guid", "'g'"}, {"source_path", pyStr(src)}, {"target_path", pyStr(dst)}, {"on_progress_received", "CB"}}; for (auto& kv : c.kv) if (kv.first.rfind("a_", 0) == 0) args[kv.first.substr(2)] = kv.second;
  for (auto& k : kReq) if (c.has("a_" + k)) must = true;
  for (auto& k : kDbl) if (args.count(k)) { double v; if (!isNum(args[k], v)) { must = true; continue; }
    if (k == "resolution_mm") w.res = v <= 0 ? 0.05 : v; if (k == "path_tolerance_percent") w.ptol = v < 0 ? 0.05 : v; if (k == "max_radius_mm") w.maxr = v > 9999 ? 9999 : v; if (k == "mm_per_arc_segment") w.mmas = v < 0 ? 0 : v; if (k == "extrusion_rate_variance_percent") w.erv = v < 0 ? 0.05 : v;
    int pr = !(v >= 3) ? 3 : v > 6 ? 6 : (int)v; if (k == "default_xyz_precision") w.xp = pr; if (k == "default_e_precision") w.ep = pr; }
  for (auto& k : kInt) if (args.count(k)) { long long v; if (!isInt(args[k], v)) { must = true; continue; }
    if (k == "min_arc_segments") w.mas = v < 0 ? 0 : (int)v; if (k == "max_gcode_length") w.maxlen = v < 0 ? 0 : (int)v; if (k == "allow_3d_arcs") w.d3 = v > 0; if (k == "allow_travel_arcs") w.travel = v > 0; if (k == "allow_dynamic_precision") w.dyn = v > 0; if (k == "g90_g91_influences_extruder") w.g90e = v > 0; if (k == "log_level") { static const int vals[] = {0, 5, 10, 20, 30, 40, 50}; level = 0; for (int q = 0; q < 7; ++q) if (vals[q] == v) level = q; } }
  if (c.has("drop")) args.erase(c.get("drop"));
  std::string cb = c.get("cb", "none"), what = cb.substr(0, cb.find('@')); int k = cb.find('@') == std::string::npos ? -1 : atoi(cb.c_str() + cb.find('@') + 1);
  // what the library says
  RecLog rec(level); std::string lout; bool lread = false; arc_welder_results lr; std::vector<arc_welder_progress> pl;
  if (!must) { g_pl = &pl; g_ps = k; Silence q; arc_welder_args la = weldArgs(w, src, dst, &rec, pyRecord); arc_welder a(la); lr = a.process(); lread = env != "dstdir" && readFile(dst, lout); }
  lay(); int least = (int)c.integer("least", 0), fail = (int)c.integer("fail", -1);
  std::string q = "#cb\t" + cb + "\n#log\t" + fmt("%d %d ", least, fail) + c.get("fkind", "value") + "\n"; if (c.has("arg")) q += "#arg\t" + c.get("arg") + "\n"; for (auto& x : args) q += x.first + "\t" + x.second + "\n"; writeFile(scratch() + "/request", q);
  std::vector<std::string> ans; std::string why; if (!py().ask(scratch() + "/request", ans, why)) { R.fail(why); return R; }
  Dict a; std::vector<std::pair<int, std::string>> got; for (auto& l : ans) { size_t t = l.find('\t'); std::string n = l.substr(0, t), v = t == std::string::npos ? "" : l.substr(t + 1); if (n == "l") { size_t sp = v.find(' '); std::string m; for (size_t i = sp + 1; i + 1 < v.size(); i += 2) m += (char)strtol(v.substr(i, 2).c_str(), nullptr, 16); got.push_back({atoi(v.c_str()), m}); } else a[n] = v; }
  // the messages
  int floor = std::max(least, logger::get_log_level_value((log_levels)level)); std::vector<std::pair<int, std::string>> want, have; for (auto& m : rec.got) if (m.first >= floor) want.push_back({m.first, maskLog(m.second)}); for (auto& m : got) { if (m.first < least) R.fail(fmt("a message of level %d arrives at a logger set to %d", m.first, least)); if (m.first >= floor) have.push_back({m.first, maskLog(m.second)}); }
  bool failed = fail == 0 ? atoi(a["log.calls"].c_str()) > 0 : fail > 0 && atoi(a["log.calls"].c_str()) >= fail;
  if (!failed) {
    if (a["printed"] != "0") R.fail("the module prints " + a["printed.start"]);
    if (!must && !want.empty() && R.ok) {
      size_t best = 0, at = 0; bool ok = false; for (size_t s = 0; s + want.size() <= have.size() && !ok; ++s) { size_t n = 0; while (n < want.size() && want[n].first == have[s + n].first && sameMessage(want[n].second, have[s + n].second)) ++n; if (n == want.size()) { ok = true; at = s; } else if (n > best) { best = n; at = s; } }
      if (!ok) R.fail(fmt("the logger got %zu messages, the library's %zu of level %d and more are not among them in order: '%s' (%d) ", have.size(), want.size(), floor, escape(want[best].second).c_str(), want[best].first) + (best && at + best < have.size() ? fmt("came as '%s' (%d)", escape(have[at + best].second).c_str(), have[at + best].first) : std::string("did not come")));
    }
    for (auto& kk : kDbl) if (R.ok && !must && !args.count(kk) && least <= 30) { bool said = false; for (auto& m : got) said = said || (m.first == 30 && m.second.find(kk) != std::string::npos); if (!said) R.fail("'" + kk + "' is not given, and no warning says so"); }
    if (R.ok && !must && lr.message.empty()) for (auto& m : got) if (m.first >= 30) { // a warning needs a reason
      bool why = m.second.find("recision") != std::string::npos; for (auto* l : {&kDbl, &kInt}) for (auto& kk : *l) why = why || (!args.count(kk) && m.second.find(kk) != std::string::npos); for (auto& x : rec.got) why = why || (x.first == m.first && sameMessage(maskLog(x.second), maskLog(m.second))); if (!why && R.ok) R.fail(fmt("a message of level %d without reason: '", m.first) + escape(m.second) + "'"); }
    if (R.ok && c.has("drop") && !c.has("arg") && least <= 40 && !got.empty()) { bool other = false; for (auto& kk : kReq) if (c.has("a_" + kk)) other = true; bool said = other; for (auto& m : got) said = said || (m.first == 40 && m.second.find(c.get("drop")) != std::string::npos); if (!said) R.fail("'" + c.get("drop") + "' is missing, and no error says so"); }
  } else R.stat["logger_failed"]++;
  // the work
  bool raises = k >= 0 && what != "nest" && what != "thread" && what != "false" && what != "zero" && what != "neg", reached = k >= 0 && (int)pl.size() > k; if (a.count("raised") && a["raised"] == "SystemError") R.fail("SystemError: " + a["message"]);
  if (must) { if (!a.count("raised")) R.fail("nothing is raised for wrong arguments"); } else {
    bool err = !lr.success && !lr.message.empty(), shouldRaise = err || (reached && raises); if (shouldRaise && !a.count("raised")) R.fail(err ? "the library failed ('" + lr.message + "'), but nothing is raised" : std::string("the callback failed, but nothing is raised")); if (!shouldRaise && a.count("raised")) R.fail("raised " + a["raised"] + ": " + a["message"]);
    if (err && R.ok && !(reached && raises) && a["message"].find(lr.message) == std::string::npos) R.fail("raised '" + a["message"] + "' where the library says '" + lr.message + "'");
    std::string now; bool rd = env != "dstdir" && readFile(dst, now); if (R.ok && (rd != lread || now != lout)) R.fail("the result is not the library's"); if (R.ok && failed && !shouldRaise && a["r.success"] != (lr.success ? "1" : "0")) R.fail("the result says success=" + a["r.success"]); }
  for (auto& n : listDir(dir)) if (dir + "/" + n != src && dir + "/" + n != dst) R.fail("left " + escape(n) + " behind");
  if (!R.ok && failed) R.msg += " (a call of the logger raised an exception)";
  R.nontrivial = failed || want.size() > 0 || must; R.stat["messages"] += (long long)want.size(); return R;
}
static Registrar a31({"P31", "random arguments, programs and log levels given to the compiled module, with the Python logger recording what arrives or raising an exception at a random call; non-trivial: a message of the library had to arrive, the logger failed, or the call was refused", genP31, p31, true, 400, 8000});
static Registrar a30({"P30", "random arguments, programs and callback behaviours given again and again to the compiled module in a Python interpreter, also failing and refused; non-trivial: every case", genP30, p30, true, 400, 8000});
static Registrar a22({"P22", "random option dictionaries (absent, extreme, wrongly typed), programs, paths and callback behaviours given to the compiled module in a Python interpreter; non-trivial: had to raise, was stopped, or wrote an arc", genP22, p22, true, 400, 8000});
} // namespace vh
