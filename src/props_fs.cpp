// P08: what is left of the files when a conversion fails, is cancelled or killed.
#include "core.hpp"
#include "machine.hpp"
#include "weld.hpp"
#include "gen.hpp"
#include "straight.hpp"
#include "proc.hpp"
#include <cerrno>

namespace vh {
static const int kNobody = 65534;
static std::string dirOf() { return scratch() + "/fs"; }
static void wipe(const std::string& d) { for (auto& n : listDir(d)) { std::string p = d + "/" + n; struct stat s; if (lstat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode)) { wipe(p); rmdir(p.c_str()); } else unlink(p.c_str()); } }
static void fresh() { std::string d = dirOf(); chmod(scratch().c_str(), 0755); chmod(d.c_str(), 0777); wipe(d); mkdir(d.c_str(), 0777); chmod(d.c_str(), 0777); }
static std::string slurp(const std::string& p, bool* ok = nullptr) { std::string s; bool r = readFile(p, s); if (ok) *ok = r; return r ? s : std::string(); }

static const std::vector<std::string> kPlaces{"one", "same", "rel", "dot", "symlink", "symlink2", "hardlink", "other", "existing", "sub", "newlink"};
static Case genP08(Rng& r) {
  Profile p; p.maxBlocks = (int)r.range(1, 5); Case c = genWeldCase(r, p); Case o; o.lines = c.lines; if (c.has("crlf")) o.kv["crlf"] = c.kv["crlf"]; if (c.has("nonl")) o.kv["nonl"] = c.kv["nonl"];
  o.set("tool", r.chance(0.6) ? "W" : "S"); o.set("place", r.pick(kPlaces));
  if (o.get("tool") == "S") { // arcs to be turned into lines
    Machine m; std::vector<std::string> l2; bool d = true; for (auto& l : o.lines) { GLine g = parseLine(l); m.exec(g); l2.push_back(l); if (d && g.isMove() && m.kx && m.ky && !m.rel && r.chance(0.15)) { double R = r.logreal(0.5, 20), a = r.real(0, 6.28); l2.push_back(fmt("G%d X%.3f Y%.3f I%.3f J%.3f", r.chance(0.5) ? 2 : 3, m.x + 2 * R * std::cos(a), m.y + 2 * R * std::sin(a), R * std::cos(a), R * std::sin(a))); m.exec(parseLine(l2.back())); } } o.lines = l2; }
  if (r.chance(0.25)) { o.seti("fill", r.range(1, 900)); } // comment lines, so that several blocks are written
  std::string k = "fault"; double q = r.unit(); if (q < 0.22) k = "env"; else if (q < 0.32) k = "cancel"; else if (q < 0.37) k = "pair";
  o.set("kind", k);
  if (k == "env") { o.set("env", r.pick(std::vector<std::string>{"fsize", "fsize", "fsize", "nodir", "dstdir", "nosrc", "srcdir", "full", "rodir", "rosrc", "rodst", "rofile", "none", "gone"})); o.seti("limit", r.range(0, 30000)); }
  if (k == "cancel") { o.set("tool", "W"); o.seti("stop", r.range(0, 4)); o.seti("fill", r.range(800, 4000)); }
  if (k == "fault") { o.seti("sticky", r.chance(0.25)); o.set("err", r.pick(std::vector<std::string>{"ENOSPC", "EIO", "EACCES", "EDQUOT", "EROFS", "EINTR"})); }
  return o;
}
static int errnoOf(const std::string& e) { static const std::map<std::string, int> m{{"ENOSPC", ENOSPC}, {"EIO", EIO}, {"EACCES", EACCES}, {"EDQUOT", EDQUOT}, {"EROFS", EROFS}, {"EINTR", EINTR}, {"EXDEV", EXDEV}}; auto i = m.find(e); return i == m.end() ? EIO : i->second; }

struct Setup { std::string src, dst; std::vector<std::string> args; bool inplace = false, alias = false; std::string old; std::set<std::string> names; };
// files of one run, and the arguments that lead to them
static Setup lay(const std::string& place, const std::string& text) {
  fresh(); std::string d = dirOf(); Setup s; s.src = d + "/part a.gcode"; writeFile(s.src, text); chmod(s.src.c_str(), 0666); s.dst = s.src; s.inplace = true;
  if (place == "one") s.args = {s.src};
  else if (place == "same") s.args = {s.src, s.src};
  else if (place == "rel") { s.args = {"part a.gcode", s.src}; }
  else if (place == "dot") { s.args = {s.src, d + "/./part a.gcode"}; }
  else if (place == "symlink") { s.dst = d + "/link.gcode"; if (symlink(s.src.c_str(), s.dst.c_str())) {} s.args = {s.src, s.dst}; s.alias = true; }
  else if (place == "symlink2") { s.dst = d + "/link.gcode"; if (symlink("part a.gcode", s.dst.c_str())) {} s.args = {s.dst}; s.alias = true; }
  else if (place == "hardlink") { s.dst = d + "/hard.gcode"; if (link(s.src.c_str(), s.dst.c_str())) {} s.args = {s.src, s.dst}; s.alias = true; }
  else { s.inplace = false; s.dst = d + "/out.gcode"; if (place == "existing") { s.old = "; something else\nG28\n"; writeFile(s.dst, s.old); chmod(s.dst.c_str(), 0666); } if (place == "sub") { mkdir((d + "/sub").c_str(), 0777); chmod((d + "/sub").c_str(), 0777); s.dst = d + "/sub/out.gcode"; } if (place == "newlink") { if (symlink("later.gcode", s.dst.c_str())) {} } s.args = {s.src, s.dst}; }
  s.names = listDir(d); if (place == "sub") for (auto& n : listDir(d + "/sub")) s.names.insert("sub/" + n);
  return s;
}
static std::set<std::string> extras(const Setup& s) {
  std::set<std::string> x; std::string d = dirOf(); for (auto& n : listDir(d)) { if (s.names.count(n) || d + "/" + n == s.dst || n == "later.gcode") { if (n == "sub") for (auto& k : listDir(d + "/sub")) if (d + "/sub/" + k != s.dst) x.insert("sub/" + k); continue; } x.insert(n); } return x;
}
// what the files must be after a run that ended like this
static void judge(Result& R, const std::string& at, const Setup& s, const std::string& A, const std::string& N, bool ok, bool killed, bool mayLeave) {
  bool rs = false, rd = false; std::string src = slurp(s.src, &rs), dst = slurp(s.dst, &rd);
  if (s.inplace) {
    if (ok) {
      if (!rd || dst != N) R.fail(at + "success is reported, but the file is " + (!rd ? "gone" : dst == A ? "unchanged" : dst.size() < N.size() ? fmt("incomplete (%zu of %zu bytes)", dst.size(), N.size()) : "not the result"));
      if (s.alias && (!rs || (src != A && src != N))) R.fail(at + "the linked source is damaged");
    } else if (killed) {
      if (!rs || (src != A && src != N)) R.fail(at + (rs ? fmt("the source holds %zu bytes that are neither the old nor the new content", src.size()) : std::string("the source is gone")));
      if (!rd || (dst != A && dst != N)) R.fail(at + (rd ? "the linked file is neither the old nor the new content" : "the linked file is gone"));
    } else {
      if (!rs || src != A) R.fail(at + "failure is reported, but the source " + (!rs ? "is gone" : src == N ? "was replaced" : fmt("was damaged: %zu bytes, had %zu", src.size(), A.size())));
      if (!rd || dst != A) R.fail(at + "failure is reported, but the linked file was changed");
    }
  } else {
    if (!rs || src != A) R.fail(at + "the source was changed although the target is another file");
    if (ok && (!rd || dst != N)) R.fail(at + "success is reported, but the target is " + (!rd ? "missing" : fmt("incomplete or wrong (%zu bytes, should be %zu)", dst.size(), N.size())));
  }
  if (!killed && !mayLeave) { auto x = extras(s); if (!x.empty()) R.fail(at + "leaves '" + escape(*x.begin()) + "' behind"); }
}
static Result p08(const Case& c) {
  Result R; std::string A = caseText(c), tool = c.get("tool", "W"), kind = c.get("kind", "fault"), place = c.get("place", "one"); long long fill = std::min(20000LL, c.integer("fill", 0)); for (long long i = 0; i < fill; ++i) A += fmt("M106 S%lld ; line that fills the file, so that several blocks are written\n", i % 256);
  std::string exe = binDir() + (tool == "W" ? "/ArcWelder" : "/ArcStraightener"), so = binDir() + "/faultfs.so";
  auto run = [&](const Setup& s, ProcOpt o) { o.cwd = dirOf(); std::vector<std::string> av{exe}; for (auto& a : s.args) av.push_back(a); return runProc(av, o); };
  auto show = [&](const std::string& w) { return std::string(tool == "W" ? "ArcWelder" : "ArcStraightener") + " (" + place + "), " + w + ": "; };
  // the result of an undisturbed conversion to another file
  Setup s0 = lay("other", A); ProcOut p0 = run(s0, {}); if (!p0.ok()) { R.fail(show("undisturbed") + p0.str()); return R; } bool got = false; std::string N = slurp(s0.dst, &got); if (!got) { R.fail(show("undisturbed") + "success without a target"); return R; } judge(R, show("undisturbed, other file"), s0, A, N, true, false, false);
  if (kind == "pair") { // several conversions at the same time in one directory
    fresh(); std::string d = dirOf(); int n = 4; std::vector<pid_t> pids; for (int i = 0; i < n; ++i) writeFile(d + fmt("/p%d.gcode", i), A + fmt("; file %d\n", i));
    for (int i = 0; i < n; ++i) { pid_t p = fork(); if (p == 0) { int nul = open("/dev/null", O_RDWR); dup2(nul, 0); dup2(nul, 1); dup2(nul, 2); std::string f = d + fmt("/p%d.gcode", i); execl(exe.c_str(), exe.c_str(), f.c_str(), (char*)nullptr); _exit(127); } pids.push_back(p); }
    for (int i = 0; i < n; ++i) { int st = 0; waitpid(pids[(size_t)i], &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) R.fail(show("four at the same time") + fmt("run %d failed", i)); }
    // the last line differs; nothing merges with it
    for (int i = 0; i < n && R.ok; ++i) { std::string f = d + fmt("/p%d.gcode", i), now = slurp(f); writeFile(d + "/ref.gcode", A + fmt("; file %d\n", i)); ProcOpt o; o.cwd = d; ProcOut q = runProc({exe, d + "/ref.gcode", d + "/ref.out"}, o); if (now != slurp(d + "/ref.out")) R.fail(show("four at the same time") + fmt("the result of run %d is wrong", i)); unlink((d + "/ref.gcode").c_str()); unlink((d + "/ref.out").c_str()); }
    if (R.ok && (int)listDir(d).size() != n) R.fail(show("four at the same time") + "files are left behind"); R.nontrivial = true; R.stat["concurrent_runs"] = n; return R;
  }
  if (kind == "cancel") {
    Setup s = lay(place, A); static int calls, stopAt; calls = 0; stopAt = (int)c.integer("stop", 0); WeldCfg w; w.period = -1; w.erv = 0.05;
    progress_callback cb = [](arc_welder_progress, logger*, int) { return calls++ != stopAt; };
    arc_welder_results r; std::string dd = s.args.size() > 1 ? s.args[1] : s.args[0], ss = s.args[0]; if (ss[0] != '/') ss = dirOf() + "/" + ss; if (dd[0] != '/') dd = dirOf() + "/" + dd;
    { arc_welder a(weldArgs(w, ss, dd, nullptr, cb)); r = a.process(); }
    bool asked = calls > stopAt + 1; // a stop that is asked for with the final update comes too late
    if (asked && (!r.cancelled || r.success)) R.fail(show("cancelled") + "not reported as cancelled and unsuccessful"); if (!asked && !r.success) R.fail(show("not cancelled") + "no success: " + r.message);
    if (asked && !s.inplace) { if (slurp(s.src) != A) R.fail(show("cancelled") + "the source was changed"); }
    else judge(R, show(asked ? "cancelled" : "not cancelled"), s, A, asked ? N : slurp(s.dst), r.success, false, false);
    R.nontrivial = asked; R.stat["cancelled_runs"] = asked; return R;
  }
  if (kind == "env") {
    std::string e = c.get("env", "fsize"), d = dirOf(); Setup s = lay(place, A); ProcOpt o; bool mustFail = false; std::vector<std::string> undo; long limit = (long)c.integer("limit", 0);
    if (e == "fsize") { o.fsize = limit; mustFail = (long)N.size() > limit; }
    else if (e == "nodir") { if (s.inplace) { R.discard = true; return R; } s.dst = d + "/missing/out.gcode"; s.args = {s.src, s.dst}; mustFail = true; }
    else if (e == "dstdir") { if (s.inplace) { R.discard = true; return R; } mkdir((d + "/adir").c_str(), 0777); s.names.insert("adir"); s.dst = d + "/adir"; s.args = {s.src, s.dst}; mustFail = true; }
    else if (e == "nosrc") { s.args[0] = d + "/missing.gcode"; mustFail = true; if (s.args.size() == 1) {} }
    else if (e == "srcdir") { mkdir((d + "/adir").c_str(), 0777); s.names.insert("adir"); s.args[0] = d + "/adir"; mustFail = true; if (place == "rel" || place == "same" || place == "dot" || place == "symlink" || place == "hardlink") { R.discard = true; return R; } }
    else if (e == "full") { if (s.inplace) { R.discard = true; return R; } s.dst = "/dev/full"; s.args = {s.src, "/dev/full"}; mustFail = !N.empty(); }
    else if (e == "none") {}
    else if (e == "gone") { s.args[0] = ""; mustFail = true; if (place == "one" || place == "symlink2") { R.discard = true; return R; } }
    else { // permissions: as another user
      if (geteuid() != 0) { R.discard = true; return R; } o.uid = kNobody;
      if (e == "rodir") chmod(d.c_str(), 0555), mustFail = s.inplace || place == "other" || place == "newlink"; else if (e == "rosrc") chmod(s.src.c_str(), 0), mustFail = true; else if (e == "rodst") { if (place != "existing") { R.discard = true; return R; } chmod(s.dst.c_str(), 0444); mustFail = true; } else if (e == "rofile") chmod(s.src.c_str(), 0444);
    }
    ProcOut p = run(s, o); chmod(d.c_str(), 0777); chmod(s.src.c_str(), 0666);
    if (p.code >= 125 && p.code <= 127 && o.uid >= 0) { R.discard = true; return R; } // not possible here
    std::string at = show(e == "fsize" ? fmt("file size limit %ld", limit) : e);
    if (p.timeout || p.sig) { R.fail(at + p.str() + " instead of a normal end"); return R; }
    bool ok = p.ok(); if (ok && mustFail) R.fail(at + "success is reported"); if (!ok && !mustFail && e != "rofile" && e != "rodir") R.fail(at + p.str() + " although nothing prevents the conversion");
    if (e == "full" || e == "dstdir" || e == "nodir") { if (slurp(s.src) != A) R.fail(at + "the source was changed"); auto x = extras(s); if (!x.empty()) R.fail(at + "leaves '" + escape(*x.begin()) + "' behind"); }
    else judge(R, at, s, A, N, ok, false, false);
    if (place == "existing" && (e == "nosrc" || e == "gone") && slurp(s.dst) != s.old) R.fail(at + "an existing target was overwritten without a source");
    R.nontrivial = mustFail; R.stat["env_" + e] = 1; return R;
  }
  // every file operation of the run fails once, in several ways; every point is also a crash point
  std::string log = scratch() + "/ops.log"; unlink(log.c_str()); Setup s = lay(place, A); ProcOpt o; o.env = {{"LD_PRELOAD", so}, {"VF_DIR", dirOf()}, {"VF_LOG", log}}; ProcOut p = run(s, o);
  if (!p.ok()) { R.fail(show("undisturbed") + p.str()); return R; } judge(R, show("undisturbed"), s, A, N, true, false, false); if (!R.ok) return R;
  std::vector<std::string> ops; for (auto& l : splitLines(slurp(log))) { size_t a = l.find(' '), b = l.find(' ', a + 1); if (a != std::string::npos) ops.push_back(l.substr(a + 1, b == std::string::npos ? b : b - a - 1)); }
  if (ops.empty()) { R.discard = true; return R; } // no preloading here
  std::string err = c.get("err", "EIO"); bool sticky = c.integer("sticky", 0) && err != "EINTR"; size_t step = ops.size() > 60 ? ops.size() / 40 : 1;
  for (size_t i = 0; i < ops.size() && R.ok; i += (i < 12 || i + 8 >= ops.size()) ? 1 : step) {
    std::vector<std::string> hows{std::to_string(errnoOf(ops[i] == "rename" && err == "EINTR" ? "EXDEV" : err)), "kill"}; if (ops[i] == "read" || ops[i] == "write") hows.push_back("short"); if (i + 1 == ops.size() || ops[i] == "rename") hows.push_back("killafter");
    for (auto& h : hows) {
      if (sticky && h[0] == 'k') continue;
      Setup t = lay(place, A); ProcOpt q = o; q.env["VF_LOG"] = ""; q.env["VF_AT"] = std::to_string(i + 1); q.env["VF_HOW"] = h; if (sticky && h != "short") q.env["VF_STICKY"] = "1"; ProcOut x = run(t, q);
      bool killed = h[0] == 'k'; std::string at = show(fmt("operation %zu (%s) ", i + 1, ops[i].c_str()) + (killed ? "is the last before it is killed" : h == "short" ? "moves fewer bytes than asked" : "fails with " + err + (sticky ? " from then on" : "")));
      if (x.timeout) { R.fail(at + "does not end"); break; } if (!killed && x.sig) { R.fail(at + x.str() + " instead of a normal end"); break; }
      if (h == "short" && !x.ok()) R.fail(at + x.str() + ", but a partial transfer is no failure");
      judge(R, at, t, A, N, x.ok(), killed && !x.ok(), ops[i] == "unlink");
      R.stat["faults"]++; R.stat["fault_" + ops[i]]++; if (killed) R.stat["crash_points"]++; if (!x.ok()) R.stat["runs_that_failed"]++; if (!R.ok) break;
    }
  }
  R.stat["operations"] += (long long)ops.size(); R.nontrivial = true; return R;
}
static Registrar a08({"P08", "conversions by both programs, in place (same path, other spelling, symbolic and hard link) or to another file, in which every file operation fails once (error, partial transfer) or is the last before a SIGKILL; file size limits, missing or protected files and directories, full device, cancellation, concurrent runs; non-trivial: a fault, limit or stop was met", genP08, p08, true, 60, 1500});
} // namespace vh
