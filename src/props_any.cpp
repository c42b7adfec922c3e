// P09: damaged, extreme and arbitrary input: both tools end normally and give the same result every time.
#include "core.hpp"
#include "machine.hpp"
#include "weld.hpp"
#include "gen.hpp"
#include "straight.hpp"
#include "proc.hpp"
#include "mangle.hpp"

namespace vh {
static Case genP09(Rng& r) {
  Profile p; p.maxBlocks = (int)r.range(1, 4); p.pRateVar = 0.3; Case c = genWeldCase(r, p);
  if (r.chance(0.12)) { c.lines.clear(); int n = (int)r.range(0, 40); for (int i = 0; i < n; ++i) { std::string s; int m = (int)r.range(0, 60); for (int k = 0; k < m; ++k) { char ch = r.chance(0.7) ? "GMTXYZEFIJR0123456789.- ;\t@()"[r.range(0, 29)] : (char)r.range(0, 255); if (ch != '\n') s += ch; } c.lines.push_back(s); } }
  else if (r.chance(0.9)) c.lines = mangle(r, c.lines);
  std::string t = r.chance(0.35) ? "S" : "W"; c.set("tool", t);
  if (t == "S") { c.seti("fw", r.range(0, 7)); genFwArgs(r, c); int n = (int)r.range(0, 3); for (int i = 0; i < n; ++i) { size_t k = c.lines.empty() ? 0 : (size_t)r.range(0, (long long)c.lines.size()); double R = r.logreal(1e-4, 1e4), a = r.real(0, 6.3), b = r.real(0, 6.3); std::string s = fmt("G%d X%.4f Y%.4f I%.4f J%.4f E%.4f", r.chance(0.5) ? 2 : 3, R * std::cos(a), R * std::sin(a), R * std::cos(b), R * std::sin(b), r.real(-1, 5)); if (r.chance(0.4)) { std::vector<std::string> mm = mangle(r, {s}); if (!mm.empty()) s = mm[0]; } if (r.chance(0.2)) s += fmt(" Z%.3f", r.real(0, 10)); c.lines.insert(c.lines.begin() + (long)k, s); } }
  else if (r.chance(0.15)) { switch (r.range(0, 5)) { case 0: c.set("res", r.pick(std::vector<double>{1e-9, 1e3, 50})); break; case 1: c.set("ptol", r.pick(std::vector<double>{1e-12, 0.999999})); break; case 2: c.set("maxr", r.pick(std::vector<double>{1e-6, 1e300})); break; case 3: c.set("erv", r.pick(std::vector<double>{1e-12, 1e6})); break; case 4: c.set("mmas", r.pick(std::vector<double>{1e-6, 1e6})); c.seti("mas", r.pick(std::vector<int>{1, 2000000000})); break; default: c.seti("maxlen", r.pick(std::vector<int>{31, 2147483647})); } }
  if (getenv("VH_VALGRIND")) { c.seti("vg", 1); if (c.lines.size() > 60) c.lines.resize(60); } return c;
}
static std::string firstDiff(const std::string& a, const std::string& b) { auto x = splitLines(a), y = splitLines(b); size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) ++i; return fmt("line %zu: '%s', then '%s'", i + 1, i < x.size() ? escape(x[i]).substr(0, 200).c_str() : "<end>", i < y.size() ? escape(y[i]).substr(0, 200).c_str() : "<end>"); }
static Result p09(const Case& c) {
  Result R; std::string text = caseText(c); bool vg = c.integer("vg", 0); bool S = c.get("tool") == "S", cliOk = true; std::vector<std::string> av; std::string s = scratch() + "/any.gcode", d = scratch() + "/any.out"; std::string out;
  if (S) {
    int arcs = 0; for (auto& l : c.lines) { size_t i = l.find_first_of("gG"); while (i != std::string::npos) { size_t k = i + 1; while (k < l.size() && (l[k] == ' ' || l[k] == '0')) ++k; if (k < l.size() && (l[k] == '2' || l[k] == '3')) ++arcs; i = l.find_first_of("gG", i + 1); } } if (arcs > 6 || (vg && arcs > 2)) { R.discard = true; return R; }
    FwCfg f = FwCfg::of(c); firmware_arguments a = fwArgs(f, c); StrRun x; if (!vg) { x = straighten(a, text); if (!x.ok || !x.read) { R.fail("the straightener fails on this input"); return R; } StrRun y = straighten(a, text); if (x.out != y.out) R.fail("straightening twice differs at " + firstDiff(x.out, y.out)); } out = x.out;
    av = {binDir() + "/ArcStraightener", std::string("-f=") + f.spec().type, std::string("-v=") + f.spec().version}; auto opt = [&](const char* k, const std::string& n) { if (c.has(k) && f.uses(k)) av.push_back("--" + n + "=" + (std::string(k) == "g90e" ? (c.integer(k, 0) ? "TRUE" : "FALSE") : c.get(k))); };
    opt("mm", "mm-per-arc-segment"); opt("perr", "arc-segments-per-r"); opt("persec", "arc-segments-per-sec"); opt("minmm", "min-mm-per-arc-segment"); opt("minseg", "min-arc-segment-mm"); opt("maxseg", "max-arc-segment-mm"); opt("maxerr", "mm-max-arc-error"); opt("minarc", "min-arc-segments"); opt("mincirc", "min-circle-segments"); opt("ncorr", "n-arc-correction"); opt("g90e", "g90-g91-influences-extruder");
    R.stat["straightened"] = 1; R.nontrivial = arcs > 0;
  } else {
    WeldCfg w = WeldCfg::of(c); if (!vg) { WeldRun x = weldText(w, text); if (!x.r.success || !x.read) { R.fail("the welder fails on this input: " + x.r.message); return R; } WeldRun y = weldText(w, text); if (x.out != y.out) R.fail("welding twice differs at " + firstDiff(x.out, y.out)); if (x.r.progress.arcs_created != y.r.progress.arcs_created || x.r.progress.points_compressed != y.r.progress.points_compressed || x.r.progress.gcodes_processed != y.r.progress.gcodes_processed) R.fail("the counts of two runs differ"); out = x.out; R.nontrivial = x.r.progress.arcs_created > 0; R.stat["arcs"] = x.r.progress.arcs_created; }
    av = {binDir() + "/ArcWelder", fmt("-r=%.17g", w.res), fmt("-t=%.17g", w.ptol), fmt("-m=%.17g", w.maxr), fmt("-x=%d", w.xp), fmt("-e=%d", w.ep), fmt("-v=%.17g", w.erv), fmt("-c=%d", w.maxlen), fmt("-s=%.17g", w.mmas), fmt("-a=%d", w.mas)}; if (w.d3) av.push_back("-z"); if (w.travel) av.push_back("-y"); if (w.dyn) av.push_back("-d"); if (w.g90e) av.push_back("-g");
    cliOk = w.res > 0 && w.ptol > 0 && w.ptol < 1 && w.maxr > 0 && w.erv >= 0 && (w.maxlen == 0 || w.maxlen > 30) && (w.mmas > 0) == (w.mas > 0); R.stat["welded"] = 1;
  }
  if (!cliOk && vg) { R.discard = true; return R; }
  if (R.ok && cliOk && (vg || getenv("VH_SPAWN") || c.has("spawn"))) {
    writeFile(s, text); remove(d.c_str()); av.push_back(s); av.push_back(d); if (vg) av.insert(av.begin(), {"/usr/bin/valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--undef-value-errors=yes"}); ProcOpt po; po.limit = 110; ProcOut p = runProc(av, po); std::string got; bool rd = readFile(d, got); R.stat[vg ? "valgrind_runs" : "program_runs"] = 1;
    if (vg && p.code == 99) { size_t k = p.out.find("=="); R.fail("valgrind: " + escape(p.out.substr(k == std::string::npos ? 0 : k, 600))); } else if (vg && p.timeout) R.discard = true; else if (!p.ok()) R.fail("the program ended with " + p.str()); else if (!rd) R.fail("the program wrote nothing"); else if (!vg && got != out) R.fail("another process gives another result, " + firstDiff(out, got)); if (vg) R.nontrivial = true;
  }
  return R;
}
static Registrar a9({"P09", "well-formed programs damaged by extreme numbers, odd commands, cuts, repetition and arbitrary bytes, given twice to the welder or straightener; non-trivial: an arc was written or turned into lines (or the run was under valgrind)", genP09, p09, true, 2000, 40000});
} // namespace vh
