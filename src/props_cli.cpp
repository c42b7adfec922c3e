// The command-line programs: P19 (straightener's options) and P23 (welder's options).
#include "core.hpp"
#include "machine.hpp"
#include "weld.hpp"
#include "gen.hpp"
#include "straight.hpp"
#include "proc.hpp"

namespace vh {
static std::string gnum(double v) { char b[40]; snprintf(b, sizeof b, "%.15g", v); return b; }
static void freshDir(const std::string& d) { for (auto& n : listDir(d)) remove((d + "/" + n).c_str()); mkdir(d.c_str(), 0777); }
// what one run left behind
struct Left { ProcOut p; bool srcSame, haveDst; std::string dst; std::string extra; };
static Left runTool(const std::string& tool, const std::vector<std::string>& args, const std::string& text, bool inplace) {
  std::string d = scratch() + "/cli"; freshDir(d); std::string s = d + "/a in.gcode", o = d + "/out.gcode"; writeFile(s, text);
  std::vector<std::string> av{binDir() + "/" + tool}; for (auto& a : args) av.push_back(a == "@SRC" ? s : a == "@DST" ? o : a == "@NONE" ? d + "/missing.gcode" : a == "@NODIR" ? d + "/missing/out.gcode" : a);
  Left l; ProcOpt po; po.cwd = d; l.p = runProc(av, po); std::string now; bool r = readFile(s, now); l.srcSame = r && now == text;
  if (inplace) { l.haveDst = !l.srcSame; l.dst = now; } else l.haveDst = readFile(o, l.dst);
  for (auto& n : listDir(d)) if (n != "a in.gcode" && !(n == "out.gcode" && !inplace)) l.extra += " " + n;
  return l;
}
// places the file names among the options
static std::vector<std::string> mixArgs(const Case& c, std::vector<std::string> opts) {
  std::vector<std::string> pos; int names = (int)c.integer("names", 2); if (names >= 1) pos.push_back(c.integer("nosrc", 0) ? "@NONE" : "@SRC"); if (names >= 2) pos.push_back(c.integer("nodst", 0) ? "@NODIR" : "@DST"); if (names >= 3) pos.push_back("third.gcode");
  Rng r((uint64_t)c.integer("order", 1)); std::vector<std::string> out; for (size_t i = opts.size(); i > 1; --i) std::swap(opts[i - 1], opts[(size_t)r.range(0, (long long)i - 1)]);
  size_t p = 0, o = 0; while (p < pos.size() || o < opts.size()) { if (p < pos.size() && (o >= opts.size() || r.chance(0.3))) out.push_back(pos[p++]); else out.push_back(opts[o++]); } return out;
}
static std::string show(const std::vector<std::string>& a) { std::string s; for (auto& x : a) s += (s.empty() ? "" : " ") + x; return s; }

// ---------------------------------------------------------------- P23
// One documented option: name, short name, case key, how the value must be.
struct Opt { const char* lng; char sh; const char* key; int kind; }; // kind: 0 switch, 1 number, 2 unsigned, 3 int, 4 word
static const std::vector<Opt> kWeld{{"resolution-mm", 'r', "res", 1}, {"path-tolerance-percent", 't', "ptol", 1}, {"max-radius-mm", 'm', "maxr", 1}, {"allow-3d-arcs", 'z', "d3", 0}, {"allow-travel-arcs", 'y', "travel", 0}, {"allow-dynamic-precision", 'd', "dyn", 0},
  {"default-xyz-precision", 'x', "xp", 2}, {"default-e-precision", 'e', "ep", 2}, {"mm-per-arc-segment", 's', "mmas", 1}, {"min-arc-segments", 'a', "mas", 3}, {"extrusion-rate-variance-percent", 'v', "erv", 1}, {"max-gcode-length", 'c', "maxlen", 3}, {"g90-influences-extruder", 'g', "g90e", 0},
  {"progress-type", 'p', "progress", 4}, {"log-level", 'l', "log", 4}};
static bool plainNumber(const std::string& v, bool integer, bool sign) { // an accepted way to write a number
  size_t i = 0; if (i < v.size() && (v[i] == '-' || v[i] == '+')) { if (v[i] == '-' && !sign) return false; ++i; } size_t d = 0, f = 0; while (i < v.size() && isdigit((unsigned char)v[i])) ++i, ++d;
  if (!integer && i < v.size() && v[i] == '.') { ++i; while (i < v.size() && isdigit((unsigned char)v[i])) ++i, ++f; }
  if (!integer && d + f && i < v.size() && (v[i] == 'e' || v[i] == 'E')) { ++i; if (i < v.size() && (v[i] == '-' || v[i] == '+')) ++i; size_t k = i; while (i < v.size() && isdigit((unsigned char)v[i])) ++i; if (i == k) return false; }
  return d + f > 0 && i == v.size();
}
static Case genP23(Rng& r) {
  Profile p; p.maxBlocks = 4; p.pRateVar = 0.4; Case c = genWeldCase(r, p); Case plain; plain.lines = c.lines; for (auto& k : {"crlf", "nonl"}) if (c.has(k)) plain.kv[k] = c.kv[k]; Case o = plain;
  double dens = r.chance(0.2) ? 0 : r.real(0.05, 0.6); auto some = [&] { return r.chance(dens); };
  if (some()) o.set("o_res", gnum(r.pick(std::vector<double>{0.01, 0.02, 0.1, 0.2, 0.025, 0.5, 1}))); if (some()) o.set("o_ptol", gnum(r.pick(std::vector<double>{0.001, 0.01, 0.02, 0.1, 0.5, 0.99, 0.0005})));
  if (some()) o.set("o_maxr", gnum(r.pick(std::vector<double>{1, 5, 20, 100, 9999, 100000, 2000000, 0.5}))); for (auto k : {"o_d3", "o_travel", "o_dyn", "o_g90e"}) if (some()) o.set(k, "");
  if (some()) o.set("o_xp", std::to_string(r.range(3, 6))); if (some()) o.set("o_ep", std::to_string(r.range(3, 6))); if (some()) { o.set("o_mmas", gnum(r.pick(std::vector<double>{1, 0.5, 2, 5}))); o.set("o_mas", std::to_string(r.pick(std::vector<int>{14, 3, 24, 6}))); } else if (r.chance(0.03)) { o.set("o_mmas", "0"); o.set("o_mas", "0"); }
  if (some()) o.set("o_erv", gnum(r.pick(std::vector<double>{0, 0.05, 0.01, 0.2, 0.5, 2}))); if (some()) o.set("o_maxlen", std::to_string(r.pick(std::vector<int>{0, 31, 40, 45, 50, 60, 80, 1000})));
  if (some()) o.set("o_progress", r.pick(std::vector<std::string>{"NONE", "SIMPLE", "FULL"})); if (some()) o.set("o_log", r.pick(std::vector<std::string>{"NOSET", "VERBOSE", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"}));
  if (r.chance(0.35)) { // one thing that must be refused
    switch (r.range(0, 12)) {
      case 0: o.set("o_res", r.pick(std::vector<std::string>{"0", "-0.05", "-1", "0.0", "-0.0"})); break; case 1: o.set("o_ptol", r.pick(std::vector<std::string>{"0", "1", "1.0", "-0.1", "2", "100"})); break;
      case 2: o.set("o_maxr", r.pick(std::vector<std::string>{"0", "-1", "-9999"})); break; case 3: o.set("o_xp", r.pick(std::vector<std::string>{"2", "7", "0", "1", "8", "255", "256", "259", "260", "262", "1027", "65540"})); break;
      case 4: o.set("o_ep", r.pick(std::vector<std::string>{"2", "7", "0", "1", "9", "255", "256", "261", "259", "4294967295"})); break; case 5: o.kv.erase("o_mas"); o.set("o_mmas", r.pick(std::vector<std::string>{"1", "0.5", "-1"})); break;
      case 6: o.kv.erase("o_mmas"); o.set("o_mas", r.pick(std::vector<std::string>{"14", "-1", "1"})); break; case 7: o.set("o_mmas", "-1"); o.set("o_mas", r.chance(0.5) ? "14" : "-14"); break;
      case 8: o.set("o_erv", r.pick(std::vector<std::string>{"-0.05", "-1"})); break; case 9: o.set("o_maxlen", r.pick(std::vector<std::string>{"-1", "1", "30", "29", "15"})); break;
      case 10: { const char* k[] = {"o_res", "o_ptol", "o_maxr", "o_xp", "o_ep", "o_mmas", "o_mas", "o_erv", "o_maxlen", "o_progress", "o_log"}; o.set(k[r.range(0, 10)], r.pick(std::vector<std::string>{"abc", "", "1x", "nan", "inf", "0,05", "--", "simple"})); break; }
      case 11: if (r.chance(0.5)) o.seti("nosrc", 1); else o.seti("unknown", r.range(1, 4)); break; default: o.seti("dup", r.range(1, 3)); } }
  if (o.has("unknown")) o.seti("names", 2); else o.seti("names", r.chance(0.03) ? (r.chance(0.5) ? 0 : 3) : r.chance(0.12) ? 1 : 2); if (r.chance(0.04)) o.seti("nodst", 1); o.seti("order", r.range(1, 1000000)); o.seti("names_long", r.range(0, 32767)); return o;
}
static Result p23(const Case& c) {
  Result r; WeldCfg w; w.erv = 0.05; w.buf = 10; bool bad = false; std::string why; std::vector<std::string> opts; long lng = c.integer("names_long", 0); int idx = 0;
  auto refuse = [&](const std::string& s) { if (!bad) { bad = true; why = s; } };
  for (auto& o : kWeld) {
    bool L = (lng >> (idx++ % 15)) & 1; std::string key = std::string("o_") + o.key; if (!c.has(key)) continue; std::string v = c.get(key), n = L ? std::string("--") + o.lng : std::string("-") + o.sh;
    opts.push_back(o.kind == 0 ? n : n + "=" + v); double x = strtod(v.c_str(), nullptr); std::string k = o.key;
    if (o.kind == 0) { if (k == "d3") w.d3 = true; if (k == "travel") w.travel = true; if (k == "dyn") w.dyn = true; if (k == "g90e") w.g90e = true; continue; }
    if (o.kind == 4) { static const std::set<std::string> pt{"NONE", "SIMPLE", "FULL"}, ll{"NOSET", "VERBOSE", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"}; if (!(k == "progress" ? pt : ll).count(v)) refuse("unknown word for " + k); continue; }
    if (!plainNumber(v, o.kind > 1, o.kind != 2)) { refuse("no number for " + k); continue; }
    if (k == "res") { w.res = x; if (x <= 0) refuse("resolution out of range"); } if (k == "ptol") { w.ptol = x; if (x <= 0 || x >= 1) refuse("path tolerance out of range"); } if (k == "maxr") { w.maxr = x; if (x <= 0) refuse("max radius out of range"); }
    if (k == "xp") { w.xp = (int)x; if (x < 3 || x > 6) refuse("xyz precision out of range"); } if (k == "ep") { w.ep = (int)x; if (x < 3 || x > 6) refuse("e precision out of range"); }
    if (k == "mmas") { w.mmas = x; if (x < 0) refuse("mm per arc segment negative"); } if (k == "mas") { w.mas = (int)x; if (x < 0) refuse("min arc segments negative"); } if (k == "erv") { w.erv = x; if (x < 0) refuse("extrusion rate variance negative"); }
    if (k == "maxlen") { w.maxlen = (int)x; if (x < 0 || (x > 0 && x <= 30)) refuse("max gcode length out of range"); }
  }
  if ((w.mmas > 0) != (w.mas > 0)) refuse("only one of mm-per-arc-segment and min-arc-segments is set");
  if (c.integer("unknown", 0)) { if (c.integer("names", 2) < 2) { r.discard = true; return r; } opts.push_back(std::vector<std::string>{"", "-q", "--no-such-option", "-k=1", "--resolution=1"}[(size_t)c.integer("unknown", 1) % 5]); refuse("unknown option"); }
  if (c.integer("dup", 0) && !opts.empty()) { opts.push_back(opts[(size_t)c.integer("dup", 1) % opts.size()]); refuse("option given twice"); }
  int names = (int)c.integer("names", 2); if (names == 0) refuse("no source"); if (names == 3) refuse("three file names"); if (c.integer("nosrc", 0)) refuse("source does not exist");
  std::string text = caseText(c); bool inplace = names == 1; std::vector<std::string> av = mixArgs(c, opts); Left l = runTool("ArcWelder", av, text, inplace); std::string at = "ArcWelder " + escape(show(av)) + ": ";
  if (l.p.timeout || l.p.sig) { r.fail(at + l.p.str() + " instead of a normal end"); return r; }
  if (!l.extra.empty()) r.fail(at + "left" + escape(l.extra) + " behind");
  if (bad) {
    if (l.p.code == 0) r.fail(at + "accepted although " + why); if (!l.srcSame) r.fail(at + "refused, but the source changed"); if (l.haveDst) r.fail(at + "refused, but a target was written"); r.stat["refused"] = 1; r.nontrivial = true; return r;
  }
  if (c.integer("nodst", 0) && names >= 2) { if (l.p.code == 0) r.fail(at + "exit status 0 although the target cannot be written"); if (!l.srcSame) r.fail(at + "changed the source"); r.stat["target_impossible"] = 1; r.nontrivial = true; return r; }
  if (l.p.code != 0) { r.fail(at + l.p.str() + " for valid options"); return r; }
  WeldRun lib = weldText(w, text); if (!lib.r.success) { r.fail(at + "the library does not convert what the program does"); return r; }
  if (!inplace && !l.srcSame) r.fail(at + "changed the source"); if (!inplace && !l.haveDst) { r.fail(at + "wrote no target"); return r; }
  if (l.dst != lib.out) { auto a = splitLines(l.dst), b = splitLines(lib.out); size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; r.fail(at + fmt("result differs from the library's at line %zu: '%s' instead of '%s'", i + 1, i < a.size() ? escape(a[i]).c_str() : "<end>", i < b.size() ? escape(b[i]).c_str() : "<end>")); }
  r.nontrivial = lib.out.find("\nG2 ") != std::string::npos || lib.out.find("\nG3 ") != std::string::npos; r.stat["accepted"] = 1; r.stat["options_given"] = (long long)opts.size(); if (inplace) r.stat["in_place"] = 1; return r;
}
static Registrar a23({"P23", "random option lists for the ArcWelder program, run as a process; non-trivial: refused because of one invalid setting, or accepted and at least one arc was written", genP23, p23, true, 2000, 40000});

// ---------------------------------------------------------------- P19, program
static const std::vector<Opt> kStr{{"mm-per-arc-segment", 'm', "mm", 1}, {"arc-segments-per-r", 'i', "perr", 1}, {"arc-segments-per-sec", 's', "persec", 1}, {"min-mm-per-arc-segment", 'n', "minmm", 1}, {"min-arc-segment-mm", 'b', "minseg", 1}, {"max-arc-segment-mm", 'd', "maxseg", 1}, {"mm-max-arc-error", 'e', "maxerr", 1},
  {"min-arc-segments", 'r', "minarc", 3}, {"min-circle-segments", 'a', "mincirc", 3}, {"n-arc-correction", 'c', "ncorr", 3}, {"g90-g91-influences-extruder", 'g', "g90e", 4}};
static Case genP19c(Rng& r) {
  Case c; c.seti("fw", r.range(0, 7)); const FwSpec& s = fwSpecs()[(size_t)c.integer("fw", 0)];
  std::string type = s.type, ver = s.version; if (s.latest && r.chance(0.4)) ver = r.chance(0.5) ? "LATEST_RELEASE" : "-"; if (type == "MARLIN_2" && r.chance(0.3)) type = "-";
  if (r.chance(0.1)) ver = r.pick(std::vector<std::string>{"1.1.9.1", "2.0.9.1", "2.0.9.2", "3.10.0", "3.11.0", "1.0.4", "1.0.5", "2021-06-19", "LATEST_RELEASE", "latest_release", "2.0.9", "2.0.9.1 ", "9", "3.1", "1.0.", "LATEST"});
  if (r.chance(0.05)) type = r.pick(std::vector<std::string>{"MARLIN", "marlin_2", "KLIPPER", "MARLIN_3", "PRUSA ", "x"});
  c.set("type", type); c.set("ver", ver);
  auto val = [&](const std::string& k) -> std::string { if (k == "minarc" || k == "mincirc") return std::to_string(r.pick(std::vector<int>{0, 3, 12, 24, 72, 100})); if (k == "ncorr") return std::to_string(r.pick(std::vector<int>{-1, 200, 300, 0, 1, 2, 5, 10, 25, 50})); if (k == "g90e") return r.pick(std::vector<std::string>{"TRUE", "FALSE", "DEFAULT"});
    if (k == "persec") return gnum(r.pick(std::vector<double>{0, 10, 50, 20})); if (k == "maxerr") return gnum(r.pick(std::vector<double>{0, 0.01, 0.05, 0.002})); if (k == "minmm" || k == "minseg") return gnum(r.pick(std::vector<double>{0.1, 0.2, 0.05, 0.5})); return gnum(r.pick(std::vector<double>{0.25, 0.5, 1, 2, 3})); };
  std::string own; for (auto& a : s.args) if (r.chance(0.3)) c.set("o_" + a, val(a));
  if (r.chance(0.12)) { auto& o = r.pick(kStr); c.set(std::string("o_") + o.key, val(o.key)); }
  if (r.chance(0.08)) { auto& o = r.pick(kStr); c.set(std::string("o_") + o.key, r.pick(std::vector<std::string>{"abc", "", "1x", "true", "nan"})); }
  if (r.chance(0.03)) c.seti("nosrc", 1); if (r.chance(0.03)) c.seti("unknown", 1); c.seti("names", r.chance(0.04) ? (r.chance(0.5) ? 0 : 3) : r.chance(0.15) ? 1 : 2); c.seti("order", r.range(1, 1000000)); c.seti("names_long", r.range(0, 8191)); if (r.chance(0.1)) c.seti("print", 1);
  c.lines = {"G90", r.chance(0.5) ? "M83" : "M82", fmt("G1 X%.3f Y%.3f Z0.2 F%d", r.real(0, 100), r.real(0, 100), (int)r.range(300, 6000))}; int n = (int)r.range(1, 3); Machine m; for (auto& l : c.lines) m.exec(parseLine(l));
  for (int i = 0; i < n; ++i) { double R = r.logreal(0.3, 40), a = r.real(0, 6.28), sw = r.real(0.3, 5.9); bool cw = r.chance(0.5); double I = R * std::cos(a), J = R * std::sin(a), t = a + M_PI + (cw ? -sw : sw); std::string l = fmt("%s X%.3f Y%.3f I%.3f J%.3f E%.5f", cw ? "G2" : "G3", m.x + I + R * std::cos(t), m.y + J + R * std::sin(t), I, J, m.relE ? R * sw * 0.03 : m.e + R * sw * 0.03); c.lines.push_back(l); m.exec(parseLine(l)); if (r.chance(0.3)) { l = r.pick(std::vector<std::string>{"G90", "G91", "M106 S20"}); c.lines.push_back(l); if (l == "G91") { c.lines.push_back("G90"); } m.exec(parseLine(l)); if (l == "G91") m.exec(parseLine("G90")); l = fmt("G1 X%.3f Y%.3f E%.3f ; move", r.real(0, 100), r.real(0, 100), r.real(0, 3)); c.lines.push_back(l); m.exec(parseLine(l)); } }
  return c;
}
static Result p19c(const Case& c) {
  Result r; std::string type = c.get("type", "-"), ver = c.get("ver", "-"); bool bad = false; int reasons = 0; std::string why; auto refuse = [&](const std::string& s) { ++reasons; if (!bad) { bad = true; why = s; } };
  const FwSpec* spec = nullptr; std::string et = type == "-" ? "MARLIN_2" : type; bool typeOk = false; int fi = -1; for (size_t i = 0; i < fwSpecs().size(); ++i) { auto& s = fwSpecs()[i]; if (et != s.type) continue; typeOk = true; if (ver == "-" || ver == "LATEST_RELEASE" ? s.latest : ver == s.version) { spec = &s; fi = (int)i; } }
  if (!typeOk) refuse("unknown firmware type"); else if (!spec) refuse("version does not exist for this firmware");
  std::vector<std::string> opts; long lng = c.integer("names_long", 0); int idx = 0; auto L = [&] { return (lng >> (idx++)) & 1; };
  if (type != "-") opts.push_back((L() ? "--firmware-type=" : "-f=") + type); if (ver != "-") opts.push_back((L() ? "--firmware-version=" : "-v=") + ver);
  Case lc; lc.lines = c.lines; lc.seti("fw", std::max(fi, 0)); bool print = c.integer("print", 0);
  if (!print) for (auto& o : kStr) {
    std::string key = std::string("o_") + o.key; if (!c.has(key)) continue; std::string v = c.get(key); opts.push_back((L() ? std::string("--") + o.lng : std::string("-") + o.sh) + "=" + v);
    if (o.kind == 4) { if (v != "TRUE" && v != "FALSE" && v != "DEFAULT") refuse("unknown word"); } else if (!plainNumber(v, o.kind == 3, true)) refuse("no number");
    if (spec && std::find(spec->args.begin(), spec->args.end(), o.key) == spec->args.end()) refuse(std::string(o.lng) + " does not belong to this firmware");
    if (o.kind == 4) { if (v != "DEFAULT") lc.set(o.key, v == "TRUE" ? "1" : "0"); } else lc.set(o.key, v);
  }
  FwCfg f = FwCfg::of(lc); std::string text = caseText(c);
  auto offers = [&](const Left& l, const std::string& at) { if (!typeOk || spec || reasons != 1) return; const std::string& m = l.p.out; for (auto& s : fwSpecs()) if (ver.find(s.version) == std::string::npos && (et == s.type) != (m.find(s.version) != std::string::npos)) r.fail(at + (et == s.type ? "does not offer version " : "offers version ") + s.version); r.stat["versions_offered"] = 1; };
  if (print) { // -p reports the defaults of the version and writes nothing
    opts.push_back(L() ? "--print-firmware-defaults" : "-p"); Left l = runTool("ArcStraightener", opts, text, false); std::string at = "ArcStraightener " + escape(show(opts)) + ": ";
    if (l.p.timeout || l.p.sig) { r.fail(at + l.p.str()); return r; } if (l.haveDst || !l.srcSame || !l.extra.empty()) r.fail(at + "wrote a file");
    if (bad) { if (l.p.code == 0) r.fail(at + "accepted although " + why); offers(l, at); return r; } if (l.p.code != 0) { r.fail(at + l.p.str()); return r; }
    std::map<std::string, std::string> got; std::string avail; for (auto& s : splitLines(l.p.out)) { if (s.rfind("Available argument for firmware: ", 0) == 0) avail = s.substr(33); size_t k = s.find(" : "); if (!s.empty() && s[0] == '\t' && k != std::string::npos) { std::string n = s.substr(1, k - 1); while (!n.empty() && n.back() == ' ') n.pop_back(); got[n] = s.substr(k + 3); } }
    std::set<std::string> av; { std::istringstream in(avail); std::string t; while (std::getline(in, t, ',')) av.insert(t.substr(t.find_first_not_of(" -"))); }
    for (auto& o : kStr) {
      bool u = f.uses(o.key); if (u != (av.count(o.lng) > 0)) r.fail(at + "advertises " + (u ? "no " : "") + o.lng + ": " + avail); if (u != (got.count(o.lng) > 0)) { r.fail(at + "lists " + (u ? "no " : "a ") + "default for " + o.lng); continue; } if (!u) continue;
      std::string k = o.key, want = k == "g90e" ? (f.g90e ? "True" : "False") : k == "minarc" ? std::to_string(f.minarc) : k == "mincirc" ? std::to_string(f.mincirc) : k == "ncorr" ? std::to_string(f.ncorr) : fmt("%.2f", k == "mm" ? f.mm : k == "perr" ? f.perr : k == "persec" ? f.persec : k == "minmm" ? f.minmm : k == "minseg" ? f.minseg : k == "maxseg" ? f.maxseg : f.maxerr);
      if (got[o.lng] != want) r.fail(at + "reports " + o.lng + "=" + got[o.lng] + ", the default is " + want);
    }
    if (got["Firmware Type"] != spec->type) r.fail(at + "reports type " + got["Firmware Type"]); if (got["Firmware Version"].rfind(spec->version, 0) != 0) r.fail(at + "reports version " + got["Firmware Version"]); r.stat["defaults_printed"] = 1; r.nontrivial = true; return r;
  }
  if (c.integer("unknown", 0)) { if (c.integer("names", 2) < 2) { r.discard = true; return r; } opts.push_back("--no-such-option"); refuse("unknown option"); }
  int names = (int)c.integer("names", 2); if (names == 0) refuse("no source"); if (names == 3) refuse("three file names"); if (c.integer("nosrc", 0)) refuse("source does not exist");
  std::vector<std::string> av = mixArgs(c, opts); bool inplace = names == 1; Left l = runTool("ArcStraightener", av, text, inplace); std::string at = "ArcStraightener " + escape(show(av)) + ": ";
  if (l.p.timeout || l.p.sig) { r.fail(at + l.p.str() + " instead of a normal end"); return r; }
  if (!l.extra.empty()) r.fail(at + "left" + escape(l.extra) + " behind");
  if (bad) { if (l.p.code == 0) r.fail(at + "accepted although " + why); if (!l.srcSame) r.fail(at + "refused, but the source changed"); if (l.haveDst) r.fail(at + "refused, but a target was written"); offers(l, at); r.stat["refused"] = 1; r.nontrivial = true; return r; }
  if (l.p.code != 0) { r.fail(at + l.p.str() + " for valid options"); return r; }
  // the library with every setting given, so that no default of the tool takes part
  firmware_arguments a; a.firmware_type = f.type(); a.version = f.spec().version; a = makeFirmware(f, a)->get_default_arguments_for_current_version();
  a.mm_per_arc_segment = f.mm; a.arc_segments_per_r = f.perr; a.arc_segments_per_sec = f.persec; a.min_mm_per_arc_segment = f.minmm; a.min_arc_segment_mm = f.minseg; a.max_arc_segment_mm = f.maxseg; a.mm_max_arc_error = f.maxerr; a.min_arc_segments = f.minarc; a.min_circle_segments = f.mincirc; a.n_arc_correction = f.ncorr; a.g90_g91_influences_extruder = f.g90e;
  StrRun lib = straighten(a, text); if (!lib.ok) { r.fail(at + "the library does not convert what the program does"); return r; }
  if (!inplace && !l.srcSame) r.fail(at + "changed the source"); if (!inplace && !l.haveDst) { r.fail(at + "wrote no target"); return r; }
  if (l.dst != lib.out) { auto x = splitLines(l.dst), y = splitLines(lib.out); size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) ++i; r.fail(at + fmt("result differs at line %zu: '%s' instead of '%s'", i + 1, i < x.size() ? escape(x[i]).c_str() : "<end>", i < y.size() ? escape(y[i]).c_str() : "<end>")); }
  r.stat["accepted"] = 1; r.stat[std::string("firmware_") + f.spec().type + "_" + f.spec().version] = 1; r.nontrivial = true; return r;
}
static Registrar a19({"P19", "random firmware types, versions and arguments for the ArcStraightener program, run as a process; non-trivial: every case", genP19c, p19c, true, 2000, 40000});
} // namespace vh
