// Runs the arc straightener and reads its output; holds a reference model of each firmware's segmentation.
#pragma once
#include "core.hpp"
#include "machine.hpp"
#include "arc_interpolation.h"
#include "marlin_1.h"
#include "marlin_2.h"
#include "repetier.h"
#include "prusa.h"
#include "smoothieware.h"
#include <iostream>
#include <memory>

namespace vh {

// what each supported firmware version documents
struct FwSpec { const char* type; const char* version; int kind; bool latest; std::vector<std::string> args; };
enum FwKind { M1, M2A, M2B, PR310, PR311, RE104, RE105, SMOO };
inline const std::vector<FwSpec>& fwSpecs() {
  static const std::vector<FwSpec> v{
    {"MARLIN_1", "1.1.9.1", M1, true, {"mm", "ncorr", "g90e"}},
    {"MARLIN_2", "2.0.9.1", M2A, true, {"mm", "perr", "minarc", "persec", "ncorr", "g90e"}},
    {"MARLIN_2", "2.0.9.2", M2B, false, {"minseg", "maxseg", "mincirc", "persec", "ncorr", "g90e"}},
    {"PRUSA", "3.10.0", PR310, true, {"mm", "ncorr", "g90e"}},
    {"PRUSA", "3.11.0", PR311, false, {"mm", "minarc", "minmm", "ncorr", "g90e"}},
    {"REPETIER", "1.0.4", RE104, true, {"mm", "ncorr", "g90e"}},
    {"REPETIER", "1.0.5", RE105, false, {"mm", "ncorr", "g90e"}},
    {"SMOOTHIEWARE", "2021-06-19", SMOO, true, {"mm", "maxerr", "ncorr", "g90e"}}};
  return v;
}
struct FwCfg {
  int fw = 1; double mm = 1, perr = 0, persec = 0, minmm = 0, minseg = 0.1, maxseg = 1, maxerr = 0; int minarc = 0, mincirc = 0, ncorr = 25; bool g90e = false;
  const FwSpec& spec() const { return fwSpecs()[fw]; }
  int kind() const { return spec().kind; }
  bool uses(const std::string& a) const { auto& v = spec().args; return std::find(v.begin(), v.end(), a) != v.end(); }
  // documented defaults of each version, then what the case overrides
  static FwCfg of(const Case& c) {
    FwCfg f; f.fw = (int)(c.integer("fw", 1) % (long long)fwSpecs().size()); int k = f.kind();
    f.g90e = k == M2A || k == M2B || k == SMOO; f.minarc = (k == M2A || k == PR311) ? 24 : 0; f.mincirc = k == M2B ? 72 : 0;
    if (k == SMOO) { f.mm = 0; f.maxerr = 0.01; f.ncorr = 5; }
    if (c.has("mm")) f.mm = c.num("mm", 1); if (c.has("perr")) f.perr = c.num("perr", 0); if (c.has("persec")) f.persec = c.num("persec", 0);
    if (c.has("minmm")) f.minmm = c.num("minmm", 0); if (c.has("minseg")) f.minseg = c.num("minseg", 0); if (c.has("maxseg")) f.maxseg = c.num("maxseg", 0);
    if (c.has("maxerr")) f.maxerr = c.num("maxerr", 0); if (c.has("minarc")) f.minarc = (int)c.integer("minarc", 0); if (c.has("mincirc")) f.mincirc = (int)c.integer("mincirc", 0);
    if (c.has("ncorr")) f.ncorr = (int)c.integer("ncorr", 0); if (c.has("g90e")) f.g90e = c.integer("g90e", 0);
    return f;
  }
  firmware_types type() const { switch (kind()) { case M1: return firmware_types::MARLIN_1; case M2A: case M2B: return firmware_types::MARLIN_2; case PR310: case PR311: return firmware_types::PRUSA; case RE104: case RE105: return firmware_types::REPETIER; default: return firmware_types::SMOOTHIEWARE; } }
};
inline std::unique_ptr<firmware> makeFirmware(const FwCfg& f, const firmware_arguments& a) {
  switch (f.type()) { case firmware_types::MARLIN_1: return std::make_unique<marlin_1>(a); case firmware_types::MARLIN_2: return std::make_unique<marlin_2>(a); case firmware_types::PRUSA: return std::make_unique<prusa>(a);
    case firmware_types::REPETIER: return std::make_unique<repetier>(a); default: return std::make_unique<smoothieware>(a); }
}
// the defaults the tool reports, overridden by what the case sets
inline firmware_arguments fwArgs(const FwCfg& f, const Case& c) {
  firmware_arguments a; a.firmware_type = f.type(); a.version = c.integer("latest", 0) && f.spec().latest ? "LATEST_RELEASE" : f.spec().version;
  a = makeFirmware(f, a)->get_default_arguments_for_current_version();
  if (c.has("mm")) a.mm_per_arc_segment = f.mm; if (c.has("perr")) a.arc_segments_per_r = f.perr; if (c.has("persec")) a.arc_segments_per_sec = f.persec;
  if (c.has("minmm")) a.min_mm_per_arc_segment = f.minmm; if (c.has("minseg")) a.min_arc_segment_mm = f.minseg; if (c.has("maxseg")) a.max_arc_segment_mm = f.maxseg;
  if (c.has("maxerr")) a.mm_max_arc_error = f.maxerr; if (c.has("minarc")) a.min_arc_segments = f.minarc; if (c.has("mincirc")) a.min_circle_segments = f.mincirc;
  if (c.has("ncorr")) a.n_arc_correction = f.ncorr; if (c.has("g90e")) a.g90_g91_influences_extruder = f.g90e;
  return a;
}
inline void genFwArgs(Rng& r, Case& c) {
  c.seti("fw", r.range(0, (long long)fwSpecs().size() - 1)); FwCfg d = FwCfg::of(c);
  if (r.chance(0.15)) c.seti("latest", 1);
  bool small = r.chance(0.5);
  if (d.uses("mm") && r.chance(0.5)) c.set("mm", r.pick(std::vector<double>{0.1, 0.2, 0.25, 0.5, 0.7, 1, 1.5, 2, 3}));
  if (d.uses("ncorr") && r.chance(0.5)) c.seti("ncorr", r.pick(std::vector<int>{-1, 0, 1, 2, 3, 5, 10, 24, 25, 26, 50, 100, 127, 128, 200, 255, 256, 300, 1000}));
  if (d.uses("g90e") && r.chance(0.4)) c.seti("g90e", r.range(0, 1));
  double mm = FwCfg::of(c).mm;
  if (d.uses("perr") && r.chance(0.25)) c.set("perr", mm * r.pick(std::vector<double>{1, 1.5, 2, 4, 10}));
  if (d.uses("minarc") && r.chance(0.4)) c.seti("minarc", r.pick(std::vector<int>{0, 1, 2, 8, 24, 72, 180, 360}));
  if (d.uses("mincirc") && r.chance(0.4)) c.seti("mincirc", r.pick(std::vector<int>{0, 1, 8, 24, 72, 180, 360}));
  if (d.uses("minmm") && r.chance(0.4)) c.set("minmm", r.pick(std::vector<double>{0, 0.05, 0.1, 0.3, 0.5}));
  if (d.uses("persec") && r.chance(0.3)) c.set("persec", r.pick(std::vector<double>{5, 10, 20, 50, 100}));
  if (d.uses("minseg") && r.chance(0.4)) c.set("minseg", r.pick(std::vector<double>{0.05, 0.1, 0.2, 0.4}));
  if (d.uses("maxseg") && r.chance(0.4)) c.set("maxseg", r.pick(std::vector<double>{0.5, 0.6, 1, 2, 3}));
  if (d.uses("maxerr") && r.chance(0.4)) c.set("maxerr", small ? 0.001 : r.pick(std::vector<double>{0, 0.005, 0.02, 0.1}));
}
struct Silence { std::streambuf* o; Silence() { o = std::cout.rdbuf(nullptr); } ~Silence() { std::cout.rdbuf(o); std::cout.clear(); } };
struct StrRun { bool ok = false; std::string out; bool read = false; };
inline StrRun straighten(const firmware_arguments& a, const std::string& text) {
  StrRun r; arc_interpolation_args g; g.firmware_args = a; g.source_path = scratch() + "/sin.gcode"; g.target_path = scratch() + "/sout.gcode";
  writeFile(g.source_path, text); remove(g.target_path.c_str());
  { Silence s; arc_interpolation i(g); r.ok = i.process(); }
  r.read = readFile(g.target_path, r.out); return r;
}

// an arc as the source machine sees it
struct ArcGeo { double sx, sy, sz, ex, ey, ez, cx, cy, i, j, r, sweep, rEnd; bool cw, full; double rel() const { return 3e-6 + 5e-7 * (std::fabs(cx) + std::fabs(cy)) / (r * sweep); } /* error of single precision arithmetic relative to the arc */ double signedSweep() const { return cw ? -sweep : sweep; } };
inline ArcGeo arcGeo(const Machine& before, const Machine& after, const GLine& g) {
  ArcGeo a; a.sx = before.x; a.sy = before.y; a.sz = before.z; a.ex = after.x; a.ey = after.y; a.ez = after.z; a.i = g.get('I'); a.j = g.get('J');
  a.cx = a.sx + a.i; a.cy = a.sy + a.j; a.r = std::hypot(a.i, a.j); a.cw = g.word == "G2"; a.rEnd = std::hypot(a.ex - a.cx, a.ey - a.cy);
  a.full = std::fabs(a.sx - a.ex) < 1e-6 && std::fabs(a.sy - a.ey) < 1e-6;
  a.sweep = a.full ? 2 * M_PI : arcSweep(a.sx, a.sy, a.ex, a.ey, a.cx, a.cy, a.cw);
  return a;
}
// Documented segmentation: n moves; every move but the last covers `step` of the sweep (a fraction)
struct Seg { long n; double step; };
inline void floors(double v, bool up, std::set<long>& o, double rel) {
  double s = rel * std::fabs(v) + 2e-6; if (!(v > 0)) v = 0; if (v > 65534) { o.insert(65534); return; }
  for (double x : {v - s, v, v + s}) { long k = (long)(up ? std::ceil(x) : std::floor(x)); if (k < 0) k = 0; o.insert(k); }
}
inline std::vector<Seg> segModel(const FwCfg& f, const ArcGeo& a, double F) {
  double len = std::hypot(a.r * a.sweep, a.ez - a.sz), flat = a.r * a.sweep; std::set<long> n; std::vector<Seg> out; int k = f.kind(); double rl = a.rel(); 
  auto even = [&](long least) { std::set<long> m; for (long x : n) m.insert(std::max(x, least)); for (long x : m) out.push_back({x, 1.0 / x}); };
  if (k == M1 || k == PR310) { floors(len / f.mm, false, n, rl); even(1); }
  else if (k == RE104) { double l = f.mm; if (F > 60) l = std::min(f.mm, F * 0.01666 * f.mm); floors(flat / l, false, n, rl); if (std::fabs(F - 60.02) < 0.1) floors(flat / f.mm, false, n, rl); even(1); }
  else if (k == RE105) { floors(len / f.mm, true, n, rl); even(1); }
  else if (k == PR311) {
    double l = f.minarc > 0 ? a.r * 2 * M_PI / f.minarc : f.mm; if (l < f.minmm) l = f.minmm; else if (l > f.mm) l = f.mm;
    floors(len / l, true, n, rl); even(1);
  }
  else if (k == SMOO) {
    double l = f.mm; if (f.maxerr > 0 && 2 * a.r > f.maxerr) { double m = 2 * std::sqrt(f.maxerr * (2 * a.r - f.maxerr)); if (l < m) l = m; }
    if (l < 0.0001) l = 0.5; floors(len / l, false, n, rl); even(1);
  }
  else if (k == M2A) {
    double l = f.mm; if (f.perr > 0) l = std::min(std::max(f.mm * a.r, f.mm), f.perr); else if (f.persec > 0) l = std::max(F / 60 / f.persec, f.mm);
    std::set<long> m; if (f.minarc > 1 && !a.full) floors((double)f.minarc * a.sweep / (2 * M_PI), true, m, rl); else m.insert(std::max(1, f.minarc));
    floors(len / l, false, n, rl); for (long q : m) { std::set<long> t; for (long x : n) t.insert(std::max(std::max(x, q), 1L)); for (long x : t) out.push_back({x, 1.0 / x}); }
  }
  else {
    double l = f.persec > 0 ? std::min(std::max(F / 60 / f.persec, f.minseg), f.maxseg) : f.maxseg; int mc = std::max(1, f.mincirc);
    std::set<long> m; if (a.full) m.insert(mc); else floors((double)mc * a.sweep / (2 * M_PI), true, m, rl);
    floors(flat / l, false, n, rl);
    for (long q : m) for (long x : n) {
      double nom = (double)std::max(x, q), s = std::min(std::max(flat / nom, f.minseg), f.maxseg); std::set<long> g; floors(flat / s, false, g, rl);
      // floats decide whether whole segments reach the end: both readings are allowed near the limit
      for (long y : g) { double cov = s * y; if (cov < flat - 0.0001 + (1e-5 + rl) * flat) out.push_back({y + 1, y ? s / flat : 1.0}); if (cov > flat - 0.0001 - (1e-5 + rl) * flat - 1e-5 && y > 0) out.push_back({y, 1.0 / y}); }
    }
  }
  return out;
}
// Points of the documented small-angle approximation, relative to the centre
inline std::vector<std::pair<double, double>> approxPoints(const FwCfg& f, const ArcGeo& a, const Seg& s) {
  std::vector<std::pair<double, double>> p; double th = s.step * a.signedSweep(); int k = f.kind(); bool cubic = k == M2A || k == M2B || k == PR311 || k == RE105;
  double sn = cubic ? th - th * th * th / 6 : th, cs = 1 - 0.5 * th * th, x = -a.i, y = -a.j; long left = f.ncorr; bool marlin = k == M1 || k == M2A || k == M2B;
  if (marlin) left = f.ncorr > 1 ? f.ncorr - 1 : 0;
  long used = 0;
  for (long q = 1; q < s.n; ++q) {
    if (used < left) { double nx = x * cs - y * sn, ny = x * sn + y * cs; x = nx; y = ny; ++used; }
    else { double t = q * th; x = -a.i * std::cos(t) + a.j * std::sin(t); y = -a.i * std::sin(t) - a.j * std::cos(t); used = 0; }
    p.push_back({x, y});
  }
  return p;
}

// Reading of the output: for source line k, its output lines [from, to)
struct StrStep { int k, from, to; bool arc; };
struct StrAlign { bool ok = false, ambiguous = false; std::string why; std::vector<std::string> src, out, header; std::vector<GLine> ps, po; std::vector<StrStep> steps; };
inline bool segLine(const std::string& l) { return l.rfind("G1 ", 0) == 0 && l.find(';') == std::string::npos; }
inline StrAlign alignStr(const FwCfg& f, const std::string& srcText, const std::string& outText, bool expectHeader = true) {
  StrAlign a; a.src = splitLines(srcText); std::vector<std::string> o = splitLines(outText); size_t h = 0;
  if (o.empty() || o[0].rfind("; Postprocessed by [ArcStraightener]", 0) != 0) { a.why = "the tool's header is missing"; return a; }
  while (h < o.size() && !o[h].empty()) { if (o[h].rfind("; ", 0) != 0) { a.why = "header line is not a comment: " + escape(o[h]); return a; } a.header.push_back(o[h]); ++h; }
  if (h >= o.size()) { a.why = "header is not closed by an empty line"; return a; }
  a.out.assign(o.begin() + h + 1, o.end()); if (outText.back() != '\n') { a.why = "output does not end with a line end"; return a; }
  for (auto& l : a.src) a.ps.push_back(parseLine(l)); for (auto& l : a.out) a.po.push_back(parseLine(l));
  Machine sm, om; sm.g90e = om.g90e = f.g90e; size_t j = 0, m = a.out.size(); double slack = 0;
  for (size_t i = 0; i < a.src.size(); ++i) {
    Machine b = sm; sm.exec(a.ps[i]);
    if (!a.ps[i].isArc()) {
      if (j >= m || a.out[j] != a.src[i]) { a.why = fmt("source line %zu '%s' is not the next line of the output, which is '%s'", i + 1, escape(a.src[i]).c_str(), j < m ? escape(a.out[j]).c_str() : "<end>"); return a; }
      om.exec(a.po[j]); a.steps.push_back({(int)i, (int)j, (int)j + 1, false}); ++j; continue;
    }
    size_t e = j; while (e < m && segLine(a.out[e])) ++e;
    bool nextArc = i + 1 < a.src.size() && a.ps[i + 1].isArc(), nextSeg = i + 1 < a.src.size() && segLine(a.src[i + 1]);
    if (nextSeg || (nextArc && b.rel)) { a.ambiguous = true; return a; }
    if (nextArc) {
      Machine nm = sm; nm.exec(a.ps[i + 1]); if (std::hypot(nm.x - sm.x, nm.y - sm.y) < 0.01 || std::hypot(b.x - sm.x, b.y - sm.y) < 0.01) { a.ambiguous = true; return a; } // where one full turn ends and the next arc starts cannot be told
      ArcGeo g = arcGeo(b, sm, a.ps[i]); size_t pick = 0;
      std::set<size_t> cand; for (auto& q : segModel(f, g, sm.f)) cand.insert(j + q.n); double best = 1e9; Machine t = om;
      for (int pass = 0; pass < 2 && !pick; ++pass) { t = om; for (size_t q = j; q < e; ++q) {
        t.exec(a.po[q]); if (pass == 0 && !cand.count(q + 1)) continue;
        double d = std::max({std::fabs(t.x - sm.x), std::fabs(t.y - sm.y), f.kind() == RE104 ? 0 : std::fabs(t.z - sm.z)}), de = std::fabs(t.e - sm.e);
        if (f.kind() == M2B && pick && d < 2e-3 + slack) { a.ambiguous = true; return a; } // a last move of no length: which arc it belongs to cannot be told
        if (d < 2e-3 + slack && d + de <= best + 1e-9) { best = d + de; pick = q + 1; if (pass == 1) break; }
      } }
      if (!pick) { a.why = fmt("arc of source line %zu '%s' does not reach its end before the next line", i + 1, escape(a.src[i]).c_str()); return a; }
      e = pick;
    }
    for (size_t q = j; q < e; ++q) om.exec(a.po[q]);
    if (b.rel) slack += 6e-4 * (e - j);
    a.steps.push_back({(int)i, (int)j, (int)e, true}); j = e;
  }
  if (j != m) { a.why = fmt("output has lines that are not in the source, from '%s'", escape(a.out[j]).c_str()); return a; }
  a.ok = true; return a;
}
} // namespace vh
