// Runs the welder library and reads its output as "source with runs replaced by arcs".
#pragma once
#include "core.hpp"
#include "machine.hpp"
#include "arc_welder.h"

namespace vh {

struct WeldCfg {
  double res = 0.05, ptol = 0.05, maxr = 9999, mmas = 0, erv = 0, period = 0.5; int mas = 0, buf = 50, maxlen = 0, xp = 3, ep = 5;
  bool g90e = false, d3 = false, travel = false, dyn = false;
  static WeldCfg of(const Case& c) {
    WeldCfg w;
    w.res = c.num("res", 0.05); w.ptol = c.num("ptol", 0.05); w.maxr = c.num("maxr", 9999); w.mmas = c.num("mmas", 0); w.erv = c.num("erv", 0);
    w.mas = (int)c.integer("mas", 0); w.buf = (int)c.integer("buf", 50); w.maxlen = (int)c.integer("maxlen", 0); w.xp = (int)c.integer("xp", 3); w.ep = (int)c.integer("ep", 5);
    w.g90e = c.integer("g90e", 0); w.d3 = c.integer("d3", 0); w.travel = c.integer("travel", 0); w.dyn = c.integer("dyn", 0); w.period = c.num("period", 0.5);
    return w;
  }
  double maxRadius() const { return maxr > 9999 ? 9999 : maxr; }
};
struct WeldRun { arc_welder_results r; std::string out; bool read = false; };

inline logger& quietLogger() {
  static std::vector<std::string> n{"arc_welder.gcode_conversion"}; static std::vector<int> l{(int)log_levels::CRITICAL};
  static logger* lg = [] { auto* x = new logger(n, l); x->set_log_level(log_levels::CRITICAL); return x; }();
  return *lg;
}
inline arc_welder_args weldArgs(const WeldCfg& w, const std::string& src, const std::string& dst, logger* lg = nullptr, progress_callback cb = nullptr) {
  arc_welder_args a(src, dst, lg ? lg : &quietLogger());
  a.resolution_mm = w.res; a.path_tolerance_percent = w.ptol; a.max_radius_mm = w.maxr; a.min_arc_segments = w.mas; a.mm_per_arc_segment = w.mmas;
  a.g90_g91_influences_extruder = w.g90e; a.allow_3d_arcs = w.d3; a.allow_travel_arcs = w.travel; a.allow_dynamic_precision = w.dyn;
  a.default_xyz_precision = (unsigned char)w.xp; a.default_e_precision = (unsigned char)w.ep; a.extrusion_rate_variance_percent = w.erv;
  a.buffer_size = w.buf; a.max_gcode_length = w.maxlen; a.notification_period_seconds = w.period; a.callback = cb;
  return a;
}
inline WeldRun weldText(const WeldCfg& w, const std::string& text, logger* lg = nullptr, progress_callback cb = nullptr) {
  std::string s = scratch() + "/in.gcode", d = scratch() + "/out.gcode"; WeldRun r;
  writeFile(s, text); remove(d.c_str());
  { arc_welder a(weldArgs(w, s, d, lg, cb)); r.r = a.process(); }
  r.read = readFile(d, r.out);
  return r;
}

// One step of the reading of the output: out line j is either source line [s0,s1) with s1=s0+1 verbatim, or an arc for a run.
struct Step { int s0, s1, j; bool arc; bool fits; };
struct Alignment {
  bool ok = false; std::string why;
  std::vector<std::string> src, out, header; // out without header
  bool firstKept = false;
  std::vector<GLine> ps, po;
  std::vector<Step> steps;
  int dropped = 0; bool lenient = false;
};

inline std::string normLine(const std::string& l) {
  size_t s = l.find(';'); if (s == std::string::npos) return l;
  std::string c; for (char ch : l.substr(s + 1)) if (ch != '\r') c += ch;
  return c.empty() ? l.substr(0, s) : l.substr(0, s) + ";" + c;
}
inline bool blankLine(const GLine& g) { return g.blankCode() && g.comment.empty(); }

// merged comment as the tool documents it: comments of the replaced lines in order joined by " - ", an exact repetition may be dropped
inline bool commentsMatch(const std::string& got, const std::vector<std::string>& want) {
  std::vector<std::string> w; for (auto& c : want) if (!c.empty()) w.push_back(c);
  std::vector<std::pair<size_t, size_t>> st{{0, 0}}; std::set<std::pair<size_t, size_t>> seen;
  if (w.empty()) return got.empty();
  while (!st.empty()) {
    auto [i, p] = st.back(); st.pop_back();
    if (!seen.insert({i, p}).second) continue;
    if (i == w.size()) { if (p == got.size()) return true; continue; }
    std::string sep = p == 0 ? "" : " - "; std::string t = sep + w[i];
    if (got.compare(p, t.size(), t) == 0) st.push_back({i + 1, p + t.size()});
    // repetition: the same text is already there
    bool rep = got.substr(0, p) == w[i]; for (size_t k = 0; k < i && !rep; ++k) rep = w[k] == w[i];
    if (rep) st.push_back({i + 1, p});
  }
  return false;
}

// Reads the header off; returns index of first body line or -1
inline int stripHeader(Alignment& a, const std::vector<std::string>& out, std::string& why) {
  size_t j = 0;
  if (!a.src.empty() && !out.empty() && out[0].rfind("; Postprocessed by [ArcWelder]", 0) != 0) {
    a.firstKept = true; j = 1;
  }
  if (j >= out.size() || out[j].rfind("; Postprocessed by [ArcWelder]", 0) != 0) { why = "header not found at the top of the output"; return -1; }
  while (j < out.size() && !out[j].empty()) { if (out[j][0] != ';') { why = "header is not terminated by an empty line: " + escape(out[j]); return -1; } a.header.push_back(out[j]); ++j; }
  if (j >= out.size()) { why = "header is not terminated by an empty line"; return -1; }
  return (int)j + 1;
}

inline Alignment align(const WeldCfg& w, const std::string& srcText, const std::string& outText, bool prefix = false) {
  Alignment a; a.src = splitLines(srcText); std::vector<std::string> out = splitLines(outText);
  if (a.src.empty()) { // nothing was read: only a header may not even be there
    a.ok = out.empty(); if (!a.ok) a.why = "output for an empty source is not empty"; return a; }
  int b = stripHeader(a, out, a.why); if (b < 0) return a;
  if (a.firstKept) a.out.push_back(out[0]);
  a.out.insert(a.out.end(), out.begin() + b, out.end());
  if (!outText.empty() && outText.back() != '\n') { a.why = "output does not end with a line end"; return a; }
  for (auto& l : a.src) a.ps.push_back(parseLine(l));
  for (auto& l : a.out) a.po.push_back(parseLine(l));
  int n = (int)a.src.size(), m = (int)a.out.size();
  std::vector<std::string> ns(n), no(m); for (int i = 0; i < n; ++i) ns[i] = normLine(a.src[i]); for (int j = 0; j < m; ++j) no[j] = normLine(a.out[j]);
  // machine state after each source line
  std::vector<Machine> st(n + 1); st[0].g90e = w.g90e; for (int i = 0; i < n; ++i) { st[i + 1] = st[i]; st[i + 1].exec(a.ps[i]); }
  // trailing lines of the output: one line made of nothing may be added at end of file by re-reading the last line
  // search with memo: best (fewest unfit arcs) from (i,j)
  struct Node { double cost; int s1; bool arc; bool fits; };
  std::map<std::pair<int, int>, Node> memo; const double INF = 1e15, UNFIT = 1e6; double ux = std::pow(10.0, -w.xp), ue = std::pow(10.0, -w.ep);
  // iterative deepening is unnecessary: recursion depth is bounded by the number of output lines
  bool strict = true; // first only readings in which every arc fits, which are found quickly
  std::function<double(int, int)> go = [&](int i, int j) -> double {
    if (j == m) {
      if (prefix) return 0;
      for (int k = i; k < n; ++k) if (!blankLine(a.ps[k])) return INF;
      return 0; // trailing blank lines may have been dropped only if they follow an arc; checked below
    }
    auto key = std::make_pair(i, j); auto it = memo.find(key); if (it != memo.end()) return it->second.cost;
    Node best{INF, -1, false, false}; if (!strict && memo.size() > 60000) return INF; // too ambiguous
    if (i < n && ns[i] == no[j]) { double c = go(i + 1, j + 1); if (c < best.cost) best = {c, i + 1, false, true}; }
    if (i >= n && no[j].empty() && j == m - 1) { best = {0.0, i, false, true}; } // extra blank line at the very end
    if (best.cost > 0 && i < n && a.po[j].isArc() && a.ps[i].isMove()) {
      const GLine& g = a.po[j];
      for (int pass = 0; pass < (strict ? 1 : 2) && best.cost >= UNFIT; ++pass) { int moves = 0;
      for (int k = i; k < n; ++k) {
        if (a.ps[k].isMove()) moves++;
        else if (!blankLine(a.ps[k])) break;
        if (moves < 2) continue;
        const Machine& e = st[k + 1];
        double big = 1e-12 * (std::fabs(e.x) + std::fabs(e.y)) * 16, tx = 1.001 * ux + 1e-6 + big;
        double dx = std::fabs(e.x - g.get('X')), dy = std::fabs(e.y - g.get('Y')), dz = g.has('Z') ? std::fabs(e.z - g.get('Z')) : 0, err = (dx + dy + dz) / ux;
        bool fits = dx <= tx && dy <= tx && dz <= tx;
        if (fits && a.ps[k].isMove()) { // prefer a reading in which the filament fits too
          double sum = 0; for (int q = i; q <= k; ++q) sum += st[q + 1].dE;
          double ge = g.has('E') ? (e.relE ? g.get('E') : g.get('E') - e.e) : 0, te = 2 * ue + 1e-6, de = 0;
          if (e.relE || !g.has('E')) de = std::fabs(ge - sum); else de = std::fabs(ge);
          if (de > te) fits = false; err += de / ue;
        }
        if (fits != (pass == 0)) continue; // readings that do not fit are only tried when no other exists
        double c = go(k + 1, j + 1) + (fits ? err + 1e-9 * (k - i) : UNFIT);
        if (c < best.cost) best = {c, k + 1, true, fits};
      } }
    }
    memo[key] = best; return best.cost;
  };
  double c = go(0, 0);
  if (c >= INF) { strict = false; memo.clear(); a.lenient = true; c = go(0, 0); }
  if (c >= INF) {
    // locate the furthest place reached for the message
    int bi = 0, bj = 0; for (auto& q : memo) if (q.first.second > bj || (q.first.second == bj && q.first.first > bi)) { bj = q.first.second; bi = q.first.first; }
    a.why = fmt("output cannot be read as the source with runs of moves replaced by arcs; stuck near output line %d '%s' / source line %d '%s'", bj, bj < m ? escape(a.out[bj]).c_str() : "<end>", bi, bi < n ? escape(a.src[bi]).c_str() : "<end>");
    return a;
  }
  int i = 0;
  for (int j = 0; j < m; ++j) { if (i >= n) break; Node& nd = memo[{i, j}]; a.steps.push_back({i, nd.s1, j, nd.arc, nd.fits}); i = nd.s1; }
  if (!prefix && i < n) { bool lastArc = !a.steps.empty() && a.steps.back().arc; if (!lastArc) { a.why = fmt("%d trailing source lines are missing from the output", n - i); return a; } }
  a.ok = true; return a;
}
} // namespace vh
