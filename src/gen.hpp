// Structured generator of print programs.
#pragma once
#include "core.hpp"
#include "machine.hpp"

namespace vh {

struct Profile {
  int minBlocks = 1, maxBlocks = 8;
  double pArc = 0.55;          // share of blocks that are arc-like chains
  double pInterrupt = 0.12;    // chance per point of an interruption inside a chain
  double pComment = 0.08;      // chance of a line comment
  double pTagAll = 0;          // chance that the whole program has a unique comment on every line
  double pBlank = 0.25;        // chance that an interruption is a blank line
  double pState = 0.35;        // share of non-arc blocks that change state
  double pTravel = 0.15, pRetract = 0.12; // kind of chain
  double pHelix = 0.1, pNoise = 0.4;
  double pRelXYZ = 0.08, pSourceArc = 0.05, pHome = 0.04, pTool = 0.04;
  double pRateVar = 0.08;
  double pCRLF = 0.08, pStyle = 0.2;
  double pBigCoord = 0.05, pFine = 0.15;
  double pLong = 0.03;         // very long chains
  double pTrailing = 0.1;      // file without final newline
  int maxPts = 40;
  bool cleanOnly = false;
};

class ProgGen {
public:
  ProgGen(Rng& r, const Profile& p) : r(r), p(p) {
    dxy = r.chance(p.pFine) ? (int)r.range(4, 6) : (r.chance(0.1) ? 2 : 3); de = r.chance(0.15) ? (int)r.range(3, 7) : 5;
    lower = r.chance(p.pStyle * 0.3); nospace = r.chance(p.pStyle * 0.3); fixedDigits = r.chance(0.5); plus = r.chance(0.02); lead0 = r.chance(0.03);
    tagAll = r.chance(p.pTagAll); g0travel = r.chance(0.6);
  }
  std::vector<std::string> lines; Machine m;
  void emit(const std::string& l) { std::string s = l; if (tagAll && s.find(';') == std::string::npos && !s.empty()) s += " ;t" + std::to_string(tag++); lines.push_back(s); m.exec(parseLine(s)); }

  std::string num(double v, int d) {
    char b[64]; snprintf(b, sizeof b, "%.*f", d, v); std::string s = b;
    if (!fixedDigits && s.find('.') != std::string::npos) { while (s.back() == '0') s.pop_back(); if (s.back() == '.') { s.pop_back(); } }
    if (!fixedDigits && r.chance(0.05)) { if (s.rfind("0.", 0) == 0) s = s.substr(1); else if (s.rfind("-0.", 0) == 0) s = "-" + s.substr(2); }
    if (s == "-0" || s == "-") s = "0";
    if (s == "" || s == ".") s = "0";
    if (plus && s[0] != '-' && r.chance(0.3)) s = "+" + s;
    return s;
  }
  std::string style(std::string s) {
    size_t c = s.find(';'); std::string code = s.substr(0, c), com = c == std::string::npos ? "" : s.substr(c);
    if (lower) for (auto& ch : code) ch = (char)tolower((unsigned char)ch);
    if (nospace) { std::string t; for (char ch : code) if (ch != ' ') t += ch; code = t + (com.empty() ? "" : ""); }
    else if (r.chance(0.02)) code = (r.chance(0.5) ? " " : "  ") + code;
    if (r.chance(0.02)) code += " ";
    return code + com;
  }
  std::string comment() {
    static const std::vector<std::string> c{"perimeter", "infill", "move to first perimeter point", "infill(bridge)", "skirt", "x", "outer wall; nested", " WIPE_START", "TYPE:WALL-OUTER", "LAYER:1", "a - b", "a", "b", "travel", "retract"};
    return r.pick(c);
  }
  // a linear move to logical absolute x,y (NaN = omit); dE = extrusion, NaN = none; f<=0 omit
  void move(double x, double y, double z, double dE, double f, bool g0 = false) {
    std::string s = g0 ? (lead0 ? "G00" : "G0") : (lead0 ? "G01" : "G1");
    std::vector<std::string> w;
    auto ax = [&](char L, double v, double cur, bool k) { if (std::isnan(v)) return; if (m.rel) { if (!k) return; w.push_back(std::string(1, L) + num(v - cur, dxy)); } else w.push_back(std::string(1, L) + num(v, dxy)); };
    ax('X', x, m.x, m.kx); ax('Y', y, m.y, m.ky); { int k = dxy; dxy = std::min(dxy, 4); ax('Z', z, m.z, m.kz); dxy = k; }
    if (!std::isnan(dE)) w.push_back("E" + num(m.relE ? dE : m.e + dE, de));
    if (f > 0) w.insert(r.chance(0.7) ? w.end() : w.begin(), "F" + num(f, r.chance(0.9) ? 0 : 1));
    for (auto& q : w) s += " " + q;
    if (r.chance(p.pComment)) s += std::string(r.chance(0.5) ? " ;" : ";") + (r.chance(0.3) ? lastComment : (lastComment = comment()));
    emit(style(s));
  }
  double feed() { return r.chance(0.9) ? (double)r.range(5, 150) * 60 : r.real(100, 9000); }

  void interruption() {
    if (r.chance(p.pBlank)) { int k = (int)r.range(1, 3); while (k--) emit(r.chance(0.8) ? "" : (r.chance(0.5) ? " " : ";")); return; }
    switch (r.range(0, 15)) {
      case 0: emit(";" + comment()); break;
      case 1: emit("M105"); break;
      case 2: emit(style("M106 S" + std::to_string(r.range(0, 255)))); break;
      case 3: emit("G92 E0"); break;
      case 4: emit("G92 E" + num(r.real(-3, 50), de)); break;
      case 5: emit(m.relE ? "M82" : "M83"); if (!m.relE) emit("G92 E0"); break;
      case 6: emit("G1 F" + num(feed(), 0)); break;
      case 7: emit("M117 Layer 3 G1 X10 Y10 E5"); break;
      case 8: emit("M900 K0.05"); break;
      case 9: move(NAN, NAN, m.z + r.pick(std::vector<double>{0.2, -0.2, 0.001, 0.0}), NAN, 0); break;
      case 10: move(NAN, NAN, NAN, r.chance(0.5) ? -0.8 : 0.8, r.chance(0.5) ? feed() : 0); break;
      case 11: emit("G92 X" + num(m.x + r.real(-5, 5), 3)); break;
      case 12: emit("M73 P" + std::to_string(r.range(0, 100))); break;
      case 13: emit("G4 P0"); break;
      case 14: emit(";LAYER:" + std::to_string(r.range(0, 99))); break;
      default: emit("M204 S1000"); break;
    }
  }
  // a chain of points; kind 0 extrude, 1 travel, 2 retract
  void chain(const std::vector<std::pair<double, double>>& pts, double zStart, double zEnd) {
    int kind = r.chance(p.pTravel) ? 1 : (r.chance(p.pRetract) ? 2 : 0);
    double rate = r.logreal(0.005, 0.2) * (kind == 2 ? -1 : 1); double baseRate = rate;
    bool rateVar = r.chance(p.pRateVar); bool mixKinds = r.chance(0.06); bool fEvery = r.chance(0.08), fChange = r.chance(0.08);
    double f = feed(); bool helix = std::fabs(zEnd - zStart) > 0; double px = m.x, py = m.y; double L = 0, tot = 0;
    { double qx = m.x, qy = m.y; for (auto& q : pts) { tot += std::hypot(q.first - qx, q.second - qy); qx = q.first; qy = q.second; } }
    bool zJunk = helix && r.chance(0.25); size_t junk = (size_t)r.range(0, (long long)pts.size());
    for (size_t i = 0; i < pts.size(); ++i) {
      if (r.chance(p.pInterrupt / 3) && i) interruption();
      double d = std::hypot(pts[i].first - px, pts[i].second - py); L += d;
      if (rateVar && r.chance(0.3)) rate = baseRate * r.real(0.7, 1.3);
      int k = mixKinds && r.chance(0.2) ? (int)r.range(0, 2) : kind; double rr = k == kind ? rate : (k == 2 ? -0.03 : 0.03);
      double z = NAN; if (helix && tot > 0) { z = zStart + (zEnd - zStart) * L / tot; if (zJunk && i == junk) z += r.real(-0.3, 0.3); }
      double ff = (i == 0 && r.chance(0.7)) || fEvery ? f : 0; if (fChange && r.chance(0.15)) ff = feed();
      bool omitX = !m.rel && num3(pts[i].first) == num3(m.x) && r.chance(0.3), omitY = !m.rel && num3(pts[i].second) == num3(m.y) && r.chance(0.3) && !omitX;
      move(omitX ? NAN : pts[i].first, omitY ? NAN : pts[i].second, z, k == 1 ? NAN : std::max(-20.0, rr * d), ff, k == 1 && g0travel);
      px = pts[i].first; py = pts[i].second;
    }
  }
  std::string num3(double v) { char b[32]; snprintf(b, sizeof b, "%.*f", dxy, v); return b; }
  void arcBlock() {
    double res = resolution; double rad = r.chance(0.15) ? r.logreal(50, 2000) : r.chance(0.1) ? r.logreal(0.02, 0.5) : r.logreal(0.5, 50);
    double big = r.chance(p.pBigCoord) ? r.pick(std::vector<double>{1000, 9000, 100000, -5000}) : 0;
    double cx = r.real(0, 200) + big, cy = r.real(-50, 200) + (r.chance(0.5) ? big : 0), a0 = r.real(0, 2 * M_PI);
    if (r.chance(0.15)) a0 = r.range(0, 8) * M_PI / 4; if (r.chance(0.1)) { cx = std::floor(cx); cy = std::floor(cy); }
    // chord error limit: choose the step from the resolution, sometimes too coarse
    double maxStep = 2 * std::acos(std::max(-0.99, 1 - std::min(1.9, res / 2 / rad))); double step = maxStep * r.pick(std::vector<double>{0.1, 0.3, 0.5, 0.7, 0.9, 0.98, 1.02, 1.3}); step = std::min(step, 2.0);
    int n = r.chance(p.pLong) ? (int)r.range(60, 400) : (int)r.range(2, p.maxPts);
    if (step * rad < 0.004 && dxy <= 3) step = 0.004 / rad;
    double total = step * n; int mode = (int)r.range(0, 11); bool near = mode == 1 || mode == 2;
    if (near || total > 2 * M_PI) { total = mode == 2 ? 2 * M_PI : 2 * M_PI * r.pick(std::vector<double>{0.9, 0.97, 0.99, 0.995, 1.0, 1.05, 1.5}); if (r.chance(0.3)) total = 2 * M_PI - std::min(3.0, r.logreal(0.01, 0.4) / rad); /* a seam gap */ n = std::max(3, (int)std::ceil(total / step)); if (n > 500) { n = 500; total = step * n; } }
    bool cw = r.chance(0.5); double noise = r.chance(p.pNoise) ? res * r.pick(std::vector<double>{0.05, 0.2, 0.4, 0.5, 0.6, 1.0}) : 0; bool uneven = r.chance(0.3);
    std::vector<double> ang; double s = 0; for (int i = 0; i < n; ++i) { s += uneven ? r.real(0.2, 1.8) : 1.0; ang.push_back(s); } for (auto& q : ang) q *= total / s;
    double ex = r.chance(0.05) ? r.real(0.9, 1.1) : 1; double spiral = r.chance(0.07) ? r.real(-0.2, 0.2) : 0;
    std::vector<std::pair<double, double>> pts;
    for (double q : ang) { double a = cw ? a0 - q : a0 + q; double rr = rad * (1 + spiral * q / (2 * M_PI)) + (noise > 0 ? r.real(-noise, noise) : 0); pts.push_back({cx + rr * std::cos(a), cy + ex * rr * std::sin(a)}); }
    if (r.chance(0.04) && pts.size() > 3) { size_t i = (size_t)r.range(1, (long long)pts.size() - 2); std::swap(pts[i], pts[i + 1]); }
    if (r.chance(0.04)) { size_t i = (size_t)r.range(0, (long long)pts.size() - 1); pts.insert(pts.begin() + i, pts[i]); }
    double sx = cx + rad * std::cos(a0), sy = cy + ex * rad * std::sin(a0);
    if (r.chance(0.93) || !m.kx) { if (r.chance(0.8)) move(sx, sy, NAN, NAN, r.chance(0.5) ? feed() : 0, true); else move(sx, sy, NAN, 0.5, r.chance(0.5) ? feed() : 0); }
    bool helix = r.chance(p.pHelix) && (m.kz || r.chance(0.4)); double z0 = m.kz ? m.z : 0, z1 = helix ? z0 + r.pick(std::vector<double>{0.2, 0.05, -0.2, 2, 0.01, 0.002}) : z0; // from an unknown height, tools assume 0
    chain(pts, z0, z1);
  }
  void pathBlock() {
    int n = (int)r.range(1, 12); double x = m.kx ? m.x : r.real(0, 100), y = m.ky ? m.y : r.real(0, 100), h = r.real(0, 6.28), step = r.logreal(0.01, 20); int mode = (int)r.range(0, 4);
    std::vector<std::pair<double, double>> pts; double k = r.real(-0.5, 0.5);
    for (int i = 0; i < n; ++i) {
      if (mode == 0) h = r.real(0, 6.28); else if (mode == 1) h += k; else if (mode == 2) { k += r.real(-0.1, 0.1); h += k; } else if (mode == 3) { if (r.chance(0.3)) h += M_PI; } /* 4: straight */
      if (r.chance(0.1)) step = r.logreal(0.01, 20);
      x += step * std::cos(h); y += step * std::sin(h); pts.push_back({x, y});
    }
    if (!m.kx || !m.ky) { move(x, y, NAN, NAN, feed(), true); }
    chain(pts, m.z, m.z);
  }
  void stateBlock() {
    int k = (int)r.range(0, 17);
    if (k == 0) emit("G92 E0");
    else if (k == 1) emit("M83");
    else if (k == 2) { emit("M82"); emit("G92 E0"); }
    else if (k == 3) emit("G90");
    else if (k == 4) move(NAN, NAN, (m.kz ? m.z : 0) + 0.2, NAN, r.chance(0.5) ? feed() : 0);
    else if (k == 5) { move(NAN, NAN, NAN, -r.real(0.5, 5), 2400); if (r.chance(0.7)) move(r.real(0, 200), r.real(0, 200), NAN, NAN, 9000, true); if (r.chance(0.8)) move(NAN, NAN, NAN, 1.5, 2400); }
    else if (k == 6 && r.chance(p.pHome * 10)) { emit(r.pick(std::vector<std::string>{"G28", "G28 X0", "G28 X Y", "G28 Y X", "G28 XY", "G28 x y z", "G28 Z", "G28 W"})); bool part = r.chance(0.3) && !m.rel; if (part) partlyKnown(); else if (r.chance(0.6)) move(r.real(0, 100), r.real(0, 100), 0.3, NAN, feed(), true); }
    else if (k == 7 && r.chance(p.pTool * 10)) emit(r.pick(std::vector<std::string>{"T0", "T1", "T 2", "G10 P0 X1 Y2", "M218 T1 X5 Y-3", "T1"}));
    else if (k == 8 && r.chance(p.pSourceArc * 10) && m.kx && m.ky && !m.rel) sourceArc();
    else if (k == 9) emit("G92 X" + num(r.real(-20, 20), 3) + (r.chance(0.5) ? " Y" + num(r.real(-20, 20), 3) : ""));
    else if (k == 10) emit(r.chance(0.5) ? "G92 Z" + num(r.real(0, 5), 2) : "G92");
    else if (k == 11 && r.chance(p.pRelXYZ * 8) && m.kx && m.ky) { emit("G91"); int n = (int)r.range(1, 6); double x = m.x, y = m.y; for (int i = 0; i < n; ++i) { x += r.real(-3, 3); y += r.real(-3, 3); move(x, y, NAN, r.chance(0.6) ? 0.2 : NAN, 0); x = m.x; y = m.y; } if (r.chance(0.9)) { emit("G90"); if (m.g90e && r.chance(0.3)) emit("M83"); } }
    else if (k == 12) emit("G21");
    else if (k == 13) emit(";" + comment());
    else if (k == 14) { int n = (int)r.range(1, 3); while (n--) emit(""); }
    else if (k == 15) emit(r.pick(std::vector<std::string>{"M104 S200", "M109 R180", "@pause", "M117 a;b", "; plain text", "FOO BAR=1", "G1", "G0 F3000", "M400", "G29", "M1000 X1 Y2", "SET_PRESSURE_ADVANCE ADVANCE=0.05", "M82;abs", "m105", "EXCLUDE_OBJECT_START NAME=part_1", "M486 S1", "%", "M23 x.g", "(paren)", "G5 X1", "G1X", "M82", "  EXCLUDE_OBJECT_END NAME=a", "\tSET_X Y=1", " FOO", "   %", "  \t (x)", "\xC3\x84nderung 5", "  \xC3\xA9tape", "M117 D\xC3\xBCse", ";\xC2\xB5m", " M104 S1", " ", "\t", "  ; indented"}));
    else if (k == 16) emit(m.relE ? "M83" : "M82");
    else interruption();
  }
  // after homing: one axis is set, the other may be unknown, and an arc follows
  void partlyKnown() {
    double x0 = m.x, y0 = m.y; if (r.chance(0.5)) move(x0, NAN, NAN, NAN, feed(), true); else move(NAN, y0, NAN, NAN, feed(), true);
    double rad = r.logreal(1, 30), a0 = r.real(0, 6.28), st = r.real(0.05, 0.3); std::vector<std::pair<double, double>> pts;
    for (int i = 1; i <= 8; ++i) pts.push_back({x0 + rad * (std::cos(a0 + st * i) - std::cos(a0)), y0 + rad * (std::sin(a0 + st * i) - std::sin(a0))});
    chain(pts, m.z, m.z);
  }
  void sourceArc() {
    double rad = r.logreal(0.5, 30), a0 = r.real(0, 6.28), da = r.real(0.1, 6.0); bool cw = r.chance(0.5), axis = r.chance(0.25); if (axis) a0 = M_PI / 2 * r.range(0, 3); double i = rad * std::cos(a0), j = rad * std::sin(a0); double cx = m.x + i, cy = m.y + j, s = a0 + M_PI; double a1 = cw ? s - da : s + da;
    std::string l = std::string(cw ? "G2" : "G3") + " X" + num(cx + rad * std::cos(a1), dxy) + " Y" + num(cy + rad * std::sin(a1), dxy); if (!axis || std::fabs(i) > 1e-6) l += " I" + num(i, dxy); if (!axis || std::fabs(j) > 1e-6) l += " J" + num(j, dxy); // a zero offset may be left out
    if (r.chance(0.6)) l += " E" + num(m.relE ? rad * da * 0.03 : m.e + rad * da * 0.03, de); emit(style(l));
  }
  double resolution = 0.05;
  void program() {
    if (r.chance(0.1)) emit(r.pick(std::vector<std::string>{";FLAVOR:UltiGCode", "; generated by PrusaSlicer 2.4.0 on 2022", ";FLAVOR:Marlin", "; generated by Slic3r", "", "G90"}));
    if (r.chance(0.5)) emit(r.chance(0.6) ? "M83" : "M82");
    if (r.chance(0.4)) emit("G90"); // may influence the extruder
    if (r.chance(0.3)) emit("G28");
    if (r.chance(0.9)) { move(r.real(0, 200), r.real(0, 200), r.chance(0.8) ? 0.2 : NAN, NAN, feed(), true); }
    int nb = (int)r.range(p.minBlocks, p.maxBlocks);
    for (int b = 0; b < nb; ++b) { if (r.chance(p.pArc)) arcBlock(); else if (r.chance(p.pState)) stateBlock(); else pathBlock(); if (r.chance(0.25)) stateBlock(); if (lines.size() > 900) break; }
    if (r.chance(p.pTrailing)) emit(r.pick(std::vector<std::string>{"", "M84", "; end", "G1 E-1 F2400"}));
  }
  Rng& r; Profile p; int dxy, de; bool lower, nospace, fixedDigits, plus, lead0, tagAll, g0travel; int tag = 0; std::string lastComment = "x";
};

// settings drawn for the welder; key names are those of WeldCfg
inline void genWeldCfg(Rng& r, Case& c, const Profile&) {
  if (r.chance(0.5)) c.set("res", r.pick(std::vector<double>{0.01, 0.02, 0.1, 0.2, 0.025, 0.001, 0.5, 0.0499}));
  if (r.chance(0.3)) c.set("ptol", r.pick(std::vector<double>{0.001, 0.01, 0.05, 0.1, 0.5, 0.002}));
  if (r.chance(0.25)) c.set("maxr", r.pick(std::vector<double>{1, 5, 20, 100, 9999, 100000, 0.5}));
  if (r.chance(0.3)) c.seti("g90e", 1);
  if (r.chance(0.3)) c.seti("d3", 1);
  if (r.chance(0.35)) c.seti("travel", 1);
  if (r.chance(0.25)) c.seti("dyn", 1);
  if (r.chance(0.2)) c.seti("xp", r.range(3, 6));
  if (r.chance(0.2)) c.seti("ep", r.range(3, 6));
  if (r.chance(0.3)) c.set("erv", r.pick(std::vector<double>{0.05, 0.01, 0.2, 0.5}));
  if (r.chance(0.12)) { c.set("mmas", r.pick(std::vector<double>{1, 0.5, 2, 5})); c.seti("mas", r.pick(std::vector<int>{14, 3, 24, 6})); }
  if (r.chance(0.12)) c.seti("maxlen", r.pick(std::vector<int>{30, 40, 45, 50, 55, 60, 80, 1}));
  if (r.chance(0.2)) c.seti("buf", r.pick(std::vector<int>{1, 2, 3, 5, 10, 1000}));
}
inline Case genWeldCase(Rng& r, const Profile& p) {
  Case c; genWeldCfg(r, c, p); ProgGen g(r, p); g.m.g90e = c.integer("g90e", 0); g.resolution = c.num("res", 0.05); g.program();
  c.lines = g.lines; if (r.chance(p.pCRLF)) c.seti("crlf", 1); if (r.chance(p.pTrailing)) c.seti("nonl", 1);
  return c;
}
inline std::string caseText(const Case& c) {
  std::string nl = c.integer("crlf", 0) ? "\r\n" : "\n"; std::string t; for (size_t i = 0; i < c.lines.size(); ++i) { t += c.lines[i]; if (i + 1 < c.lines.size() || !c.integer("nonl", 0)) t += nl; } return t;
}
} // namespace vh
