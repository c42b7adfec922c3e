// Programs with arcs for the straightener
#pragma once
#include "gen.hpp"
#include "straight.hpp"

namespace vh {

// programs with arcs; straight moves carry a unique comment so that the reading of the output is unambiguous
struct StrGen {
  Rng& r; FwCfg f; std::vector<std::string> lines; Machine m; int tag = 0, dxy, de; bool lower, lead0; bool lastFull = false;
  StrGen(Rng& r, const FwCfg& f) : r(r), f(f) { m.g90e = f.g90e; dxy = (int)r.pick(std::vector<int>{3, 3, 3, 4, 5}); de = r.chance(0.8) ? 5 : 4; lower = r.chance(0.05); lead0 = r.chance(0.05); }
  void emit(std::string s) { if (lower) { size_t c = s.find(';'); for (size_t i = 0; i < s.size() && i < c; ++i) s[i] = (char)tolower((unsigned char)s[i]); } lines.push_back(s); m.exec(parseLine(s)); }
  std::string num(double v, int d) { char b[64]; snprintf(b, sizeof b, "%.*f", d, v); std::string s = b; if (r.chance(0.5) && s.find('.') != std::string::npos) { while (s.back() == '0') s.pop_back(); if (s.back() == '.') s.pop_back(); } if (s == "-0" || s.empty()) s = "0"; return s; }
  double feed() { return r.chance(0.9) ? (double)r.range(60, 12000) : (double)r.range(1, 59); }
  std::string coord(char L, double v, double cur) { return std::string(1, L) + num(m.rel ? v - cur : v, dxy); }
  std::string ew(double d) { return " E" + num(m.relE ? d : m.e + d, de); }
  void move() {
    std::string s = r.chance(0.3) ? "G0" : "G1"; double x = m.x + r.real(-30, 30), y = m.y + r.real(-30, 30);
    int k = (int)r.range(0, 9); if (k < 8) s += " " + coord('X', x, m.x); if (k != 1) s += " " + coord('Y', y, m.y); if (r.chance(0.1)) s += " " + coord('Z', r.real(0, 20), m.z);
    if (r.chance(0.6)) s += ew(r.chance(0.2) ? -r.real(0.2, 5) : r.real(0, 3)); if (r.chance(0.3)) s += " F" + num(feed(), 0);
    emit(s + " ;m" + std::to_string(++tag));
  }
  void arc() {
    bool full = r.chance(0.07), after = parseLine(lines.back()).isArc(); if (after && (full || lastFull)) move();
    lastFull = full; bool exact = f.kind() == M1 || f.kind() == PR310 || f.kind() == PR311 || f.kind() == RE104;
    double R = r.logreal(0.05, r.chance(0.1) ? 300 : 40), a = r.real(0, 2 * M_PI), sw = r.chance(0.2) ? r.pick(std::vector<double>{M_PI / 2, M_PI, 1.5 * M_PI, M_PI / 4}) : r.real(0.02, 6.2);
    if (r.chance(0.07)) { double gap = r.logreal(0.03, 0.6) / R; sw = r.chance(0.7) ? 2 * M_PI - gap : gap; } // nearly a full turn, or nearly none
    if (full && exact) {
      if (m.rel) full = false;
      else { emit("G1 X" + num(r.range(-400, 1600) * 0.125, 3) + " Y" + num(r.range(-400, 1600) * 0.125, 3) + " ;m" + std::to_string(++tag)); }
    }
    double i, j; if (full && exact) { i = r.range(-80, 80) * 0.125; j = r.range(-80, 80) * 0.125; if (i == 0 && j == 0) i = 2; }
    else { i = strtod(num(R * std::cos(a), dxy).c_str(), nullptr); j = strtod(num(R * std::sin(a), dxy).c_str(), nullptr); if (std::hypot(i, j) < 0.03) i = 0.5; }
    R = std::hypot(i, j); double cx = m.x + i, cy = m.y + j; bool cw = r.chance(0.5); if (sw * R < 0.03) sw = std::min(6.0, 0.03 / R); if (!full && (2 * M_PI - sw) * R < 0.03) sw = 3;
    double t = std::atan2(-j, -i) + (cw ? -sw : sw), ex = full ? m.x : cx + R * std::cos(t), ey = full ? m.y : cy + R * std::sin(t);
    std::string s = lead0 ? (cw ? "G02" : "G03") : (cw ? "G2" : "G3"); double len = R * sw;
    std::vector<std::string> w;
    if (!full || r.chance(0.5)) { std::string X = coord('X', ex, m.x), Y = coord('Y', ey, m.y); w.push_back(X); w.push_back(Y); }
    if (r.chance(0.2) && f.kind() != RE104) w.push_back(coord('Z', m.z + r.real(-1, 1) * (r.chance(0.3) ? 10 : 1), m.z));
    w.push_back("I" + num(i, dxy)); w.push_back("J" + num(j, dxy));
    if (r.chance(0.15)) std::swap(w[0], w.back());
    for (auto& q : w) s += " " + q;
    if (r.chance(0.7)) s += ew(r.chance(0.12) ? -r.real(0.01, 2) : len * r.logreal(0.005, 0.2)); if (r.chance(0.3)) s += " F" + num(feed(), r.chance(0.05) ? 1 : 0);
    if (r.chance(0.15)) s += " ;arc comment";
    emit(s);
  }
  void misc() {
    switch (r.range(0, 13)) {
      case 0: emit("G92 E0"); break; case 1: emit("M83"); break; case 2: emit("M82"); if (r.chance(0.7)) emit("G92 E0"); break;
      case 3: emit("G90"); break; case 4: if (r.chance(0.5)) emit("G91"); break; case 5: emit("G92 X" + num(r.real(-50, 50), 3) + (r.chance(0.5) ? " Y" + num(r.real(-50, 50), 3) : "")); break;
      case 6: emit("G92 E" + num(r.chance(0.1) ? r.real(0, 3000) : r.real(0, 50), 4)); break; case 7: emit(""); break; case 8: emit("; comment G2 X1 Y1 I1 J1"); break;
      case 9: emit("G92 Z" + num(r.real(0, 9), 2)); break; case 10: emit("G90"); emit(r.chance(0.5) ? "M83" : "M82"); break;
      case 11: emit("G0 F" + num(feed(), 0) + " ;m" + std::to_string(++tag)); break;
      default: emit(r.pick(std::vector<std::string>{"M104 S200", "M117 G2 X5 Y5 I1 J1", "G4 P100", "G28", "; x", "M400", "@pause", "T0", "G21", "FOO X1", "M106 S255 ; fan", "G29", ";", "   ", "G20.1", "G2.5 X1", "G17"}));
        if (lines.back() == "G28") emit("G1 X" + num(r.real(0, 200), 3) + " Y" + num(r.real(0, 200), 3) + " Z" + num(r.real(0, 2), 2) + " ;m" + std::to_string(++tag));
    }
  }
  void program() {
    if (r.chance(0.6)) emit(r.chance(0.5) ? "M83" : "M82"); if (r.chance(0.3)) emit("G90");
    std::string s = "G1 X" + num(r.real(-100, 300), dxy) + " Y" + num(r.real(-100, 300), dxy) + " Z" + num(r.real(0, 2), 2); if (f.kind() == SMOO || r.chance(0.95)) s += " F" + num(feed(), 0);
    if (m.rel) emit("G90"); emit(s + " ;m0"); if (r.chance(0.05)) emit("G92 E" + num(r.real(0, 5000), 3));
    int n = (int)r.range(1, 25); for (int i = 0; i < n; ++i) { double k = r.unit(); if (k < 0.5) { if (m.rel && m.kx && parseLine(lines.back()).isArc()) move(); arc(); } else if (k < 0.75) move(); else misc(); }
    if (!m.kx || !m.ky) {}
  }
};
inline Case genStr(Rng& r) {
  Case c; genFwArgs(r, c); StrGen g(r, FwCfg::of(c)); g.program(); c.lines = g.lines; if (r.chance(0.08)) c.seti("crlf", 1); if (r.chance(0.1)) c.seti("nonl", 1); return c;
}

} // namespace vh
