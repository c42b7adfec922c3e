// Independent reference machine: reads G-code text and tracks logical position, extruder, feedrate and modes.
// Shares no code with the tools under test.
#pragma once
#include "core.hpp"
#include <cctype>

namespace vh {

struct GLine {
  std::string code, comment; bool hasSemi = false;
  std::string word;                       // e.g. "G1"; empty when there is no command
  std::map<char, double> par;             // upper-case letters
  std::map<char, int> decimals;           // number of digits after the point as written
  bool has(char c) const { return par.count(c) > 0; }
  double get(char c, double d = 0) const { auto i = par.find(c); return i == par.end() ? d : i->second; }
  bool isMove() const { return word == "G0" || word == "G1"; }
  bool isArc() const { return word == "G2" || word == "G3"; }
  bool blankCode() const { for (unsigned char c : code) if (c > 32) return false; return true; }
};

inline GLine parseLine(const std::string& l) {
  GLine g; size_t semi = l.find(';');
  g.code = l.substr(0, semi); g.hasSemi = semi != std::string::npos;
  if (g.hasSemi) for (char c : l.substr(semi + 1)) if (c != '\r') g.comment += c;
  const std::string& s = g.code; size_t i = 0, n = s.size();
  auto skip = [&] { while (i < n && (unsigned char)s[i] <= 32) ++i; };
  skip(); if (i >= n) return g;
  char w = (char)toupper((unsigned char)s[i]);
  if (w != 'G' && w != 'M' && w != 'T') { g.word = "?"; return g; }
  ++i; skip(); std::string num;
  while (i < n && isdigit((unsigned char)s[i])) num += s[i++];
  if (i < n && s[i] == '.' ) { size_t k = i + 1; std::string f; while (k < n && isdigit((unsigned char)s[k])) f += s[k++]; if (!f.empty()) { num += "." + f; i = k; } }
  if (num.empty()) { g.word = "?"; return g; }
  size_t z = 0; while (z + 1 < num.size() && num[z] == '0' && isdigit((unsigned char)num[z + 1])) ++z;
  g.word = std::string(1, w) + num.substr(z);
  if (g.word == "M117" || g.word == "M118") return g;
  while (i < n) {
    skip(); if (i >= n) break;
    char c = (char)toupper((unsigned char)s[i]);
    if (!isalpha((unsigned char)c)) break;
    ++i; skip();
    size_t b = i; if (i < n && (s[i] == '-' || s[i] == '+')) ++i;
    bool dig = false; int dec = 0;
    while (i < n && isdigit((unsigned char)s[i])) { ++i; dig = true; }
    if (i < n && s[i] == '.') { ++i; while (i < n && isdigit((unsigned char)s[i])) { ++i; ++dec; dig = true; } }
    double v = 0; if (dig) v = strtod(s.substr(b, i - b).c_str(), nullptr);
    else i = b;
    g.par[c] = v; g.decimals[c] = dec; // a repeated letter: last one wins
  }
  return g;
}

struct Machine {
  bool g90e = false;
  double x = 0, y = 0, z = 0, e = 0, f = 0;
  bool kx = false, ky = false, kz = false, kf = false;
  bool rel = false, relE = false;
  double total = 0, pushed = 0, pulled = 0; // filament
  int tool = 0; std::string feature;
  // set by exec for moves and arcs
  double dE = 0, px = 0, py = 0, pz = 0, pe = 0; bool pkx = false, pky = false, pkz = false;
  void exec(const GLine& g) {
    dE = 0; px = x; py = y; pz = z; pe = e; pkx = kx; pky = ky; pkz = kz;
    const std::string& c = g.comment;
    if (c == "perimeter" || c == "move to first perimeter point") feature = "perimeter";
    else if (c == "infill" || c == "move to first infill point") feature = "infill";
    else if (c == "infill(bridge)" || c == "move to first infill(bridge) point") feature = "bridge";
    else if (c == "skirt" || c == "move to first skirt point") feature = "skirt";
    const std::string& w = g.word;
    if (w.empty() || w == "?") return;
    if (g.isMove() || g.isArc()) {
      auto ax = [&](char L, double& v, bool& k) { if (!g.has(L)) return; if (rel) { if (k) v += g.get(L); } else { v = g.get(L); k = true; } };
      ax('X', x, kx); ax('Y', y, ky); ax('Z', z, kz);
      if (g.has('E')) { double ne = relE ? e + g.get('E') : g.get('E'); dE = relE ? g.get('E') : ne - e; e = ne; if (std::fabs(dE) < 1e-9) dE = 0; total += dE; if (dE > 0) pushed += dE; else pulled -= dE; }
      if (g.has('F')) { f = g.get('F'); kf = true; }
    }
    else if (w == "G90") { rel = false; if (g90e) relE = false; }
    else if (w == "G91") { rel = true; if (g90e) relE = true; }
    else if (w == "M82") relE = false;
    else if (w == "M83") relE = true;
    else if (w == "G92") {
      if (g.has('X')) { x = g.get('X'); kx = true; }
      if (g.has('Y')) { y = g.get('Y'); ky = true; }
      if (g.has('Z')) { z = g.get('Z'); kz = true; }
      if (g.has('E')) e = g.get('E');
      if (!g.has('X') && !g.has('Y') && !g.has('Z') && !g.has('E')) { if (kx) x = 0; if (ky) y = 0; if (kz) z = 0; e = 0; }
    }
    else if (w == "G28") {
      bool any = g.has('X') || g.has('Y') || g.has('Z');
      if (!any || g.has('X')) kx = false;
      if (!any || g.has('Y')) ky = false;
      if (!any || g.has('Z')) kz = false;
    }
    else if (w[0] == 'T') tool = atoi(w.c_str() + 1);
  }
};

// signed sweep of an arc in radians, always in (0, 2pi]
inline double arcSweep(double sx, double sy, double ex, double ey, double cx, double cy, bool cw) {
  double a0 = std::atan2(sy - cy, sx - cx), a1 = std::atan2(ey - cy, ex - cx);
  double d = cw ? a0 - a1 : a1 - a0;
  while (d <= 0) d += 2 * M_PI;
  while (d > 2 * M_PI) d -= 2 * M_PI;
  if (sx == ex && sy == ey) d = 2 * M_PI;
  return d;
}
} // namespace vh
