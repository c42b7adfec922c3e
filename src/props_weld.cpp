// Properties of the welded file: P01..P07, P16, P17, P21, P25.
#include "core.hpp"
#include <cstdarg>
#include "machine.hpp"
#include "weld.hpp"
#include "gen.hpp"
using namespace vh;

namespace {
struct ArcInfo { double sx, sy, ex, ey, cx, cy, r, sweep; bool cw; };
struct Welded {
  WeldCfg w; WeldRun run; Alignment a; std::vector<Machine> src; std::vector<Machine> out; bool ready = false; std::string text;
};
bool inDomain(const Case& c, Result& r) {
  for (auto& l : c.lines) for (unsigned char ch : l) if (ch < 32 && ch != '\t') { r.discard = true; r.msg = "control character"; return false; }
  return true;
}
Welded weldCase(const Case& c, Result& r) {
  Welded W; W.w = WeldCfg::of(c); if (!inDomain(c, r)) return W;
  W.text = caseText(c); W.run = weldText(W.w, W.text);
  if (!W.run.r.success) { r.fail("conversion did not succeed: " + W.run.r.message); return W; }
  if (!W.run.read) { r.fail("no output file"); return W; }
  W.a = align(W.w, W.text, W.run.out);
  if (!W.a.ok) { r.fail(W.a.why); return W; }
  Machine m; m.g90e = W.w.g90e; W.src.push_back(m); for (auto& g : W.a.ps) { m.exec(g); W.src.push_back(m); }
  Machine o; o.g90e = W.w.g90e; W.out.push_back(o); for (auto& g : W.a.po) { o.exec(g); W.out.push_back(o); }
  W.ready = true;
  long long arcs = 0; for (auto& s : W.a.steps) arcs += s.arc; r.stat["arcs"] += arcs; r.stat["source_lines"] += (long long)W.a.src.size(); r.nontrivial = arcs > 0;
  return W;
}
ArcInfo arcInfo(const Machine& before, const GLine& g) {
  ArcInfo i; i.sx = before.x; i.sy = before.y; i.ex = g.get('X'); i.ey = g.get('Y'); i.cx = i.sx + g.get('I'); i.cy = i.sy + g.get('J'); i.r = std::hypot(g.get('I'), g.get('J')); i.cw = g.word == "G2"; i.sweep = arcSweep(i.sx, i.sy, i.ex, i.ey, i.cx, i.cy, i.cw); return i;
}
int precBefore(const Welded& W, int upto, char kind) { // widest precision of G0/G1 lines [0,upto)
  int p = kind == 'E' ? W.w.ep : W.w.xp; if (!W.w.dyn) return p;
  for (int i = 0; i < upto && i < (int)W.a.ps.size(); ++i) if (W.a.ps[i].isMove()) for (auto& d : W.a.ps[i].decimals) if ((kind == 'E') == (d.first == 'E') && (d.first == 'E' || d.first == 'X' || d.first == 'Y' || d.first == 'Z')) p = std::max(p, d.second);
  return p;
}
double ulp(const Welded& W) { return std::pow(10.0, -W.w.xp); }
double ulpE(const Welded& W) { return std::pow(10.0, -W.w.ep); }

// ---------------------------------------------------------------- P01
Result p01(const Case& c) {
  Result r; Welded W = weldCase(c, r); if (!W.ready) return r;
  for (auto& s : W.a.steps) {
    if (!s.arc) continue; const GLine& g = W.a.po[s.j]; const std::string& ot = W.a.out[s.j];
    ArcInfo A = arcInfo(W.out[s.j], g); const Machine& st = W.src[s.s0]; const Machine& en = W.src[s.s1]; double u = ulp(W);
    double big = 1e-12 * (std::fabs(A.ex) + std::fabs(A.ey) + A.r) * 16;
    if (!st.kx || !st.ky) continue; // judged by P05
    if (std::fabs(A.sx - st.x) > 0.51 * u + big || std::fabs(A.sy - st.y) > 0.51 * u + big) { r.fail(fmt("arc '%s' starts at %.6f,%.6f but the replaced moves start at %.6f,%.6f", ot.c_str(), A.sx, A.sy, st.x, st.y)); return r; }
    if (std::fabs(A.ex - en.x) > 0.51 * u + big || std::fabs(A.ey - en.y) > 0.51 * u + big) { r.fail(fmt("arc '%s' ends at %.6f,%.6f but the replaced moves end at %.6f,%.6f", ot.c_str(), A.ex, A.ey, en.x, en.y)); return r; }
    double tol = W.w.res / 2 + 2.5 * u + big, eps = (2.5 * u + big) / std::max(A.r, 1e-9);
    std::vector<std::pair<double, double>> v{{st.x, st.y}}; double len = 0;
    for (int i = s.s0; i < s.s1; ++i) if (W.a.ps[i].isMove()) { const Machine& q = W.src[i + 1]; len += std::hypot(std::hypot(q.x - v.back().first, q.y - v.back().second), W.w.d3 ? q.z - W.src[i].z : 0.0); v.push_back({q.x, q.y}); }
    auto angle = [&](double x, double y) { double a0 = std::atan2(A.sy - A.cy, A.sx - A.cx), a1 = std::atan2(y - A.cy, x - A.cx); double d = A.cw ? a0 - a1 : a1 - a0; while (d < 0) d += 2 * M_PI; while (d >= 2 * M_PI) d -= 2 * M_PI; return d; };
    { // conditioning of the circle through three points
      double M = 0, ar = 0; for (auto& q : v) M = std::max({M, std::fabs(q.first), std::fabs(q.second)}); size_t mi = v.size() / 2; auto& p0 = v[0]; auto& p1 = v[mi]; auto& p2 = v.back(); ar = std::fabs((p1.first - p0.first) * (p2.second - p0.second) - (p2.first - p0.first) * (p1.second - p0.second));
      double cond = std::min(0.01, 1e-15 * M * M * M / std::max(ar, 1e-12)); tol += cond; eps += cond / std::max(A.r, 1e-9); big += cond; }
    double prev = 0;
    for (size_t k = 0; k < v.size(); ++k) {
      double d = std::hypot(v[k].first - A.cx, v[k].second - A.cy);
      if (std::fabs(d - A.r) > tol) { r.fail(fmt("arc '%s': vertex %zu (%.6f,%.6f) is %.6f from the arc, allowed %.6f", ot.c_str(), k, v[k].first, v[k].second, std::fabs(d - A.r), tol)); return r; }
      if (k) { // perpendicular foot
        double dx = v[k].first - v[k - 1].first, dy = v[k].second - v[k - 1].second, q = dx * dx + dy * dy;
        if (q > 0) { double t = ((A.cx - v[k - 1].first) * dx + (A.cy - v[k - 1].second) * dy) / q; if (t > 0 && t < 1) { double f = std::hypot(v[k - 1].first + t * dx - A.cx, v[k - 1].second + t * dy - A.cy); if (std::fabs(f - A.r) > tol) { r.fail(fmt("arc '%s': segment %zu comes within %.6f of the centre, radius %.6f, allowed deviation %.6f", ot.c_str(), k, f, A.r, tol)); return r; } } }
        if (eps < 0.5 && k + 1 < v.size()) {
          double a = angle(v[k].first, v[k].second);
          if (a > 2 * M_PI - eps && prev < 1.0) a -= 2 * M_PI; // rounding just before the start
          if (a < eps && prev > 4.0 && A.sweep > 2 * M_PI - 2 * eps) a += 2 * M_PI;
          if (a < -eps || a > A.sweep + eps) { r.fail(fmt("arc '%s' (sweep %.6f) does not pass vertex %zu (%.6f,%.6f) at angle %.6f", ot.c_str(), A.sweep, k, v[k].first, v[k].second, a)); return r; }
          if (a < prev - eps - 1e-9) { r.fail(fmt("arc '%s' passes vertex %zu (%.6f,%.6f) at angle %.6f, before the previous vertex at %.6f", ot.c_str(), k, v[k].first, v[k].second, a, prev)); return r; }
          prev = a;
        }
      }
    }
    double al = A.r * A.sweep; if (W.w.d3) al = std::hypot(al, en.z - st.z);
    double slack = 4 * u * (1 + A.sweep) + big * 10;
    if (std::fabs(al - len) > W.w.ptol * std::max(al, len) + slack) { r.fail(fmt("arc '%s' is %.6f long, the moves it replaces %.6f, path tolerance %.4f", ot.c_str(), al, len, W.w.ptol)); return r; }
    r.stat["vertices_checked"] += (long long)v.size();
  }
  return r;
}
// ---------------------------------------------------------------- P02
std::string diffState(const Welded& W, const Machine& a, const Machine& b, double tx, double te, double tz, double tf) {
  double big = 1e-9 + 1e-12 * (std::fabs(a.x) + std::fabs(a.y) + std::fabs(a.e)) * 16;
  if (a.kx != b.kx || (a.kx && std::fabs(a.x - b.x) > tx + big)) return fmt("X is %.6f instead of %.6f", b.x, a.x);
  if (a.ky != b.ky || (a.ky && std::fabs(a.y - b.y) > tx + big)) return fmt("Y is %.6f instead of %.6f", b.y, a.y);
  if (a.kz != b.kz || (a.kz && std::fabs(a.z - b.z) > tz + big)) return fmt("Z is %.6f instead of %.6f", b.z, a.z);
  if (std::fabs(a.e - b.e) > te + big * 10) return fmt("E is %.7f instead of %.7f", b.e, a.e);
  if (a.rel != b.rel) return "positioning mode differs"; if (a.relE != b.relE) return "extruder mode differs";
  if (a.kf != b.kf || std::fabs(a.f - b.f) > tf) return fmt("feedrate is %.3f instead of %.3f", b.f, a.f);
  if (a.tool != b.tool) return "tool differs";
  (void)W; return "";
}
Result p02(const Case& c) {
  Result r; Welded W = weldCase(c, r); if (!W.ready) return r;
  double ux = 0.5 * ulp(W), ue = 0.5 * ulpE(W); double tx = 0, te = 0, tf = 1e-9, tz = 0;
  for (auto& s : W.a.steps) {
    const Machine& a = W.src[s.s0]; const Machine& b = W.out[s.j];
    if (!s.arc && !blankLine(W.a.po[s.j])) { std::string d = diffState(W, a, b, tx, te, tz, tf); if (!d.empty()) { r.fail(fmt("before '%s' (source line %d): %s", escape(W.a.out[s.j]).c_str(), s.s0 + 1, d.c_str())); return r; } r.stat["states_compared"]++; }
    if (s.arc) { const GLine& g = W.a.po[s.j]; tx = ux; if (W.w.d3) tz = ux; if (W.src[s.s1].relE) te += ue + 1e-9; else if (g.has('E')) te = ue + 1e-9; if (g.has('F')) tf = 0.5 + 1e-6; }
    else { const GLine& g = W.a.po[s.j]; if (g.word == "G92") { if (g.has('E')) te = 0; } if ((g.isMove() || g.isArc())) { if (g.has('E') && !a.relE) te = 0; if (g.has('F')) tf = 1e-9; if (g.has('Z') && !a.rel) tz = 0; } if (g.word == "G92" && !g.has('X') && !g.has('Y') && !g.has('Z')) te = g.has('E') ? 0 : 0; }
  }
  std::string d = diffState(W, W.src.back(), W.out.back(), tx, te, tz, tf);
  if (!d.empty()) r.fail("at the end of the program: " + d);
  return r;
}
// ---------------------------------------------------------------- P03
Result p03(const Case& c) {
  Result r; Welded W = weldCase(c, r); if (!W.ready) return r; double ue = 0.5 * ulpE(W), tolTotal = 1e-7, tolIn = 0;
  for (auto& s : W.a.steps) {
    if (!s.arc) { const GLine& g = W.a.po[s.j]; const Machine& b = W.src[s.s0]; if ((g.word == "G92" && (g.has('E') || (!g.has('X') && !g.has('Y') && !g.has('Z')))) || ((g.isMove() || g.isArc()) && g.has('E') && !b.relE)) tolIn = 0; continue; }
    double sum = 0, mag = 0; for (int i = s.s0; i < s.s1; ++i) { sum += W.src[i + 1].dE; mag += std::fabs(W.src[i + 1].dE); }
    double got = W.out[s.j + 1].dE; bool rel = W.src[s.s1].relE; double tol = ue + (rel ? 0 : tolIn) + 1e-9 + 1e-12 * std::fabs(W.src[s.s1].e) * 8; if (!W.a.po[s.j].has('E')) tol += 5e-9;
    if (std::fabs(sum - got) > tol) { r.fail(fmt("arc '%s' moves %.7f of filament, the moves it replaces %.7f", W.a.out[s.j].c_str(), got, sum)); return r; }
    if (mag > 1e-9) r.stat["extruding_arcs"]++;
    if (rel) { tolTotal += ue + 1e-9; tolIn += ue + 1e-9; } else if (W.a.po[s.j].has('E')) { tolIn = ue + 1e-9; }
    tolTotal += rel ? 0 : 2 * ue + 2e-9;
  }
  const Machine& a = W.src.back(); const Machine& b = W.out.back();
  if (std::fabs(a.total - b.total) > tolTotal) r.fail(fmt("net filament %.6f instead of %.6f", b.total, a.total));
  else if (std::fabs(a.pushed - b.pushed) > 2 * tolTotal || std::fabs(a.pulled - b.pulled) > 2 * tolTotal) r.fail(fmt("filament pushed/pulled %.6f/%.6f instead of %.6f/%.6f", b.pushed, b.pulled, a.pushed, a.pulled));
  r.nontrivial = r.stat["extruding_arcs"] > 0; return r;
}
// ---------------------------------------------------------------- P04
Result p04(const Case& c) {
  Result r; Welded W = weldCase(c, r); if (!W.ready) return r;
  // comments of arcs
  for (auto& s : W.a.steps) {
    if (!s.arc) { r.stat["lines_kept"]++; continue; }
    std::vector<std::string> want; int n = 0; for (int i = s.s0; i < s.s1; ++i) { if (W.a.ps[i].isMove()) { want.push_back(W.a.ps[i].comment); n += !W.a.ps[i].comment.empty(); } }
    r.stat["arc_comments"] += n;
    if (!commentsMatch(W.a.po[s.j].comment, want)) { std::string l; for (auto& q : want) l += "[" + escape(q) + "]"; r.fail(fmt("arc '%s' does not carry the comments of the moves it replaces: %s", escape(W.a.out[s.j]).c_str(), l.c_str())); return r; }
    if (W.a.po[s.j].code.find('\r') != std::string::npos) { r.fail("arc contains a carriage return"); return r; }
  }
  for (auto& h : W.a.header) if (h.empty() || h[0] != ';') r.fail("header line is not a comment: " + h);
  if (W.a.firstKept && (W.a.steps.empty() || W.a.steps[0].s0 != 0 || W.a.steps[0].arc)) r.fail("first line is not the first source line");
  r.nontrivial = r.nontrivial && r.stat["lines_kept"] > 3; return r;
}
// ---------------------------------------------------------------- P05
Result p05(const Case& c) {
  Result r; Welded W = weldCase(c, r); if (!W.ready) return r;
  for (auto& s : W.a.steps) {
    if (!s.arc) continue; const Machine& st = W.src[s.s0]; std::string at = fmt("arc '%s' (source lines %d-%d): ", escape(W.a.out[s.j]).c_str(), s.s0 + 1, s.s1);
    if (st.rel) { r.fail(at + "replaces moves made in relative positioning"); return r; }
    if (!st.kx || !st.ky) { r.fail(at + "starts from an unknown position"); return r; }
    int kind = -2; double f = -1; std::string feat; bool first = true; int moves = 0; double L = 0; std::vector<std::pair<double, double>> lz; // travelled length, z
    lz.push_back({0, st.z}); bool kz = st.kz;
    for (int i = s.s0; i < s.s1; ++i) {
      if (!W.a.ps[i].isMove()) { if (!blankLine(W.a.ps[i])) { r.fail(at + "a line other than a move lies in the run"); return r; } continue; }
      const Machine& q = W.src[i + 1]; moves++;
      int k = q.dE > 1e-7 ? 1 : q.dE < -1e-7 ? -1 : 0;
      if (first) { kind = k; f = q.f; feat = q.feature; first = false; }
      if (k != kind) { r.fail(at + fmt("mixes moves of different kind at source line %d '%s'", i + 1, escape(W.a.src[i]).c_str())); return r; }
      if (q.f != f) { r.fail(at + fmt("mixes feedrates %.2f and %.2f at source line %d", f, q.f, i + 1)); return r; }
      if (q.feature != feat) { r.fail(at + fmt("mixes features '%s' and '%s' at source line %d", feat.c_str(), q.feature.c_str(), i + 1)); return r; }
      L += std::hypot(q.x - W.src[i].x, q.y - W.src[i].y); lz.push_back({L, q.z});
      if (q.kz != kz) { r.fail(at + "Z changes from an unknown height"); return r; }
    }
    if (kind == 0 && !W.w.travel) { r.fail(at + "replaces travel moves although travel arcs are disabled"); return r; }
    if (moves < 2) { r.fail(at + "replaces fewer than two moves"); return r; }
    if (W.out[s.j + 1].kf && std::fabs(W.out[s.j + 1].f - f) > 0.5 + 1e-6) { r.fail(at + fmt("runs at feedrate %.2f instead of %.2f", W.out[s.j + 1].f, f)); return r; }
    if (!W.w.d3) { for (auto& q : lz) if (std::fabs(q.second - st.z) > 5.1e-6) { r.fail(at + fmt("Z changes from %.5f to %.5f although 3D arcs are disabled", st.z, q.second)); return r; } if (W.a.po[s.j].has('Z')) { r.fail(at + "has a Z although 3D arcs are disabled"); return r; } }
    else { double tol = std::max(W.w.res / 2, ulp(W)) + 1e-6; for (auto& q : lz) { double e = L > 0 ? st.z + (lz.back().second - st.z) * q.first / L : st.z; if (std::fabs(e - q.second) > tol) { r.fail(at + fmt("Z at path length %.4f of %.4f is %.5f, a straight ramp has %.5f (allowed %.5f)", q.first, L, q.second, e, tol)); return r; } }
      if (W.a.po[s.j].has('Z')) r.stat["helical_arcs"]++; }
    r.stat[kind == 0 ? "travel_arcs" : kind > 0 ? "extrusion_arcs" : "retraction_arcs"]++;
  }
  return r;
}
// ---------------------------------------------------------------- P06
Result p06(const Case& c0) {
  Result r; Case c = c0;
  if (c.kv.count("fit")) { // a limit next to the length that one of the arcs has without a limit
    Result q; c.kv.erase("maxlen"); Welded F = weldCase(c, q); if (!F.ready) return q; std::vector<int> len; for (auto& s : F.a.steps) if (s.arc) len.push_back((int)F.a.po[s.j].code.size());
    if (len.empty()) { r.discard = true; return r; } long long k = c.integer("fit", 0); c.seti("maxlen", std::max(1, len[(size_t)(k / 4) % len.size()] + (int)(k % 4) - 2)); }
  Welded W = weldCase(c, r); if (!W.ready) return r;
  for (auto& s : W.a.steps) {
    if (!s.arc) continue; const GLine& g = W.a.po[s.j]; std::string code = g.code; std::string at = "arc '" + escape(W.a.out[s.j]) + "': ";
    std::istringstream in(code); std::vector<std::string> w; std::string t; while (in >> t) w.push_back(t);
    std::string re; for (size_t i = 0; i < w.size(); ++i) re += (i ? " " : "") + w[i]; if (re != code) { r.fail(at + "words are not separated by single spaces"); return r; }
    if (w[0] != "G2" && w[0] != "G3") { r.fail(at + "is not a G2 or G3"); return r; }
    std::set<char> seen; int pLo = precBefore(W, s.s1, 'X'), pHi = precBefore(W, s.s1 + 1, 'X'), eLo = precBefore(W, s.s1, 'E'), eHi = precBefore(W, s.s1 + 1, 'E');
    // blank lines may lie between the run and the line that closed the arc
    { int k = s.s1; while (k < (int)W.a.ps.size() && blankLine(W.a.ps[k])) ++k; pHi = std::max(pHi, precBefore(W, k + 1, 'X')); eHi = std::max(eHi, precBefore(W, k + 1, 'E')); }
    for (size_t i = 1; i < w.size(); ++i) {
      char L = w[i][0]; std::string v = w[i].substr(1); if (!strchr("XYZIJEF", L)) { r.fail(at + "unexpected word " + w[i]); return r; }
      if (!seen.insert(L).second) { r.fail(at + "repeated word " + w[i]); return r; }
      size_t q = 0; if (q < v.size() && v[q] == '-') ++q; size_t d0 = q; while (q < v.size() && isdigit((unsigned char)v[q])) ++q; if (q == d0) { r.fail(at + "bad number " + w[i]); return r; }
      int dec = 0; if (q < v.size() && v[q] == '.') { ++q; while (q < v.size() && isdigit((unsigned char)v[q])) { ++q; ++dec; } if (!dec) { r.fail(at + "bad number " + w[i]); return r; } }
      if (q != v.size()) { r.fail(at + "bad number " + w[i]); return r; }
      int lo = L == 'F' ? 0 : L == 'E' ? eLo : pLo, hi = L == 'F' ? 0 : L == 'E' ? eHi : pHi;
      if ((dec < lo || dec > hi) && w[i].substr(1) != "0") { // zero is written plain
 r.fail(at + fmt("%s has %d decimals, configured %d", w[i].c_str(), dec, lo)); return r; }
    }
    for (char L : std::string("XYIJ")) if (!seen.count(L)) { r.fail(at + "lacks " + std::string(1, L)); return r; }
    if (g.get('I') == 0 && g.get('J') == 0) { r.fail(at + "I and J are both zero"); return r; }
    double rad = std::hypot(g.get('I'), g.get('J')); if (rad > W.w.maxRadius() + 2 * ulp(W)) { r.fail(at + fmt("radius %.4f exceeds the maximum %.4f", rad, W.w.maxRadius())); return r; }
    if (W.w.maxlen > 0 && (int)code.size() > W.w.maxlen) { r.fail(at + fmt("is %zu characters long, the limit is %d", code.size(), W.w.maxlen)); return r; }
    if (W.w.maxlen > 0) r.stat["arcs_under_length_limit"]++;
  }
  return r;
}
// ---------------------------------------------------------------- P07
struct RefStat { long long n = 0; double len = 0; std::vector<long long> b = std::vector<long long>(13, 0); std::vector<std::pair<double,double>> all; double slack = 0;
  void add(double L, double t = 0) { if (L <= 0) return; n++; len += L; slack += t; all.push_back({L, t}); } };
double sourceMoveLen(const Welded& W, int i) { // as documented: XY length, with Z when 3D arcs are enabled; arcs by their own length
  const GLine& g = W.a.ps[i]; const Machine& a = W.src[i]; const Machine& b = W.src[i + 1];
  if (g.isArc()) { double cx = a.x + g.get('I'), cy = a.y + g.get('J'), rad = std::hypot(g.get('I'), g.get('J')); double L = rad * arcSweep(a.x, a.y, b.x, b.y, cx, cy, g.word == "G2"); return std::hypot(L, b.z - a.z); }
  return W.w.d3 ? std::hypot(std::hypot(b.x - a.x, b.y - a.y), b.z - a.z) : std::hypot(b.x - a.x, b.y - a.y);
}
std::string cmpStat(const char* name, const RefStat& ref, int count, double len, const std::vector<segment_statistic>& seg, double relTol) {
  if (ref.n != count) return fmt("%s: reported %d moves, the file has %lld", name, count, ref.n);
  if (std::fabs(ref.len - len) > relTol * (ref.len + 1) + ref.slack) return fmt("%s: reported length %.6f, the file has %.6f", name, len, ref.len);
  static const float b[] = {0.002f, 0.005f, 0.01f, 0.05f, 0.1f, 0.5f, 1.0f, 5.0f, 10.0f, 20.0f, 50.0f, 100.0f};
  if (seg.size() != 13) return fmt("%s: %zu histogram classes", name, seg.size());
  long long sum = 0; for (auto& s : seg) sum += s.count; if (sum != ref.n) return fmt("%s: histogram holds %lld moves of %lld", name, sum, ref.n);
  for (int k = 0; k < 13; ++k) { double lo = k ? b[k - 1] : 0, hi = k < 12 ? b[k] : 1e300; long long a0 = 0, a1 = 0; for (auto& q : ref.all) { double t = std::max(1e-6, q.first * relTol) + q.second; if (k == 12) hi = 1e300; if (q.first >= lo + t && q.first < hi - t) a0++; if (q.first >= lo - t && q.first < hi + t) a1++; } if (seg[k].count < a0 || seg[k].count > a1) return fmt("%s: histogram class %d (%.3f-%.3f) holds %d, the file has %lld..%lld", name, k, lo, hi, seg[k].count, a0, a1); }
  return "";
}
Result p07(const Case& c) {
  Result r; Welded W = weldCase(c, r); if (!W.ready) return r; const arc_welder_progress& p = W.run.r.progress;
  long long cmdSrc = 0, cmdOut = 0, arcs = 0, replaced = 0; for (auto& g : W.a.ps) cmdSrc += !g.blankCode(); for (auto& g : W.a.po) cmdOut += !g.blankCode();
  bool positionsKnown = true; // lengths are only defined when start positions are known and XY absolute start exists
  RefStat se, sr, stv, te, tr, tt; std::vector<RefStat*> dummy;
  auto kindOf = [](double dE) { return dE > 1e-7 ? 1 : dE < -1e-7 ? -1 : 0; };
  for (auto& g : W.a.ps) if (g.word == "G10" || g.word == "M218" || g.word == "M563") positionsKnown = false; // tool offsets: the length of the next move is the printer's business
  for (size_t i = 0; i < W.a.ps.size(); ++i) if (W.a.ps[i].isMove() || W.a.ps[i].isArc()) { const Machine& a = W.src[i]; const Machine& b = W.src[i + 1]; bool chg = std::fabs(a.x - b.x) >= 5e-6 || std::fabs(a.y - b.y) >= 5e-6; if ((!a.kx && b.kx) || (!a.ky && b.ky) || (!a.kz && b.kz) || !a.kx || !a.ky) { positionsKnown = false; } if (std::fabs(b.dE) > 0 && std::fabs(b.dE) < 1e-6) positionsKnown = false; if (W.a.ps[i].isArc() && !chg) positionsKnown = false; if (W.a.ps[i].isArc() && (a.rel || W.a.ps[i].has('R') || std::fabs(std::hypot(W.a.ps[i].get('I'), W.a.ps[i].get('J')) - std::hypot(b.x - a.x - W.a.ps[i].get('I'), b.y - a.y - W.a.ps[i].get('J'))) > 0.01)) positionsKnown = false;
      if (std::fabs(a.x - b.x) < 1e-5 && std::fabs(a.y - b.y) < 1e-5 && chg) positionsKnown = false;
      if (!chg) continue; double L = sourceMoveLen(W, (int)i); int k = kindOf(b.dE); (k > 0 ? se : k < 0 ? sr : stv).add(L); }
  for (auto& s : W.a.steps) {
    if (s.arc) { arcs++; int mv = 0; for (int i = s.s0; i < s.s1; ++i) mv += W.a.ps[i].isMove(); replaced += mv; if (mv < 2) { r.fail("an arc replaces fewer than two moves"); return r; }
      double sum = 0; for (int i = s.s0; i < s.s1; ++i) sum += W.src[i + 1].dE; ArcInfo A = arcInfo(W.out[s.j], W.a.po[s.j]); double L = A.r * A.sweep; if (W.w.d3) L = std::hypot(L, W.src[s.s1].z - W.src[s.s0].z); int k = kindOf(sum); (k > 0 ? te : k < 0 ? tr : tt).add(L, 4 * ulp(W) * (1 + A.sweep)); }
    else if (s.s1 > s.s0 && (W.a.ps[s.s0].isMove() || W.a.ps[s.s0].isArc())) { const Machine& a = W.src[s.s0]; const Machine& b = W.src[s.s1]; bool chg = std::fabs(a.x - b.x) >= 5e-6 || std::fabs(a.y - b.y) >= 5e-6; if (!chg) continue; int k = kindOf(b.dE); (k > 0 ? te : k < 0 ? tr : tt).add(sourceMoveLen(W, s.s0)); }
  }
  auto want = [&](const char* n, long long got, long long exp) { if (got != exp) r.fail(fmt("%s is reported as %lld, should be %lld", n, got, exp)); };
  if (cmdOut > cmdSrc) r.fail(fmt("the welded file has %lld commands, the source %lld", cmdOut, cmdSrc));
  want("lines_processed", p.lines_processed, (long long)W.a.src.size());
  if (!W.a.src.empty()) { long long skip = W.a.firstKept ? 0 : 0; long long cmds = 0; for (size_t i = 0; i < W.a.ps.size(); ++i) { if (W.a.ps[i].code.empty() || (i == 0 && W.a.firstKept)) continue; if (W.a.ps[i].blankCode()) { skip++; continue; } cmds++; } if (p.gcodes_processed < cmds || p.gcodes_processed > cmds + skip) r.fail(fmt("gcodes_processed is %d, the source has %lld", p.gcodes_processed, cmds)); }
  want("arcs_created", p.arcs_created, arcs); want("points_compressed", p.points_compressed, replaced);
  want("source_file_size", p.source_file_size, (long long)W.text.size()); want("target_file_size", p.target_file_size, (long long)W.run.out.size());
  if (!W.text.empty()) { if (std::fabs(p.percent_complete - 100) > 1e-6) r.fail(fmt("percent_complete is %f", p.percent_complete));
    double ratio = (double)W.text.size() / W.run.out.size(); if (std::fabs(p.compression_ratio - ratio) > 1e-4 * ratio) r.fail(fmt("compression_ratio is %f, should be %f", p.compression_ratio, ratio));
    double pc = (1 - (double)W.run.out.size() / W.text.size()) * 100; if (std::fabs(p.compression_percent - pc) > 1e-3 * (1 + std::fabs(pc))) r.fail(fmt("compression_percent is %f, should be %f", p.compression_percent, pc)); }
  if (positionsKnown && r.ok) {
    double srcTol = 1e-6, dstTol = 2e-3 * std::max(1.0, 1.0);
    auto S = [&](const char* n, const RefStat& a, const RefStat& b, const source_target_segment_statistics& s) { std::string m = cmpStat((std::string(n) + " before").c_str(), a, s.total_count_source, s.total_length_source, s.source_segments, srcTol); if (m.empty()) m = cmpStat((std::string(n) + " after").c_str(), b, s.total_count_target, s.total_length_target, s.target_segments, dstTol); if (!m.empty()) r.fail(m); };
    S("extrusion", se, te, p.segment_statistics); S("retraction", sr, tr, p.segment_retraction_statistics);
    if (W.w.travel) S("travel", stv, tt, p.travel_statistics); else if (p.travel_statistics.total_count_source || p.travel_statistics.total_count_target) r.fail("travel moves are counted although travel arcs are disabled");
    r.stat["statistics_compared"]++;
  }
  r.nontrivial = r.nontrivial && positionsKnown; return r;
}
// ---------------------------------------------------------------- P16
Result p16(const Case& c) {
  Result r; Welded W = weldCase(c, r); if (!W.ready) return r; bool on = W.w.mas > 0 && W.w.mmas > 0;
  for (auto& s : W.a.steps) {
    if (!s.arc || !on) continue; const GLine& g = W.a.po[s.j]; double rad = std::hypot(g.get('I'), g.get('J')), circ = 2 * M_PI * rad, u = 7 * ulp(W); double L = 0; for (int i = s.s0; i < s.s1; ++i) if (W.a.ps[i].isMove()) { const Machine& a = W.src[i]; const Machine& b = W.src[i + 1]; L += std::hypot(std::hypot(b.x - a.x, b.y - a.y), W.w.d3 ? b.z - a.z : 0); }
    bool fine = (circ + u) / W.w.mmas >= W.w.mas || (circ + u) >= W.w.mas * L * (1 - 1e-9); r.stat["arcs_judged"]++;
    if (!fine) { r.fail(fmt("arc '%s': circumference %.4f has only %.2f segments of %.2f mm (minimum %d) and the replaced moves (%.4f mm) fit only %.2f times", W.a.out[s.j].c_str(), circ, circ / W.w.mmas, W.w.mmas, W.w.mas, L, circ / L)); return r; }
  }
  if (!on) { // compensation off: same result as with both settings absent, nothing counted
    if (W.run.r.progress.num_firmware_compensations != 0) r.fail("compensations are counted although compensation is off");
    WeldCfg w2 = W.w; w2.mas = 0; w2.mmas = 0; WeldRun q = weldText(w2, W.text); std::string o2 = q.out; if (r.ok && o2 != W.run.out) r.fail("one of the two compensation settings alone changes the result"); r.stat["disabled_compared"]++;
  } else {
    // arcs that pass the rule must not be rejected: compare with the uncompensated result
    WeldCfg w2 = W.w; w2.mas = 0; w2.mmas = 0; WeldRun q = weldText(w2, W.text); Alignment b = align(w2, W.text, q.out);
    if (b.ok) { bool all = true; Machine m; m.g90e = w2.g90e; std::vector<Machine> st{m}; for (auto& g : b.ps) { m.exec(g); st.push_back(m); } long long na = 0;
      for (auto& s : b.steps) if (s.arc) { na++; const GLine& g = b.po[s.j]; double rad = std::hypot(g.get('I'), g.get('J')); (void)rad; }
      // every circle in the program is clearly fine when the smallest radius that could be fitted is large: use counter as evidence
      if (W.run.r.progress.num_firmware_compensations == 0 && all) { std::vector<std::string> x(splitLines(W.run.out)), y(splitLines(q.out)); Alignment aa = W.a; if (aa.out != b.out) r.fail("no arc was counted as rejected by compensation, but the result differs from the uncompensated one"); r.stat["uncompensated_equal"]++; }
      else r.stat["compensations"] += W.run.r.progress.num_firmware_compensations;
      (void)na; }
  }
  r.nontrivial = r.nontrivial && on; return r;
}
// ---------------------------------------------------------------- P17
Result p17(const Case& c) {
  Result r; Welded W = weldCase(c, r); if (!W.ready) return r; double v = W.w.erv;
  if (v > 0) for (auto& s : W.a.steps) {
    if (!s.arc) continue; double prev = -1; for (int i = s.s0; i < s.s1; ++i) { if (!W.a.ps[i].isMove()) { prev = -1; continue; } const Machine& a = W.src[i]; const Machine& b = W.src[i + 1]; double d = std::hypot(std::hypot(b.x - a.x, b.y - a.y), W.w.d3 ? b.z - a.z : 0); if (d < 1e-5 || b.dE <= 1e-7) { prev = -1; continue; } double q = b.dE / d;
      if (prev > 0) { r.stat["pairs"]++; double ch = std::fabs(q - prev) / prev; double slack = 1e-4; if (ch > v + slack) { r.fail(fmt("arc '%s' merges moves with %.6f and %.6f mm/mm (change %.4f, allowed %.4f) at source line %d", W.a.out[s.j].c_str(), prev, q, ch, v, i + 1)); return r; } }
      prev = q; }
  }
  else { if (W.run.r.progress.arcs_aborted_by_flow_rate != 0) r.fail("arcs are counted as aborted by the extrusion rate although no variance is set"); }
  r.nontrivial = r.stat["pairs"] > 0; return r;
}
// ---------------------------------------------------------------- P21
Result p21(const Case& c) {
  Result r; Welded W = weldCase(c, r); if (!W.ready) return r; if (W.a.src.empty()) { r.discard = true; return r; }
  std::string f = W.a.src[0]; bool cr = !f.empty() && f.back() == '\r'; if (cr) f.pop_back();
  bool special = f == ";FLAVOR:UltiGCode" || f.rfind("; generated by PrusaSlicer", 0) == 0;
  if (special != W.a.firstKept) { r.fail(special ? "the required first line is not first: " + escape(splitLines(W.run.out)[0]) : "a line precedes the header"); return r; }
  if (special) { std::string o = splitLines(W.run.out)[0]; if (o != W.a.src[0] && o != f) { r.fail("the first line is changed: " + escape(o)); return r; } }
  std::map<std::string, std::string> h; for (auto& l : W.a.header) { size_t e = l.find('='); if (e != std::string::npos && l.rfind("; Post", 0) != 0) { std::string k = l.substr(2, e - 2); if (h.count(k)) { r.fail("header repeats " + k); return r; } h[k] = l.substr(e + 1); } }
  auto num = [&](const char* k, double v, double tol, const char* unit) { auto i = h.find(k); if (i == h.end()) { r.fail(std::string("header lacks ") + k); return; } char* e = nullptr; double g = strtod(i->second.c_str(), &e); if (std::fabs(g - v) > tol + 1e-9 || std::string(e) != unit) r.fail(fmt("header says %s=%s, used %.6f", k, i->second.c_str(), v)); h.erase(i); };
  auto flag = [&](const char* k, bool v) { auto i = h.find(k); if (v && (i == h.end() || i->second != "True")) r.fail(std::string("header does not say ") + k); if (!v && i != h.end()) r.fail(std::string("header mentions disabled ") + k); if (i != h.end()) h.erase(i); };
  bool fc = W.w.mas > 0 && W.w.mmas > 0;
  num("resolution", W.w.res, 0.005, "mm"); num("path_tolerance", W.w.ptol * 100, 0.05, "%"); num("max_radius", W.w.maxRadius(), 0.005, "mm"); flag("g90_influences_extruder", W.w.g90e); flag("firmware_compensation", fc);
  if (fc) { num("mm_per_arc_segment", W.w.mmas, 0.005, "mm"); num("min_arc_segments", W.w.mas, 0, ""); }
  flag("allow_3d_arcs", W.w.d3); flag("allow_travel_arcs", W.w.travel); flag("allow_dynamic_precision", W.w.dyn); num("default_xyz_precision", W.w.xp, 0, ""); num("default_e_precision", W.w.ep, 0, "");
  if (W.w.erv > 0) num("extrusion_rate_variance", W.w.erv * 100, 0.05, "%");
  if (r.ok && !h.empty()) r.fail("header has an unexpected entry " + h.begin()->first);
  r.nontrivial = true; return r;
}
// ---------------------------------------------------------------- P25
// A clean chain in a neutral surrounding: everything about it is permitted, so it must come out as one arc.
Case genP25(Rng& r) {
  Case c; double res = r.pick(std::vector<double>{0.05, 0.05, 0.1, 0.2, 0.03}); c.set("res", res); int xp = (int)r.range(3, 5); c.seti("xp", xp);
  int ep = 5; if (r.chance(0.3)) c.seti("d3", 1); bool travelOn = r.chance(0.4); if (travelOn) c.seti("travel", 1); if (r.chance(0.3)) c.seti("g90e", 1); if (r.chance(0.3)) c.seti("dyn", 1); if (r.chance(0.3)) c.seti("buf", r.pick(std::vector<int>{1, 2, 3, 5, 7, 100})); (void)ep;
  double ptol = r.pick(std::vector<double>{0.05, 0.05, 0.02, 0.1}); c.set("ptol", ptol);
  double rad = r.chance(0.2) ? r.logreal(50, 900) : r.logreal(1, 50); double maxr = r.chance(0.3) ? rad * r.pick(std::vector<double>{1.2, 2, 10}) : 9999; c.set("maxr", maxr); if (r.chance(0.2)) c.seti("maxlen", r.range(110, 400));
  int kind = travelOn && r.chance(0.35) ? 1 : r.chance(0.25) ? 2 : 0; // 0 extrude 1 travel 2 retract
  double cx = r.real(-100, 250), cy = r.real(-100, 250), a0 = r.chance(0.3) ? r.range(0, 8) * M_PI / 4 : r.real(0, 2 * M_PI);
  double maxStep = 2 * std::acos(1 - std::min(0.5, res / 2 / rad)); double step = maxStep * r.real(0.35, 0.75); step = std::min(step, 0.6);
  double span = r.chance(0.2) ? r.real(5.0, 5.9) : r.real(0.2, 5.0); int n = (int)std::ceil(span / step); n = std::max(3, n); if (n > 300) { n = r.chance(0.3) ? 300 : (int)r.range(60, 300); } if (n < 6 && r.chance(0.5)) n = (int)r.range(3, 8); span = n * step; if (span > 5.9) { span = 5.9; step = span / n; }
  // the chord error of every arc must be measurable against coordinate rounding
  double sag = rad * (1 - std::cos(step * n / 2)); if (sag < 20 * std::pow(10.0, -xp)) { rad = std::min(rad, 20.0); step = 2 * std::acos(1 - std::min(0.5, res / 2 / rad)) * 0.6; step = std::min(step, 0.6); n = std::max(n, (int)std::ceil(1.0 / step)); }
  bool cw = r.chance(0.5), relE = r.chance(0.5); double rate = 0.033;
  if (r.chance(0.2)) { auto q = [&](double v) { double k = std::pow(10.0, xp); return std::round(v * k) / k; }; cx = q(cx); cy = q(cy); a0 = r.range(0, 3) * M_PI / 2 + (cw ? 1 : -1) * step * r.range(1, std::max(1, n - 1)); } // mirror images of points at an axis
  // settings that this run satisfies must not get in its way
  if (step * rad > 0.3 && r.chance(0.5)) c.set("erv", r.pick(std::vector<double>{0.05, 0.1, 0.5}));
  double zstep = c.has("d3") && r.chance(0.6) ? (r.chance(0.5) ? 1 : -1) * step * rad * r.pick(std::vector<double>{0.001, 0.02, 0.1, 0.5, 1}) : 0; // a helix
  auto noise = [&](int moves) { return 1 + 4 * std::pow(10.0, -xp) / (rad * (1 - std::cos(step * moves / 2))); }; // how far the radius of the first moves may be off through the rounding of their points
  if (maxr < rad * noise(2)) c.set("maxr", rad * noise(2));
  if (r.chance(0.25)) { if (r.chance(0.5)) { int mas = (int)r.range(1, 30); c.seti("mas", mas); c.set("mmas", 2 * M_PI * rad / mas / std::max(noise(2), r.pick(std::vector<double>{1.05, 1.5, 4, 20}))); } // many segments in the circle
    else { int mas = (int)(2 * M_PI / (n * step) / std::hypot(1, zstep / (step * rad)) * std::min(0.95, 1 / noise(n))); if (mas >= 1) { c.seti("mas", mas); c.set("mmas", 2 * M_PI * rad * r.real(0.5, 3)); } } } // or an arc that is a small part of the circle
  double z = 0.3;
  std::vector<std::string> L; auto f = [&](double v) { char b[40]; snprintf(b, sizeof b, "%.*f", xp, v); return std::string(b); };
  L.push_back(relE ? "M83" : "M82"); if (r.chance(0.3)) { L.push_back("G90"); L.push_back(relE ? "M83" : "M82"); } if (r.chance(0.5)) L.push_back("G28"); L.push_back("G0 X" + f(r.real(0, 100)) + " Y" + f(r.real(0, 100)) + " Z0.3 F6000");
  double E = 0; if (r.chance(0.4)) { E = r.real(-20, 2000); char b[40]; snprintf(b, sizeof b, "G92 E%.5f", E); L.push_back(b); }
  if (r.chance(0.2)) L.push_back("G92 X" + f(r.real(-5, 5)) + " Y" + f(r.real(-5, 5)));
  { int k = (int)r.range(0, 4); for (int i = 0; i < k; ++i) L.push_back(r.pick(std::vector<std::string>{"M106 S255", "M105", "; comment", "M204 S500", "M117 hello", "T0"})); }
  double sx = cx + rad * std::cos(a0), sy = cy + rad * std::sin(a0); bool startTravel = r.chance(0.6);
  double dir = cw ? -1 : 1, tx = -std::sin(a0) * dir, ty = std::cos(a0) * dir; // the direction in which the circle starts
  auto mv = [&](double x0, double y0, double x, double y) { std::string l = (kind == 1 && r.chance(0.5) ? "G0 X" : "G1 X") + f(x) + " Y" + f(y); if (kind != 1) { double de = (kind == 2 ? -rate : rate) * std::hypot(x - x0, y - y0); E += de; char b[40]; snprintf(b, sizeof b, " E%.5f", relE ? de : E); l += b; } return l; };
  bool led = r.chance(0.35);
  if (led) { // permitted moves of the same kind lead up to the circle, with a sharp corner at its start
    double turn = (r.chance(0.5) ? 1 : -1) * r.real(1.1, 2.0), lx = -(tx * std::cos(turn) - ty * std::sin(turn)), ly = -(tx * std::sin(turn) + ty * std::cos(turn)); std::string F = r.chance(0.5) ? " F1800" : "";
    if (rad > 5 && r.chance(0.4)) { // another circle, which ends where this one starts
      double d2 = r.chance(0.5) ? 1 : -1; int k = (int)r.range(4, 12); double nx = ly * d2, ny = -lx * d2; // centre beside the corner, motion at the corner is -(lx, ly)
      double ox = sx + rad * nx, oy = sy + rad * ny, px0 = 0, py0 = 0; 
      for (int i = k; i >= 0; --i) { double a = d2 * step * i, vx = sx - ox, vy = sy - oy; double x = ox + vx * std::cos(a) - vy * std::sin(a), y = oy + vx * std::sin(a) + vy * std::cos(a); if (i == k) L.push_back("G0 X" + f(x) + " Y" + f(y) + " F9000"); else { std::string l = mv(px0, py0, x, y); if (i == k - 1) l += F; L.push_back(l); } px0 = x; py0 = y; }
    } else {
      double len = std::max(20 * step * rad, 5.0) * r.real(1, 4), x1 = sx + lx * len, y1 = sy + ly * len; int k = (int)r.range(1, 3); double x0 = x1, y0 = y1; std::vector<std::pair<double, double>> q;
      for (int i = 1; i < k; ++i) q.push_back({x1 - ly * len * (i % 2 ? 1 : -1) + r.real(0, 3), y1 + lx * len * (i % 2 ? 1 : -1) + r.real(0, 3)}); std::reverse(q.begin(), q.end()); q.push_back({x1, y1}); q.push_back({sx, sy});
      L.push_back("G0 X" + f(q[0].first) + " Y" + f(q[0].second) + " F9000"); for (size_t i = 1; i < q.size(); ++i) { std::string l = mv(q[i - 1].first, q[i - 1].second, q[i].first, q[i].second); if (i == 1) l += F; L.push_back(l); } (void)x0; (void)y0; }
    c.seti("led", 1);
  }
  else if (kind != 1 && startTravel) L.push_back("G0 X" + f(sx) + " Y" + f(sy) + " F9000");
  else { L.push_back("G0 X" + f(sx + 7) + " Y" + f(sy - 3) + " F9000"); L.push_back("G0 X" + f(sx) + " Y" + f(sy)); L.push_back("M106 S10"); }
  if (!led && r.chance(0.4)) L.push_back("; start");
  c.seti("from", (long long)L.size()); double px = sx, py = sy; bool fFirst = r.chance(0.7); int blankAt = r.chance(0.15) ? (int)r.range(1, n - 1) : -1;
  if (!startTravel || kind == 1) {} // nothing
  for (int i = 1; i <= n; ++i) {
    double a = cw ? a0 - step * i : a0 + step * i, x = cx + rad * std::cos(a), y = cy + rad * std::sin(a); double d = std::hypot(x - px, y - py); px = x; py = y; std::string l = (kind == 1 && r.chance(0.5) ? "G0 X" : "G1 X") + f(x) + " Y" + f(y); if (zstep != 0) { z += zstep; d = std::hypot(d, zstep); l += " Z" + f(z); }
    if (kind != 1) { double de = kind == 2 ? -rate * d : rate * d; E += de; char b[40]; snprintf(b, sizeof b, " E%.5f", relE ? de : E); l += b; }
    if (i == 1 && fFirst) l += " F1800"; L.push_back(l); if (i == blankAt) L.push_back("");
  }
  c.seti("to", (long long)L.size());
  int tail = (int)r.range(0, 6); if (tail == 6) { double a = cw ? a0 - step * n : a0 + step * n, len = std::max(20 * step * rad, 5.0), g = r.chance(0.5) ? 1 : -1; for (int i = 0; i < 3; ++i) { double x = px + g * (i % 2 ? std::sin(a) : std::cos(a)) * len, y = py + g * (i % 2 ? -std::cos(a) : std::sin(a)) * len; L.push_back(mv(px, py, x, y)); px = x; py = y; } } else if (tail == 0) {} else if (tail == 1) L.push_back("G1 X" + f(px + 30) + " Y" + f(py + 40) + " Z1 F9000"); else if (tail == 2) L.push_back("M105"); else if (tail == 3) L.push_back("; end"); else if (tail == 4) L.push_back("G1 F1200"); else { L.push_back("G92 E0"); L.push_back("G0 X0 Y0"); }
  c.lines = L; return c;
}
Result p25(const Case& c) {
  Result r; Welded W = weldCase(c, r); if (!W.ready) return r; int from = (int)c.integer("from", 0), to = (int)c.integer("to", 0); int arcs = 0; bool whole = false; std::string got;
  if (!c.kv.count("from") || to > (int)W.a.src.size() || from >= to) { r.discard = true; return r; }
  for (int i = from; i < to; ++i) if ((!W.w.d3 && W.src[i].z != W.src[i + 1].z) || (!W.w.travel && W.a.ps[i].isMove() && W.src[i + 1].dE == 0)) { r.discard = true; return r; } // not permitted any more after shrinking
  for (auto& s : W.a.steps) if (s.s1 > from && s.s0 < to) { if (s.arc) { arcs++; int left = 0; for (int i = from; i < s.s0; ++i) left += !blankLine(W.a.ps[i]); if (s.s0 >= from && left <= 1 && s.s1 >= to) whole = true; } got += escape(W.a.out[s.j]) + " | "; }
  if (!whole || arcs != 1) r.fail(fmt("a clean run of %d lines (source lines %d-%d) is not welded into one arc: %d arcs, output %s", to - from, from + 1, to, arcs, got.substr(0, 300).c_str()));
  r.stat["points"] += to - from; if (c.has("mas")) r.stat["with_compensation"]++; if (c.has("erv")) r.stat["with_rate_variance"]++; if (W.src[to].z != W.src[from].z) r.stat["helices"]++; if (c.kv.count("led")) r.stat["after_other_moves"]++; r.nontrivial = true; return r;
}
Profile base() { return Profile(); }
#define GEN(...) [](Rng& r) { Profile p = base(); __VA_ARGS__; return genWeldCase(r, p); }
Registrar a1({"P01", "structured random programs; non-trivial: the welded file contains at least one arc that was measured against the moves it replaced", GEN(p.pArc = 0.75; p.pNoise = 0.6; p.pInterrupt = 0.05; p.pState = 0.2; p.pBigCoord = 0), p01, true, 6000, 60000});
Registrar a2({"P02", "structured random command histories; non-trivial: at least one arc was written, so states after it were compared", GEN(p.pInterrupt = 0.15; p.pState = 0.5; p.pRelXYZ = 0.15), p02, true, 6000, 60000});
Registrar a3({"P03", "structured random programs with resets and both extrusion modes; non-trivial: at least one arc with filament", GEN(p.pRetract = 0.25; p.pRateVar = 0.2), p03, true, 6000, 60000});
Registrar a4({"P04", "structured random programs with comments, blank lines and odd lines; non-trivial: an arc was written and more than three lines passed through", GEN(p.pComment = 0.3; p.pTagAll = 0.35; p.pInterrupt = 0.2; p.pBlank = 0.4; p.pCRLF = 0.2), p04, true, 6000, 60000});
Registrar a5({"P05", "structured random programs with interruptions of every kind inside curves; non-trivial: at least one arc was written and judged", GEN(p.pInterrupt = 0.2; p.pHelix = 0.3; p.pTravel = 0.3; p.pHome = 0.1), p05, true, 6000, 60000});
Registrar a6({"P06", "structured random programs with large, tiny and negative coordinates and length limits; non-trivial: at least one arc was written", [](Rng& r) { Profile p; p.pBigCoord = 0.3; p.pFine = 0.4; Case c = genWeldCase(r, p); if (r.chance(0.3)) c.seti("maxlen", r.range(20, 90)); else if (r.chance(0.6)) { c.seti("fit", r.range(0, 4000)); if (r.chance(0.5)) c.seti("dyn", 1); } return c; }, p06, true, 6000, 60000});
Registrar a7({"P07", "structured random programs; non-trivial: an arc was written and every start position was known, so counts, lengths and histograms were compared", [](Rng& r) { Profile p; p.pHome = 0.005; p.pTravel = 0.3; p.pSourceArc = 0.15; p.pFine = 0.05; Case c = genWeldCase(r, p); if (r.chance(0.95)) { // a known position from the start, so that every length is defined
  for (auto& l : c.lines) { std::string u; for (char ch : l.substr(0, l.find(';'))) if (ch > ' ') u += (char)toupper((unsigned char)ch); if (u.rfind("G28", 0) == 0) l = "G92 X0 Y0 Z0"; }
  size_t at = c.lines.empty() || c.lines[0].empty() || c.lines[0][0] != ';' ? 0 : 1; c.lines.insert(c.lines.begin() + at, r.pick(std::vector<std::string>{"G92 X0 Y0 Z0", "G92 X10 Y-5 Z0.2", "G92 X100 Y100 Z0 E0"})); } return c; }, p07, true, 6000, 60000});
Registrar a16({"P16", "structured random programs with firmware compensation settings; non-trivial: compensation on and at least one arc judged", [](Rng& r) { Profile p; p.pInterrupt = 0.04; p.pArc = 0.8; Case c = genWeldCase(r, p); if (r.chance(0.85)) { c.set("mmas", r.pick(std::vector<double>{1, 0.5, 2, 5, 0.1, 10, 0.25})); c.seti("mas", r.pick(std::vector<int>{14, 3, 24, 6, 1, 2, 100})); } else { c.kv.erase("mas"); c.kv.erase("mmas"); if (r.chance(0.5)) c.seti("mas", 14); else c.set("mmas", 1.0); } return c; }, p16, true, 6000, 60000});
Registrar a17({"P17", "structured random programs with varying extrusion rates; non-trivial: a variance is set and an arc merges at least two extruding moves", [](Rng& r) { Profile p; p.pRateVar = 0.6; p.pTravel = 0.05; p.pRetract = 0.05; Case c = genWeldCase(r, p); if (r.chance(0.85)) c.set("erv", r.pick(std::vector<double>{0.05, 0.01, 0.1, 0.2, 0.3, 0.5, 0.002})); else c.kv.erase("erv"); return c; }, p17, true, 6000, 60000});
Registrar a21({"P21", "short programs with every kind of first line, line ending and option set; non-trivial: every case", [](Rng& r) { Profile p; p.maxBlocks = 1; Case c = genWeldCase(r, p); if (r.chance(0.8)) c.lines.insert(c.lines.begin(), r.pick(std::vector<std::string>{";FLAVOR:UltiGCode", "; generated by PrusaSlicer 2.4.0", "; generated by PrusaSlicer", ";FLAVOR:UltiGCode ", " ;FLAVOR:UltiGCode", "; Generated by PrusaSlicer", "; generated by SuperSlicer", ";FLAVOR:Marlin", "", "G28", ";TIME:100"})); if (r.chance(0.4)) c.seti("crlf", 1); return c; }, p21, true, 8000, 60000});
Registrar a25({"P25", "one clean sampled arc in neutral surroundings; non-trivial: every case (the chain must come out as exactly one arc)", genP25, p25, false, 12000, 120000});
}
