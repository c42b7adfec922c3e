// P15: weld a program, straighten the result, compare with the source program.
#include "gen.hpp"
#include "weld.hpp"
#include "straight.hpp"

namespace vh {
using Pt = std::pair<double, double>;
static double segDist(const Pt& p, const Pt& a, const Pt& b) {
  double dx = b.first - a.first, dy = b.second - a.second, q = dx * dx + dy * dy, t = q > 0 ? ((p.first - a.first) * dx + (p.second - a.second) * dy) / q : 0; t = std::min(1.0, std::max(0.0, t));
  return std::hypot(p.first - a.first - t * dx, p.second - a.second - t * dy);
}
// the part of segment a-b within d of p, as parameters; false when there is none
static bool freeInterval(const Pt& p, const Pt& a, const Pt& b, double d, double& lo, double& hi) {
  double dx = b.first - a.first, dy = b.second - a.second, ex = a.first - p.first, ey = a.second - p.second, A = dx * dx + dy * dy, B = 2 * (dx * ex + dy * ey), C = ex * ex + ey * ey - d * d;
  if (A < 1e-18) { lo = 0; hi = 1; return C <= 0; }
  double D = B * B - 4 * A * C; if (D < 0) return false; double s = std::sqrt(D); lo = std::max(0.0, (-B - s) / (2 * A)); hi = std::min(1.0, (-B + s) / (2 * A)); return lo <= hi;
}
// Is the Frechet distance of two paths at most d?  (free space diagram of Alt and Godau)
static bool frechetWithin(const std::vector<Pt>& P, const std::vector<Pt>& Q, double d) {
  size_t n = P.size(), m = Q.size(); auto dist = [](const Pt& a, const Pt& b) { return std::hypot(a.first - b.first, a.second - b.second); };
  if (dist(P[0], Q[0]) > d || dist(P.back(), Q.back()) > d) return false;
  // reach.l: reachable part of the left edge (point P[i], segment Q[j]); reach.b: of the bottom edge (segment P[i], point Q[j])
  struct I { double lo = 1, hi = 0; bool ok() const { return lo <= hi; } };
  std::vector<I> L(m), B(m + 1), nL(m), nB(m + 1);
  // column i = segment P[i]P[i+1]
  bool go = true; for (size_t j = 0; j + 1 < m; ++j) { I x; double lo, hi; if (go && freeInterval(P[0], Q[j], Q[j + 1], d, lo, hi) && lo <= 1e-12) { x.lo = lo; x.hi = hi; go = hi >= 1 - 1e-12; } else go = false; L[j] = x; }
  bool gb = true;
  for (size_t i = 0; i + 1 < n; ++i) {
    I bot; double lo, hi; if (gb && freeInterval(Q[0], P[i], P[i + 1], d, lo, hi) && lo <= 1e-12) { bot.lo = lo; bot.hi = hi; gb = hi >= 1 - 1e-12; } else gb = false;
    I b = bot; std::vector<I> R(m);
    for (size_t j = 0; j + 1 < m; ++j) {
      I r, t; bool fr = freeInterval(P[i + 1], Q[j], Q[j + 1], d, lo, hi); if (fr) { if (b.ok()) { r.lo = lo; r.hi = hi; } else if (L[j].ok()) { r.lo = std::max(lo, L[j].lo); r.hi = hi; } }
      bool ft = freeInterval(Q[j + 1], P[i], P[i + 1], d, lo, hi); if (ft) { if (L[j].ok()) { t.lo = lo; t.hi = hi; } else if (b.ok()) { t.lo = std::max(lo, b.lo); t.hi = hi; } }
      R[j] = r; b = t;
    }
    L = R; if (i + 2 == n) return (L[m - 2].ok() && L[m - 2].hi >= 1 - 1e-9) || (b.ok() && b.hi >= 1 - 1e-9);
  }
  return true;
}
static Case genP15(Rng& r) {
  Profile p; p.pTagAll = 1; p.pSourceArc = 0; p.pArc = 0.75; p.pBigCoord = 0; p.pInterrupt = 0.06; p.pHelix = 0.15; p.maxBlocks = 5; p.pHome = 0.02; p.pTool = 0;
  Case fc; genFwArgs(r, fc); FwCfg f = FwCfg::of(fc); Case c; genWeldCfg(r, c, p); c.kv.erase("g90e"); for (auto& k : fc.kv) c.kv["w_" + k.first] = k.second; if (f.g90e) c.seti("g90e", 1); c.kv.erase("w_g90e");
  if (f.kind() == RE104) c.kv.erase("d3");
  ProgGen g(r, p); g.m.g90e = f.g90e; g.resolution = c.num("res", 0.05); g.program(); c.lines = g.lines; if (r.chance(0.08)) c.seti("crlf", 1); return c;
}
static Result p15(const Case& c) {
  Result r; Case fc; for (auto& k : c.kv) if (k.first.rfind("w_", 0) == 0) fc.kv[k.first.substr(2)] = k.second; fc.seti("g90e", c.integer("g90e", 0)); FwCfg f = FwCfg::of(fc); WeldCfg w = WeldCfg::of(c);
  if (f.kind() == RE104 && w.d3) { r.discard = true; return r; }
  std::string text = caseText(c); if (splitLines(text).empty()) { r.discard = true; return r; }
  for (auto& l : splitLines(text)) if (parseLine(l).isArc()) { r.discard = true; return r; }
  WeldRun wr = weldText(w, text); if (!wr.r.success || !wr.read) { r.fail("the weld did not succeed"); return r; }
  Alignment a = align(w, text, wr.out); if (!a.ok) { r.fail("welded file: " + a.why); return r; }
  std::vector<Machine> src; { Machine m; m.g90e = w.g90e; src.push_back(m); for (auto& g : a.ps) { m.exec(g); src.push_back(m); } }
  std::vector<Machine> mid; { Machine m; m.g90e = w.g90e; mid.push_back(m); for (auto& g : a.po) { m.exec(g); mid.push_back(m); } }
  // domain of the straightener
  for (auto& s : a.steps) { if (!s.arc) continue; const Machine& b = mid[s.j]; ArcGeo q = arcGeo(b, mid[s.j + 1], a.po[s.j]); if (!b.kx || !b.ky || !b.kz || (f.kind() == SMOO && !(mid[s.j + 1].f > 0))) { r.discard = true; return r; }
    if (q.r < 0.02 || q.r > 1000 || q.r * q.sweep < 0.02 || q.r * (2 * M_PI - q.sweep) < 0.02 || q.full) { r.discard = true; return r; } if (std::max({std::fabs(q.sx), std::fabs(q.sy), std::fabs(q.ex), std::fabs(q.ey)}) > 2000) { r.discard = true; return r; } }
  StrRun sr = straighten(fwArgs(f, fc), wr.out); if (!sr.ok || !sr.read) { r.fail("straightening did not succeed"); return r; }
  StrAlign t = alignStr(f, wr.out, sr.out); if (t.ambiguous) { r.discard = true; return r; } if (!t.ok) { r.fail("straightened file: " + t.why); return r; }
  for (size_t i = 0; i < t.po.size(); ++i) if (t.po[i].isArc()) { r.fail("an arc is left: " + escape(t.out[i])); return r; }
  // line of the welded file -> line of its body
  size_t first = a.firstKept ? 1 : 0, skip = a.header.size() + 1; std::map<int, const Step*> stepOf; for (auto& s : a.steps) stepOf[s.j] = &s;
  double ux = 0.5 * std::pow(10.0, -w.xp), ue = 0.5 * std::pow(10.0, -w.ep), slE = 0; Machine om; om.g90e = w.g90e; long arcs = 0, moves = 0; double maxRatio = 0;
  for (auto& st : t.steps) {
    int k = st.k; if (k >= (int)first && k < (int)(first + skip)) { continue; } int j = k < (int)first ? k : k - (int)skip; auto it = stepOf.find(j);
    if (it == stepOf.end()) { for (int q = st.from; q < st.to; ++q) om.exec(t.po[q]); continue; } const Step& s = *it->second; if (s.arc != st.arc) { r.fail("an arc was not straightened: " + escape(t.src[k])); return r; }
    const Machine& b = src[s.s0]; const Machine& e = src[std::min<size_t>(s.s1, src.size() - 1)]; std::string at = fmt("source lines %d-%d (welded to '%s'): ", s.s0 + 1, s.s1, escape(t.src[k]).c_str());
    auto state = [&](const Machine& x, const char* when) {
      double tx = 6e-4 + ux + 2e-7 * (std::fabs(x.x) + std::fabs(x.y)), te = 6e-6 + ue + slE + 2e-7 * std::fabs(x.e), tz = 6e-4 + ux + 2e-7 * std::fabs(x.z);
      if (x.kx != om.kx || x.ky != om.ky || (x.kx && std::fabs(x.x - om.x) > tx) || (x.ky && std::fabs(x.y - om.y) > tx) || (x.kz && std::fabs(x.z - om.z) > tz)) r.fail(at + fmt("position %s is (%.5f,%.5f,%.5f) instead of (%.5f,%.5f,%.5f)", when, om.x, om.y, om.z, x.x, x.y, x.z));
      if (std::fabs(x.e - om.e) > te) r.fail(at + fmt("extruder position %s is %.6f instead of %.6f", when, om.e, x.e)); if (x.rel != om.rel || x.relE != om.relE) r.fail(at + fmt("modes %s differ", when));
      if (x.kf != om.kf || std::fabs(x.f - om.f) > 0.51) r.fail(at + fmt("feedrate %s is %.3f instead of %.3f", when, om.f, x.f));
    };
    if (!(s.s1 == s.s0)) state(b, "before it"); if (!r.ok) return r;
    if (!s.arc) { om.exec(t.po[st.from]); continue; }
    ++arcs; moves += st.to - st.from; ArcGeo g = arcGeo(mid[j], mid[j + 1], t.ps[k]); long N = st.to - st.from; if (N == 0) { r.fail(at + "the arc was dropped"); return r; }
    double sag = 0, drift = 0; bool known = false; for (auto& sg : segModel(f, g, mid[j + 1].f)) if (sg.n == N) { known = true; double h = std::min(M_PI, sg.step * g.sweep / 2); sag = std::max(sag, h >= M_PI / 2 ? 2 * g.r : g.r * (1 - std::cos(h))); auto ap = approxPoints(f, g, sg); double th = sg.step * g.signedSweep(); for (size_t q = 0; q < ap.size(); ++q) { double v = (q + 1) * th; drift = std::max(drift, std::hypot(ap[q].first - (-g.i * std::cos(v) + g.j * std::sin(v)), ap[q].second - (-g.i * std::sin(v) - g.j * std::cos(v)))); } }
    std::vector<Pt> P, Q; double sum = 0; P.push_back({b.x, b.y}); for (int q = s.s0; q < s.s1; ++q) if (a.ps[q].isMove()) { P.push_back({src[q + 1].x, src[q + 1].y}); sum += src[q + 1].dE; }
    Q.push_back({om.x, om.y}); double got = 0; for (int q = st.from; q < st.to; ++q) { om.exec(t.po[q]); Q.push_back({om.x, om.y}); got += om.dE; }
    double te = 1.2e-5 + 2 * ue + (b.relE ? N * 5.1e-6 : 0) + slE + 4e-7 * std::fabs(e.e); if (b.relE) slE += N * 5.1e-6 + ue; else if (t.ps[k].has('E')) slE = 0;
    if (std::fabs(got - sum) > te) { r.fail(at + fmt("the moves after the round trip extrude %.6f instead of %.6f", got, sum)); return r; }
    state(e, "after it"); if (!r.ok) return r;
    if (!known || drift > 0.3 * g.r) { r.stat["arcs_not_measured"]++; continue; } // counted by P19 / outside the small-angle domain
    double T = w.res + 6 * ux + 2e-3 + drift + sag + 4e-6 * g.r + 8e-7 * (std::fabs(g.cx) + std::fabs(g.cy));
    { double M = 0; for (auto& q : P) M = std::max({M, std::fabs(q.first), std::fabs(q.second)}); size_t mi = P.size() / 2; double ar = std::fabs((P[mi].first - P[0].first) * (P.back().second - P[0].second) - (P.back().first - P[0].first) * (P[mi].second - P[0].second)); T += std::min(0.01, 1e-15 * M * M * M / std::max(ar, 1e-12)); }
    if (!frechetWithin(P, Q, T)) {
      double worst = 0; for (auto& v : P) { double d = 1e9; for (size_t q = 0; q + 1 < Q.size(); ++q) d = std::min(d, segDist(v, Q[q], Q[q + 1])); worst = std::max(worst, d); }
      r.fail(at + fmt("the path after the round trip (%ld moves) is not within %.5f of the source path in the same order (largest distance of a source point %.5f; radius %.4f sweep %.4f)", N, T, worst, g.r, g.sweep)); return r; }
    r.stat["arcs_measured"]++;
  }
  { Machine& x = src.back(); double tx = 6e-4 + ux + 2e-7 * (std::fabs(x.x) + std::fabs(x.y)); if (x.kx != om.kx || (x.kx && std::fabs(x.x - om.x) > tx) || x.ky != om.ky || (x.ky && std::fabs(x.y - om.y) > tx) || std::fabs(x.e - om.e) > 6e-6 + ue + slE + 2e-7 * std::fabs(x.e) || x.rel != om.rel || x.relE != om.relE) r.fail("the state at the end of the program differs"); }
  r.nontrivial = r.stat["arcs_measured"] > 0; r.stat["moves_for_arcs"] = moves; r.stat[std::string("firmware_") + f.spec().type + "_" + f.spec().version] = 1; return r;
}
static Registrar a15({"P15", "structured random programs welded and straightened again with random options of both tools; non-trivial: at least one arc was measured against the moves it once replaced", genP15, p15, true, 3000, 60000});
} // namespace vh
