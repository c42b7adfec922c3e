// P13 geometry of straightened arcs, P14 everything else, P19 firmware arguments (library and command line), P15 weld then straighten.
#include "gen.hpp"
#include "weld.hpp"
#include "straight.hpp"
#include "strgen.hpp"
#include "proc.hpp"

namespace vh {

struct Judged { Result geo, rest, args; };
static std::string seg2(const ArcGeo& a) { return fmt("start (%.5f,%.5f) end (%.5f,%.5f) centre (%.5f,%.5f) r=%.5f sweep=%.5f %s", a.sx, a.sy, a.ex, a.ey, a.cx, a.cy, a.r, a.sweep, a.cw ? "cw" : "ccw"); }

static Judged judge(const Case& c) {
  Judged J; FwCfg f = FwCfg::of(c); std::string text = caseText(c); auto all = [&](const std::string& m) { J.geo.fail(m); J.rest.fail(m); J.args.fail(m); };
  auto disc = [&] { J.geo.discard = J.rest.discard = J.args.discard = true; };
  // domain: arcs start from a known position, end on their circle, are longer than 0.01 mm, in I/J form
  std::vector<GLine> ps; for (auto& l : splitLines(text)) ps.push_back(parseLine(l)); if (ps.empty()) { disc(); return J; }
  { Machine m; m.g90e = f.g90e; for (auto& g : ps) { Machine b = m; m.exec(g); if (!g.isArc()) continue;
      if (!b.kx || !b.ky || !b.kz || (g.has('R'))) { disc(); return J; }
      if (f.kind() == SMOO && !(m.f > 0)) { disc(); return J; }
      if (f.kind() == RE104 && std::fabs(m.z - b.z) > 1e-9) { disc(); return J; }
      ArcGeo a = arcGeo(b, m, g); double big = std::max({std::fabs(a.sx), std::fabs(a.sy), std::fabs(a.ex), std::fabs(a.ey)});
      if (a.r < 0.02 || std::fabs(a.rEnd - a.r) > 0.003 || a.r * a.sweep < 0.02 || (!a.full && a.r * (2 * M_PI - a.sweep) < 0.02) || big > 2000 || a.r > 1000) { disc(); return J; }
      if (a.full && (f.kind() == M1 || f.kind() == PR310 || f.kind() == PR311 || f.kind() == RE104)) { auto ex = [](double v) { return std::fabs(v * 8 - std::round(v * 8)) < 1e-9; }; if (!ex(a.sx) || !ex(a.sy) || !ex(a.i) || !ex(a.j)) { disc(); return J; } } } }
  StrRun run = straighten(fwArgs(f, c), text);
  if (!run.ok || !run.read) { all("the conversion did not report success"); return J; }
  StrAlign al = alignStr(f, text, run.out); if (al.ambiguous) { disc(); return J; }
  if (!al.ok) { J.rest.fail(al.why); J.geo.fail(al.why); J.args.fail(al.why); return J; }
  // header
  { std::map<std::string, std::string> h; for (auto& l : al.header) { size_t e = l.find('='); if (e != std::string::npos) h[l.substr(2, e - 2)] = l.substr(e + 1); }
    std::string v = f.spec().version; if (h["firmware_type"] != f.spec().type) J.args.fail("header states firmware type " + h["firmware_type"] + " for " + f.spec().type);
    if (h["firmware_version"] != v + (f.spec().latest ? " (LATEST_RELEASE)" : "")) J.args.fail("header states firmware version " + h["firmware_version"] + " for " + v);
    auto two = [](double d) { char b[64]; snprintf(b, sizeof b, "%.2f", d); return std::string(b); };
    std::map<std::string, std::pair<std::string, std::string>> want{{"mm", {"mm_per_arc_segment", two(f.mm)}}, {"perr", {"arc_segments_per_r", two(f.perr)}}, {"persec", {"arc_segments_per_sec", two(f.persec)}}, {"minmm", {"min_mm_per_arc_segment", two(f.minmm)}},
      {"minseg", {"min_arc_segment_mm", two(f.minseg)}}, {"maxseg", {"max_arc_segment_mm", two(f.maxseg)}}, {"maxerr", {"mm_max_arc_error", two(f.maxerr)}}, {"minarc", {"min_arc_segments", std::to_string(f.minarc)}},
      {"mincirc", {"min_circle_segments", std::to_string(f.mincirc)}}, {"ncorr", {"n_arc_correction", std::to_string(f.ncorr)}}, {"g90e", {"g90_g91_influences_extruder", f.g90e ? "True" : "False"}}};
    for (auto& w : want) { bool u = f.uses(w.first); bool there = h.count(w.second.first) > 0;
      if (u && (!there || h[w.second.first] != w.second.second)) J.args.fail("header states " + w.second.first + "=" + (there ? h[w.second.first] : "nothing") + " where " + w.second.second + " was used");
      if (!u && there) J.args.fail("header states " + w.second.first + ", which this version does not use"); } }
  // walk
  Machine sm, om; sm.g90e = om.g90e = f.g90e; double slXY = 0, slE = 0; long arcs = 0, segs = 0, multi = 0, skipped = 0; bool rel = false, crossed = false;
  for (auto& st : al.steps) {
    Machine b = sm; sm.exec(al.ps[st.k]); Machine ob = om;
    auto state = [&](const Machine& s, const Machine& o, const char* when) {
      double t = 6e-4 + slXY + 2e-7 * (std::fabs(s.x) + std::fabs(s.y) + std::fabs(s.z)), te = 6e-6 + slE + 1.3e-7 * std::fabs(s.e);
      if (std::fabs(s.x - o.x) > t || std::fabs(s.y - o.y) > t || std::fabs(s.z - o.z) > t) J.rest.fail(fmt("source line %d: position %s is (%.5f,%.5f,%.5f) instead of (%.5f,%.5f,%.5f)", st.k + 1, when, o.x, o.y, o.z, s.x, s.y, s.z));
      if (std::fabs(s.e - o.e) > te) J.rest.fail(fmt("source line %d: extruder position %s is %.6f instead of %.6f", st.k + 1, when, o.e, s.e));
      if (s.rel != o.rel || s.relE != o.relE) J.rest.fail(fmt("source line %d: modes %s differ", st.k + 1, when));
      if (s.kf != o.kf || std::fabs(s.f - o.f) > 0.51) J.rest.fail(fmt("source line %d: feedrate %s is %.3f instead of %.3f", st.k + 1, when, o.f, s.f));
    };
    if (!st.arc) { om.exec(al.po[st.from]); state(sm, om, "after it"); continue; }
    ++arcs; ArcGeo a = arcGeo(b, sm, al.ps[st.k]); long N = st.to - st.from; segs += N; if (N > 1) ++multi; rel = rel || b.rel || b.relE; crossed = crossed || a.sweep > M_PI;
    if (N == 0) { all(fmt("source line %d: the arc '%s' was dropped", st.k + 1, escape(al.src[st.k]).c_str())); continue; }
    auto model = segModel(f, a, sm.f); const Seg* sg = nullptr; for (auto& s : model) if (s.n == N) { sg = &s; break; }
    Seg fall{N, 1.0 / N};
    if (!sg) {
      std::string w; for (auto& s : model) w += fmt(" %ld", s.n); J.args.fail(fmt("source line %d: arc drawn with %ld moves, the documented segmentation of %s %s gives%s; %s F%.1f dz=%.4f", st.k + 1, N, f.spec().type, f.spec().version, w.c_str(), seg2(a).c_str(), sm.f, a.ez - a.sz));
      long least = 1 << 30; for (auto& s : model) least = std::min(least, s.n); if (N < least) J.geo.fail(fmt("source line %d: arc drawn with only %ld moves where the firmware draws %ld; %s", st.k + 1, N, least, seg2(a).c_str()));
      sg = &fall;
    }
    // candidates with the same count but another step length (2.0.9.2)
    std::vector<Seg> cand; for (auto& s : model) if (s.n == N) cand.push_back(s); if (cand.empty()) cand.push_back(fall);
    std::string bestGeo, bestRest, bestArgs; bool any = false, sk = false;
    for (auto& cd : cand) {
      std::string g, e, q; auto pts = approxPoints(f, a, cd); double th = cd.step * a.signedSweep(), grow = 0; Machine o = ob;
      double noise = (4e-6 + 9e-8 * std::min<long>(f.ncorr, N)) * a.r + 8e-7 * (std::fabs(a.cx) + std::fabs(a.cy) + a.r);
      for (long k = 1; k <= N; ++k) {
        const GLine& w = al.po[st.from + k - 1]; Machine pre = o; o.exec(w);
        for (auto& p : w.par) if (!strchr("XYZEF", p.first)) e = fmt("move of an arc has a parameter %c", p.first);
        double lin = b.rel ? k * 5.1e-4 : 0, le = b.relE ? k * 5.1e-6 : 0, frac = k == N ? 1 : cd.step * k, fE = frac;
        double tx = 7.5e-4 + noise + slXY * 1.5 + lin * 1.5, tz = 5.2e-4 + slXY + lin + 1.2e-7 * (std::fabs(a.sz) + std::fabs(a.ez)) * (k + 3) + a.rel() * std::fabs(a.ez - a.sz), te = 5.5e-6 + slE + le + 1.2e-7 * std::max(std::fabs(b.e), std::fabs(sm.e)) * (k + 3) + a.rel() * std::fabs(sm.e - b.e);
        double ix, iy;
        if (k == N) { ix = a.ex; iy = a.ey; double d = std::max(std::fabs(o.x - ix), std::fabs(o.y - iy)); if (g.empty() && d > tx) g = fmt("ends at (%.5f,%.5f) instead of (%.5f,%.5f)", o.x, o.y, ix, iy); }
        else {
          double t = k * th, cx = -a.i * std::cos(t) + a.j * std::sin(t), cy = -a.i * std::sin(t) - a.j * std::cos(t); ix = a.cx + cx; iy = a.cy + cy;
          double dr = std::hypot(pts[k - 1].first - cx, pts[k - 1].second - cy); grow = std::max(grow, dr);
          if (grow > 0.3 * a.r) sk = true; // the firmware's own approximation has left the circle
          else {
            double d = std::hypot(o.x - ix, o.y - iy); if (g.empty() && d > tx + grow * 1.001) g = fmt("point %ld of %ld is (%.5f,%.5f), %.5f from its place (%.5f,%.5f) on the arc, allowed %.5f", k, N, o.x, o.y, d, ix, iy, tx + grow * 1.001);
            double d2 = std::hypot(o.x - a.cx - pts[k - 1].first, o.y - a.cy - pts[k - 1].second); if (q.empty() && d2 > tx) q = fmt("point %ld of %ld is %.5f away from where the documented approximation with n_arc_correction=%d puts it", k, N, d2, f.ncorr);
          }
        }
        double iz = a.sz + frac * (a.ez - a.sz), ie = b.e + fE * (sm.e - b.e);
        if (g.empty() && std::fabs(o.z - iz) > tz) g = fmt("Z at point %ld of %ld is %.5f instead of %.5f", k, N, o.z, iz);
        if (e.empty() && std::fabs(o.e - ie) > te) e = fmt("extruder position at point %ld of %ld is %.6f instead of %.6f", k, N, o.e, ie);
        if (e.empty() && (sm.kf ? std::fabs(o.f - sm.f) > 0.51 : o.kf)) e = fmt("move %ld of %ld runs at feedrate %.3f instead of %.3f", k, N, o.f, sm.f);
        if (e.empty() && w.has('E') && std::fabs(sm.e - b.e) < 1e-9 && std::fabs(o.e - pre.e) > te) e = "an arc without extrusion extrudes";
      }
      auto bad = [](const std::string& a, const std::string& b, const std::string& c) { return 4 * !a.empty() + 2 * !b.empty() + !c.empty(); };
      if (!any || bad(g, e, q) < bad(bestGeo, bestRest, bestArgs)) { bestGeo = g; bestRest = e; bestArgs = q; any = true; if (!bad(g, e, q)) break; }
    }
    if (sk) ++skipped;
    std::string at = fmt("source line %d '%s' (%s): ", st.k + 1, escape(al.src[st.k]).c_str(), seg2(a).c_str());
    if (!bestGeo.empty()) J.geo.fail(at + bestGeo); if (!bestRest.empty()) J.rest.fail(at + bestRest); if (!bestArgs.empty()) J.args.fail(at + bestArgs);
    for (int q = st.from; q < st.to; ++q) om.exec(al.po[q]);
    if (b.rel) slXY += N * 5.1e-4; if (b.relE) slE += N * 5.1e-6; slE += 2e-7 * std::fabs(sm.e);
    state(sm, om, "after it");
  }
  for (Result* r : {&J.geo, &J.rest, &J.args}) { r->nontrivial = multi > 0; r->stat["arcs"] = arcs; r->stat["moves_for_arcs"] = segs; r->stat["arcs_outside_small_angle_domain"] = skipped; r->stat[std::string("firmware_") + f.spec().type + "_" + f.spec().version] = 1; if (rel) r->stat["with_relative_mode"] = 1; if (crossed) r->stat["with_sweep_over_180"] = 1; }
  return J;
}
static Registrar a13({"P13", "at least one arc replaced by several moves", genStr, [](const Case& c) { return judge(c).geo; }, true, 3000, 60000});
static Registrar a14({"P14", "at least one arc replaced by several moves", genStr, [](const Case& c) { return judge(c).rest; }, true, 3000, 60000});
// P19 first half: the interpolation and the header follow the arguments
static Registrar a19({"P19", "at least one arc replaced by several moves", genStr, [](const Case& c) { return judge(c).args; }, true, 3000, 60000});
} // namespace vh
