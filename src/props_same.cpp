// P28: how a program is spelled does not change what the tools do with it.
#include "core.hpp"
#include "machine.hpp"
#include "weld.hpp"
#include "gen.hpp"
#include "straight.hpp"
#include "strgen.hpp"

namespace vh {
// The code part of a line taken apart into letters and numbers; false when it is anything else
struct Tok { char letter; std::string num; };
static bool tokens(const std::string& code, std::vector<Tok>& t) {
  size_t i = 0, n = code.size(); auto skip = [&] { while (i < n && code[i] == ' ') ++i; }; skip();
  while (i < n) { if (!isalpha((unsigned char)code[i])) return false; Tok k; k.letter = (char)toupper((unsigned char)code[i++]); skip(); if (i < n && (code[i] == '-' || code[i] == '+')) k.num += code[i++]; int d = 0; while (i < n && isdigit((unsigned char)code[i])) k.num += code[i++], ++d; if (i < n && code[i] == '.') { k.num += code[i++]; while (i < n && isdigit((unsigned char)code[i])) k.num += code[i++], ++d; } if (!d && !k.num.empty()) return false; t.push_back(k); skip(); }
  return !t.empty();
}
// another spelling of a line: same command, same numbers, same comment
static std::string respell(const std::string& line, Rng& r, bool digits, bool order) {
  size_t s = line.find(';'); std::string code = line.substr(0, s), com = s == std::string::npos ? "" : line.substr(s); GLine g = parseLine(line); std::vector<Tok> t;
  static const std::set<std::string> known{"G0", "G1", "G2", "G3", "G28", "G90", "G91", "G92", "M82", "M83", "M106", "M104"};
  if (!known.count(g.word) || !tokens(code, t) || t[0].num.empty()) return line; std::set<char> seen; for (auto& k : t) if (!seen.insert(k.letter).second) return line; // a repeated letter has no agreed reading
  if (g.word[0] == 'G' && g.word.size() == 2) t[0].num = r.chance(0.3) ? "0" + g.word.substr(1) : g.word.substr(1);
  if (order) for (size_t i = t.size(); i > 2; --i) std::swap(t[i - 1], t[1 + (size_t)r.range(0, (long long)i - 2)]);
  bool low = r.chance(0.4), each = r.chance(0.15); int gap = (int)r.range(0, 3), in = r.chance(0.15); std::string o(r.chance(0.15) ? (size_t)r.range(1, 3) : 0, ' ');
  for (size_t i = 0; i < t.size(); ++i) {
    if (i) o += std::string(gap == 3 ? (size_t)r.range(0, 2) : (size_t)gap, ' '); std::string q = t[i].num;
    if (i && !q.empty()) {
      std::string sg; if (q[0] == '-' || q[0] == '+') { sg = q.substr(0, 1); q = q.substr(1); } if (sg == "+" && r.chance(0.5)) sg = ""; else if (sg.empty() && r.chance(0.1)) sg = "+";
      if (q.size() > 2 && q.compare(0, 2, "0.") == 0 && r.chance(0.3)) q = q.substr(1); else if (q[0] == '.' && r.chance(0.5)) q = "0" + q; else if (q.size() > 1 && r.chance(0.08)) q = "0" + q;
      if (digits) { size_t p = q.find('.'); if (p == std::string::npos) { if (r.chance(0.15)) q += r.chance(0.3) ? "." : "." + std::string((size_t)r.range(1, 3), '0'); } else if (q.size() - p < 7 && r.chance(0.2)) q += std::string((size_t)r.range(1, 3), '0'); else while (q.size() > p + 2 && q.back() == '0' && r.chance(0.5)) q.pop_back(); }
      q = sg + q;
    }
    char c = (each ? r.chance(0.5) : low) ? (char)tolower((unsigned char)t[i].letter) : t[i].letter; o += c; if (in && i && r.chance(0.5)) o += " "; o += q;
  }
  if (r.chance(0.15) && !com.empty()) o += std::string((size_t)r.range(1, 2), ' '); else if (r.chance(0.05)) o += " ";
  return o + com;
}
static Case genP28(Rng& r) {
  Profile p; p.maxBlocks = (int)r.range(1, 6); p.pStyle = 0; p.pComment = 0.1; bool str = r.chance(0.3); if (str) { p.pSourceArc = 1; p.pState = 0.7; p.pArc = 0.2; }
  Case c; if (str && r.chance(0.8)) { c = genStr(r); c.set("tool", "str"); c.kv.erase("crlf"); c.kv.erase("nonl"); c.seti("sp", r.range(1, 1000000000)); c.seti("crlf2", r.chance(0.2)); c.seti("order", r.chance(0.4)); return c; }
  c = genWeldCase(r, p); c.kv.erase("crlf"); if (str) { c.set("tool", "str"); Case f; genFwArgs(r, f); for (auto k : {"g90e", "mas", "mmas"}) c.kv.erase(k); for (auto& e : f.kv) c.kv[e.first] = e.second; }
  c.seti("sp", r.range(1, 1000000000)); c.seti("crlf2", r.chance(0.2)); c.seti("note", r.chance(0.3)); c.seti("order", r.chance(0.4)); return c;
}
static std::string codePart(const std::string& l) { return l.substr(0, l.find(';')); }
static Result p28(const Case& c) {
  Result R; Rng r((uint64_t)c.integer("sp", 1)); bool str = c.get("tool") == "str", dyn = c.integer("dyn", 0), note = c.integer("note", 0) && !str; std::vector<std::string> b; int changed = 0;
  for (auto& l : c.lines) { uint64_t q = fnv(l) ^ r.next(); Rng lr(q); std::string t = respell(l, lr, !dyn, c.integer("order", 0)); if (note && t.find(';') == std::string::npos && parseLine(l).isMove() && lr.chance(0.3)) t += lr.chance(0.5) ? ";qq" : " ; q" + std::to_string(lr.range(0, 3)); changed += t != l; b.push_back(t); }
  std::string ta = joinLines(c.lines), tb; for (auto& l : b) tb += l + (c.integer("crlf2", 0) ? "\r\n" : "\n");
  if (str) {
    FwCfg f = FwCfg::of(c); firmware_arguments a = fwArgs(f, c); StrRun x = straighten(a, ta), y = straighten(a, tb); if (x.ok != y.ok || x.read != y.read) { R.fail(fmt("success differs: %d, in another spelling %d", (int)x.ok, (int)y.ok)); return R; } if (!x.ok) { R.discard = true; return R; }
    StrAlign p = alignStr(f, ta, x.out); if (!p.ok) { R.discard = true; return R; } // P14's business
    std::vector<std::string> want, got = splitLines(y.out), head = splitLines(x.out); size_t h = head.size() - p.out.size(); for (size_t i = 0; i < h; ++i) want.push_back(head[i]); std::vector<std::string> sb = splitLines(tb); int arcs = 0;
    for (auto& s : p.steps) { if (!s.arc) want.push_back(sb[(size_t)s.k]); else { ++arcs; for (int j = s.from; j < s.to; ++j) want.push_back(p.out[(size_t)j]); } }
    for (size_t i = 0; i < std::max(want.size(), got.size()) && R.ok; ++i) if (i >= want.size() || i >= got.size() || want[i] != got[i]) R.fail(fmt("line %zu is '%s' in the other spelling, should be '%s'", i + 1, i < got.size() ? escape(got[i]).c_str() : "<end>", i < want.size() ? escape(want[i]).c_str() : "<end>"));
    R.nontrivial = arcs > 0 && changed > 0; R.stat["arcs_straightened"] += arcs; return R;
  }
  WeldCfg w = WeldCfg::of(c); WeldRun x = weldText(w, ta), y = weldText(w, tb); if (x.r.success != y.r.success) { R.fail("success differs: " + x.r.message + y.r.message); return R; } if (!x.r.success) { R.discard = true; return R; }
  Alignment p = align(w, ta, x.out), q = align(w, tb, y.out); if (!p.ok || p.lenient) { R.discard = true; return R; } // P04's business
  if (!q.ok) { R.fail("in the other spelling: " + q.why); return R; }
  size_t n = std::max(p.steps.size(), q.steps.size());
  for (size_t i = 0; i < n && R.ok; ++i) {
    auto say = [&](const Alignment& a) { if (i >= a.steps.size()) return std::string("the end"); auto& s = a.steps[i]; return (s.arc ? fmt("an arc for lines %d to %d: ", s.s0 + 1, s.s1) : fmt("line %d: ", s.s0 + 1)) + escape(a.out[(size_t)s.j]); };
    bool same = i < p.steps.size() && i < q.steps.size(); if (same) { auto &s = p.steps[i], &t = q.steps[i]; same = s.arc == t.arc && s.s0 == t.s0 && s.s1 == t.s1 && (!s.arc || codePart(p.out[(size_t)s.j]) == codePart(q.out[(size_t)t.j])); }
    if (!same) R.fail("step " + std::to_string(i + 1) + " of the result is " + say(p) + "; in the other spelling " + say(q));
  }
  auto &s = x.r.progress, &t = y.r.progress; if (R.ok && (s.arcs_created != t.arcs_created || s.points_compressed != t.points_compressed || s.lines_processed != t.lines_processed || (!c.integer("crlf2", 0) && s.gcodes_processed != t.gcodes_processed) || s.arcs_aborted_by_flow_rate != t.arcs_aborted_by_flow_rate || s.segment_statistics.total_count_source != t.segment_statistics.total_count_source || s.segment_statistics.total_count_target != t.segment_statistics.total_count_target)) R.fail("the reported counts depend on the spelling");
  R.nontrivial = s.arcs_created > 0 && changed > 0; R.stat["arcs"] += s.arcs_created; R.stat["lines_respelled"] += changed; return R;
}
static Registrar a28({"P28", "random programs in a plain spelling and the same programs in another (case, spaces, leading and trailing zeros, signs, order of parameters, line ends, further comments), through both tools; non-trivial: lines were respelled and an arc was written or straightened", genP28, p28, true, 4000, 60000});

// ------------------------------------------------------------------ P33: where and which way round a part lies does not change how it is welded
struct Turn { int a = 1, b = 0, c = 0, d = 1; long long tx = 0, ty = 0, tz = 0; bool mirror() const { return a * d - b * c < 0; } }; // (x,y) -> (a x + b y + tx, c x + d y + ty)
static std::string addNum(const std::string& num, bool neg, long long add) { // sign change and shift of a decimal text, exactly and with as many decimals
  std::string s = num; bool n = false; if (!s.empty() && (s[0] == '-' || s[0] == '+')) { n = s[0] == '-'; s = s.substr(1); } size_t p = s.find('.'); int dec = p == std::string::npos ? 0 : (int)(s.size() - p - 1); if (p != std::string::npos) s.erase(p, 1); if (s.size() > 15) return ""; long long v = s.empty() ? 0 : atoll(s.c_str()), sc = 1; for (int i = 0; i < dec; ++i) sc *= 10; if (n) v = -v; if (neg) v = -v; v += add * sc; std::string q = std::to_string(std::llabs(v)); if ((int)q.size() <= dec) q.insert(0, (size_t)dec + 1 - q.size(), '0'); if (dec) q.insert(q.size() - (size_t)dec, "."); return (v < 0 ? "-" : "") + q;
}
// the program moved and turned; false when it has a line that has no counterpart
static bool turnProgram(const std::vector<std::string>& in, const Turn& T, bool relStart, std::vector<std::string>& out) {
  bool rel = relStart; static const std::set<std::string> geo{"G0", "G1", "G2", "G3", "G28", "G92", "G10", "M218"}; out.clear();
  for (auto& line : in) {
    GLine g = parseLine(line); if (g.word == "G90") rel = false; if (g.word == "G91") rel = true; if (!geo.count(g.word)) { out.push_back(line); continue; }
    size_t s = line.find(';'); std::string code = line.substr(0, s), com = s == std::string::npos ? "" : line.substr(s); std::vector<Tok> t; if (!tokens(code, t) || t[0].num.empty()) return false; std::set<char> seen; for (auto& k : t) if (!seen.insert(k.letter).second) return false;
    bool arc = g.isArc(), shift = (g.isMove() || arc) ? !rel : g.word == "G92"; if (g.word == "G92" && t.size() == 1) return false; for (size_t i = 1; i < t.size(); ++i) if (t[i].num.empty() && g.word != "G28") return false;
    std::string o = arc && T.mirror() ? (g.word == "G2" ? "G3" : "G2") : std::string(1, t[0].letter) + t[0].num; std::string first, second, rest; 
    for (size_t i = 1; i < t.size(); ++i) {
      char L = t[i].letter; std::string q = t[i].num; char to = L; bool neg = false; long long add = 0;
      if (L == 'X' || L == 'I') { to = T.a ? L : (char)(L + 1); neg = (T.a ? T.a : T.c) < 0; add = L == 'I' ? 0 : T.a ? T.tx : T.ty; }
      else if (L == 'Y' || L == 'J') { to = T.d ? L : (char)(L - 1); neg = (T.d ? T.d : T.b) < 0; add = L == 'J' ? 0 : T.d ? T.ty : T.tx; }
      else if (L == 'Z') add = T.tz;
      if (!shift) add = 0; if (!q.empty() && (to != L || neg || add || L == 'X' || L == 'Y' || L == 'Z')) { q = addNum(q, neg, add); if (q.empty()) return false; }
      rest += std::string(" ") + to + q;
    }
    out.push_back(o + rest + com);
  }
  return true;
}
// whether two different circles through the ends of a run (from the position before line s0) fit its points equally well, or one of them has its centre on a move, which is on neither side of it
static bool tied(const std::vector<std::string>& lines, const WeldCfg& w, int s0, int s1) {
  Machine m; m.g90e = w.g90e; std::vector<std::array<double, 2>> P; for (int i = 0; i < (int)lines.size() && i <= s1; ++i) { if (i == s0) P.push_back({m.x, m.y}); GLine g = parseLine(lines[(size_t)i]); m.exec(g); if (i >= s0 && g.isMove()) P.push_back({m.x, m.y}); }
  for (size_t n = 3; n <= P.size(); ++n) {
    struct F { double s, x, y; }; std::vector<F> fits;
    for (size_t k = 1; k + 1 < n; ++k) {
      double x2 = P[k][0] - P[0][0], y2 = P[k][1] - P[0][1], x3 = P[n - 1][0] - P[0][0], y3 = P[n - 1][1] - P[0][1], d = 2 * (x2 * y3 - x3 * y2); if (std::fabs(d) < 1e-9) continue; double u = x2 * x2 + y2 * y2, v = x3 * x3 + y3 * y3, x = (u * y3 - v * y2) / d, y = (v * x2 - u * x3) / d, r = std::hypot(x, y); x += P[0][0]; y += P[0][1]; if (r > w.maxr * 1.01) continue; double s = 0, worst = 0; bool through = false; auto dev = [&](double px, double py) { double e = std::fabs(std::hypot(px - x, py - y) - r); s += e * e; worst = std::max(worst, e); };
      for (size_t i = 1; i + 1 < n; ++i) dev(P[i][0], P[i][1]); for (size_t i = 0; i + 1 < n; ++i) { double dx = P[i + 1][0] - P[i][0], dy = P[i + 1][1] - P[i][1], q = dx * dx + dy * dy, f = q > 0 ? ((x - P[i][0]) * dx + (y - P[i][1]) * dy) / q : 0; double px = P[i][0] + f * dx, py = P[i][1] + f * dy; if (f > 0 && f < 1) { dev(px, py); if (std::hypot(px - x, py - y) < 1e-6 * r) through = true; } }
      if (worst <= w.res / 2 * 1.01 && through) return true;
      if (worst <= w.res / 2 * 1.01) fits.push_back({s, x, y});
    }
    std::sort(fits.begin(), fits.end(), [](const F& a, const F& b) { return a.s < b.s; }); for (size_t k = 0; k + 1 < fits.size() && fits[k + 1].s - fits[0].s <= 1e-12 + 1e-6 * fits[0].s; ++k) if (std::hypot(fits[k + 1].x - fits[0].x, fits[k + 1].y - fits[0].y) > 1e-3) return true;
  }
  return false;
}
static Case genP33(Rng& r) {
  Profile p; p.maxBlocks = (int)r.range(1, 6); p.pStyle = 0; p.pBigCoord = 0; p.pComment = 0.1; p.pTagAll = 0.2; Case c = genWeldCase(r, p); for (auto k : {"crlf", "nonl", "maxlen"}) c.kv.erase(k); if (c.num("maxr", 9999) > 400) c.set("maxr", r.pick(std::vector<double>{50, 200, 400}));
  if (r.chance(0.15)) { c.set("kind", "cut"); c.seti("at", r.range(0, 100000)); return c; }
  int k = (int)r.range(0, 7); c.seti("turn", k); if (k == 0 || r.chance(0.5)) { c.seti("tx", r.range(-300, 300)); c.seti("ty", r.range(-300, 300)); if (r.chance(0.3)) c.seti("tz", r.range(0, 50)); } return c;
}
static Result p33(const Case& c) {
  Result R; WeldCfg w = WeldCfg::of(c); w.maxlen = 0; if (w.maxr > 400) w.maxr = 400;
  if (c.get("kind") == "cut") { // what comes later does not change what was written
    std::vector<size_t> at; for (size_t i = 0; i < c.lines.size(); ++i) { GLine g = parseLine(c.lines[i]); if (!g.isMove() && !g.isArc() && !blankLine(g)) at.push_back(i); } if (at.empty()) { R.discard = true; return R; } size_t e = at[(size_t)c.integer("at", 0) % at.size()] + 1;
    std::vector<std::string> head(c.lines.begin(), c.lines.begin() + (long)e); WeldRun x = weldText(w, joinLines(c.lines)), y = weldText(w, joinLines(head)); if (!x.r.success || !y.r.success) { R.discard = true; return R; }
    if (x.out.compare(0, y.out.size(), y.out) != 0) { size_t i = 0; auto a = splitLines(x.out), b = splitLines(y.out); while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; R.fail(fmt("cut after line %zu, line %zu of the result is '%s', and '%s' in the whole program", e, i + 1, i < b.size() ? escape(b[i]).c_str() : "<end>", i < a.size() ? escape(a[i]).c_str() : "<end>")); }
    R.nontrivial = y.r.progress.arcs_created > 0 && e < c.lines.size(); R.stat["cuts"]++; R.stat["arcs"] += y.r.progress.arcs_created; return R;
  }
  static const int M[8][4] = {{1, 0, 0, 1}, {-1, 0, 0, 1}, {1, 0, 0, -1}, {-1, 0, 0, -1}, {0, 1, 1, 0}, {0, -1, 1, 0}, {0, 1, -1, 0}, {0, -1, -1, 0}}; const int* m = M[c.integer("turn", 0) & 7]; Turn T, I; T.a = m[0]; T.b = m[1]; T.c = m[2]; T.d = m[3]; T.tx = c.integer("tx", 0); T.ty = c.integer("ty", 0); T.tz = c.integer("tz", 0); if (std::llabs(T.tx) > 1000 || std::llabs(T.ty) > 1000 || std::llabs(T.tz) > 1000) { R.discard = true; return R; }
  std::vector<std::string> a, b; if (!turnProgram(c.lines, I, false, a) || !turnProgram(c.lines, T, false, b)) { R.discard = true; return R; }
  std::string ta = joinLines(a), tb = joinLines(b); WeldRun x = weldText(w, ta); if (!x.r.success) { R.discard = true; return R; } Alignment p = align(w, ta, x.out); if (!p.ok || p.lenient) { R.discard = true; return R; }
  WeldRun y = weldText(w, tb); Alignment q = align(w, tb, y.out); R.nontrivial = x.r.progress.arcs_created > 0 && ta != tb; R.stat["arcs"] += x.r.progress.arcs_created; std::string why;
  if (!y.r.success) why = "fails"; else if (!q.ok) why = "" ; // P04's business
  auto differ = [&](const Alignment& p, const Alignment& q, bool values) -> std::string {
    for (size_t i = 0; i < std::max(p.steps.size(), q.steps.size()); ++i) {
      auto say = [&](const Alignment& a) { if (i >= a.steps.size()) return std::string("the end"); auto& s = a.steps[i]; return (s.arc ? fmt("an arc for lines %d to %d: ", s.s0 + 1, s.s1) : fmt("line %d: ", s.s0 + 1)) + escape(a.out[(size_t)s.j]); };
      bool same = i < p.steps.size() && i < q.steps.size(); if (same) { auto &s = p.steps[i], &t = q.steps[i]; same = s.arc == t.arc && s.s0 == t.s0 && s.s1 == t.s1;
        if (same && s.arc && values) { GLine g = parseLine(p.out[(size_t)s.j]), h = parseLine(q.out[(size_t)t.j]); same = (g.word == h.word) == !T.mirror(); double tol = 1.01 * std::pow(10.0, -(double)(w.dyn ? 3 : w.xp)), wide = 2e-3 + 1e-4 * std::hypot(g.get('I'), g.get('J')); auto near = [&](double u, double v) { return std::fabs(u - v) <= tol; }; auto close = [&](double u, double v) { return std::fabs(u - v) <= wide; }; // the centre of three close points is ill-conditioned
          same = same && near(h.get('X'), T.a * g.get('X') + T.b * g.get('Y') + T.tx) && near(h.get('Y'), T.c * g.get('X') + T.d * g.get('Y') + T.ty) && close(h.get('I'), T.a * g.get('I') + T.b * g.get('J')) && close(h.get('J'), T.c * g.get('I') + T.d * g.get('J'));
          for (char L : {'E', 'F', 'Z'}) same = same && g.has(L) == h.has(L) && (!g.has(L) || near(h.get(L), g.get(L) + (L == 'Z' ? T.tz : 0)));
          if (g.has('E')) same = same && std::fabs(g.get('E') - h.get('E')) < 1e-9; } }
      if (!same) return "step " + std::to_string(i + 1) + " of the result is " + say(p) + "; moved or turned " + say(q);
    }
    return "";
  };
  if (why.empty() && q.ok) why = differ(p, q, true);
  if (!why.empty() && q.ok) { // two circles through the first and the last point may fit equally well
    size_t i = 0; while (i < p.steps.size() && i < q.steps.size() && p.steps[i].arc == q.steps[i].arc && p.steps[i].s0 == q.steps[i].s0 && p.steps[i].s1 == q.steps[i].s1 && !(p.steps[i].arc && tied(a, w, p.steps[i].s0, p.steps[i].s1))) ++i;
    if (i < std::max(p.steps.size(), q.steps.size())) { int s0 = i < p.steps.size() ? p.steps[i].s0 : (int)a.size(), s1 = s0; if (i < p.steps.size()) s1 = p.steps[i].s1; if (i < q.steps.size()) s1 = std::max(s1, q.steps[i].s1); if (tied(a, w, s0, s1 + 1)) { R.discard = true; return R; } }
  }
  if (!why.empty()) { // a decision on the brink may fall either way: it does not count when slightly other limits change it
    for (double k : {-1.0, 1.0, -0.1, 0.1}) { WeldCfg v = w; v.res *= 1 + k * 1e-3; v.ptol *= 1 + k * 1e-3; v.maxr *= 1 + k * 1e-3; v.erv *= 1 + k * 1e-3; v.mmas *= 1 - k * 1e-3; WeldRun z = weldText(v, ta); Alignment u = align(v, ta, z.out); if (!u.ok || !differ(p, u, false).empty()) { R.discard = true; return R; } }
    R.fail(why);
  }
  return R;
}
// ------------------------------------------------------------------ P34: a result has nothing left to weld
static Case genP34(Rng& r) {
  Profile p; p.maxBlocks = (int)r.range(1, 8); p.pComment = 0.2; p.pBigCoord = 0.02; Case c = genWeldCase(r, p); for (auto k : {"crlf", "nonl", "dyn", "maxlen"}) c.kv.erase(k); c.seti("xp", 6); c.seti("ep", 6); return c;
}
static Result p34(const Case& c) {
  Result R; WeldCfg w = WeldCfg::of(c); w.xp = w.ep = 6; w.dyn = false; w.maxlen = 0;
  for (auto& l : c.lines) { GLine g = parseLine(l); size_t d = g.code.find('.'); while (d != std::string::npos) { size_t e = d + 1; while (e < g.code.size() && isdigit((unsigned char)g.code[e])) ++e; if (e - d > 7) { R.discard = true; return R; } d = g.code.find('.', e); } } // every number keeps all its decimals
  std::string text = joinLines(c.lines); WeldRun x = weldText(w, text); if (!x.r.success) { R.discard = true; return R; } Alignment p = align(w, text, x.out); if (!p.ok || p.lenient) { R.discard = true; return R; }
  WeldRun y = weldText(w, x.out); R.nontrivial = x.r.progress.arcs_created > 0; R.stat["arcs"] += x.r.progress.arcs_created; if (!y.r.success) { R.fail("the result is refused"); return R; }
  Alignment q = align(w, x.out, y.out); if (!q.ok) { R.discard = true; return R; } // P04's business
  for (auto& s : q.steps) if (s.arc) { std::string why = fmt("welded again, lines %d to %d of the result become an arc: ", s.s0 + 1, s.s1) + escape(q.out[(size_t)s.j]) + " for " + escape(q.src[(size_t)s.s0]); for (double k : {-1.0, 1.0, -0.1, 0.1}) { WeldCfg v = w; v.res *= 1 + k * 1e-3; v.ptol *= 1 + k * 1e-3; v.maxr *= 1 + k * 1e-3; v.erv *= 1 + k * 1e-3; v.mmas *= 1 - k * 1e-3; WeldRun z = weldText(v, text); if (z.out != x.out && z.r.progress.arcs_created != x.r.progress.arcs_created) { R.discard = true; return R; } } R.fail(why); return R; }
  size_t n = splitLines(x.out).size(); if (q.out.size() != n) R.fail(fmt("welded again, %zu lines become %zu", n, q.out.size())); return R;
}
static Registrar a34({"P34", "random programs, whose results are welded again with the same options; non-trivial: an arc was written", genP34, p34, true, 4000, 60000});
static Registrar a33({"P33", "random programs and the same programs shifted, mirrored or turned by right angles, or cut after a command; non-trivial: an arc was written and the other program differs", genP33, p33, true, 4000, 60000});
} // namespace vh
