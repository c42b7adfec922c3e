// P20 (what is observed does not change the result; appended lines do not change the past) and P24 (progress and cancelling).
#include "core.hpp"
#include "machine.hpp"
#include "weld.hpp"
#include "gen.hpp"
#include "straight.hpp" // Silence
#include <sys/stat.h>
#include <unistd.h>
#include <clocale>
#include <locale>

namespace vh {
static std::string firstDiff(const std::string& a, const std::string& b) { auto x = splitLines(a), y = splitLines(b); size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) ++i; return fmt("line %zu: '%s' against '%s'", i + 1, i < x.size() ? escape(x[i]).c_str() : "<end>", i < y.size() ? escape(y[i]).c_str() : "<end>"); }
static logger* levelLogger(int level) { static std::map<int, logger*> m; auto& l = m[level]; if (!l) { l = new logger({"arc_welder.gcode_conversion"}, {level}); l->set_log_level_by_value(level); } return l; }

// ------------------------------------------------------------------ P20
static int g_calls; static bool countCall(arc_welder_progress, logger*, int) { ++g_calls; return true; }
static Case genP20(Rng& r) {
  Profile p; p.maxBlocks = (int)r.range(1, 6); p.pRateVar = 0.3; Case c = genWeldCase(r, p); c.kv.erase("buf");
  if (r.chance(0.15)) { c.set("kind", "loc"); c.seti("str", r.chance(0.4)); c.seti("group", r.range(0, 1)); if (c.integer("str", 0)) { genFwArgs(r, c); p.pSourceArc = 0.5; p.pState = 0.8; c.lines = genWeldCase(r, p).lines; } return c; }
  bool cut = r.chance(0.5); c.set("kind", cut ? "cut" : "obs");
  if (cut) { c.seti("cut", r.range(1, std::max<long long>(1, (long long)c.lines.size() - 1))); c.seti("cuts", r.range(1, 6)); }
  else { c.seti("level", r.pick(std::vector<int>{0, 5, 10, 20, 30, 40, 50})); c.seti("cb", r.range(0, 1)); c.set("per", r.pick(std::vector<double>{-1, 0, 0.001, 1, 1e9})); c.seti("b2", r.pick(std::vector<int>{1, 2, 3, 4, 5, 7, 50, 100, 1000, 10000})); c.set("where", r.pick(std::vector<std::string>{"other", "inplace", "longpath"})); c.seti("box", r.range(0, 1)); if (r.chance(0.2)) c.seti("rep", r.range(2, 8)); }
  return c;
}
// a caller whose streams write 1.234,5
struct Comma : std::numpunct<char> { bool group; explicit Comma(bool g) : group(g) {} char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return group ? "\3" : ""; } };
// the C library's side of it, where the sandbox can make such a locale
static bool cLocale() { static int have = -1; if (have < 0) { std::string d = scratch() + "/locale"; mkdir(d.c_str(), 0755); have = system(("localedef -i de_DE -f ISO-8859-1 --no-archive '" + d + "/xx' > /dev/null 2>&1").c_str()) >= 0 && !access((d + "/xx/LC_NUMERIC").c_str(), R_OK); if (have) setenv("LOCPATH", d.c_str(), 1); } return have == 1; }
struct Foreign { std::locale old; bool c; explicit Foreign(bool g) : old(std::locale::global(std::locale(std::locale::classic(), new Comma(g)))) { c = cLocale() && setlocale(LC_NUMERIC, "xx"); } ~Foreign() { std::locale::global(old); setlocale(LC_ALL, "C"); } };
static Result p20loc(const Case& c, const WeldCfg& w) {
  Result R; std::string text = caseText(c), a, b; bool str = c.integer("str", 0) != 0, ok1, ok2; firmware_arguments fa = fwArgs(FwCfg::of(c), c);
  auto once = [&](std::string& o) { if (str) { StrRun r = straighten(fa, text); o = r.out; return r.ok && r.read; } WeldRun r = weldText(w, text); o = r.out; R.stat["arcs"] += r.r.progress.arcs_created; R.nontrivial = r.r.progress.arcs_created > 0; return r.r.success && r.read; };
  ok1 = once(a); { Foreign f(c.integer("group", 0) != 0); ok2 = once(b); R.stat["c_locales"] += f.c; } if (str) R.nontrivial = text != a; R.stat["locales"]++;
  if (ok1 != ok2) R.fail(fmt("with a decimal comma in the caller's locale the conversion %s", ok2 ? "succeeds" : "fails"));
  auto x = splitLines(a), y = splitLines(b); for (size_t i = 0; R.ok && (i < x.size() || i < y.size()); ++i) { bool head = i < x.size() && i < y.size() && x[i].rfind("; ", 0) == 0 && y[i].rfind("; ", 0) == 0; if (!head && (i >= x.size() || i >= y.size() || x[i] != y[i])) R.fail(fmt("decimal comma in the caller's locale: line %zu: ", i + 1) + (i < x.size() ? escape(x[i]) : "<end>") + " against " + (i < y.size() ? escape(y[i]) : "<end>")); }
  return R;
}
// number of output lines before the part that belongs to what was still open at the end
static size_t settled(const Alignment& a) {
  size_t n = a.steps.size(); if (n && a.steps[n - 1].arc) return (size_t)a.steps[n - 1].j; // the open arc was written
  // moves that did not make an arc yet, and blank lines; an arc needs three points
  size_t k = n; int moves = 0; while (k > 0) { const Step& s = a.steps[k - 1]; if (s.arc) break; const GLine& g = a.po[(size_t)s.j]; if (blankLine(g)) { --k; continue; } if (!g.isMove()) break; if (++moves > 4) break; --k; }
  return k < n ? (size_t)a.steps[k].j : (n ? (size_t)a.steps[n - 1].j + 1 : 0);
}
static Result p20(const Case& c) {
  Result R; WeldCfg w = WeldCfg::of(c);
  if (c.get("kind") == "loc") return p20loc(c, w);
  if (c.get("kind") == "cut") {
    if (c.lines.size() < 2) { R.discard = true; return R; }
    std::string full = joinLines(c.lines); WeldRun a = weldText(w, full); if (!a.r.success) { R.fail("conversion failed: " + a.r.message); return R; } std::vector<std::string> out = splitLines(a.out);
    long long n = (long long)c.lines.size(), k0 = c.integer("cut", 1), cuts = std::max(1LL, c.integer("cuts", 1)); int arcs = 0;
    for (long long q = 0; q < cuts && R.ok; ++q) {
      long long k = k0 + q * 7; k = 1 + (k - 1) % (n - 1); if (k < 1 || k >= n) continue;
      std::string part = joinLines(std::vector<std::string>(c.lines.begin(), c.lines.begin() + k)); WeldRun b = weldText(w, part); if (!b.r.success) { R.fail("conversion of the beginning failed: " + b.r.message); return R; }
      Alignment al = align(w, part, b.out); if (!al.ok) { R.discard = true; return R; } // P04's business
      std::vector<std::string> po = splitLines(b.out); size_t head = po.size() - al.out.size(); if (al.firstKept) ++head; size_t keep = settled(al); if (al.firstKept && keep) --keep;
      for (size_t i = 0; i < head + keep && i < po.size(); ++i) if (i >= out.size() || out[i] != po[i]) { R.fail(fmt("the first %lld lines alone give in line %zu '%s', with the lines after them '%s'", k, i + 1, escape(po[i]).c_str(), i < out.size() ? escape(out[i]).c_str() : "<end>")); break; }
      for (auto& s : al.steps) if (s.arc && (size_t)s.j < keep) ++arcs; R.stat["cuts"]++;
    }
    R.stat["settled_arcs"] += arcs; R.nontrivial = arcs > 0; return R;
  }
  std::string text = caseText(c); long long rep = std::min(20LL, c.integer("rep", 1)); if (rep > 1) { std::string t; for (long long i = 0; i < rep; ++i) { t += text; if (!t.empty() && t.back() != '\n') t += "\n"; } text = t; }
  WeldRun a = weldText(w, text); if (!a.r.success || !a.read) { R.fail("conversion failed: " + a.r.message); return R; }
  WeldCfg v = w; v.buf = (int)c.integer("b2", 50); v.period = c.num("per", 0.5); std::string where = c.get("where", "other"); logger* lg = levelLogger((int)c.integer("level", 50)); progress_callback cb = c.integer("cb", 0) ? countCall : nullptr; g_calls = 0;
  std::string s = scratch() + "/in.gcode", d = scratch() + "/out.gcode"; if (where == "inplace") d = s; if (where == "longpath") { std::string l = scratch() + "/" + std::string(200, 'd'); mkdir(l.c_str(), 0755); s = l + "/" + std::string(200, 's'); d = l + "/" + std::string(200, 't'); }
  writeFile(s, text); if (d != s) unlink(d.c_str()); std::string out2; bool rd;
  { Silence q; arc_welder_args x = weldArgs(v, s, d, lg, cb); x.box_encoding = c.integer("box", 0) ? utilities::box_drawing::ASCII : utilities::box_drawing::UTF8; arc_welder m(x); arc_welder_results r2 = m.process(); if (!r2.success) R.fail("conversion failed when observed: " + r2.message);
    if (R.ok) { auto &p = a.r.progress, &q2 = r2.progress; if (p.arcs_created != q2.arcs_created || p.points_compressed != q2.points_compressed || p.lines_processed != q2.lines_processed || p.gcodes_processed != q2.gcodes_processed || p.arcs_aborted_by_flow_rate != q2.arcs_aborted_by_flow_rate || p.target_file_size != q2.target_file_size || p.num_firmware_compensations != q2.num_firmware_compensations || p.num_gcode_length_exceptions != q2.num_gcode_length_exceptions) R.fail("the reported counts depend on log level, callback, period, buffer or place"); } }
  rd = readFile(d, out2); if (where == "longpath") { unlink(s.c_str()); unlink(d.c_str()); rmdir((scratch() + "/" + std::string(200, 'd')).c_str()); }
  if (R.ok && (!rd || out2 != a.out)) R.fail(fmt("log level %lld, callback %lld, period %g, buffer %d, %s: ", c.integer("level", 50), c.integer("cb", 0), v.period, v.buf, where.c_str()) + firstDiff(a.out, out2));
  R.nontrivial = a.r.progress.arcs_created > 0; R.stat["arcs"] += a.r.progress.arcs_created; R.stat["callbacks"] += g_calls; return R;
}

// ------------------------------------------------------------------ P24
static Case genP24(Rng& r) {
  Profile p; p.maxBlocks = (int)r.range(1, 5); Case c = genWeldCase(r, p); c.seti("rep", r.pick(std::vector<int>{1, 3, 10, 20, 40, 60})); if (r.chance(0.4)) c.seti("pad", r.range(0, 3100));
  c.seti("stop", r.chance(0.3) ? -1 : r.chance(0.15) ? 0 : r.range(1, 6)); c.seti("keep", r.chance(0.5)); c.set("per", r.pick(std::vector<double>{-1, -1, -1, 0, 0.002, 0.5, 1e9})); if (r.chance(0.2)) c.seti("inplace", 1); if (r.chance(0.3)) c.seti("level", r.pick(std::vector<int>{10, 20, 5})); return c;
}
struct Call { arc_welder_progress p; bool answer; };
static std::vector<Call>* g_log; static int g_stop; static bool g_keep;
static bool record(arc_welder_progress p, logger*, int) { int n = (int)g_log->size(); bool a = !(g_stop >= 0 && (n == g_stop || (n > g_stop && g_keep))); g_log->push_back({p, a}); return a; }
static Result p24(const Case& c) {
  Result R; WeldCfg w = WeldCfg::of(c); w.period = c.num("per", -1);
  std::string text, unit = caseText(c); if (unit.empty()) { R.discard = true; return R; } bool nonl = c.integer("nonl", 0); long long rep = std::max(1LL, std::min(60LL, c.integer("rep", 1))); for (long long i = 0; i < std::min(5000LL, c.integer("pad", 0)); ++i) text += i % 3 ? "M106 S5\n" : "\n";
  for (long long i = 0; i < rep; ++i) { text += unit; if (nonl && i + 1 < rep) text += "\n"; } if (text.size() > 3000000) { R.discard = true; return R; }
  std::vector<Call> log; g_log = &log; g_stop = (int)c.integer("stop", -1); g_keep = c.integer("keep", 0) != 0;
  std::string s = scratch() + "/in.gcode", d = c.integer("inplace", 0) ? s : scratch() + "/out.gcode"; writeFile(s, text); if (d != s) unlink(d.c_str()); arc_welder_results r;
  { Silence q; arc_welder m(weldArgs(w, s, d, c.has("level") ? levelLogger((int)c.integer("level", 50)) : nullptr, record)); r = m.process(); }
  std::string out; readFile(d, out); std::vector<std::string> src = splitLines(text); long long n = (long long)src.size(); long long size = (long long)text.size();
  auto at = [&](size_t i) { return fmt("update %zu of %zu (line %d): ", i + 1, log.size(), log[i].p.lines_processed); };
  if (log.size() < 2) { R.fail(fmt("%zu progress updates: at least one at the start and one at the end are due", log.size())); return R; }
  int asked = -1; for (size_t i = 0; i + 1 < log.size(); ++i) if (!log[i].answer) { asked = (int)i; break; }
  // values never decrease, and they are within the file
  for (size_t i = 0; i < log.size() && R.ok; ++i) {
    auto& p = log[i].p; if (p.percent_complete < 0 || p.percent_complete > 100 + 1e-9) R.fail(at(i) + fmt("%.3f percent", p.percent_complete)); if (p.source_file_size != size) R.fail(at(i) + fmt("source size %ld, is %lld", p.source_file_size, size));
    if (p.source_file_position < 0 || p.source_file_position > size) R.fail(at(i) + fmt("position %ld of %lld", p.source_file_position, size)); if (p.seconds_elapsed < 0 || p.seconds_remaining < 0) R.fail(at(i) + "negative time");
    if (size && std::fabs(p.percent_complete - 100.0 * p.source_file_position / size) > 1e-6) R.fail(at(i) + fmt("%.6f percent at position %ld of %lld", p.percent_complete, p.source_file_position, size));
    if (!i) { if (p.lines_processed || p.gcodes_processed || p.arcs_created || p.points_compressed || p.target_file_size) R.fail(at(i) + "the first update reports work already done"); continue; }
    auto& o = log[i - 1].p; const char* w2 = nullptr;
    if (p.lines_processed < o.lines_processed) w2 = "lines"; if (p.gcodes_processed < o.gcodes_processed) w2 = "commands"; if (p.points_compressed < o.points_compressed) w2 = "points compressed"; if (p.arcs_created < o.arcs_created) w2 = "arcs"; if (p.source_file_position < o.source_file_position) w2 = "source position"; if (p.percent_complete < o.percent_complete - 1e-12) w2 = "percentage"; if (p.target_file_size < o.target_file_size) w2 = "target size"; if (p.seconds_elapsed < o.seconds_elapsed) w2 = "time"; if (p.arcs_aborted_by_flow_rate < o.arcs_aborted_by_flow_rate) w2 = "aborted arcs"; if (p.num_firmware_compensations < o.num_firmware_compensations) w2 = "compensations"; if (p.num_gcode_length_exceptions < o.num_gcode_length_exceptions) w2 = "length exceptions";
    if (p.segment_statistics.total_count_source < o.segment_statistics.total_count_source || p.segment_statistics.total_length_source < o.segment_statistics.total_length_source) w2 = "source statistics";
    if (w2) R.fail(at(i) + w2 + " decreased");
    if (i + 1 < log.size()) { // between start and end: where the file is read to
      long long L = p.lines_processed, pos = 0; size_t b = 0; for (long long k = 0; k < L; ++k) { size_t e = text.find('\n', b); b = e == std::string::npos ? text.size() : e + 1; } pos = (long long)b; if (L <= 0 || L > n) R.fail(at(i) + "lines beyond the file"); else if (p.source_file_position != pos) R.fail(at(i) + fmt("position %ld, but these lines end at %lld", p.source_file_position, pos));
    }
  }
  if (!R.ok) return R;
  auto& f = log.back().p; long long L = f.lines_processed;
  if (asked >= 0) {
    if (r.success || !r.cancelled) R.fail(at((size_t)asked) + fmt("a stop was asked for, but the result says success=%d cancelled=%d", (int)r.success, (int)r.cancelled));
    if (L > log[(size_t)asked].p.lines_processed + 1) R.fail(at((size_t)asked) + fmt("a stop was asked for, but %lld lines were processed", L)); if (log.size() > (size_t)asked + 2) R.fail(at((size_t)asked) + "further updates after a stop was asked for");
  } else {
    if (!r.success || r.cancelled) R.fail(fmt("nobody asked to stop, but the result says success=%d cancelled=%d ", (int)r.success, (int)r.cancelled) + r.message); if (L != n) R.fail(fmt("%lld of %lld lines were processed", L, n)); if (f.source_file_position != size || std::fabs(f.percent_complete - 100) > 1e-9) R.fail(fmt("the final update says %.3f percent, position %ld", f.percent_complete, f.source_file_position));
    if ((long long)out.size() != f.target_file_size) R.fail(fmt("the final update says %ld bytes, the file has %zu", f.target_file_size, out.size()));
  }
  // a caller who wants every update gets them regularly (the line on which the clock is looked at has to be a command)
  if (w.period < 0) for (size_t i = 1; i < log.size() && R.ok; ++i) { long long due = 0; for (long long k = 1000 * (log[i - 1].p.lines_processed / 1000 + 1); k < log[i].p.lines_processed; k += 1000) due += !parseLine(src[(size_t)k - 1]).blankCode(); if (due > 3) R.fail(at(i) + fmt("no update since line %d although no waiting time is set", log[i - 1].p.lines_processed)); R.stat["updates_due"] += due + 1; }
  auto& x = r.progress; if (x.lines_processed != f.lines_processed || x.gcodes_processed != f.gcodes_processed || x.points_compressed != f.points_compressed || x.arcs_created != f.arcs_created || x.source_file_position != f.source_file_position || x.source_file_size != f.source_file_size || x.target_file_size != f.target_file_size || x.percent_complete != f.percent_complete || x.compression_ratio != f.compression_ratio || x.compression_percent != f.compression_percent || x.arcs_aborted_by_flow_rate != f.arcs_aborted_by_flow_rate || x.num_firmware_compensations != f.num_firmware_compensations || x.num_gcode_length_exceptions != f.num_gcode_length_exceptions || x.segment_statistics.total_count_target != f.segment_statistics.total_count_target) R.fail("the final update differs from the result");
  // what was written is a conversion of the lines read so far
  if (R.ok && (asked >= 0) && c.integer("inplace", 0)) { if (out != text) R.fail("cancelled, but the source was changed"); }
  else if (R.ok && !(asked >= 0 && L == 0 && out.empty()) && n <= 12000) {
    std::string part; for (long long k = 0; k < L; ++k) part += src[(size_t)k] + "\n"; if (asked < 0) part = text;
    Alignment a = align(w, part, out); R.stat["lenient"] += a.lenient; if (!a.ok) R.fail(std::string(asked >= 0 ? "after a stop at line " : "at the end, line ") + std::to_string(L) + ": " + a.why);
  }
  R.nontrivial = asked >= 0 || log.size() > 2; R.stat["updates"] += (long long)log.size(); R.stat["stops"] += asked >= 0; R.stat["stops_after_lines"] += asked > 0; return R;
}
static Registrar a20({"P20", "random programs, converted twice with different log level, callback, period, history buffer and place of the target, or in a program whose locale has a decimal comma, or cut off at random lines; non-trivial: an arc was written (for cuts: before the open end)", genP20, p20, true, 3000, 60000});
static Registrar a24({"P24", "programs of up to many thousand lines with a recording callback that asks to stop at a chosen update or never; non-trivial: stopped, or updates in between", genP24, p24, true, 800, 15000});
} // namespace vh
