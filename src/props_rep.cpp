// P26: what the tools print about their work is true (tables, settings, progress, log lines, summaries).
#include "core.hpp"
#include "machine.hpp"
#include "weld.hpp"
#include "gen.hpp"
#include "straight.hpp"
#include "proc.hpp"
#include <iostream>
#include <ctime>

namespace vh {
using Stats = source_target_segment_statistics;
using Enc = utilities::box_drawing::BoxEncodingEnum;
static std::string g15(double v) { char b[40]; snprintf(b, sizeof b, "%.15g", v); return b; }
static std::string trimmed(const std::string& s) { size_t a = s.find_first_not_of(" \t\r"), b = s.find_last_not_of(" \t\r"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
static bool chop(std::string& s, const std::string& end) { while (!s.empty() && s.back() == ' ') s.pop_back(); if (s.size() < end.size() || s.compare(s.size() - end.size(), end.size(), end) != 0) return false; s.resize(s.size() - end.size()); return true; }
// a decimal number and what follows it; digits after the point
struct Num { bool ok = false; double v = 0; int dec = 0; std::string unit; };
static Num number(const std::string& s) { Num n; size_t i = 0; if (i < s.size() && s[i] == '-') ++i; size_t d = 0; while (i < s.size() && isdigit((unsigned char)s[i])) ++i, ++d; if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && isdigit((unsigned char)s[i])) ++i, ++n.dec, ++d; } n.ok = d > 0; n.v = strtod(s.substr(0, i).c_str(), nullptr); n.unit = s.substr(i); return n; }
// v printed as s with this unit and an error of at most tol (and of the digits shown)
static bool shows(const std::string& s, double v, double tol, const std::string& unit) { Num n = number(s); return n.ok && n.unit == unit && std::fabs(n.v - v) <= tol + 1e-9 * std::fabs(v) + 1e-12; }

// ------------------------------------------------- statistics, counted independently
static const double kEdge[12] = {0.002, 0.005, 0.01, 0.05, 0.1, 0.5, 1, 5, 10, 20, 50, 100};
struct Tally { long long n[2][13] = {}; long long total[2] = {}; long double len[2] = {}; };
static int classOf(double l) { int k = 0; while (k < 12 && l >= kEdge[k]) ++k; return k; }
static void count(Tally& t, int side, double l, long long times) { t.n[side][classOf(l)] += times; t.total[side] += times; t.len[side] += (long double)l * times; }
static Tally tallyOf(const Stats& a) { Tally t; for (int k = 0; k < 13; ++k) { t.n[0][k] = a.source_segments[k].count; t.n[1][k] = a.target_segments[k].count; } t.total[0] = a.total_count_source; t.total[1] = a.total_count_target; t.len[0] = a.total_length_source; t.len[1] = a.total_length_target; return t; }
static Tally sum(const Tally& a, const Tally& b) { Tally t = a; for (int s = 0; s < 2; ++s) { for (int k = 0; k < 13; ++k) t.n[s][k] += b.n[s][k]; t.total[s] += b.total[s]; t.len[s] += b.len[s]; } return t; }
static std::vector<std::string> changes(long long a, long long b) { if (!a) return {b > 0 ? "INF" : "0.0%"}; std::vector<std::string> v; double p = ((double)b - (double)a) / (double)a * 100; for (double d : {0.0, 1e-9, -1e-9}) { std::string s = fmt("%.1f%%", p + d * (1 + std::fabs(p))); v.push_back(s); if (s == "-0.0%") v.push_back("0.0%"); if (s == "0.0%") v.push_back("-0.0%"); } return v; }
// plain text of a table in any encoding: border characters become | - +
static std::string plainTable(const std::string& t, Enc e) {
  if (e == Enc::ASCII) return t; static const char* u[8] = {"\u2500", "\u2502", "\u250C", "\u2510", "\u251C", "\u2524", "\u2514", "\u2518"}; static const char* h[8] = {"&#9472", "&#9474", "&#9484", "&#9488", "&#9500", "&#9508", "&#9492", "&#9496"};
  std::string o; for (size_t i = 0; i < t.size();) { bool hit = false; for (int k = 0; k < 8 && !hit; ++k) { std::string s = e == Enc::UTF8 ? u[k] : h[k]; if (t.compare(i, s.size(), s) == 0) { o += k == 0 ? '-' : k == 1 ? '|' : '+'; i += s.size(); hit = true; } } if (!hit) o += t[i++]; } return o;
}
// judges a printed table; lines from `at` on; returns the number of lines read, 0 with a message
static size_t judgeTable(const std::vector<std::string>& l, size_t at, const std::string& title, const Tally& t, std::string& why) {
  size_t i = at; auto bad = [&](const std::string& m) { why = m + (i < l.size() ? ": '" + escape(l[i]) + "'" : ": <end>"); return (size_t)0; };
  auto rule = [&] { if (i >= l.size()) return false; auto& s = l[i]; if (s.size() < 20 || s[0] != '+' || s.back() != '+' || s.find_first_not_of('-', 1) != s.size() - 1) return false; ++i; return true; };
  size_t width = i < l.size() ? l[i].size() : 0; auto cell = [&](std::string& s) { if (i >= l.size()) return false; s = l[i]; if (s.size() != width || s[0] != '|' || s.back() != '|') return false; s = s.substr(1, s.size() - 2); return true; };
  std::string s; if (!rule()) return bad("the table does not start with a border"); if (!title.empty()) { if (!cell(s) || trimmed(s) != title) return bad("title is not '" + title + "'"); ++i; if (!rule()) return bad("no border below the title"); }
  if (!cell(s)) return bad("no column titles"); { std::istringstream in(s); std::string a, b, c2, d, e, x; in >> a >> b >> c2 >> d >> e; if (a != "Min" || b != "Max" || c2 != "Source" || d != "Target" || e != "Change" || (in >> x)) return bad("column titles"); } ++i; if (!rule()) return bad("no border below the column titles");
  for (int k = 0; k < 13; ++k) {
    if (!cell(s)) return bad("row is not as wide as the table"); bool ok = false;
    for (auto& c : changes(t.n[0][k], t.n[1][k])) { std::string q = s; if (chop(q, c) && chop(q, std::to_string(t.n[1][k])) && !q.empty() && q.back() == ' ' && chop(q, std::to_string(t.n[0][k])) && !q.empty() && q.back() == ' ') { std::string w = k < 12 ? fmt("%.3fmm to %.3fmm", k ? kEdge[k - 1] : 0, kEdge[k]) : ">= 100.000mm", g; std::istringstream in(q); std::string x; while (in >> x) g += (g.empty() ? "" : " ") + x; if (g == w) { ok = true; break; } } }
    if (!ok) return bad(fmt("row %d should say %lld before, %lld after, %s", k + 1, t.n[0][k], t.n[1][k], changes(t.n[0][k], t.n[1][k])[0].c_str())); ++i; }
  if (!rule()) return bad("no border above the totals");
  auto total = [&](const char* label, std::function<bool(const std::string&)> f) { if (!cell(s)) return false; s = trimmed(s); std::string lb = label; if (s.compare(0, lb.size(), lb) != 0) return false; s = s.substr(lb.size()); s = s.substr(std::min(s.size(), s.find_first_not_of('.') == std::string::npos ? s.size() : s.find_first_not_of('.'))); if (!f(s)) return false; ++i; return true; };
  auto mm = [&](long double v) { return [v](const std::string& q) { Num n = number(q); return n.ok && n.unit == "mm" && n.dec == 3 && std::fabs(n.v - (double)v) <= 0.00051 + 1e-9 * (double)v; }; }; auto is = [](const std::vector<std::string>& v) { return [v](const std::string& q) { return std::find(v.begin(), v.end(), q) != v.end(); }; };
  double d = std::fabs((double)(t.len[0] - t.len[1])); bool one = d < 0.001; if (std::fabs(d - 0.001) < 1e-6 + 1e-12 * (double)t.len[0]) one = i < l.size() && l[i].find("Total distance:") != std::string::npos;
  if (one) { if (!total("Total distance:", mm(t.len[0]))) return bad(fmt("the total distance is %.4Lf", t.len[0])); }
  else if (!total("Total distance source:", mm(t.len[0])) || !total("Total distance target:", mm(t.len[1]))) return bad(fmt("the total distances are %.4Lf and %.4Lf", t.len[0], t.len[1]));
  if (!total("Total count source:", is({std::to_string(t.total[0])})) || !total("Total count target:", is({std::to_string(t.total[1])}))) return bad(fmt("the total counts are %lld and %lld", t.total[0], t.total[1]));
  if (!total("Total percent change:", is(changes(t.total[0], t.total[1])))) return bad("total change should be " + changes(t.total[0], t.total[1])[0]);
  if (!rule()) return bad("the table does not end with a border"); return i - at;
}
// splits "Label : value" lines
static std::map<std::string, std::string> labels(const std::vector<std::string>& l, std::string* twice = nullptr) { std::map<std::string, std::string> m; for (auto& s : l) { if (s.empty() || s[0] != '\t') continue; size_t k = s.find(": "); if (k == std::string::npos) continue; std::string n = trimmed(s.substr(0, k)); if (m.count(n) && twice) *twice = n; m[n] = trimmed(s.substr(k + 2)); } return m; }
static void judgeArgs(Result& R, const std::vector<std::string>& l, const WeldCfg& w, const std::string& src, const std::string& dst, const std::string& level, const char* hidden) {
  std::string twice; auto m = labels(l, &twice); if (!twice.empty()) R.fail("the setting " + twice + " is listed twice"); std::set<std::string> known;
  auto yes = [](bool b) { return std::string(b ? "True" : "False"); };
  auto is = [&](const std::string& k, const std::string& v) { known.insert(k); if (!m.count(k)) R.fail("no line for " + k); else if (m[k] != v) R.fail(k + " is printed as '" + escape(m[k]) + "' where '" + escape(v) + "' is used"); };
  auto val = [&](const std::string& k, double v, double tol, const std::string& u) { known.insert(k); if (!m.count(k)) R.fail("no line for " + k); else if (!shows(m[k], v, tol, u)) R.fail(k + " is printed as '" + escape(m[k]) + fmt("' where %.9g%s is used", v, u.c_str())); };
  is("Source File Path", src); if (src == dst) is("Target File Path (overwrite)", dst); else is("Target File Path", dst);
  { std::string k = "Resolution"; known.insert(k); std::string s = m[k]; Num n = number(s); size_t q = s.find(" (+-"); if (!n.ok || q == std::string::npos || std::fabs(n.v - w.res) > 0.00501 || !shows(s.substr(q + 4), w.res / 2, 0.0000051, "mm)") || s.substr(0, q).find("mm") == std::string::npos) R.fail("Resolution is printed as '" + escape(s) + fmt("' where %g is used", w.res)); }
  val("Path Tolerance", w.ptol * 100, 0.00051, "%"); val("Maximum Arc Radius", w.maxr, 0.051, "mm"); bool comp = w.mas > 0 && w.mmas > 0; is("Firmware Compensation", yes(comp)); if (comp) { is("Min Arc Segments", std::to_string(w.mas)); val("MM Per Arc Segment", w.mmas, 0.00051, ""); }
  is("Allow 3D Arcs", yes(w.d3)); is("Allow Travel Arcs", yes(w.travel)); is("Allow Dynamic Precision", yes(w.dyn)); is("Default XYZ Precision", std::to_string(w.xp)); is("Default E Precision", std::to_string(w.ep)); if (w.erv == 0) is("Extrusion Rate Variance", "Unlimited"); else val("Extrusion Rate Variance", w.erv * 100, 0.00051, "%");
  is("G90/G91 Influences Extruder", yes(w.g90e)); is("Max Gcode Length", w.maxlen ? std::to_string(w.maxlen) + " characters" : "Unlimited"); is("Log Level", level); if (hidden) is("Hide Progress Updates", hidden); else known.insert("Hide Progress Updates"); val("Progress Notification Period", w.period, 0.0051, " seconds");
  for (auto& k : m) if (!known.count(k.first)) R.fail("unexpected setting " + k.first);
}
// the text of a full progress line
static void judgeFull(Result& R, const std::string& s, const arc_welder_progress& p, bool times) {
  std::map<std::string, std::string> m; std::string t = s; size_t b = 0; while (b < t.size()) { size_t e = t.find(", ", b); if (e == std::string::npos) e = t.size(); std::string q = t.substr(b, e - b); size_t k = q.find(':'); if (k != std::string::npos) m[trimmed(q.substr(0, k))] = trimmed(q.substr(k + 1)); b = e + 2; }
  auto is = [&](const char* k, long long v) { if (m[k] != std::to_string(v)) R.fail(std::string("progress says ") + k + " " + m[k] + fmt(", is %lld", v)); }; auto val = [&](const char* k, double v, const char* u) { if (!shows(m[k], v, 0.0051 + 2e-7 * std::fabs(v), u)) R.fail(std::string("progress says ") + k + " " + m[k] + fmt(", is %.6g", v)); };
  is("gcodes_processed", p.gcodes_processed); is("current_file_line", p.lines_processed); is("points_compressed", p.points_compressed); is("arcs_created", p.arcs_created); is("arcs_aborted_by_flowrate", p.arcs_aborted_by_flow_rate); is("num_firmware_compensations", p.num_firmware_compensations); is("num_gcode_length_exceptions", p.num_gcode_length_exceptions);
  val("compression_ratio", p.compression_ratio, ""); val("size_reduction", p.compression_percent, "%"); val("percent_complete", p.percent_complete, ""); if (times) { val("seconds_elapsed", p.seconds_elapsed, ""); val("seconds_remaining", p.seconds_remaining, ""); }
}
struct Capture { std::streambuf *o, *e; std::ostringstream out, err; Capture() { o = std::cout.rdbuf(out.rdbuf()); e = std::cerr.rdbuf(err.rdbuf()); } ~Capture() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
static const char* kLevel[7] = {"NOSET", "VERBOSE", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"}; static const int kValue[7] = {0, 5, 10, 20, 30, 40, 50};
// first line of a log message: time, name, level, text
struct LogLine { bool ok = false; time_t when = 0; std::string name; int level = -1; std::string text; };
static LogLine logLine(const std::string& s) {
  LogLine g; static const char* pat = "dddd-dd-dd dd:dd:dd.ddd - "; size_t n = strlen(pat); if (s.size() < n) return g; for (size_t i = 0; i < n; ++i) if (pat[i] == 'd' ? !isdigit((unsigned char)s[i]) : s[i] != pat[i]) return g;
  struct tm t {}; t.tm_year = atoi(s.substr(0, 4).c_str()) - 1900; t.tm_mon = atoi(s.substr(5, 2).c_str()) - 1; t.tm_mday = atoi(s.substr(8, 2).c_str()); t.tm_hour = atoi(s.substr(11, 2).c_str()); t.tm_min = atoi(s.substr(14, 2).c_str()); t.tm_sec = atoi(s.substr(17, 2).c_str()); t.tm_isdst = -1; g.when = mktime(&t);
  size_t k = s.find(" - ", n); if (k == std::string::npos) return g; g.name = s.substr(n, k - n); size_t q = s.find(" - ", k + 3); if (q == std::string::npos) return g; std::string lv = s.substr(k + 3, q - k - 3); for (int i = 0; i < 7; ++i) if (lv == kLevel[i]) g.level = i; g.text = s.substr(q + 3); g.ok = g.level >= 0; return g;
}

// ------------------------------------------------- cases
static Case genP26(Rng& r) {
  Case c; double k = r.unit();
  if (k < 0.35) { // a table
    c.set("kind", "table"); c.seti("enc", r.range(0, 2)); c.seti("split", r.chance(0.4)); if (r.chance(0.9)) { std::string t = "T"; int n = (int)r.range(0, r.chance(0.3) ? 90 : 30); for (int i = 0; i < n; ++i) t += r.pick(std::vector<char>{'a', 'b', ' ', '.', '|', '-', '1', 'Z'}); while (t.back() == ' ') t.pop_back(); c.set("title", t); }
    int n = (int)r.range(0, 30); bool same = r.chance(0.15); for (int i = 0; i < n; ++i) { double l = r.chance(0.5) ? r.logreal(0.0005, 500) : kEdge[r.range(0, 11)] * (r.chance(0.2) ? 1 : r.real(0.5, 2)); if (r.chance(0.04)) l = r.chance(0.5) ? 0 : -l; long long t = r.chance(0.7) ? r.range(1, 5) : (long long)r.logreal(1, 60000); std::string s = fmt(" %.6f %lld", l, t); if (same) { c.lines.push_back("s" + s); c.lines.push_back("t" + s); } else c.lines.push_back((r.chance(0.5) ? "s" : "t") + s); } return c; }
  if (k < 0.5) { c.set("kind", "args"); Profile p; genWeldCfg(r, c, p); if (r.chance(0.3)) c.set("erv", r.logreal(0.0001, 3)); if (r.chance(0.3)) c.set("res", r.logreal(0.001, 5)); if (r.chance(0.3)) c.set("ptol", r.logreal(0.0001, 0.99)); if (r.chance(0.3)) c.set("maxr", r.logreal(0.1, 1e6)); if (r.chance(0.3)) { c.set("mmas", r.chance(0.2) ? 0 : r.logreal(0.01, 20)); c.seti("mas", r.range(0, 100)); } if (r.chance(0.3)) c.seti("maxlen", r.range(0, 1) ? 0 : r.range(31, 2000)); if (r.chance(0.4)) c.set("period", r.logreal(0.01, 100)); c.seti("level", r.range(-1, 6)); c.seti("cb", r.range(0, 1)); c.seti("same", r.chance(0.3)); return c; }
  if (k < 0.65) { c.set("kind", "prog"); c.seti("seed", r.range(1, 1000000000)); return c; }
  if (k < 0.8) { c.set("kind", "log"); c.seti("names", r.range(1, 4)); int n = (int)r.range(1, 14); for (int i = 0; i < n; ++i) { long long t = r.range(0, 3); switch (r.range(0, 5)) { case 0: c.lines.push_back(fmt("level %lld %lld", t, r.range(0, 6))); break; case 1: c.lines.push_back(fmt("value %lld %d", t, r.pick(std::vector<int>{0, 5, 10, 20, 30, 40, 50}))); break; case 2: c.lines.push_back(fmt("all %lld", r.range(0, 6))); break; default: c.lines.push_back(fmt("log %lld %lld %lld text %lld", t, r.range(0, 6), r.chance(0.2) ? 1LL : 0LL, r.range(0, 9999))); } } return c; }
  if (k < 0.92) { // the welder's program
    Profile p; p.maxBlocks = (int)r.range(1, 6); p.pRateVar = 0.3; p.pHome = 0.005; Case g = genWeldCase(r, p); c.lines = g.lines; for (auto q : {"crlf", "nonl", "d3", "travel", "dyn", "g90e", "xp", "ep", "mmas", "mas", "res"}) if (g.has(q)) c.kv[q] = g.kv[q]; c.set("kind", "weld");
    if (r.chance(0.4)) c.set("erv", g15(r.pick(std::vector<double>{0, 0, 0.005, 0.01, 0.2, 0.5, 2}))); if (r.chance(0.4)) c.set("ptol", g15(r.pick(std::vector<double>{0.0005, 0.00099, 0.001, 0.0011, 0.25, 0.2501, 0.5, 0.99, 0.05}))); if (r.chance(0.4)) c.set("maxr", g15(r.pick(std::vector<double>{1, 20, 9999, 1000000, 1000001, 3e6, 100}))); if (r.chance(0.2)) c.seti("maxlen", r.pick(std::vector<int>{31, 40, 45, 50, 80}));
    if (r.chance(0.85)) c.set("progress", r.pick(std::vector<std::string>{"NONE", "SIMPLE", "FULL", "FULL"})); if (r.chance(0.8)) c.set("log", kLevel[r.range(0, 6)]); c.seti("names", r.chance(0.15) ? 1 : 2); if (r.chance(0.08)) c.seti("nodst", 1); if (r.chance(0.15)) c.seti("rep", r.range(10, 60)); return c; }
  c.set("kind", "str"); genFwArgs(r, c); c.kv.erase("latest"); FwCfg f = FwCfg::of(c); if (r.chance(0.8)) c.set("log", kLevel[r.range(0, 6)]); c.seti("names", r.chance(0.15) ? 1 : 2); if (r.chance(0.08)) c.seti("nodst", 1); if (r.chance(0.08)) c.seti("nonl", 1);
  c.lines = {"G90", r.chance(0.5) ? "M83" : "M82", fmt("G1 X%.3f Y%.3f Z0.2 F%d", r.real(0, 100), r.real(0, 100), (int)r.range(300, 6000))}; Machine m; for (auto& l : c.lines) m.exec(parseLine(l)); int n = (int)r.range(0, 6);
  for (int i = 0; i < n; ++i) { if (r.chance(0.3)) { for (long long q = r.range(0, 3); q >= 0; --q) c.lines.push_back(r.pick(std::vector<std::string>{"", "; comment", "M106 S20", "G4 P1", "G92 E0", "M117 G2 X1"})); if (c.lines.back() == "G92 E0") {} m = Machine(); for (auto& l : c.lines) m.exec(parseLine(l)); }
    double R = r.logreal(0.3, 40), a = r.real(0, 6.28), sw = r.chance(0.1) ? 2 * M_PI : r.real(0.3, 5.9); bool cw = r.chance(0.5); double I = R * std::cos(a), J = R * std::sin(a), t = a + M_PI + (cw ? -sw : sw); std::string l = fmt("%s X%.3f Y%.3f I%.3f J%.3f E%.5f", cw ? "G2" : "G3", m.x + I + R * std::cos(t), m.y + J + R * std::sin(t), I, J, m.relE ? R * sw * 0.03 : m.e + R * sw * 0.03); c.lines.push_back(l); m.exec(parseLine(l)); }
  return c;
}
static int g_dummy; static bool dummyCb(arc_welder_progress, logger*, int) { ++g_dummy; return true; }
static Result tableCase(const Case& c) {
  Result R; Stats a(segment_statistic_lengths, segment_statistic_lengths_count), b(segment_statistic_lengths, segment_statistic_lengths_count); Tally t; bool split = c.integer("split", 0); int i = 0;
  for (auto& l : c.lines) { char w = 0; double len = 0; long long n = 0; if (sscanf(l.c_str(), "%c %lf %lld", &w, &len, &n) != 3 || (w != 's' && w != 't') || n < 0 || n > 100000) { R.discard = true; return R; } bool edge = false; for (double e : kEdge) edge |= std::fabs(len - e) < 1e-6 && (len != e || e < 0.5); /* the lower limits are rounded to float */ if (edge) continue; int side = w == 't'; Stats& x = split && (i++ & 1) ? b : a; for (long long k = 0; k < n; ++k) x.update(len, side == 0); if (len > 0) count(t, side, len, n); }
  Stats all = split ? Stats::add(a, b) : a; Enc e = (Enc)(c.integer("enc", 0) % 3); std::string title = c.get("title", ""); std::string raw = all.str(title, e), p = plainTable(raw, e), why; auto l = splitLines(p);
  size_t n = judgeTable(l, 0, title, t, why); if (!n) R.fail((split ? "sum of two, " : "") + why); else if (n != l.size()) R.fail("text after the table: '" + escape(l[n]) + "'"); double red = all.get_total_count_reduction_percent(), want = t.total[0] ? ((double)t.total[1] - t.total[0]) / t.total[0] * 100 : 0; if (std::fabs(red - want) > 1e-9 * (1 + std::fabs(want))) R.fail(fmt("total change is given as %.9g, is %.9g", red, want));
  R.nontrivial = t.total[0] + t.total[1] > 0; R.stat["tables"] = 1; return R;
}
static Result argsCase(const Case& c) {
  Result R; WeldCfg w = WeldCfg::of(c); int lv = (int)c.integer("level", -1); logger* lg = nullptr; if (lv >= 0) { lg = new logger({"arc_welder.gcode_conversion"}, {2}); lg->set_log_level_by_value(kValue[lv % 7]); } bool cb = c.integer("cb", 0); std::string s = "/a b/in.gcode", d = c.integer("same", 0) ? s : "/c/out.gcode";
  arc_welder_args a = weldArgs(w, s, d, lg, cb ? dummyCb : nullptr); a.log = lg; auto l = splitLines(a.str()); judgeArgs(R, l, w, s, d, lv >= 0 ? kLevel[lv % 7] : "NO_LOGGING", cb ? "False" : "True"); delete lg; R.nontrivial = true; R.stat["settings_lists"] = 1; return R;
}
static void fill(Rng& r, Stats& s, Tally& t) { int n = (int)r.range(0, 12); for (int i = 0; i < n; ++i) { double l = r.logreal(0.0011, 300); int side = (int)r.range(0, 1); s.update(l, side == 0); count(t, side, l, 1); } }
static Result progCase(const Case& c) {
  Result R; Rng r((uint64_t)c.integer("seed", 1)); arc_welder_progress p; auto n = [&] { return (int)(r.chance(0.3) ? r.range(0, 3) : r.range(0, 2000000)); };
  p.percent_complete = r.chance(0.2) ? 0 : r.chance(0.2) ? 100 : r.real(0.06, 99.9); p.seconds_elapsed = r.logreal(0.01, 20000); p.seconds_remaining = r.logreal(0.01, 20000); p.gcodes_processed = n(); p.lines_processed = n(); p.points_compressed = n(); p.arcs_created = n(); p.arcs_aborted_by_flow_rate = n(); p.num_firmware_compensations = n(); p.num_gcode_length_exceptions = n(); p.compression_ratio = r.real(0, 20); p.compression_percent = r.real(-50, 100); p.combine_extrusion_and_retraction = r.chance(0.5); Enc e = (Enc)r.range(0, 2); p.box_encoding = e;
  judgeFull(R, p.str(), p, true); std::string s = p.simple_progress_str(); double pc = -1, rem = -1, tot = -1; int used = 0;
  if (sscanf(s.c_str(), " %lf%% complete%n", &pc, &used) != 1 || !used || std::fabs(pc - p.percent_complete) > 0.0501) R.fail("simple progress says '" + s + fmt("' at %.4f percent", p.percent_complete));
  else if (p.percent_complete == 100) { if (sscanf(s.c_str() + used, " - %lf seconds total.%n", &tot, &used) != 1 || std::fabs(tot - p.seconds_elapsed) > 1e-5 * p.seconds_elapsed + 1e-5) R.fail("simple progress says '" + s + fmt("' after %.4f seconds", p.seconds_elapsed)); }
  else if (p.percent_complete > 0) { if (sscanf(s.c_str() + used, " - Estimated %lf of %lf seconds", &rem, &tot) != 2 || std::fabs(rem - p.seconds_remaining) > 0.501 || std::fabs(tot - p.seconds_remaining - p.seconds_elapsed) > 0.501) R.fail("simple progress says '" + s + fmt("' after %.4f seconds with %.4f remaining", p.seconds_elapsed, p.seconds_remaining)); }
  Tally a, b, t; fill(r, p.segment_statistics, a); if (r.chance(0.6)) fill(r, p.segment_retraction_statistics, b); if (r.chance(0.6)) fill(r, p.travel_statistics, t); auto l = splitLines(plainTable(p.detail_str(), e)); size_t i = 0; std::string why;
  auto table = [&](const char* title, const Tally& x) { while (i < l.size() && trimmed(l[i]).empty()) ++i; if (!R.ok) return; size_t k = judgeTable(l, i, title, x, why); if (!k) R.fail(why); i += k; };
  if (t.total[0] > 0) table("Target File Travel Statistics", t); if (p.combine_extrusion_and_retraction) table("Target File Extrusion/Retraction Statistics", sum(a, b)); else { if (b.total[0] > 0) table("Target File Retraction Statistics", b); table("Target File Extrusion Statistics", a); }
  while (i < l.size() && trimmed(l[i]).empty()) ++i; if (R.ok && i < l.size()) R.fail("unexpected text after the tables: '" + escape(l[i]) + "'"); R.nontrivial = true; R.stat["progress_texts"] = 1; return R;
}
static Result logCase(const Case& c) {
  Result R; int n = (int)std::max(1LL, std::min(4LL, c.integer("names", 1))); std::vector<std::string> names; std::vector<int> lv; for (int i = 0; i < n; ++i) { names.push_back("n" + std::to_string(i) + ".x"); lv.push_back(2); } logger g(names, lv); std::vector<int> cur(n, 0); int shown = 0, held = 0;
  for (auto& s : c.lines) {
    long long a = 0, b = 0, e = 0; int used = 0;
    if (sscanf(s.c_str(), "level %lld %lld", &a, &b) == 2) { a %= n; b %= 7; g.set_log_level((int)a, (log_levels)b); cur[a] = (int)b; }
    else if (sscanf(s.c_str(), "value %lld %lld", &a, &b) == 2) { a %= n; g.set_log_level_by_value((int)a, (int)b); for (int k = 0; k < 7; ++k) if (kValue[k] == b) cur[a] = k; }
    else if (sscanf(s.c_str(), "all %lld", &b) == 1) { b %= 7; g.set_log_level((log_levels)b); for (auto& x : cur) x = (int)b; }
    else if (sscanf(s.c_str(), "log %lld %lld %lld %n", &a, &b, &e, &used) == 3 && used) {
      a %= n; b %= 7; std::string text = s.substr(used), o, er; time_t t0 = time(nullptr); { Capture q; if (e) g.log_exception((int)a, text); else g.log((int)a, (log_levels)b, text); o = q.out.str(); er = q.err.str(); } time_t t1 = time(nullptr);
      if (e) b = 5; std::string got = o + er; bool due = b >= cur[a]; if (g.is_log_level_enabled((int)a, (log_levels)b) != due) R.fail("level " + std::string(kLevel[b]) + (due ? " is not" : " is") + " enabled where " + kLevel[cur[a]] + " is set");
      if (!due) { ++held; if (!got.empty()) R.fail(std::string("a message of level ") + kLevel[b] + " is shown where " + kLevel[cur[a]] + " is set"); continue; } ++shown;
      LogLine L = logLine(got.substr(0, got.find('\n'))); if (!L.ok || got.find('\n') + 1 != got.size()) { R.fail("message is written as '" + escape(got) + "'"); continue; } if (L.name != names[a] || L.level != b || L.text != text) R.fail("message '" + text + "' of " + names[a] + " at " + kLevel[b] + " is written as '" + escape(got) + "'"); if (L.when < t0 - 1 || L.when > t1 + 1) R.fail("message carries the time " + got.substr(0, 23)); if (e ? er.empty() : o.empty()) R.fail(std::string("written to the wrong stream: ") + escape(got)); }
    else { R.discard = true; return R; }
    for (int k = 0; k < n; ++k) if (g.get_log_level_name(names[k]) != kLevel[cur[k]]) R.fail("after '" + s + "' the level of " + names[k] + " is " + g.get_log_level_name(names[k]) + ", not " + kLevel[cur[k]]);
  }
  R.nontrivial = shown && held; R.stat["log_messages"] = shown; return R;
}
// what one program printed: log messages (with their further lines), and the lines outside of them
struct Printed { std::vector<std::vector<std::string>> msgs; std::vector<LogLine> heads; std::vector<std::string> rest; };
static Printed sortOut(const std::string& out, const std::function<bool(const std::string&)>& own) { Printed p; bool in = false; for (auto& s : splitLines(out)) { LogLine L = logLine(s); if (L.ok) { p.heads.push_back(L); p.msgs.push_back({L.text}); in = true; } else if (own(s)) { p.rest.push_back(s); in = false; } else if (in) p.msgs.back().push_back(s); else p.rest.push_back(s); } return p; }
static void judgeLevels(Result& R, const Printed& p, int level, time_t t0, time_t t1) { for (auto& h : p.heads) { if (h.level < level) R.fail(std::string("a message of level ") + kLevel[h.level] + " is shown with log level " + kLevel[level] + ": '" + escape(h.text) + "'"); if (h.name != "arc_welder.gcode_conversion") R.fail("message of '" + h.name + "'"); if (h.when < t0 - 1 || h.when > t1 + 1) R.fail("a message carries a wrong time"); } }
static Result weldCase(const Case& c) {
  Result R; WeldCfg w = WeldCfg::of(c); if (!c.has("erv")) w.erv = 0.05; w.buf = 10; std::string unit = caseText(c), text; for (long long i = 0, n = std::max(1LL, std::min(60LL, c.integer("rep", 1))); i < n; ++i) { if (!text.empty() && text.back() != '\n') text += "\n"; text += unit; } if (text.empty() || text.size() > 1500000 || (w.maxlen && w.maxlen < 31)) { R.discard = true; return R; }
  std::string d = scratch() + "/rep"; for (auto& n : listDir(d)) remove((d + "/" + n).c_str()); mkdir(d.c_str(), 0777); std::string s = d + "/in.gcode", o = d + "/out.gcode"; writeFile(s, text); bool one = c.integer("names", 2) == 1, nodst = !one && c.integer("nodst", 0); if (nodst) o = d + "/missing/out.gcode"; if (one) o = s;
  std::vector<std::string> av{binDir() + "/ArcWelder", s}; if (!one) av.push_back(o); auto opt = [&](const char* k, const std::string& v) { av.push_back(std::string(k) + (v.empty() ? "" : "=" + v)); };
  if (c.has("res")) opt("-r", g15(w.res)); if (c.has("ptol")) opt("-t", g15(w.ptol)); if (c.has("maxr")) opt("-m", g15(w.maxr)); if (c.has("erv")) opt("-v", g15(w.erv)); if (c.has("maxlen")) opt("-c", std::to_string(w.maxlen)); if (c.has("xp")) opt("-x", std::to_string(w.xp)); if (c.has("ep")) opt("-e", std::to_string(w.ep)); if (w.d3) opt("-z", ""); if (w.travel) opt("-y", ""); if (w.dyn) opt("-d", ""); if (w.g90e) opt("-g", ""); if (w.mmas > 0 && w.mas > 0) { opt("-s", g15(w.mmas)); opt("-a", std::to_string(w.mas)); } else w.mmas = w.mas = 0; if (c.has("progress")) opt("-p", c.get("progress")); if (c.has("log")) opt("-l", c.get("log"));
  int level = 3; for (int i = 0; i < 7; ++i) if (c.get("log", "INFO") == kLevel[i]) level = i; std::string pt = c.get("progress", "SIMPLE"); std::string at = "ArcWelder"; for (size_t i = 1; i < av.size(); ++i) if (av[i][0] == '-') at += " " + av[i]; at += ": ";
  WeldRun lib = weldText(w, text); writeFile(s, text); time_t t0 = time(nullptr); ProcOut po = runProc(av); time_t t1 = time(nullptr); if (po.timeout || po.sig) { R.fail(at + po.str()); return R; } bool done = po.code == 0; if (done == nodst) { R.discard = true; return R; } // P23's business
  auto own = [](const std::string& l) { return l.rfind("Progress: ", 0) == 0 || l.rfind("warning: ", 0) == 0; }; Printed p = sortOut(po.out, own); judgeLevels(R, p, level, t0, t1); if (!R.ok) { R.msg = at + R.msg; return R; }
  auto has = [&](const char* t) { int n = 0; for (auto& m : p.msgs) if (m[0] == t) ++n; return n; }; bool info = level <= 3; auto& g = lib.r.progress; std::string okText = "Arc Welder process completed successfully.";
  int said = has(okText.c_str()), failed = 0; for (auto& m : p.msgs) failed += m[0].rfind("File processing failed.", 0) == 0; if (said != (done && info) || failed != (!done && info)) R.fail(fmt("exit status %d at log level %s, but success is reported %d times, failure %d times", po.code, kLevel[level], said, failed));
  bool listed = false, table = false, travel = false; for (auto& m : p.msgs) {
    if (m[0] == "Arc Welder Arguments") { listed = true; judgeArgs(R, m, w, s, o, kLevel[level], nullptr); }
    for (size_t i = 1; i < m.size(); ++i) { std::string why; auto is = [&](const char* t) { return i + 1 < m.size() && m[i].size() > 20 && m[i][0] == '+' && m[i + 1].find(t) != std::string::npos; };
      if (is("Target File Extrusion Statistics") && !table) { table = true; if (!judgeTable(m, i, "Target File Extrusion Statistics", sum(tallyOf(g.segment_statistics), tallyOf(g.segment_retraction_statistics)), why)) R.fail(why); }
      if (is("Target File Travel Statistics") && !travel) { travel = true; if (!judgeTable(m, i, "Target File Travel Statistics", tallyOf(g.travel_statistics), why)) R.fail(why); } }
    if (m[0] == "Target File Travel Statistics: No travel arcs converted.") { travel = true; if (g.travel_statistics.total_count_source != g.travel_statistics.total_count_target) R.fail("travel arcs were converted, but it says none"); } }
  if (listed != info) R.fail(std::string("the settings are ") + (listed ? "" : "not ") + "listed at log level " + kLevel[level]); if (table != (info && done)) R.fail(std::string("statistics are ") + (table ? "" : "not ") + "shown at log level " + kLevel[level]); if (travel != (info && done && w.travel)) R.fail(std::string("travel statistics are ") + (travel ? "" : "not ") + "shown");
  // progress
  std::vector<std::string> pr; int warn[3] = {}; for (auto& l : p.rest) { if (l.rfind("Progress: ", 0) == 0) pr.push_back(l.substr(10)); else if (l.rfind("warning: ", 0) == 0) { bool mr = l.find("max radius") != std::string::npos, lo = l.find("is less than 0.001") != std::string::npos, hi = l.find("is greater than 0.25") != std::string::npos; if (mr) ++warn[0]; else if (hi) ++warn[1]; else if (lo) ++warn[2]; else R.fail("unexpected warning '" + escape(l) + "'"); } else if (!trimmed(l).empty()) R.fail("unexpected line '" + escape(l) + "'"); }
  if (warn[0] != (w.maxr > 1000000) || warn[1] != (w.ptol > 0.25) || warn[2] != (w.ptol < 0.001)) R.fail(fmt("warnings shown for radius %d, high tolerance %d, low tolerance %d, with radius %g and tolerance %g", warn[0], warn[1], warn[2], w.maxr, w.ptol));
  if (pt == "NONE" || !done) { if (pt == "NONE" && !pr.empty()) R.fail("progress is shown although it is suppressed: '" + escape(pr[0]) + "'"); }
  else if (pr.size() < 2) R.fail(fmt("%zu progress lines", pr.size()));
  else if (pt == "FULL") { arc_welder_progress q = g; judgeFull(R, pr.back(), q, false); double last = -1; for (auto& l : pr) { double v = -1; sscanf(l.c_str(), " percent_complete:%lf", &v); if (v < last) R.fail("percentage falls: '" + l + "'"); last = v; } if (std::fabs(last - 100) > 1e-9) R.fail("the last progress is '" + pr.back() + "'"); double size = (double)lib.out.size(), src = (double)text.size(); q.compression_ratio = src / size; q.compression_percent = (1 - size / src) * 100; judgeFull(R, pr.back(), q, false); }
  else { double last = -1; for (size_t i = 0; i < pr.size(); ++i) { double v = -1; if (sscanf(pr[i].c_str(), " %lf%% complete", &v) != 1 || v < last) R.fail("progress line '" + escape(pr[i]) + "'"); last = v; } if (std::fabs(last - 100) > 1e-9 || pr.back().find("seconds total.") == std::string::npos) R.fail("the last progress is '" + pr.back() + "'"); if (pr[0].find("Estimating") == std::string::npos) R.fail("the first progress is '" + pr[0] + "'"); }
  if (!R.ok) R.msg = at + R.msg; R.stat["welder_runs"] = 1; R.nontrivial = true; return R;
}
static Result strCase(const Case& c) {
  static const std::vector<std::pair<const char*, const char*>> kArg{{"mm", "mm-per-arc-segment"}, {"perr", "arc-segments-per-r"}, {"persec", "arc-segments-per-sec"}, {"minmm", "min-mm-per-arc-segment"}, {"minseg", "min-arc-segment-mm"}, {"maxseg", "max-arc-segment-mm"}, {"maxerr", "mm-max-arc-error"}, {"minarc", "min-arc-segments"}, {"mincirc", "min-circle-segments"}, {"ncorr", "n-arc-correction"}, {"g90e", "g90-g91-influences-extruder"}};
  Result R; FwCfg f = FwCfg::of(c); std::string text = caseText(c); std::string d = scratch() + "/rep"; for (auto& n : listDir(d)) remove((d + "/" + n).c_str()); mkdir(d.c_str(), 0777); std::string s = d + "/in.gcode", o = d + "/out.gcode"; writeFile(s, text); bool one = c.integer("names", 2) == 1, nodst = !one && c.integer("nodst", 0); if (nodst) o = d + "/missing/out.gcode"; if (one) o = s;
  std::vector<std::string> av{binDir() + "/ArcStraightener", s}; if (!one) av.push_back(o); av.push_back(std::string("--firmware-type=") + f.spec().type); av.push_back(std::string("--firmware-version=") + f.spec().version); for (auto& a : kArg) if (c.has(a.first)) { if (!f.uses(a.first)) { R.discard = true; return R; } std::string k = a.first; av.push_back(std::string("--") + a.second + "=" + (k == "g90e" ? (f.g90e ? "TRUE" : "FALSE") : k == "minarc" || k == "mincirc" || k == "ncorr" ? c.get(k) : g15(c.num(k, 0)))); } if (c.has("log")) av.push_back("-l=" + c.get("log"));
  int level = 3; for (int i = 0; i < 7; ++i) if (c.get("log", "INFO") == kLevel[i]) level = i; bool info = level <= 3; std::string at = "ArcStraightener"; for (size_t i = 1; i < av.size(); ++i) if (av[i][0] == '-') at += " " + av[i]; at += ": ";
  time_t t0 = time(nullptr); ProcOut po = runProc(av); time_t t1 = time(nullptr); if (po.timeout || po.sig) { R.fail(at + po.str()); return R; } bool done = po.code == 0; if (done == nodst) { R.discard = true; return R; }
  std::map<std::string, std::string> sum; auto own = [&](const std::string& l) { for (auto t : {"Decompressing gcode file.", "Target File: ", "Closing the input file.", "Completed file processing", "Unable to ", "\tLines Processed", "\tArc Commands Processed", "\tArc Segments Generated", "\tTotal Seconds"}) if (l.rfind(t, 0) == 0) return true; return false; };
  Printed p = sortOut(po.out, own); judgeLevels(R, p, level, t0, t1); sum = labels(p.rest); auto has = [&](const char* t) { int n = 0; for (auto& m : p.msgs) if (m[0] == t) ++n; return n; };
  if (has("Process completed successfully.") != (done && info) || has("Interpolation Complete.") != (done && info) || has("Interpolation failed.") != (!done && info)) R.fail(fmt("exit status %d at log level %s, but the messages say success %d, failure %d", po.code, kLevel[level], has("Process completed successfully."), has("Interpolation failed.")));
  for (auto& l : p.rest) if (!own(l) && !trimmed(l).empty()) R.fail("unexpected line '" + escape(l) + "'"); bool cannot = false; for (auto& l : p.rest) cannot |= l.rfind("Unable to ", 0) == 0; if (cannot == done) R.fail(done ? "it says that a file could not be opened" : "it does not say what failed");
  bool listed = false; for (auto& m : p.msgs) if (trimmed(m[0]) == "Arguments:") {
    listed = true; std::string twice; auto a = labels(m, &twice); if (!twice.empty()) R.fail("the setting " + twice + " is listed twice"); std::set<std::string> known{"Temporary File Path"}; auto is = [&](const std::string& k, const std::string& v) { known.insert(k); if (!a.count(k) || a[k] != v) R.fail(k + " is printed as '" + escape(a.count(k) ? a[k] : "<nothing>") + "' where '" + escape(v) + "' is used"); };
    is("Source File Path", s); if (one) is("Target File Path (overwrite)", o); else is("Target File File", o); is("Log Level", c.get("log", "INFO")); is("Firmware Type", f.spec().type); is("Firmware Version", std::string(f.spec().version) + (f.spec().latest ? " (LATEST_RELEASE)" : "")); std::set<std::string> none, no;
    for (auto& x : kArg) { std::string k = x.first; if (!f.uses(k)) { no.insert(x.second); continue; } if (k == "g90e") is(x.second, f.g90e ? "True" : "False"); else if (k == "minarc") is(x.second, std::to_string(f.minarc)); else if (k == "mincirc") is(x.second, std::to_string(f.mincirc)); else if (k == "ncorr") is(x.second, std::to_string(f.ncorr)); else { double v = k == "mm" ? f.mm : k == "perr" ? f.perr : k == "persec" ? f.persec : k == "minmm" ? f.minmm : k == "minseg" ? f.minseg : k == "maxseg" ? f.maxseg : f.maxerr; known.insert(x.second); if (!a.count(x.second) || !shows(a[x.second], v, 0.0051, "")) R.fail(std::string(x.second) + " is printed as '" + a[x.second] + fmt("' where %g is used", v)); } }
    for (auto& k : a) if (!known.count(k.first)) R.fail("unexpected setting " + k.first);
    for (auto& l : m) { std::string h = "The following parameters do not apply to this firmware version: "; if (l.rfind(h, 0) != 0) continue; std::istringstream in(l.substr(h.size())); std::string t; while (std::getline(in, t, ',')) { size_t b = t.find_first_not_of(" -"); if (b != std::string::npos) none.insert(trimmed(t.substr(b))); } } if (none != no) R.fail("the list of settings that do not apply is wrong"); }
  if (listed != info) R.fail(std::string("the settings are ") + (listed ? "" : "not ") + "listed at log level " + kLevel[level]);
  if (done) { std::string out; if (!readFile(o, out)) { R.discard = true; return R; } std::vector<std::string> src = splitLines(text); long long arcs = 0, plain = 0; for (auto& l : src) { if (parseLine(l).isArc()) ++arcs; else ++plain; } auto ol = splitLines(out); size_t h = 0; while (h < ol.size() && !ol[h].empty()) ++h; long long segs = (long long)ol.size() - (long long)h - 1 - plain;
    if (sum["Lines Processed"] != std::to_string(src.size())) R.fail(fmt("it says %s lines, the file has %zu", sum["Lines Processed"].c_str(), src.size())); if (sum["Arc Commands Processed"] != std::to_string(arcs)) R.fail(fmt("it says %s arcs, the file has %lld", sum["Arc Commands Processed"].c_str(), arcs)); if (sum["Arc Segments Generated"] != std::to_string(segs)) R.fail(fmt("it says %s segments were generated, %lld were written", sum["Arc Segments Generated"].c_str(), segs)); R.stat["segments_counted"] = segs; }
  if (!R.ok) R.msg = at + R.msg; R.stat["straightener_runs"] = 1; R.nontrivial = true; return R;
}
static Result p26(const Case& c) { std::string k = c.get("kind", ""); if (k == "table") return tableCase(c); if (k == "args") return argsCase(c); if (k == "prog") return progCase(c); if (k == "log") return logCase(c); if (k == "weld") return weldCase(c); if (k == "str") return strCase(c); Result r; r.discard = true; return r; }
static Registrar a26({"P26", "random statistics, settings, progress records and log calls printed through the library, and runs of both programs; non-trivial: something was counted, a message shown and one held back, or a program ran", genP26, p26, true, 2000, 40000});
} // namespace vh
