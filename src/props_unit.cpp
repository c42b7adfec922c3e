// P10 (parser), P11 (position tracker), P12 (number printing), P18 (containers): the library pieces against independent models.
#include "core.hpp"
#include "machine.hpp"
#include <deque>
#include "gcode_parser.h"
#include "gcode_position.h"
#include "utilities.h"
#include "circular_buffer.h"
#include "array_list.h"

namespace vh {
static std::string upper(std::string s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
static std::string dropSpaces(const std::string& s) { std::string o; for (char c : s) if (c != ' ') o += c; return o; }
static std::string spaces(Rng& r, int hi) { return r.chance(0.6) ? "" : std::string((size_t)r.range(1, hi), ' '); }
static std::string randCase(Rng& r, std::string s) { if (r.chance(0.5)) return s; for (auto& c : s) if (r.chance(0.5)) c = c >= 'A' && c <= 'Z' ? c + 32 : c; return s; }

// ------------------------------------------------------------------ P10
// A case is the pieces of one line, in order:  L leading blanks | W command word | P parameter | S text parameter | J junk | T text | C comment | R line end
static const std::set<std::string>& withParams() { static const std::set<std::string> s{"G0","G1","G2","G3","G10","G11","G20","G21","G28","G29","G80","G90","G91","G92","M82","M83","M104","M105","M106","M109","M114","M116","M140","M141","M190","M191","M207","M208","M218","M240","M400","M563"}; return s; }
static std::string numText(Rng& r) {
  std::string s; int k = (int)r.range(0, 9); auto digs = [&](int lo, int hi) { std::string d; int n = (int)r.range(lo, hi); for (int i = 0; i < n; ++i) { if (r.chance(0.05) && i) d += std::string((size_t)r.range(1, 2), ' '); d += (char)('0' + r.range(0, 9)); } return d; };
  if (r.chance(0.3)) s += r.chance(0.7) ? "-" : "+"; if (r.chance(0.05)) s += " ";
  if (k < 5) s += digs(1, 4) + "." + digs(1, 5); else if (k == 5) s += digs(1, 6); else if (k == 6) s += "." + digs(1, 5); else if (k == 7) s += digs(1, 3) + "."; else if (k == 8) s += digs(1, 17) + "." + digs(1, 18); else s += digs(1, 2) + "." + (r.chance(0.1) ? std::string((size_t)r.range(240, 270), '3') : digs(1, 30));
  return s;
}
static std::string anyText(Rng& r, bool semi) { std::string s; int n = (int)r.range(0, 14); for (int i = 0; i < n; ++i) { char c = r.chance(0.5) ? (char)r.range(32, 126) : r.pick(std::vector<char>{'X', 'Y', 'E', 'G', 'M', 'T', '1', '0', ' ', '.', '-', 'F', '@', 'x', 'g', 'e', '\t'}); if (c == ';' && !semi) c = ':'; s += c; } return s; }
static Case genP10(Rng& r) {
  Case c; auto add = [&](const std::string& s) { c.lines.push_back(s); };
  if (r.chance(0.3)) add("L" + std::string((size_t)r.range(1, 3), ' '));
  int k = (int)r.range(0, 19);
  auto word = [&](const std::string& w) { // "G1" in one of its spellings
    std::string o(1, w[0]); o += spaces(r, 2); if (r.chance(0.1)) o += std::string((size_t)r.range(1, 2), '0'); o += w.substr(1); return "W" + randCase(r, o); };
  if (k < 12) {
    std::vector<std::string> ws(withParams().begin(), withParams().end()); std::string w = r.chance(0.6) ? r.pick(std::vector<std::string>{"G0", "G1", "G1", "G2", "G3", "G92"}) : r.pick(ws); add(word(w));
    int n = (int)r.range(0, 6); for (int i = 0; i < n; ++i) { std::string L(1, r.chance(0.8) ? r.pick(std::vector<char>{'X', 'Y', 'Z', 'E', 'F', 'I', 'J', 'S', 'P', 'R'}) : (char)('A' + r.range(0, 25))); add("P" + (i == 0 || r.chance(0.8) ? std::string((size_t)r.range(i == 0 ? 1 : 0, 2), ' ') : "") + randCase(r, L) + spaces(r, 1) + numText(r)); }
    if (r.chance(0.08)) add(std::string("S ") + (char)('A' + r.range(0, 25)) + (r.chance(0.5) ? std::string(1, ' ') : "") + r.pick(std::vector<std::string>{"", "abc", "Y", "\"name\" 1", "_x X5"}));
    else if (r.chance(0.1)) add(std::string("J ") + r.pick(std::vector<char>{'*', '(', '#', '"', '/', '_', '{', '%'}) + anyText(r, false));
  }
  else if (k == 12) { add(r.pick(std::vector<std::string>{"WM117", "Wm117", "WM 117", "WM118", "WM23", "WG4", "WM862.3", "WG29.1", "WG 5", "WG38.2", "WM1170", "WG11", "WM999"})); add("T " + anyText(r, false)); }
  else if (k == 13) { add("@" + randCase(r, "@" + r.pick(std::vector<std::string>{"PAUSE", "OCTOLAPSE2", "X", "RESUME", "Octo"}))); add("T " + anyText(r, false)); }
  else if (k == 14) { add("O" + randCase(r, "@OCTOLAPSE") + " " + randCase(r, r.pick(std::vector<std::string>{"TAKE-SNAPSHOT", "STOP", "A1B"}))); int n = (int)r.range(0, 2); for (int i = 0; i < n; ++i) add(std::string("P ") + (char)('A' + r.range(0, 25)) + numText(r)); }
  else if (k == 15) add("t" + randCase(r, "T") + spaces(r, 2) + r.pick(std::vector<std::string>{"0", "1", "7", "15", "255", "?", "x", "C", "X", "4294967295", "2147483647", "99999999999999999999"}));
  else if (k == 16) add("U" + r.pick(std::vector<std::string>{"N10 G1 X1", "X5 Y5", "SET_VELOCITY_LIMIT", "%", "(G1 X5)", "EXCLUDE_OBJECT NAME=a", "\tG1 X5", "\xC3\x84nderung", " \xC2\xB5 5", "\t \tX", "Go home X1", "Mx", "TOOL 1", "T", "G", "M X5", "1G1 X1", "-G1 X5", "/G1 X5", "Ga1"}));
  else if (k == 17) add("U" + std::string(1, r.pick(std::vector<char>{'A', 'B', 'X', '#', '(', '1', '$', 'Y', 'z'})) + anyText(r, false));
  else if (k == 18) add("B" + std::string((size_t)r.range(0, 3), ' '));
  if (r.chance(0.4)) add("C" + r.pick(std::vector<std::string>{"", " "}) + anyText(r, true));
  if (r.chance(0.15)) add("R");
  return c;
}
static Result p10(const Case& c) {
  Result R; std::string line, cmd, gc; bool semi = false, known = false, blank = true, textOnly = false, cr = false; std::string comment;
  struct Par { std::string name, text; char type; double v; int dec; }; std::vector<Par> want; bool stop = false, haveWord = false;
  for (auto& l : c.lines) {
    if (l.empty()) { R.discard = true; return R; }
    char t = l[0]; std::string s = l.substr(1);
    auto isnum = [](const std::string& q) { size_t i = 0; if (i < q.size() && (q[i] == '-' || q[i] == '+')) ++i; bool d = false; int dots = 0; for (; i < q.size(); ++i) { if (isdigit((unsigned char)q[i])) d = true; else if (q[i] == '.') ++dots; else return false; } return d && dots < 2; };
    if (semi && t != 'C' && t != 'R') { R.discard = true; return R; }
    switch (t) {
      case 'L': if (!line.empty()) { R.discard = true; return R; } line += s; break;
      case 'W': case 't': { if (haveWord) { R.discard = true; return R; } haveWord = true; line += s; blank = false; std::string q = upper(dropSpaces(s)); if (q.size() < 2) { R.discard = true; return R; }
        if (t == 't') { known = true; cmd = "T"; Par p{"T", "", 'S', 0, 0}; if (isdigit((unsigned char)q[1])) { p.type = 'U'; p.v = std::min(2147483647.0, strtod(q.c_str() + 1, nullptr)); } else p.text = q.substr(1); if (p.type == 'S' && p.text != "?" && p.text != "X" && p.text != "C") { R.discard = true; return R; } want.push_back(p); stop = true; }
        else { size_t z = 1; while (z + 1 < q.size() && q[z] == '0' && isdigit((unsigned char)q[z + 1])) ++z; cmd = q.substr(0, 1) + q.substr(z); if (!isdigit((unsigned char)cmd[1])) { R.discard = true; return R; } known = true; textOnly = cmd == "M117"; if (!withParams().count(cmd)) stop = true; } break; }
      case 'O': { size_t sp = s.find(' '); if (haveWord || sp == std::string::npos || sp + 1 >= s.size()) { R.discard = true; return R; } haveWord = true; line += s; blank = false; known = true; cmd = upper(s.substr(0, sp)); if (cmd != "@OCTOLAPSE") { R.discard = true; return R; } want.push_back({upper(s.substr(sp + 1)), "", 'N', 0, 0}); break; }
      case '@': if (haveWord || s.size() < 2) { R.discard = true; return R; } haveWord = true; line += s; blank = false; known = true; cmd = upper(s); stop = true; break;
      case 'P': { if (!haveWord) { R.discard = true; return R; } if (line.back() != ' ' && !s.empty() && s[0] != ' ' && cmd[0] == '@') { R.discard = true; return R; } line += s; blank = false; if (stop) break; std::string q = dropSpaces(s); if (q.size() < 2 || !isalpha((unsigned char)q[0]) || !isnum(q.substr(1))) { R.discard = true; return R; } size_t dot = q.find('.'); want.push_back({upper(q.substr(0, 1)), "", 'F', strtod(q.c_str() + 1, nullptr), dot == std::string::npos ? 0 : (int)std::min<size_t>(255, q.size() - dot - 1)}); break; }
      case 'S': { if (!haveWord || stop) { R.discard = true; return R; } line += s; std::string q = s; size_t i = 0; while (i < q.size() && q[i] == ' ') ++i; if (i >= q.size() || !isalpha((unsigned char)q[i])) { R.discard = true; return R; } std::string rest = q.substr(i + 1); size_t k = 0; while (k < rest.size() && rest[k] == ' ') ++k; rest = rest.substr(k); if (!rest.empty() && !isalpha((unsigned char)rest[0]) && rest[0] != '"' && rest[0] != '_') { R.discard = true; return R; } want.push_back({upper(q.substr(i, 1)), rest, 'S', 0, 0}); stop = true; break; }
      case 'J': if (!haveWord || s.size() < 2 || isalnum((unsigned char)s[1]) || s[1] == '.' || s[1] == ' ' || s[1] == ';') { R.discard = true; return R; } line += s; stop = true; break;
      case 'T': { size_t q = s.find_first_not_of(' '); if (q != std::string::npos && cmd[0] != '@' && (s[q] == '.' || (cmd.find('.') != std::string::npos && isdigit((unsigned char)s[q])))) { R.discard = true; return R; } } if (!haveWord || s.empty() || s[0] != ' ' || (known && withParams().count(cmd) )) { if (haveWord && known && withParams().count(cmd)) { R.discard = true; return R; } R.discard = true; return R; } line += s; stop = true; break;
      case 'U': { if (haveWord || s.empty()) { R.discard = true; return R; } haveWord = true; size_t i = 0; std::string full = line + s; while (i < full.size() && full[i] == ' ') ++i; line += s; stop = true; if (s.find(';') != std::string::npos) { R.discard = true; return R; } char f = i < full.size() ? (char)toupper((unsigned char)full[i]) : 0; if (f == 'G' || f == 'M') { size_t k = i + 1; while (k < full.size() && full[k] == ' ') ++k; if (k < full.size() && (isdigit((unsigned char)full[k]) || full[k] == '.')) { R.discard = true; return R; } } if (f == 'T') { size_t k = i + 1; while (k < full.size() && (full[k] == ' ' || full[k] == '\t')) ++k; if (k < full.size() && (isdigit((unsigned char)full[k]) || strchr("?xXcC", full[k]))) { R.discard = true; return R; } } if (f == '@') { R.discard = true; return R; } blank = full.find_first_not_of(" \t") == std::string::npos; break; }
      case 'B': if (haveWord) { R.discard = true; return R; } line += s; haveWord = true; break;
      case 'C': if (semi) { R.discard = true; return R; } semi = true; comment = s; break;
      case 'R': cr = true; break;
      default: R.discard = true; return R;
    }
  }
  // a number directly followed by a digit or a dot of the next piece would be one number: the generator never builds this
  if (cr && !semi && ((cmd == "T" && want.size() == 1 && want[0].type == 'S') || cmd[0] == '@')) { R.discard = true; return R; } // the carriage return becomes part of the word
  gc = line; std::string full = line; if (semi) full += ";" + comment; if (cr) full += "\r"; if (!semi && cr) gc += "\r";
  gcode_parser parser; parsed_command pc; bool ret = parser.try_parse_gcode(full.c_str(), pc, true);
  auto show = [&] { return "'" + escape(full) + "': "; };
  if (ret != known || pc.is_known_command != known) R.fail(show() + "is_known_command is " + (pc.is_known_command ? "true" : "false"));
  if (pc.command != cmd) R.fail(show() + "command is '" + pc.command + "', should be '" + cmd + "'");
  if (pc.gcode != gc) R.fail(show() + "command text is '" + escape(pc.gcode) + "', should be '" + escape(gc) + "'");
  if (pc.comment != comment) R.fail(show() + "comment is '" + escape(pc.comment) + "', should be '" + escape(comment) + "'");
  if (known && pc.is_empty) R.fail(show() + "is reported as empty");
  if (!known && !blank && pc.is_empty) R.fail(show() + "text is reported as empty");
  if (!known && blank && !pc.is_empty) R.fail(show() + "a blank line is not reported as empty");
  if (pc.parameters.size() != want.size()) R.fail(show() + fmt("%zu parameters, should be %zu", pc.parameters.size(), want.size()));
  for (size_t i = 0; R.ok && i < want.size(); ++i) {
    auto& g = pc.parameters[i]; auto& w = want[i];
    if (g.name != w.name) R.fail(show() + "parameter " + std::to_string(i) + " is named '" + g.name + "', should be '" + w.name + "'");
    else if (g.value_type != w.type) R.fail(show() + "parameter " + w.name + " has type " + (char)g.value_type + ", should be " + w.type);
    else if (w.type == 'F' && std::fabs(g.double_value - w.v) > 1e-12 * std::fabs(w.v)) R.fail(show() + fmt("%s is %.17g, should be %.17g", w.name.c_str(), g.double_value, w.v));
    else if (w.type == 'F' && g.double_precision != w.dec) R.fail(show() + fmt("%s has %d decimals, should have %d", w.name.c_str(), g.double_precision, w.dec));
    else if (w.type == 'S' && g.string_value != w.text && !(cr && !semi && g.string_value == w.text + "\r")) R.fail(show() + w.name + " has the text '" + escape(g.string_value) + "', should be '" + escape(w.text) + "'");
    else if (w.type == 'U' && (double)g.unsigned_long_value != w.v) R.fail(show() + fmt("T is %lu, should be %.0f", g.unsigned_long_value, w.v));
  }
  // the text is reproduced
  if (R.ok) { std::string b = pc.to_string(), e = gc; if (!comment.empty()) e += ";" + comment; if (b != e) R.fail(show() + "is reproduced as '" + escape(b) + "'"); }
  // the same line, cleaned: same command and parameters, text in upper case without outer blanks
  if (R.ok && std::all_of(full.begin(), full.end(), [](char ch) { return ch == '\r' || (ch >= ' ' && ch < 127); })) {
    parsed_command p2 = parser.parse_gcode(full.c_str(), false); size_t a = line.find_first_not_of(' '), z = line.find_last_not_of(' '); std::string e = a == std::string::npos ? "" : line.substr(a, z - a + 1); if (!textOnly) e = upper(e);
    if (p2.gcode != e) R.fail(show() + "cleaned text is '" + escape(p2.gcode) + "', should be '" + escape(e) + "'");
    if (p2.command != pc.command || p2.parameters.size() != pc.parameters.size() || p2.comment != pc.comment) R.fail(show() + "is read differently when its format is not preserved");
  }
  // a reused object gives the same once cleared
  if (R.ok) { parsed_command p3; parser.try_parse_gcode("G1 X1 E2 ; old", p3); p3.clear(); parser.try_parse_gcode(full.c_str(), p3, true); if (p3.command != pc.command || p3.gcode != pc.gcode || p3.comment != pc.comment || p3.parameters.size() != pc.parameters.size() || p3.is_empty != pc.is_empty) R.fail(show() + "is read differently with a reused object"); }
  R.nontrivial = !want.empty() || (semi && !comment.empty()) || (!known && !blank);
  R.stat["parameters"] += (long long)want.size(); return R;
}

// ------------------------------------------------------------------ P11
static std::string pnum(Rng& r, double lo, double hi, int dec) { return fmt("%.*f", dec, r.real(lo, hi)); }
static Case genP11(Rng& r) {
  Case c; c.seti("g90e", r.chance(0.4)); c.seti("buf", r.pick(std::vector<long long>{2, 3, 4, 8, 50, 1000})); c.seti("shared", r.chance(0.6)); c.seti("n", r.pick(std::vector<long long>{1, 2, 3, 8})); c.seti("zero", r.chance(0.85)); c.seti("def", r.range(0, 3));
  c.seti("relx", r.chance(0.15)); c.seti("rele", r.chance(0.3)); if (r.chance(0.25)) c.seti("home", 1);
  int n = (int)r.range(1, r.chance(0.2) ? 120 : 25);
  for (int i = 0; i < n; ++i) {
    int k = (int)r.range(0, 29); std::string l;
    if (k < 12) { bool arc = r.chance(0.12); l = arc ? r.pick(std::vector<std::string>{"G2", "G3"}) : r.chance(0.75) ? "G1" : "G0"; std::vector<std::string> ps; if (arc) ps.push_back("I1.5"); if (r.chance(0.6)) ps.push_back("X" + pnum(r, -20, 200, 3)); if (r.chance(0.6)) ps.push_back("Y" + pnum(r, -20, 200, 3)); if (r.chance(0.15)) ps.push_back("Z" + pnum(r, 0, 20, 2)); if (r.chance(0.6)) ps.push_back("E" + (r.chance(0.1) ? std::string("0") : pnum(r, -3, 8, 4))); if (r.chance(0.25)) ps.push_back("F" + pnum(r, 1, 9000, r.chance(0.2))); for (size_t q = ps.size(); q > 1; --q) std::swap(ps[q - 1], ps[(size_t)r.range(0, (long long)q - 1)]); for (auto& p : ps) l += " " + p; if (r.chance(0.1)) for (auto& ch : l) ch = (char)tolower((unsigned char)ch); }
    else if (k == 12) l = "G90"; else if (k == 13) l = "G91"; else if (k == 14) l = "M82"; else if (k == 15) l = "M83";
    else if (k == 16) l = "G92 E" + (r.chance(0.7) ? "0" : pnum(r, -5, 50, 3));
    else if (k == 17) { l = "G92"; if (r.chance(0.6)) l += " X" + pnum(r, -50, 50, 3); if (r.chance(0.6)) l += " Y" + pnum(r, -50, 50, 3); if (r.chance(0.4)) l += " Z" + pnum(r, -5, 5, 2); }
    else if (k == 18) l = r.pick(std::vector<std::string>{"G28", "G28 X", "G28 X0 Y0", "G28 Z", "G28 X Y", "G28 Y", "G28 W", "g28 z x", "G28 x y z", "G28 XYZ", "g28 y z", "G28 Zy"});
    else if (k == 19 || k == 20) l = "T" + std::to_string(r.range(0, 9));
    else if (k == 21) l = "G10 P" + std::to_string(r.range(0, 3)) + " X" + pnum(r, -20, 20, 2) + (r.chance(0.6) ? " Y" + pnum(r, -20, 20, 2) : "") + (r.chance(0.3) ? " Z" + pnum(r, -1, 1, 2) : "");
    else if (k == 22) l = "M218 T" + std::to_string(r.range(0, 3)) + " X" + pnum(r, -20, 20, 2) + (r.chance(0.6) ? " Y" + pnum(r, -20, 20, 2) : "") + (r.chance(0.3) ? " Z" + pnum(r, -1, 1, 2) : "");
    else if (k == 23) l = r.pick(std::vector<std::string>{"; comment", "", "G21", "M104 S200", "M117 G1 X5", "G4 P1", "FOO", "@pause", "M400", "G29", "G1", "G10", "G10 P1 Z", "G10 P0 X2.5 Y", "G10 Z0.5 X1", "G10 P", "M218 T0 Z", "M218 T1 X-3 Y", "M218 X2 Z1", "M218 T", "G28 ;X", "G92 O", "G92 O", "G92 X3 O", "G92 X1 Y2 O0", "T?", "M106 S1 ; E5", "; G92 X0", "G11", "M207 S1"});
    else if (k == 24 || k == 25) l = "undo " + std::to_string(r.range(1, 4));
    else if (k == 26) l = "grow " + std::to_string(r.range(1, 60));
    else l = (r.chance(0.5) ? "G1 X" + pnum(r, 0, 200, 3) + " Y" + pnum(r, 0, 200, 3) + " E" + pnum(r, 0, 5, 4) : "G1 E" + pnum(r, -3, 3, 3) + " F1800");
    c.lines.push_back(l);
  }
  return c;
}
struct TModel { // what the statement of P11 promises, in the coordinates of the program
  Machine m; std::vector<double> e, r; bool shared, zero; int n, tool; std::vector<std::array<double, 3>> fw; double fwAt[3] = {0, 0, 0}, off[3] = {0, 0, 0}; bool unsure[3] = {false, false, false}; bool flagsUnsure = false; bool homed[3] = {false, false, false};
};
static bool sameState(const position& a, const position& b, std::string& what) {
#define CMP(f) if (!(a.f == b.f)) { what = #f; return false; }
  CMP(f) CMP(f_null) CMP(x) CMP(x_null) CMP(x_offset) CMP(x_firmware_offset) CMP(x_homed) CMP(y) CMP(y_null) CMP(y_offset) CMP(y_firmware_offset) CMP(y_homed) CMP(z) CMP(z_null) CMP(z_offset) CMP(z_firmware_offset) CMP(z_homed) CMP(is_metric) CMP(last_extrusion_height) CMP(last_extrusion_height_null) CMP(layer) CMP(height) CMP(is_printer_primed) CMP(has_definite_position) CMP(z_relative) CMP(is_relative) CMP(is_relative_null) CMP(is_extruder_relative) CMP(is_extruder_relative_null) CMP(is_layer_change) CMP(is_xy_travel) CMP(is_xyz_travel) CMP(is_zhop) CMP(has_position_changed) CMP(has_xy_position_changed) CMP(file_line_number) CMP(gcode_number) CMP(file_position) CMP(gcode_ignored) CMP(current_tool) CMP(num_extruders) CMP(command.gcode) CMP(command.command) CMP(is_in_bounds)
#undef CMP
  for (int t = 0; t < a.num_extruders; ++t) { const extruder &p = a.p_extruders[t], &q = b.p_extruders[t];
#define CMP(f) if (!(p.f == q.f)) { what = std::string("extruder ") + #f; return false; }
    CMP(x_firmware_offset) CMP(y_firmware_offset) CMP(z_firmware_offset) CMP(e) CMP(e_offset) CMP(e_relative) CMP(extrusion_length) CMP(extrusion_length_total) CMP(retraction_length) CMP(deretraction_length) CMP(is_extruding_start) CMP(is_extruding) CMP(is_primed) CMP(is_retracting_start) CMP(is_retracting) CMP(is_retracted) CMP(is_partially_retracted) CMP(is_deretracting_start) CMP(is_deretracting) CMP(is_deretracted)
#undef CMP
  }
  return true;
}
static gcode_position_args argsOf(const Case& c, int buf) {
  gcode_position_args a; a.position_buffer_size = buf; a.shared_extruder = c.integer("shared", 1) != 0; a.g90_influences_extruder = c.integer("g90e", 0) != 0; a.zero_based_extruder = c.integer("zero", 1) != 0; a.xyz_axis_default_mode = c.integer("relx", 0) ? "relative" : "absolute"; a.e_axis_default_mode = c.integer("rele", 0) ? "relative" : "absolute"; a.autodetect_position = false;
  bool h = c.integer("home", 0) != 0; a.home_x_none = a.home_y_none = a.home_z_none = !h; if (h) { a.home_x = 3; a.home_y = -2; a.home_z = 0.5; }
  a.set_num_extruders((int)std::max(1LL, std::min(16LL, c.integer("n", 1)))); a.default_extruder = (int)c.integer("def", 0); for (int i = 0; i < a.num_extruders; ++i) { a.retraction_lengths[i] = 0.0001; a.z_lift_heights[i] = 0.001; }
  return a;
}
static Result p11(const Case& c) {
  Result R; int buf = (int)std::max(2LL, std::min(5000LL, c.integer("buf", 50))); gcode_position_args a = argsOf(c, buf); gcode_position pos(a), big(argsOf(c, 2000)); gcode_parser parser;
  TModel M; M.shared = a.shared_extruder; M.zero = a.zero_based_extruder; M.n = a.num_extruders; M.e.assign(M.n, 0); M.r.assign(M.n, 0); M.fw.assign(M.n, {0, 0, 0}); M.tool = std::max(0, std::min(M.n - 1, a.default_extruder)); M.m.rel = a.xyz_axis_default_mode == "relative"; M.m.relE = a.e_axis_default_mode == "relative"; M.m.g90e = a.g90_influences_extruder; bool home = !a.home_x_none;
  struct Snap { TModel m; position p; }; std::vector<Snap> hist; hist.push_back({M, pos.get_current_position()}); int depth = 0; int cap = buf;
  long line = 0; int moves = 0, undone = 0;
  for (auto& l : c.lines) {
    ++line; auto where = [&] { return fmt("after line %ld '", line) + l + "': "; };
    if (l.rfind("undo ", 0) == 0) {
      int k = atoi(l.c_str() + 5); k = std::min(k, depth); if (k < 1) continue;
      if (k == 1) { pos.undo_update(); big.undo_update(); } else { position* u = pos.undo_update(k); for (int i = 0; i < k && R.ok; ++i) { std::string w; if (!sameState(u[i], hist[hist.size() - 1 - i].p, w)) R.fail(where() + "the undone state " + std::to_string(i) + " differs in " + w); } delete[] u; delete[] big.undo_update(k); }
      for (int i = 0; i < k; ++i) hist.pop_back(); depth -= k; M = hist.back().m; std::string w; if (!sameState(pos.get_current_position(), hist.back().p, w)) R.fail(where() + "undo does not restore " + w);
      undone += k; if (!R.ok) return R; continue;
    }
    if (l.rfind("grow ", 0) == 0) { int k = atoi(l.c_str() + 5); pos.grow_max_positions(k); if (k >= cap) cap = k; if (pos.get_max_positions() != cap) R.fail(where() + fmt("the capacity is %d, should be %d", pos.get_max_positions(), cap)); std::string w; if (!sameState(pos.get_current_position(), hist.back().p, w)) R.fail(where() + "growing the history changes " + w); if (!R.ok) return R; continue; }
    // run
    parsed_command cmd = parser.parse_gcode(l.c_str()); pos.update(cmd, line, line, line * 10); parsed_command cmd2 = parser.parse_gcode(l.c_str()); big.update(cmd2, line, line, line * 10);
    GLine g = parseLine(l); if (g.word == "T" || (g.word.size() > 1 && g.word[0] == 'T')) {}
    TModel before = M; int oldTool = M.tool; Machine& m = M.m; m.e = M.e[M.tool]; m.exec(g);
    bool noAxis = !g.has('X') && !g.has('Y') && !g.has('Z') && !g.has('E'), homeOnly = g.word == "G92" && g.has('O'); if (homeOnly) for (bool& h : M.homed) h = true; if (homeOnly && noAxis) { m = before.m; m.e = M.e[M.tool]; } // O: the axes count as homed
    bool isT = g.word.size() > 1 && g.word[0] == 'T' && isdigit((unsigned char)g.word[1]);
    if (isT) { long t = atol(g.word.c_str() + 1); if (!M.zero) --t; M.tool = (int)std::max(0L, std::min((long)M.n - 1, t)); if (M.tool != oldTool) { if (M.shared) { M.e[M.tool] = M.e[oldTool]; for (double v : M.r) if (v > 1e-9) M.flagsUnsure = true; } } }
    else M.e[M.tool] = m.e;
    auto given = [&](char L) { size_t z = g.code.find_last_not_of(" \t\r\n"); return g.has(L) && toupper((unsigned char)g.code[z]) != L; }; // a letter without a number sets nothing
    if (g.word == "G10" && given('P') ) { long t = std::lround(g.get('P')); if (!M.zero) --t; t = std::max(0L, std::min((long)M.n - 1, t)); if (given('X')) M.fw[t][0] = g.get('X'); if (given('Y')) M.fw[t][1] = g.get('Y'); if (given('Z')) M.fw[t][2] = g.get('Z'); }
    if (g.word == "M218" && given('T')) { long t = std::lround(g.get('T')); if (!M.zero) --t; t = std::max(0L, std::min((long)M.n - 1, t)); if (given('X')) M.fw[t][0] = g.get('X'); if (given('Y')) M.fw[t][1] = g.get('Y'); if (given('Z')) M.fw[t][2] = g.get('Z'); }
    bool mv = g.isMove() || g.isArc(); double dE = mv ? m.dE : 0; double rBefore = M.r[M.tool];
    if (dE != 0) M.r[M.tool] = std::max(0.0, M.r[M.tool] - dE);
    if (g.word == "G28") { bool all = !g.has('X') && !g.has('Y') && !g.has('Z'); const char L[3] = {'X', 'Y', 'Z'}; for (int i = 0; i < 3; ++i) if (all || g.has(L[i])) { M.homed[i] = true; if (home) { (i == 0 ? m.kx : i == 1 ? m.ky : m.kz) = true; (i == 0 ? m.x : i == 1 ? m.y : m.z) = i == 0 ? a.home_x : i == 1 ? a.home_y : a.home_z; M.unsure[i] = true; } } }
    if (g.word == "G92") { const char L[3] = {'X', 'Y', 'Z'}; bool none = noAxis && !homeOnly; for (int i = 0; i < 3; ++i) if (none || g.has(L[i])) M.unsure[i] = false; }
    if (mv && !m.rel) { const char L[3] = {'X', 'Y', 'Z'}; for (int i = 0; i < 3; ++i) if (g.has(L[i])) M.unsure[i] = false; }
    position p = pos.get_current_position(), q = big.get_current_position(), pv = pos.get_previous_position(); const extruder& ex = p.get_current_extruder();
    auto near = [](double u, double v) { return std::fabs(u - v) <= 1e-9 * (1 + std::fabs(u) + std::fabs(v)); };
    const char* AX = "XYZ"; double gx[3] = {p.get_gcode_x(), p.get_gcode_y(), p.get_gcode_z()}, mx[3] = {m.x, m.y, m.z}; bool pn[3] = {p.x_null, p.y_null, p.z_null}, mk[3] = {m.kx, m.ky, m.kz}; double px[3] = {p.x, p.y, p.z}, vx[3] = {pv.x, pv.y, pv.z}, bx[3] = {before.m.x, before.m.y, before.m.z}; bool bk[3] = {before.m.kx, before.m.ky, before.m.kz};
    for (int i = 0; i < 3 && R.ok; ++i) {
      if (pn[i] == mk[i]) R.fail(where() + AX[i] + (pn[i] ? " is unknown" : " is known, but should not be"));
      if (mk[i] && !M.unsure[i] && !near(gx[i], mx[i])) R.fail(where() + fmt("%c is %.9g, should be %.9g", AX[i], gx[i], mx[i]));
      if (mv) {
        bool abs = !m.rel && g.has(AX[i]); double nf = abs ? M.fw[M.tool][i] : M.fwAt[i];
        if (mk[i] && bk[i] && !before.unsure[i] && !near(px[i] - vx[i], (mx[i] - bx[i]) - (nf - M.fwAt[i]))) R.fail(where() + fmt("the machine moves %.9g in %c, should move %.9g", px[i] - vx[i], AX[i], mx[i] - bx[i] - (nf - M.fwAt[i])));
        if (abs) M.fwAt[i] = M.fw[M.tool][i];
      }
      else if (g.word != "G28" && mk[i] && bk[i] && std::fabs(px[i] - vx[i]) > 1e-12 && !(g.word == "G92" && !before.homed[i])) R.fail(where() + fmt("%c of the machine changes by %.9g without a move", AX[i], px[i] - vx[i]));
    }
    if (!R.ok) return R;
    if (p.x_homed != M.homed[0] || p.y_homed != M.homed[1] || p.z_homed != M.homed[2]) R.fail(where() + fmt("homed axes are %d %d %d, should be %d %d %d", p.x_homed, p.y_homed, p.z_homed, (int)M.homed[0], (int)M.homed[1], (int)M.homed[2]));
    if (p.current_tool != M.tool) R.fail(where() + fmt("tool is %d, should be %d", p.current_tool, M.tool));
    for (int t = 0; t < M.n; ++t) if ((t == M.tool || !M.shared) && !near(p.p_extruders[t].get_offset_e(), M.e[t])) R.fail(where() + fmt("E of tool %d is %.9g, should be %.9g", t, p.p_extruders[t].get_offset_e(), M.e[t]));
    if (!near(ex.e_relative, dE) ) R.fail(where() + fmt("the extrusion is %.12g, should be %.12g", ex.e_relative, dE));
    if (p.is_relative != m.rel) R.fail(where() + "the positioning mode is wrong"); if (p.is_extruder_relative != m.relE) R.fail(where() + "the extruder mode is wrong");
    if (p.f_null == m.kf || (m.kf && p.f != m.f)) R.fail(where() + fmt("F is %.9g, should be %.9g", p.f, m.f));
    if (p.file_line_number != line || p.gcode_number != line || p.file_position != line * 10) R.fail(where() + "line number or file position is wrong");
    if (mv && R.ok) {
      ++moves; bool travel = !g.has('E') && (g.has('X') || g.has('Y')); if (p.is_travel() != travel) R.fail(where() + (travel ? "is a travel move, but not reported as one" : "is reported as a travel move"));
      bool chg = false, chgxy = false; for (int i = 0; i < 3; ++i) { if (std::fabs(px[i] - vx[i]) > 1e-4) { chg = true; if (i < 2) chgxy = true; } if (mk[i] != bk[i]) chg = true; } if (std::fabs(dE) > 1e-5) chg = true;
      bool tiny = false; for (int i = 0; i < 3; ++i) { double d = std::fabs(px[i] - vx[i]); if (d > 1e-9 && d <= 1e-4) tiny = true; } if (std::fabs(dE) > 0 && std::fabs(dE) <= 1e-5) tiny = true;
      if (!tiny) { if (p.has_position_changed != chg) R.fail(where() + (chg ? "the change of position is not reported" : "a change of position is reported")); if (chgxy != p.has_xy_position_changed) R.fail(where() + "the change of XY is wrong"); }
      if (!M.flagsUnsure && R.ok && !tiny) {
        if (std::fabs(dE) > 1e-5 && std::fabs(dE - rBefore) > 1e-4) { // away from the point where a retraction is exactly undone
          bool exs = dE > rBefore, rets = dE < 0; if (ex.is_extruding != exs) R.fail(where() + (exs ? "should be extruding" : "should not be extruding") + fmt(" (E %.6g, retracted by %.6g)", dE, rBefore)); if (ex.is_retracting != rets) R.fail(where() + (rets ? "should be retracting" : "should not be retracting"));
          if (!near(ex.retraction_length, M.r[M.tool])) R.fail(where() + fmt("retraction is %.9g, should be %.9g", ex.retraction_length, M.r[M.tool]));
        } else if (dE == 0 && chg) { if (ex.is_extruding) R.fail(where() + "moves without extrusion, but is reported as extruding"); if (ex.is_retracting) R.fail(where() + "moves without extrusion, but is reported as retracting"); }
      }
    }
    std::string w; if (R.ok && !sameState(p, q, w)) R.fail(where() + "the size of the history changes " + w);
    if (!R.ok) return R;
    depth = std::min(depth + 1, cap - 1); hist.push_back({M, p});
    // older states are still those that were recorded
    for (int i = 1; i <= depth && i <= 3 && R.ok; ++i) if (!sameState(pos.get_position(i), hist[hist.size() - 1 - i].p, w)) R.fail(where() + fmt("the state %d updates ago has changed: ", i) + w);
  }
  R.nontrivial = moves >= 2; R.stat["moves"] += moves; R.stat["undone"] += undone; R.stat["commands"] += line; return R;
}

// ------------------------------------------------------------------ P32
static std::string dec3(long long v) { return fmt("%s%lld.%03lld", v < 0 ? "-" : "", std::llabs(v) / 1000, std::llabs(v) % 1000); }
static Case genP32(Rng& r) { // a print with layers, hops, retractions, tool changes and moves outside of the bounds; all numbers are whole thousandths
  Case c; c.seti("n", r.pick(std::vector<long long>{1, 1, 2, 3})); if (c.integer("n", 1) == 1) c.seti("shared", r.chance(0.5)); c.seti("buf", r.pick(std::vector<long long>{2, 5, 50})); c.seti("rele", r.chance(0.5)); c.seti("relx", r.chance(0.1)); c.seti("prime", r.chance(0.5) ? 0 : r.range(1, 12) * 100); c.seti("minh", r.chance(0.4) ? 0 : r.range(1, 8) * 50); c.seti("inc", r.chance(0.4) ? 0 : r.range(1, 20) * 50);
  for (int i = 0; i < 3; ++i) { c.seti("ret" + std::to_string(i), r.range(1, 40) * 100); c.seti("lift" + std::to_string(i), r.range(1, 12) * 50); }
  int b = (int)r.range(0, 2); c.seti("bound", b); c.seti("x0", r.range(-5, 20) * 1000); c.seti("x1", r.range(60, 220) * 1000); c.seti("y0", r.range(-5, 20) * 1000); c.seti("y1", r.range(60, 220) * 1000); c.seti("z0", 0); c.seti("z1", r.range(1, 20) * 1000);
  bool rel = c.integer("rele", 0) != 0; long long z = 200, e = 0, lh = r.pick(std::vector<long long>{100, 150, 200, 300}), ret = c.integer("ret0", 1000); auto E = [&](long long d) { e += d; return " E" + dec3(rel ? d : e); }; auto xy = [&] { long long m = r.chance(0.9) ? 60000 : 230000; return " X" + dec3(r.range(0, m)) + " Y" + dec3(r.range(0, m)); };
  c.lines.push_back("G90"); c.lines.push_back("G1" + xy() + " Z" + dec3(r.chance(0.5) ? 0 : r.range(1, 30) * 100) + " F3000"); int n = (int)r.range(2, r.chance(0.3) ? 80 : 25); long long out = 0;
  for (int i = 0; i < n; ++i) {
    int k = (int)r.range(0, 19); std::string l;
    if (k < 7) l = "G1" + xy() + E(r.range(1, 3000)); else if (k == 7) { z += lh * r.pick(std::vector<long long>{1, 1, 1, 2}); l = "G1 Z" + dec3(z); }
    else if (k == 8) { l = "G1 Z" + dec3(z + r.range(0, 14) * 50) + (r.chance(0.3) ? xy() : ""); } else if (k == 9) l = "G1 Z" + dec3(z); else if (k == 10 || k == 11) { long long d = r.chance(0.6) ? ret : r.range(1, 4000); out += d; l = "G1" + E(-d) + (r.chance(0.2) ? xy() : ""); }
    else if (k == 12 || k == 13) { long long d = r.chance(0.6) && out > 0 ? out : r.range(1, 3000); out -= std::min(out, d); l = "G1" + E(d) + (r.chance(0.2) ? xy() : ""); } else if (k == 14) l = "G0" + xy(); else if (k == 15) { l = "T" + std::to_string(r.range(0, 2)); if (c.integer("n", 1) > 1 && !rel) { c.lines.push_back(l); l = "G92 E" + dec3(e); } }
    else if (k == 16) { l = "G92 E0"; e = 0; } else if (k == 17) l = r.pick(std::vector<std::string>{"; layer", "M106 S255", "", "G4 P1", "M117 E5", "FOO"}); else if (k == 18) { z = std::max(0LL, z - lh); l = "G1 Z" + dec3(z); } else { z += lh; l = "G1" + xy() + " Z" + dec3(z) + E(r.range(1, 500)); }
    c.lines.push_back(l);
  }
  return c;
}
struct LModel { long long R[3] = {0, 0, 0}, L[3] = {0, 0, 0}, D[3] = {0, 0, 0}, tot[3] = {0, 0, 0}; bool exs[3] = {false, false, false}, start[3] = {false, false, false}, ret[3] = {false, false, false}, der[3] = {false, false, false}; long long last = 0, height = 0; bool lastKnown = false, primed = false, inside = true, hop = false; int layer = 0, inc = 0, incs = 0; };
static Result p32(const Case& c) {
  Result R; int n = (int)std::max(1LL, std::min(3LL, c.integer("n", 1))); gcode_position_args a; a.position_buffer_size = (int)std::max(2LL, std::min(1000LL, c.integer("buf", 50))); a.shared_extruder = n == 1 && c.integer("shared", 0) != 0; a.autodetect_position = false; a.home_x_none = a.home_y_none = a.home_z_none = true; a.xyz_axis_default_mode = c.integer("relx", 0) ? "relative" : "absolute"; a.e_axis_default_mode = c.integer("rele", 0) ? "relative" : "absolute";
  a.set_num_extruders(n); long long ret[3], lift[3]; for (int i = 0; i < 3; ++i) { ret[i] = std::max(1LL, c.integer("ret" + std::to_string(i), 1000)); lift[i] = std::max(1LL, c.integer("lift" + std::to_string(i), 500)); } for (int i = 0; i < n; ++i) { a.retraction_lengths[i] = ret[i] / 1000.0; a.z_lift_heights[i] = lift[i] / 1000.0; }
  long long prime = c.integer("prime", 0), minh = c.integer("minh", 0), hinc = c.integer("inc", 0); a.priming_height = prime / 1000.0; a.minimum_layer_height = minh / 1000.0; a.height_increment = hinc / 1000.0; int bound = (int)c.integer("bound", 0); long long B[6] = {c.integer("x0", 0), c.integer("x1", 100000), c.integer("y0", 0), c.integer("y1", 100000), c.integer("z0", 0), c.integer("z1", 100000)};
  a.is_bound_ = bound > 0; a.is_circular_bed = bound == 2; a.snapshot_x_min = B[0] / 1000.0; a.snapshot_x_max = B[1] / 1000.0; a.snapshot_y_min = B[2] / 1000.0; a.snapshot_y_max = B[3] / 1000.0; a.snapshot_z_min = B[4] / 1000.0; a.snapshot_z_max = B[5] / 1000.0;
  gcode_position_args copied(a), assigned; assigned = copied; gcode_position pos(assigned); gcode_parser parser; LModel M; std::vector<double> ePos(3, 0); Machine m; m.rel = c.integer("relx", 0) != 0; m.relE = c.integer("rele", 0) != 0; int tool = 0; long line = 0; int extrusions = 0, layers = 0, hops = 0;
  for (auto& l : c.lines) {
    ++line; auto where = [&] { return fmt("after line %ld '", line) + l + "': "; }; GLine g = parseLine(l); bool isT = g.word.size() > 1 && g.word[0] == 'T' && isdigit((unsigned char)g.word[1]);
    m.e = ePos[tool]; m.exec(g); if (isT) tool = (int)std::min((long)n - 1, atol(g.word.c_str() + 1)); else ePos[tool] = m.e;
    parsed_command cmd = parser.parse_gcode(l.c_str()); pos.update(cmd, line, line, line); position p = pos.get_current_position(), v = pos.get_previous_position(); const extruder& x = p.get_current_extruder(); bool layerChange = false, incChange = false;
    if (g.isMove() || g.isArc()) {
      if (!(m.kx && m.ky && m.kz)) { R.discard = true; return R; }
      auto mil = [](double d) { return std::llround(d * 1000); }; long long X = mil(m.x), Y = mil(m.y), Z = mil(m.z), dE = mil(m.dE); if (std::fabs(m.x * 1000 - X) > 1e-3 || std::fabs(m.y * 1000 - Y) > 1e-3 || std::fabs(m.z * 1000 - Z) > 1e-3 || std::fabs(m.dE * 1000 - dE) > 1e-3) { R.discard = true; return R; }
      bool changed = dE != 0 || !m.pkx || !m.pky || !m.pkz || X != mil(m.px) || Y != mil(m.py) || Z != mil(m.pz);
      if (changed) {
        int t = tool; bool wasEx = M.exs[t], wasRet = M.ret[t]; long long r0 = M.R[t]; M.tot[t] += dE; M.R[t] = std::max(0LL, r0 - dE); M.L[t] = std::max(0LL, dE - r0); M.D[t] = std::max(0LL, r0 - M.R[t]); M.exs[t] = M.L[t] > 0; M.start[t] = M.exs[t] && !wasEx; M.ret[t] = M.R[t] > r0; bool deretracted = r0 > 0 && M.R[t] == 0;
        if (M.exs[t]) ++extrusions;
        if (bound == 1) M.inside = X >= B[0] && X <= B[1] && Y >= B[2] && Y <= B[3] && Z >= B[4] && Z <= B[5]; else if (bound == 2) { double d = std::hypot(m.x, m.y) - B[1] / 1000.0; if (std::fabs(d) < 1e-4) { R.discard = true; return R; } M.inside = d < 0; }
        if (Z > M.last && (M.exs[t] || (M.layer > 0 && deretracted))) {
          if (prime == 0 || Z < prime) M.primed = true;
          if (M.primed && M.inside) { M.last = Z; M.lastKnown = true; if (Z >= M.height + minh) { M.height = Z; ++M.layer; layerChange = true; ++layers; if (hinc > 0) { int k = (int)(Z / hinc); if (k > M.inc && k > 1) { M.inc = k; incChange = true; ++M.incs; } } } }
        }
        M.hop = !M.exs[t] && M.lastKnown && Z > M.last && Z - M.last >= lift[t]; if (M.hop) ++hops;
        auto near = [](double u, long long w) { return std::fabs(u - w / 1000.0) < 1e-7; };
        if (!near(x.extrusion_length, M.L[t])) R.fail(where() + fmt("the extruded length is %.9g, should be %.3f", x.extrusion_length, M.L[t] / 1000.0));
        if (!near(x.retraction_length, M.R[t])) R.fail(where() + fmt("the retracted length is %.9g, should be %.3f", x.retraction_length, M.R[t] / 1000.0));
        if (!near(x.deretraction_length, M.D[t])) R.fail(where() + fmt("the deretracted length is %.9g, should be %.3f", x.deretraction_length, M.D[t] / 1000.0));
        auto flag = [&](bool got, bool want, const char* what) { if (got != want) R.fail(where() + (want ? "should be " : "should not be ") + what); };
        flag(x.is_extruding, M.exs[t], "extruding"); flag(x.is_extruding_start, M.start[t], "the start of an extrusion"); flag(x.is_retracting, M.ret[t], "retracting"); flag(x.is_retracted, M.R[t] >= ret[t], "retracted"); flag(x.is_partially_retracted, M.R[t] > 0 && M.R[t] < ret[t], "partially retracted"); flag(x.is_deretracted, deretracted, "deretracted"); flag(x.is_primed, M.L[t] == 0 && M.R[t] == 0, "primed"); flag(x.is_deretracting, M.D[t] > 0, "deretracting"); flag(x.is_deretracting_start, M.D[t] > 0 && !M.der[t], "the start of a deretraction"); flag(x.is_retracting_start, M.ret[t] && !wasRet, "the start of a retraction");
        M.der[t] = M.D[t] > 0;
      }
    }
    for (int t = 0; t < n && R.ok; ++t) if (std::fabs(p.p_extruders[t].extrusion_length_total - M.tot[t] / 1000.0) > 1e-6) R.fail(where() + fmt("the total extrusion of tool %d is %.9g, should be %.3f", t, p.p_extruders[t].extrusion_length_total, M.tot[t] / 1000.0)); else if (std::fabs(p.p_extruders[t].retraction_length - M.R[t] / 1000.0) > 1e-7) R.fail(where() + fmt("the retracted length of tool %d is %.9g, should be %.3f", t, p.p_extruders[t].retraction_length, M.R[t] / 1000.0));
    auto num = [&](double got, double want, const char* what) { if (std::fabs(got - want) > 1e-9) R.fail(where() + what + fmt(" is %.9g, should be %.9g", got, want)); };
    num(p.layer, M.layer, "the layer"); num(p.is_layer_change, layerChange, "the change of layer"); num(p.height, M.height / 1000.0, "the height"); num(p.last_extrusion_height, M.last / 1000.0, "the height of the last extrusion"); num(p.last_extrusion_height_null, !M.lastKnown, "the absence of an extrusion"); num(p.is_printer_primed, M.primed, "the primed state"); num(p.is_in_bounds, M.inside, "the state of being within the bounds"); num(p.is_zhop, M.hop, "the state of a lift"); num(p.height_increment, M.inc, "the number of the height increment"); num(p.height_increment_change_count, M.incs, "the number of height increments"); num(p.is_height_increment_change, incChange, "the change of height increment");
    if (!R.ok) return R;
  }
  R.nontrivial = layers >= 1 && extrusions >= 2; R.stat["layers"] += layers; R.stat["extrusions"] += extrusions; R.stat["lifts"] += hops; return R;
}

// ------------------------------------------------------------------ P12
static Case genP12(Rng& r) {
  Case c; int n = (int)r.range(1, 20);
  for (int i = 0; i < n; ++i) {
    int p = (int)(r.chance(0.9) ? r.range(0, 6) : r.chance(0.7) ? r.range(7, 20) : r.range(21, 255)); double v; int k = (int)r.range(0, 13);
    if (k < 3) v = r.real(-1, 1) * r.logreal(1e-6, 1e8);
    else if (k == 3) v = (double)r.range(-100000000, 100000000) / std::pow(10.0, (double)r.range(0, 8));
    else if (k == 4) { double s = std::pow(10.0, p > 15 ? 3 : p); v = ((double)r.range(-2000000, 2000000) + 0.5) / s; }         // ties
    else if (k == 5) { double s = std::pow(10.0, (double)r.range(-6, 9)); v = s - r.real(0, 1) * std::pow(10.0, -(double)r.range(0, 12)) * s; } // 9.99..
    else if (k == 6) { uint64_t b = r.next(); memcpy(&v, &b, 8); if (!std::isfinite(v)) v = 0; }
    else if (k == 7) v = r.pick(std::vector<double>{0, -0.0, 1, -1, 0.5, 0.05, 0.0005, 0.00005, 9.5, 99.5, 999.9995, 0.9999995, 1e7, 9999999.9999999, 1e22, 1e300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 123456.5, 0.1, 0.3, 1.0 / 3, 1e-4, 9.99e-5, 0.00009999, 1e-5, 4.9999e-6});
    else if (k == 8) { v = r.pick(std::vector<double>{1, 10, 100, 1000, 10000, 100000, 1e6, 1e7, 0.1, 0.01, 0.001, 1e-4}); for (long long s = r.range(0, 3); s > 0; --s) v = std::nextafter(v, r.chance(0.5) ? 1e308 : -1e308); }
    else if (k == 9) { double s = std::pow(10.0, p > 15 ? 3 : p); v = ((double)r.range(0, 2000000) + 0.5) / s; for (long long q = r.range(0, 3); q > 0; --q) v = std::nextafter(v, r.chance(0.5) ? 1e308 : 0); }
    else if (k == 10) v = std::ldexp((double)r.range(1, 1000), (int)r.range(-40, 40));
    else if (k == 11) v = (double)(float)r.real(-500, 500);
    else v = r.real(-300, 300);
    if (r.chance(0.3)) v = -v;
    c.lines.push_back(fmt("%d %a", p, v));
  }
  return c;
}
// exact decimal digits with 1100 places after the point, most significant first, of a plain decimal text
static std::string exactDigits(const std::string& s, size_t intDigits) { size_t i = s[0] == '-' ? 1 : 0, dot = s.find('.'); std::string ip = s.substr(i, (dot == std::string::npos ? s.size() : dot) - i), fp = dot == std::string::npos ? "" : s.substr(dot + 1); if (fp.size() > 1100) fp.resize(1100); fp.append(1100 - fp.size(), '0'); if (ip.size() < intDigits) ip.insert(0, intDigits - ip.size(), '0'); return ip + fp; }
static std::string absDiff(std::string a, std::string b) { if (a < b) std::swap(a, b); int borrow = 0; for (size_t i = a.size(); i-- > 0;) { int d = a[i] - b[i] - borrow; borrow = d < 0; if (d < 0) d += 10; a[i] = (char)('0' + d); } return a; }
static std::string addDig(std::string a, const std::string& b) { int carry = 0; for (size_t i = a.size(); i-- > 0;) { int d = a[i] - '0' + b[i] - '0' + carry; carry = d > 9; a[i] = (char)('0' + d % 10); } return a; }
static std::string plain(double v) { std::vector<char> b(1600); snprintf(b.data(), b.size(), "%.1100f", v); return b.data(); }
static Result p12(const Case& c) {
  Result R; long long ties = 0;
  for (auto& l : c.lines) {
    int p = 0; char* e = nullptr; p = (int)strtol(l.c_str(), &e, 10); if (!e || p < 0 || p > 255 || *e != ' ') { R.discard = true; return R; } double v = strtod(e, nullptr); if (!std::isfinite(v)) { R.discard = true; return R; }
    std::string s = utilities::dtos(v, (unsigned char)p), again = utilities::dtos(v, (unsigned char)p); auto show = [&] { return fmt("%.17g with %d decimals is written '", v, p) + escape(s.substr(0, 80)) + "': "; };
    if (s != again) R.fail(show() + "and as something else the second time");
    size_t i = 0; if (i < s.size() && s[i] == '-') ++i; size_t b = i; while (i < s.size() && isdigit((unsigned char)s[i])) ++i; size_t ni = i - b; bool form = ni > 0; if (v == 0 && i == s.size() && s[i - 1] == '0' && ni == 1) {} else if (p > 0) { if (i < s.size() && s[i] == '.') { ++i; size_t f = i; while (i < s.size() && isdigit((unsigned char)s[i])) ++i; if (i - f != (size_t)p) form = false; } else form = false; } if (i != s.size()) form = false;
    if (!form) { R.fail(show() + "not plain decimal text with that many decimals"); return R; }
    if (ni > 1 && s[b] == '0') R.fail(show() + "leading zeros");
    bool zero = s.find_first_of("123456789") == std::string::npos; if (!zero && (s[0] == '-') != (v < 0)) R.fail(show() + "wrong sign");
    std::string ex = plain(std::fabs(v)); size_t id = std::max(ex.find('.'), ni) + 1; std::string X = exactDigits(ex, id), T = exactDigits(s, id), D = absDiff(X, T);
    double ulp = std::nextafter(std::fabs(v), 1.0 / 0.0) - std::fabs(v); if (!std::isfinite(ulp)) ulp = std::fabs(v) - std::nextafter(std::fabs(v), 0.0);
    std::string H = std::string(id, '0') + std::string(1100, '0'); H[id + p] = '5'; std::string lim = addDig(H, exactDigits(plain(ulp), id)); // half a unit, plus the rounding of the double itself
    if (D > lim) R.fail(show() + "further than half a unit from the number");
    if (D > H) ++ties;
    // digits before the point, as used for the length limit
    if (p <= 6 && std::fabs(v) < 1e15) { double sc = std::fabs(v) * std::pow(10.0, p), fr = sc - std::floor(sc); bool nearTie = std::fabs(fr - 0.5) < 1e-4 + sc * 1e-14; int nd = utilities::get_num_digits(v, p); if (nd != (int)ni && !nearTie) R.fail(show() + fmt("the digit count is %d", nd)); }
    { double t = std::trunc(v); if (std::fabs(t) < 1e15) { int nd = utilities::get_num_digits(t); std::string q = fmt("%.0f", std::fabs(t)); if (nd != (int)q.size()) R.fail(fmt("the digit count of %.0f is %d", t, nd)); } if (std::fabs(v) < 2e9) { int iv = (int)v; if (utilities::get_num_digits(iv) != (int)std::to_string(std::abs((long)iv)).size()) R.fail(fmt("the digit count of %d is %d", iv, utilities::get_num_digits(iv))); if (utilities::to_string(iv) != std::to_string(iv)) R.fail(fmt("%d is written '%s'", iv, utilities::to_string(iv).c_str())); } }
    if (!R.ok) return R; R.nontrivial = true; R.stat["numbers"]++;
  }
  R.stat["double_rounding"] += ties; return R;
}

// ------------------------------------------------------------------ P18
static Case genP18(Rng& r) {
  Case c; c.set("kind", r.pick(std::vector<std::string>{"ring", "list", "grow"})); c.seti("cap", r.chance(0.1) ? 0 : r.pick(std::vector<long long>{1, 2, 3, 4, 5, 7, 8, 16})); c.seti("cap2", r.pick(std::vector<long long>{1, 2, 3, 5, 9}));
  int n = (int)r.range(1, r.chance(0.3) ? 250 : 40); double fill = r.real(0.3, 0.7); int id = 0;
  for (int i = 0; i < n; ++i) {
    std::string o = r.chance(0.8) ? "a " : "b "; int k = (int)r.range(0, 99);
    if (k < 80) { bool push = r.chance(fill); o += (push ? "push" : "pop") + std::string(r.chance(0.5) ? "f" : "b"); if (push) o += " " + std::to_string(++id); }
    else if (k < 88) o += "grow " + std::to_string(r.range(0, 5)); else if (k < 94) o += "copy"; else if (k < 96) o += "clear"; else if (k < 98) o += "init " + std::to_string(++id); else o += "growi " + std::to_string(r.range(0, 5));
    c.lines.push_back(o); if (r.chance(0.03)) fill = r.real(0.2, 0.8);
  }
  return c;
}
template <class T> struct Acc; // uniform access to the two containers
template <class T> struct IsRing { static const bool v = false; };
template <> struct IsRing<circular_buffer<std::string>> { static const bool v = true; };
template <class C, bool ring> struct Ops { static void initialize(C& c, const std::string& s) { c.clear(); } static void growi(C& c, int n, const std::string&) { c.resize(n); } };
template <class C> struct Ops<C, true> { static void initialize(C& c, const std::string& s) { c.initialize(s); } static void growi(C& c, int n, const std::string& s) { c.resize(n, s); } };
template <class C> static void runDeque(const Case& c, Result& R, bool growing) {
  constexpr bool ring = IsRing<C>::v; long long cap0 = c.integer("cap", 4), cap1 = c.integer("cap2", 3); if (growing) cap0 = 0; // default constructor
  C* box[2]; box[0] = cap0 <= 0 ? new C() : new C((int)cap0); box[1] = new C((int)std::max(1LL, cap1)); std::deque<std::string> ref[2]; int cap[2] = {cap0 <= 0 ? 50 : (int)cap0, (int)std::max(1LL, cap1)}; bool gr[2] = {!ring && cap0 <= 0, false}; int wraps = 0, n = 0;
  auto val = [](const std::string& s) { return "item " + s + " with a text that does not fit into a small buffer"; };
  for (auto& l : c.lines) {
    ++n; if (l.size() < 3) { R.discard = true; break; } int w = l[0] == 'b'; C& q = *box[w]; auto& d = ref[w]; std::string op = l.substr(2), arg; size_t sp = op.find(' '); if (sp != std::string::npos) { arg = op.substr(sp + 1); op = op.substr(0, sp); } auto where = [&] { return fmt("step %d '", n) + l + "': "; };
    bool full = (int)d.size() == cap[w], threw = false; std::string got;
    if (op == "pushf" || op == "pushb") {
      bool f = op == "pushf"; try { if (f) q.push_front(val(arg)); else q.push_back(val(arg)); } catch (const std::exception&) { threw = true; }
      bool refuse = !ring && full && !gr[w]; if (threw != refuse) { R.fail(where() + (threw ? "refused" : "accepted by a full list")); break; }
      if (!threw) { if (full && !ring) { cap[w] *= 2; ++wraps; } if (f) d.push_front(val(arg)); else d.push_back(val(arg)); if (ring && full) { ++wraps; if (f) d.pop_back(); else d.pop_front(); } }
    } else if (op == "popf" || op == "popb") {
      bool f = op == "popf"; try { got = f ? q.pop_front() : q.pop_back(); } catch (const std::exception&) { threw = true; }
      if (threw != d.empty()) { R.fail(where() + (threw ? "refused, although there are items" : "an item is taken from an empty container")); break; }
      if (!threw) { std::string e = f ? d.front() : d.back(); if (f) d.pop_front(); else d.pop_back(); if (got != e) { R.fail(where() + "gives '" + got + "', should give '" + e + "'"); break; } }
    } else if (op == "grow") { cap[w] = std::max(cap[w], (int)d.size()) + atoi(arg.c_str()); q.resize(cap[w]); if (d.size() > 1) ++wraps; }
    else if (op == "growi") { cap[w] += atoi(arg.c_str()); Ops<C, ring>::growi(q, cap[w], val("fill")); }
    else if (op == "copy") { q.copy(*box[1 - w]); cap[w] = std::max(cap[w], cap[1 - w]); d = ref[1 - w]; }
    else if (op == "clear") { q.clear(); d.clear(); }
    else if (op == "init") { Ops<C, ring>::initialize(q, val(arg)); d.clear(); }
    else { R.discard = true; break; }
    for (int k = 0; k < 2 && R.ok; ++k) {
      if (box[k]->count() != (int)ref[k].size()) R.fail(where() + fmt("%d items, should be %zu", box[k]->count(), ref[k].size()));
      if (box[k]->get_max_size() != cap[k]) R.fail(where() + fmt("capacity %d, should be %d", box[k]->get_max_size(), cap[k]));
      for (int i = 0; R.ok && i < (int)ref[k].size(); ++i) { if ((*box[k])[i] != ref[k][i]) R.fail(where() + fmt("item %d is '", i) + (*box[k])[i] + "', should be '" + ref[k][i] + "'"); else if (box[k]->get(i) != ref[k][i]) R.fail(where() + "get() differs from []"); }
    }
    if (!R.ok) break;
  }
  delete box[0]; delete box[1]; R.nontrivial = wraps > 0; R.stat["steps"] += n; R.stat["overflows_and_growths"] += wraps;
}
static Result p18(const Case& c) { Result R; std::string k = c.get("kind", "ring"); if (k == "ring") runDeque<circular_buffer<std::string>>(c, R, false); else runDeque<array_list<std::string>>(c, R, k == "grow"); return R; }

Registrar a10({"P10", "lines built from known pieces (command word in any spelling, parameters in any number form, text, junk, comment); non-trivial: the line has parameters, a comment, or text that is no command", genP10, p10, true, 20000, 400000});
Registrar a11({"P11", "random command histories with undo and growth of the history; non-trivial: at least two moves were tracked", genP11, p11, true, 5000, 100000});
Registrar a32({"P32", "prints with layers, lifts, retractions, tool changes and moves outside of the bounds; non-trivial: a layer was started and two moves extruded", genP32, p32, true, 5000, 100000});
Registrar a12({"P12", "numbers of every magnitude, ties and neighbours of powers of ten, 0-255 decimals; non-trivial: every case", genP12, p12, true, 5000, 100000});
Registrar a18({"P18", "random operation sequences on two ring buffers or lists; non-trivial: the ring was full and wrapped, or the list grew", genP18, p18, true, 10000, 200000});
} // namespace vh
