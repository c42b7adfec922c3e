// Damaged and extreme inputs made from well-formed programs.
#pragma once
#include "core.hpp"

namespace vh {
inline std::string oddNumber(Rng& r) {
  static const std::vector<std::string> v{"", "-", ".", "-.", "+", "+5", "--5", "5-", "1.2.3", ".5", "5.", "-.5.5", "0", "-0", "00", "1e5", "1E-3", "0x10", "nan", "inf", "99999999999999999999", "-99999999999999999999", "2147483647", "2147483648", "4294967296", "-2147483649", "18446744073709551616", "0.00000000000000000001", "0.0005", "0.00049999", "999999.9996", "1.0000000000000000000000000001", "340282366920938463463374607431768211456", "1,5", "1 000", "1_0"};
  if (r.chance(0.1)) return std::string((size_t)r.range(1, 420), (char)('0' + r.range(0, 9))); if (r.chance(0.1)) return "0." + std::string((size_t)r.range(1, 400), '0') + "1"; if (r.chance(0.2)) return fmt("%.17g", (r.chance(0.5) ? -1 : 1) * std::pow(10.0, r.real(-30, 30))); if (r.chance(0.2)) return fmt("%.*f", (int)r.range(0, 12), r.real(-1e6, 1e6)); return r.pick(v);
}
inline std::vector<std::string> mangle(Rng& r, std::vector<std::string> l, bool bytes = true) {
  static const std::vector<std::string> extra{"G92", "G92 E0", "G92 X0 Y0 Z0 E0", "G28", "G28 X", "G90", "G91", "M82", "M83", "T0", "T1", "T7", "T8", "T9", "T255", "T-1", "T", "T?", "T1T2", "G10 P1 X5 Y5", "G10 P9 X5", "G10 P-1 X1", "M218 T1 X3", "M218 T99 X1", "G10", "G11", "M117", "M117 hello;x", "@PAUSE", "@", "G2", "G3", "G2 X10 Y10 I5 J0", "G3 X1 R5", "G2 I0 J0", "G3 X0 Y0 I0.0001 J0 E1", "G0", "G1", "G01 X1", "G1.1 X5", "M104.5", "G1000000000000 X1", "M99999999999", "G-1", "N5 G1 X1*55", "O1000", "(comment)", "%", ";", ";;", " ; x", "\t", "G1 X1 X2 X3", "g1 x5y5e5", "G1X5Y5E5F5", "G 1 X 5", "M20", "G20", "G21", "G17", "G18", "M206 X5", "; FLAVOR:UltiGCode", ";FLAVOR:UltiGCode", "G80", "G4 P100", "M109 S200", "T0 T1", "G1 F0", "G1 F-5", "G1 F1e9", "M400"};
  int n = (int)r.range(1, 12); for (int q = 0; q < n; ++q) {
    size_t i = l.empty() ? 0 : (size_t)r.range(0, (long long)l.size() - 1); if (l.empty()) { l.push_back(r.pick(extra)); continue; } std::string& s = l[i];
    switch (r.range(0, bytes ? 11 : 8)) {
      case 0: case 1: case 2: { std::vector<size_t> at; for (size_t k = 0; k < s.size(); ++k) if (isalpha((unsigned char)s[k]) && k + 1 < s.size() && (isdigit((unsigned char)s[k + 1]) || s[k + 1] == '-' || s[k + 1] == '.')) at.push_back(k); if (at.empty()) { s += " X" + oddNumber(r); break; } size_t k = r.pick(at), e = k + 1; while (e < s.size() && (isdigit((unsigned char)s[e]) || s[e] == '.' || s[e] == '-')) ++e; s = s.substr(0, k + 1) + oddNumber(r) + s.substr(e); break; }
      case 3: l.insert(l.begin() + (long)i, r.pick(extra)); break; case 4: l.insert(l.begin() + (long)i, l[(size_t)r.range(0, (long long)l.size() - 1)]); break; case 5: s = s.substr(0, (size_t)r.range(0, (long long)s.size())); break;
      case 6: l.erase(l.begin() + (long)i); break; case 7: s += std::string(" ") + "XYZEFIJRKSPT"[r.range(0, 11)] + oddNumber(r); break; case 8: { size_t k = (size_t)r.range(0, (long long)s.size()); s.insert(k, std::string((size_t)r.logreal(1, 3000), " ;XG1-.\t0"[r.range(0, 8)])); break; }
      case 9: { size_t k = (size_t)r.range(0, (long long)s.size()); std::string b; int m = (int)r.range(1, 6); for (int z = 0; z < m; ++z) { char ch = (char)r.range(0, 255); if (ch != '\n') b += ch; } s.insert(k, b); break; }
      case 10: if (!s.empty()) { char ch = (char)r.range(0, 255); if (ch != '\n') s[(size_t)r.range(0, (long long)s.size() - 1)] = ch; } break; default: s += r.chance(0.5) ? "\r" : std::string(1, '\0'); } }
  return l;
}
} // namespace vh
