// libFuzzer: first bytes choose firmware and options, the rest is the file.
#include "core.hpp"
#include "machine.hpp"
#include "straight.hpp"
namespace vh {
std::vector<Property>& registry() { static std::vector<Property> r; return r; }
const std::string& scratch() { static std::string s = [] { const char* e = getenv("VH_SCRATCH"); return std::string(e ? e : "/tmp"); }(); return s; }
bool writeFile(const std::string& p, const std::string& d) { FILE* f = fopen(p.c_str(), "wb"); if (!f) return false; size_t n = fwrite(d.data(), 1, d.size(), f); return fclose(f) == 0 && n == d.size(); }
bool readFile(const std::string& p, std::string& d) { FILE* f = fopen(p.c_str(), "rb"); if (!f) return false; d.clear(); char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) d.append(b, n); fclose(f); return true; }
}
using namespace vh;
static void bad(const std::string& m) { fprintf(stderr, "\nORACLE %s\n", m.c_str()); abort(); }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  if (size < 4) return 0; uint32_t o = data[0] | data[1] << 8 | data[2] << 16 | (uint32_t)data[3] << 24; auto take = [&](int n) { int v = o % n; o /= n; return v; };
  std::string text((const char*)data + 4, size - 4); int arcs = 0; for (size_t i = text.find_first_of("gG"); i != std::string::npos; i = text.find_first_of("gG", i + 1)) { size_t k = i + 1; while (k < text.size() && (text[k] == ' ' || text[k] == '0')) ++k; if (k < text.size() && (text[k] == '2' || text[k] == '3')) ++arcs; } if (arcs > 3) return 0;
  Case c; c.seti("fw", take(8)); const FwSpec& s = fwSpecs()[(size_t)c.integer("fw", 0)]; static const double d[] = {1, 0.1, 5, 0, 0.5}; static const int n[] = {0, 1, 24, 72, 5};
  for (auto& a : s.args) { if (!take(3)) continue; if (a == "ncorr" || a == "minarc" || a == "mincirc") c.seti(a, n[take(5)]); else if (a == "g90e") c.seti(a, take(2)); else c.set(a, d[take(5)]); }
  FwCfg f = FwCfg::of(c); firmware_arguments a = fwArgs(f, c); StrRun x = straighten(a, text); if (!x.ok || !x.read) bad("straightening fails"); StrRun y = straighten(a, text); if (x.out != y.out) bad("two runs differ"); return 0;
}
