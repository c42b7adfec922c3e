// libFuzzer: first bytes choose the options, the rest is the file.
#include "core.hpp"
#include "machine.hpp"
#include "weld.hpp"
namespace vh {
std::vector<Property>& registry() { static std::vector<Property> r; return r; }
const std::string& scratch() { static std::string s = [] { const char* e = getenv("VH_SCRATCH"); return std::string(e ? e : "/tmp"); }(); return s; }
bool writeFile(const std::string& p, const std::string& d) { FILE* f = fopen(p.c_str(), "wb"); if (!f) return false; size_t n = fwrite(d.data(), 1, d.size(), f); return fclose(f) == 0 && n == d.size(); }
bool readFile(const std::string& p, std::string& d) { FILE* f = fopen(p.c_str(), "rb"); if (!f) return false; d.clear(); char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) d.append(b, n); fclose(f); return true; }
}
using namespace vh;
static void bad(const std::string& m) { fprintf(stderr, "\nORACLE %s\n", m.c_str()); abort(); }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  if (size < 4) return 0; WeldCfg w; uint32_t o = data[0] | data[1] << 8 | data[2] << 16 | (uint32_t)data[3] << 24; auto take = [&](int n) { int v = o % n; o /= n; return v; };
  w.d3 = take(2); w.travel = take(2); w.dyn = take(2); w.g90e = take(2); static const double res[] = {0.05, 0.01, 0.2, 1, 1e-6, 100}, pt[] = {0.05, 0.001, 0.99}, mr[] = {9999, 10, 1e6}, er[] = {0, 0.05, 0.5}; static const int ml[] = {0, 31, 45, 70}, bf[] = {50, 2, 1, 3};
  w.res = res[take(6)]; w.ptol = pt[take(3)]; w.maxr = mr[take(3)]; w.erv = er[take(3)]; w.maxlen = ml[take(4)]; w.buf = bf[take(4)]; w.xp = 3 + take(4); w.ep = 3 + take(4); if (take(4) == 1) { w.mmas = 1; w.mas = 14; } w.period = -1;
  std::string text((const char*)data + 4, size - 4); WeldRun a = weldText(w, text); if (!a.r.success || !a.read) bad("welding fails: " + a.r.message); WeldRun b = weldText(w, text); if (a.out != b.out) bad("two runs differ"); return 0;
}
