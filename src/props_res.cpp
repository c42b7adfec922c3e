// P29: a conversion needs bounded memory and linear time, and gives back what it took.
#include "core.hpp"
#include "machine.hpp"
#include "weld.hpp"
#include "gen.hpp"
#include "straight.hpp"
#include "strgen.hpp"
#include <atomic>
#include <dirent.h>
#include <malloc.h>
#include <new>
#include <time.h>

// every allocation of the process is counted
static std::atomic<long long> g_live{0}, g_peak{0}, g_blocks{0};
static void* take(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); long long l = g_live += (long long)malloc_usable_size(p); ++g_blocks; if (l > g_peak) g_peak = l; return p; }
static void give(void* p) { if (!p) return; g_live -= (long long)malloc_usable_size(p); --g_blocks; free(p); }
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p); }

namespace vh {
static int g_stopAt, g_calls; static bool stopCall(arc_welder_progress, logger*, int) { return !(g_stopAt && ++g_calls >= g_stopAt); }
struct Use { long long peak = 0, live = 0, blocks = 0, fds = 0; double cpu = 0; bool ok = false; int arcs = 0; };
static long long openFiles() { long long n = 0; if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); } return n; }
static double cpuNow() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
// one conversion: its peak above the level before, and what is left of it afterwards
static Use convert(const Case& c, const std::string& src, const std::string& dst) {
  Use u; long long l0 = g_live, b0 = g_blocks, f0 = openFiles(); g_peak = l0; double t0 = cpuNow();
  if (c.get("tool") == "str") { Silence s; arc_interpolation_args g; g.firmware_args = fwArgs(FwCfg::of(c), c); g.source_path = src; g.target_path = dst; arc_interpolation i(g); u.ok = i.process(); }
  else { WeldCfg w = WeldCfg::of(c); g_stopAt = (int)c.integer("stop", 0); g_calls = 0; if (g_stopAt) w.period = -1; Silence s; arc_welder a(weldArgs(w, src, dst, nullptr, stopCall)); arc_welder_results r = a.process(); u.ok = r.success; u.arcs = r.progress.arcs_created; }
  u.cpu = cpuNow() - t0; u.peak = g_peak - l0; u.live = g_live - l0; u.blocks = g_blocks - b0; u.fds = openFiles() - f0; return u;
}
static Case genP29(Rng& r) {
  Profile p; p.maxBlocks = (int)r.range(1, 6); p.pRelXYZ = 0; bool str = r.chance(0.35); Case c; if (str) { c = genStr(r); c.set("tool", "str"); c.kv.erase("nonl"); } else c = genWeldCase(r, p);
  int k = (int)r.range(0, 9); c.set("kind", k < 4 ? "back" : k < 8 ? "peak" : "time"); if (k < 4 && r.chance(0.4)) c.set("fail", r.pick(std::vector<std::string>{"nosource", "nodir", "isdir"})); if (k < 4 && !str && r.chance(0.4)) { c.seti("stop", r.range(1, 4)); c.seti("rep", r.range(1, 60)); } if (r.chance(0.3)) c.seti("inplace", 1);
  return c;
}
static std::string rep(const std::string& t, long long n) { std::string o; for (long long i = 0; i < n; ++i) { o += t; o += "M105\nG90\n"; } return o; }
static Result p29(const Case& c) {
  Result R; std::string kind = c.get("kind", "back"), one = caseText(c), s = scratch() + "/r.gcode", d = scratch() + "/r.out", fail = c.get("fail"); if (!one.empty() && one.back() != '\n') one += '\n'; bool inplace = c.integer("inplace", 0); static logger& warm = quietLogger(); (void)warm;
  std::string src = fail == "nosource" ? scratch() + "/missing.gcode" : s, dst = inplace ? src : fail == "nodir" ? scratch() + "/nowhere/x/r.out" : fail == "isdir" ? scratch() : d;
  auto run = [&](const std::string& t) { writeFile(s, t); if (d != s) remove(d.c_str()); return convert(c, src, dst); };
  if (kind == "back") {
    std::string t = rep(one, std::min(200LL, c.integer("rep", 1))); Use a = run(t), b;
    for (int i = 0; i < 3 && R.ok; ++i) { b = run(t); if (b.live != 0 || b.blocks != 0) R.fail(fmt("after %sconversion %d of the same file %lld bytes in %lld blocks are still held", b.ok ? "" : "failed ", i + 2, b.live, b.blocks)); else if (b.fds) R.fail(fmt("after %sconversion %d of the same file %lld more files are open", b.ok ? "" : "failed ", i + 2, b.fds)); }
    R.nontrivial = !c.lines.empty(); R.stat[a.ok ? "held_after_success" : "held_after_failure"]++; if (c.integer("stop", 0)) R.stat["held_after_stop"]++; return R;
  }
  if (one.size() < 20) { R.discard = true; return R; }
  if (kind == "peak") {
    long long n = std::max(2LL, 30000 / (long long)one.size() + 1); run(rep(one, 2)); Use a = run(rep(one, n)), b = run(rep(one, 4 * n)); if (!a.ok || !b.ok) { R.discard = true; return R; }
    if (b.peak > a.peak + 32768) R.fail(fmt("the program repeated %lld times (%zu bytes) needs %lld bytes at its peak, repeated %lld times %lld", n, one.size() * n, a.peak, 4 * n, b.peak));
    R.nontrivial = true; R.stat["peaks"]++; if (b.arcs) R.stat["peaks_with_arcs"]++; R.stat["sum_of_peaks_kb"] += b.peak / 1024; return R;
  }
  // time: as often as needed for a time that can be measured
  long long n = 2; Use a; double ta = 0; for (;;) { a = run(rep(one, n)); ta = a.cpu; if (!a.ok) { R.discard = true; return R; } if (ta >= 0.01 || n > 20000) break; n = ta > 0.001 ? (long long)(n * 0.013 / ta) + 1 : n * 8; }
  Use b = run(rep(one, 8 * n)); if (!b.ok) { R.discard = true; return R; } double ratio = b.cpu / ta;
  for (int i = 0; i < 3 && ratio > 20; ++i) { a = run(rep(one, n)); b = run(rep(one, 8 * n)); ratio = std::min(ratio, b.cpu / std::max(a.cpu, ta)); }
  if (ratio > 20) R.fail(fmt("eight times the program takes %.1f times as long (%.3f s for %zu bytes)", ratio, ta, one.size() * n));
  R.nontrivial = true; R.stat["times"]++; R.stat["ratio_x10_sum"] += (long long)(ratio * 10); return R;
}
static Registrar a29({"P29", "random programs converted again and again, also stopped and failing (what is held afterwards), and the same program repeated many times (peak of memory, processor time); non-trivial: a program was converted", genP29, p29, true, 1000, 20000});
} // namespace vh
