// Driver: generates cases for one property, checks each against its oracle, shrinks the first failure
// and writes it as a replay file.  Subcommands: run, replay, list.
#include "core.hpp"
#include <unistd.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <csignal>
#include <cstdarg>
#include <chrono>
#include <iostream>
#include <unordered_set>

namespace vh {
std::vector<Property>& registry() { static std::vector<Property> r; return r; }
static std::string g_scratch;
const std::string& scratch() {
  if (g_scratch.empty()) {
    const char* b = getenv("VH_SCRATCH"); std::string base = b ? b : "/tmp";
    std::string t = base + "/vhXXXXXX"; std::vector<char> v(t.begin(), t.end()); v.push_back(0);
    if (!mkdtemp(v.data())) { perror("mkdtemp"); exit(3); }
    g_scratch = v.data();
  }
  return g_scratch;
}
bool writeFile(const std::string& p, const std::string& d) { FILE* f = fopen(p.c_str(), "wb"); if (!f) return false; size_t n = fwrite(d.data(), 1, d.size(), f); return fclose(f) == 0 && n == d.size(); }
bool readFile(const std::string& p, std::string& d) { FILE* f = fopen(p.c_str(), "rb"); if (!f) return false; d.clear(); char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) d.append(b, n); fclose(f); return true; }
}
using namespace vh;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string jesc(const std::string& s) { std::string o; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o; }

static void onAlarm(int) { const char m[] = "\nVH-HANG\n"; if (write(2, m, sizeof m - 1)) {} signal(SIGABRT, SIG_DFL); abort(); }
static Result runCheck(const Property& p, const Case& c) {
  alarm(120);
  Result r;
  try { r = p.check(c); }
  catch (const std::exception& e) { r.fail(std::string("exception escaped: ") + e.what()); }
  alarm(0);
  return r;
}

static Case shrink(const Property& p, Case c, double budget) {
  double end = now() + budget;
  auto bad = [&](const Case& x) { if (now() > end) return false; Result r = runCheck(p, x); return !r.ok && !r.discard; };
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    if (p.shrinkLines) {
      for (size_t w = std::max<size_t>(1, c.lines.size() / 2); w >= 1 && now() < end; w /= 2) {
        for (size_t i = 0; i + 1 <= c.lines.size() && now() < end;) {
          Case t = c; size_t n = std::min(w, t.lines.size() - i);
          t.lines.erase(t.lines.begin() + i, t.lines.begin() + i + n);
          if (bad(t)) { c = t; progress = true; } else i += w;
        }
        if (w == 1) break;
      }
    }
    std::vector<std::string> keys; for (auto& k : c.kv) keys.push_back(k.first);
    for (auto& k : keys) { Case t = c; t.kv.erase(k); if (bad(t)) { c = t; progress = true; } }
    // shorten lines: drop trailing words and comments
    if (p.shrinkLines) for (size_t i = 0; i < c.lines.size() && now() < end; ++i) {
      std::string l = c.lines[i]; size_t cp = l.find(';');
      if (cp != std::string::npos && cp > 0) { Case t = c; t.lines[i] = l.substr(0, cp); if (bad(t)) { c = t; progress = true; l = t.lines[i]; } }
      for (;;) { size_t s = l.rfind(' '); if (s == std::string::npos) break; Case t = c; t.lines[i] = l.substr(0, s); if (bad(t)) { c = t; l = t.lines[i]; progress = true; } else break; }
    }
  }
  return c;
}

int main(int argc, char** argv) {
  std::string cmd = argc > 1 ? argv[1] : "";
  std::map<std::string, std::string> o;
  for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
  signal(SIGALRM, onAlarm);
  if (cmd == "list") { for (auto& p : registry()) std::cout << p.id << "\n"; return 0; }
  const Property* prop = nullptr;
  for (auto& p : registry()) if (p.id == o["--prop"]) prop = &p;
  if (!prop) { std::cerr << "unknown property " << o["--prop"] << "\n"; return 3; }
  if (cmd == "replay") {
    std::string t; if (!readFile(o["--file"], t)) return 3;
    Result r = runCheck(*prop, Case::parse(t));
    if (r.discard) { std::cout << "DISCARD " << r.msg << "\n"; return 2; }
    if (!r.ok) { std::cout << "FAIL " << r.msg << "\n"; return 1; }
    std::cout << "OK\n"; for (auto& s : r.stat) std::cout << "  " << s.first << "=" << s.second << "\n";
    return 0;
  }
  if (cmd == "gen") { Rng r(strtoull(o["--seed"].c_str(), 0, 10)); std::cout << prop->gen(r).str(); return 0; }
  if (cmd == "shrink") { std::string t; if (!readFile(o["--file"], t)) return 3; Case c = shrink(*prop, Case::parse(t), 60); writeFile(o["--out"], c.str()); return 0; }
  // run
  uint64_t seed = strtoull(o["--seed"].c_str(), 0, 10); uint64_t worker = strtoull(o["--worker"].c_str(), 0, 10);
  std::string out = o["--out"]; bool thorough = o["--tier"] == "thorough";
  long long cases = o.count("--cases") ? atoll(o["--cases"].c_str()) : (thorough ? prop->thoroughCases : prop->quickCases);
  double limit = o.count("--time") ? atof(o["--time"].c_str()) : 1e9, t0 = now();
  std::map<std::string, long long> stat; long long evals = 0, discards = 0, nontriv = 0; std::unordered_set<uint64_t> seen;
  std::vector<std::string> samples; std::string failMsg; bool failed = false; std::vector<std::string> firstFails;
  // known findings: replay cases whose failure is expected are handled by the python driver
  for (long long i = 0; i < cases && now() - t0 < limit; ++i) {
    Rng r(seed * 1000003ull + worker * 7919ull + (uint64_t)i * 0x100000001b3ull + fnv(prop->id));
    Case c = prop->gen(r);
    writeFile(out + ".cur", c.str());
    Result res = runCheck(*prop, c);
    if (res.discard) { discards++; continue; }
    evals++;
    for (auto& s : res.stat) stat[s.first] += s.second;
    if (res.nontrivial && seen.insert(c.hash()).second) { nontriv++; if (samples.size() < 2 && c.str().size() < 4000) samples.push_back(c.str()); }
    if (!res.ok) {
      failed = true; failMsg = res.msg;
      writeFile(out + ".orig", c.str());
      Case m = shrink(*prop, c, thorough ? 60 : 25);
      Result rr = runCheck(*prop, m);
      if (!rr.ok) failMsg = rr.msg; else m = c;
      writeFile(out + ".fail", "# " + escape(failMsg) + "\n" + m.str());
      break;
    }
  }
  std::ofstream f(out + ".json");
  f << "{\"evaluations\":" << evals << ",\"discards\":" << discards << ",\"nontrivial\":" << nontriv << ",\"failed\":" << (failed ? "true" : "false") << ",\"msg\":\"" << jesc(failMsg) << "\",\"wall\":" << (now() - t0) << ",\"rule\":\"" << jesc(prop->rule) << "\",\"stat\":{";
  bool first = true; for (auto& s : stat) { f << (first ? "" : ",") << "\"" << jesc(s.first) << "\":" << s.second; first = false; }
  f << "},\"samples\":["; first = true; for (auto& s : samples) { f << (first ? "" : ",") << "\"" << jesc(s) << "\""; first = false; }
  f << "],\"hashes\":["; first = true; int hn = 0; for (auto h : seen) { if (hn++ > 400000) break; f << (first ? "" : ",") << "\"" << std::hex << h << std::dec << "\""; first = false; }
  f << "]}\n"; f.close();
  unlink((out + ".cur").c_str());
  if (!g_scratch.empty()) { std::string rm = "rm -rf '" + g_scratch + "'"; if (system(rm.c_str())) {} }
  return failed ? 1 : 0;
}
