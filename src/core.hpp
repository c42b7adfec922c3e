// Shared pieces of the property harness: random source, case container, hashing, small text helpers.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <sstream>
#include <fstream>
#include <algorithm>
#include <limits>

namespace vh {

// Deterministic random source.  It can also be driven by a byte string (coverage-guided fuzzing):
// each draw then consumes bytes and yields zero when they run out.
class Rng {
public:
  explicit Rng(uint64_t seed) { s_[0] = mix(seed); s_[1] = mix(seed); bytes_ = nullptr; len_ = 0; }
  Rng(const uint8_t* d, size_t n) : bytes_(d), len_(n) { s_[0] = s_[1] = 1; }
  uint64_t next() {
    if (bytes_) {
      uint64_t v = 0;
      for (int i = 0; i < 4; ++i) { v = v << 8; if (pos_ < len_) v |= bytes_[pos_++]; }
      return v * 0x9E3779B97F4A7C15ull ^ v;
    }
    uint64_t a = s_[0], b = s_[1];
    s_[0] = b; a ^= a << 23; s_[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return s_[1] + b;
  }
  bool exhausted() const { return bytes_ && pos_ >= len_; }
  // integer in [lo, hi]
  long long range(long long lo, long long hi) { return hi <= lo ? lo : lo + (long long)(next() % (uint64_t)(hi - lo + 1)); }
  double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  double logreal(double lo, double hi) { return std::exp(real(std::log(lo), std::log(hi))); }
  bool chance(double p) { return unit() < p; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[(size_t)range(0, (long long)v.size() - 1)]; }
private:
  uint64_t x_ = 0x853c49e6748fea9bull;
  uint64_t mix(uint64_t seed) { x_ += 0x9E3779B97F4A7C15ull + seed * 0xBF58476D1CE4E5B9ull; uint64_t z = x_; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return (z ^ (z >> 31)) | 1; }
  uint64_t s_[2]; const uint8_t* bytes_ = nullptr; size_t len_ = 0, pos_ = 0;
};

inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

inline std::string escape(const std::string& s) {
  std::string o; char b[8];
  for (unsigned char c : s) {
    if (c == '\\') o += "\\\\";
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    else o += (char)c;
  }
  return o;
}
inline std::string unescape(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '\\' && i + 1 < s.size()) {
      if (s[i + 1] == '\\') { o += '\\'; ++i; }
      else if (s[i + 1] == 'x' && i + 3 < s.size()) { o += (char)strtol(s.substr(i + 2, 2).c_str(), nullptr, 16); i += 3; }
      else o += s[i];
    } else o += s[i];
  }
  return o;
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
  va_list ap; va_start(ap, f); char b[4096]; vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}

// A test case: settings plus lines.  This text form is the replay file.
struct Case {
  std::map<std::string, std::string> kv;
  std::vector<std::string> lines;
  std::string get(const std::string& k, const std::string& d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
  double num(const std::string& k, double d) const { auto i = kv.find(k); return i == kv.end() ? d : strtod(i->second.c_str(), nullptr); }
  long long integer(const std::string& k, long long d) const { auto i = kv.find(k); return i == kv.end() ? d : strtoll(i->second.c_str(), nullptr, 10); }
  bool has(const std::string& k) const { return kv.count(k) > 0; }
  void set(const std::string& k, const std::string& v) { kv[k] = v; }
  void set(const std::string& k, double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); kv[k] = b; }
  void seti(const std::string& k, long long v) { kv[k] = std::to_string(v); }
  std::string str() const {
    std::string o;
    for (auto& p : kv) o += p.first + "=" + escape(p.second) + "\n";
    o += "---\n";
    for (auto& l : lines) o += escape(l) + "\n";
    return o;
  }
  static Case parse(const std::string& t) {
    Case c; std::istringstream in(t); std::string l; bool body = false;
    while (std::getline(in, l)) {
      if (!body) {
        if (l == "---") { body = true; continue; }
        if (l.empty() || l[0] == '#') continue;
        size_t e = l.find('='); if (e != std::string::npos) c.kv[l.substr(0, e)] = unescape(l.substr(e + 1));
      } else c.lines.push_back(unescape(l));
    }
    return c;
  }
  uint64_t hash() const { return fnv(str()); }
};

struct Result {
  bool ok = true;          // the property held on this case
  bool nontrivial = false; // by the property's stated rule
  bool discard = false;    // outside the domain
  std::string msg;         // what failed
  std::map<std::string, long long> stat; // counters for the evidence
  void fail(const std::string& m) { if (ok) { ok = false; msg = m; } }
};

struct Property {
  std::string id, rule;
  std::function<Case(Rng&)> gen;
  std::function<Result(const Case&)> check;
  // keys whose removal is a simplification when shrinking
  bool shrinkLines = true;
  long long quickCases = 1000, thoroughCases = 20000; // per worker
};

std::vector<Property>& registry();
struct Registrar { Registrar(const Property& p) { registry().push_back(p); } };

// scratch directory of this process
const std::string& scratch();
bool writeFile(const std::string& p, const std::string& d);
bool readFile(const std::string& p, std::string& d);
inline std::vector<std::string> splitLines(const std::string& t) {
  std::vector<std::string> v; size_t i = 0;
  while (i < t.size()) { size_t e = t.find('\n', i); if (e == std::string::npos) { v.push_back(t.substr(i)); break; } v.push_back(t.substr(i, e - i)); i = e + 1; }
  return v;
}
inline std::string joinLines(const std::vector<std::string>& v, bool finalNewline = true) {
  std::string o; for (size_t i = 0; i < v.size(); ++i) { o += v[i]; if (i + 1 < v.size() || finalNewline) o += "\n"; } return o;
}
} // namespace vh
