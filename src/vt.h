// Small kit for the self-checking harnesses: random numbers independent of the code under test, violation and
// statistics lines that lib/harness.py parses.
#pragma once
#include <cmath>
#include <cfloat>
#include <climits>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <array>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
namespace vt {
typedef std::vector<double> V;
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); }
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double u(double a, double b) { return a + (b - a) * u(); }
  size_t k(size_t n) { return n ? next() % n : 0; }
  double g() { double a = u(), b = u(); if (a < 1e-300) a = 1e-300; return sqrt(-2 * log(a)) * cos(6.283185307179586 * b); }
  double lg(double a, double b) { return exp(u(log(a), log(b))); }  // log-uniform
  V unit(size_t d) { V v(d); double n = 0; do { n = 0; for (auto& x : v) { x = g(); n += x * x; } } while (n < 1e-12); n = sqrt(n); for (auto& x : v) x /= n; return v; }
};
inline std::map<std::string, double>& stats() { static std::map<std::string, double> m; return m; }
inline std::map<std::string, double>& maxs() { static std::map<std::string, double> m; return m; }
inline int& nviol() { static int n = 0; return n; }
inline void stat(const std::string& k, double n = 1) { stats()[k] += n; }
inline void maxi(const std::string& k, double v) { auto it = maxs().find(k); if (it == maxs().end() || v > it->second || v != v) maxs()[k] = v; }
inline void viol(const char* key, const char* fmt, ...) {
  if (++nviol() > 6) return;
  va_list a; va_start(a, fmt); char b[4000]; vsnprintf(b, sizeof b, fmt, a); va_end(a);
  fprintf(stdout, "\n@VIOL\t%s\t%s\n", key, b); fflush(stdout);
}
inline void kase(const std::string& id) { fprintf(stdout, "\n@CASE\t%s\n", id.c_str()); }
inline std::string str(const char* fmt, ...) { va_list a; va_start(a, fmt); char b[2000]; vsnprintf(b, sizeof b, fmt, a); va_end(a); return b; }
inline std::string vs(const double* v, size_t n) { std::string s = "("; for (size_t i = 0; i < n; i++) s += str(i ? ", %.17g" : "%.17g", v[i]); return s + ")"; }
inline int done() {
  for (auto& p : stats()) fprintf(stdout, "\n@STAT\t%s\t%.17g\n", p.first.c_str(), p.second);
  for (auto& p : maxs()) fprintf(stdout, "\n@MAX\t%s\t%.17g\n", p.first.c_str(), p.second);
  fprintf(stdout, "\n@DONE\n"); fflush(stdout);
  return 0;
}
// "holds up to tolerance", written so that NaN fails
inline bool le(double a, double b) { return a <= b; }
}  // namespace vt
