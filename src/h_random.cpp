// P17: random numbers and random points: range, uniformity, independence between threads and draws, reproducibility.
// Statistical tests use thresholds of 6.5-7 standard deviations; the seeds are fixed by the arguments.
// args: seed reps
#include "vt.h"
#include "MeshingRandomSampler.h"
using namespace vt;
static const double Z = 7.0;
static void z(const char* key, const std::string& what, double v) { maxi("max_z", fabs(v)); stat("statistical_tests"); if (!le(fabs(v), Z)) viol(key, "%s: %.2f standard deviations from uniform", what.c_str(), v); }
static void chi2(const char* key, const std::string& what, const std::vector<double>& cnt, const std::vector<double>& p, double n) {
  double x = 0; int k = 0; for (size_t i = 0; i < cnt.size(); i++) { if (p[i] <= 0) { if (cnt[i] > 0) viol(key, "%s: a cell of weight zero was chosen %g times", what.c_str(), cnt[i]); continue; } double e = n * p[i]; x += (cnt[i] - e) * (cnt[i] - e) / e; k++; }
  if (k < 2) return; double df = k - 1;  // Wilson-Hilferty
  z(key, what, (cbrt(x / df) - (1 - 2 / (9 * df))) / sqrt(2 / (9 * df)));
}
static double ksz(V u) {  // Kolmogorov-Smirnov statistic sqrt(n) D mapped to a z-like value (threshold via exp(-2 d^2))
  std::sort(u.begin(), u.end()); double n = u.size(), d = 0; for (size_t i = 0; i < u.size(); i++) d = std::max(d, std::max((i + 1) / n - u[i], u[i] - i / n));
  double t = sqrt(n) * d; return t * 2; }
static V draw(MeshingRandomSampler& r, size_t n) { V u(n); for (auto& v : u) { v = r.generate_uniform_random_number(); if (!(v >= 0 && v < 1)) viol("range", "uniform number %.17g is outside [0,1)", v); } stat("uniform_numbers", n); return u; }
static double corr(const V& a, const V& b, long lag) { double s = 0; size_t n = 0; for (size_t i = 0; i < a.size(); i++) { long j = (long)i + lag; if (j < 0 || j >= (long)b.size()) continue; s += (a[i] - .5) * (b[j] - .5); n++; } return s * 12 / sqrt((double)n); }
static void stream(const std::string& nm, const V& u) {
  size_t n = u.size(); double m = 0, q = 0; for (double v : u) { m += v - .5; q += (v - .5) * (v - .5); }
  z("mean", nm + " mean", m / sqrt(n / 12.)); z("variance", nm + " variance", (q - n / 12.) / sqrt(n / 180.));
  std::vector<double> c(64, 0), p(64, 1. / 64), d2(256, 0), p2(256, 1. / 256), d3(512, 0), p3(512, 1. / 512);
  for (double v : u) c[std::min<size_t>(63, v * 64)]++; chi2("uniform", nm + " histogram", c, p, n);
  for (size_t i = 0; i + 1 < n; i += 2) d2[size_t(u[i] * 16) % 16 * 16 + size_t(u[i + 1] * 16) % 16]++; chi2("pairs", nm + " consecutive pairs", d2, p2, n / 2);
  for (size_t i = 0; i + 2 < n; i += 3) d3[size_t(u[i] * 8) % 8 * 64 + size_t(u[i + 1] * 8) % 8 * 8 + size_t(u[i + 2] * 8) % 8]++; chi2("triples", nm + " consecutive triples", d3, p3, n / 3);
  for (long lag : {1, 2, 3, 4, 5, 7, 10, 30, 100, 1190, 1219, 1220, 1221, 1250}) if ((size_t)lag * 3 < n) z("serial", nm + str(" serial correlation at lag %ld", lag), corr(u, u, lag));
  for (int b = 1; b <= 32; b++) { double s = 0; for (double v : u) { double w = ldexp(v, b); s += (fmod(floor(w), 2) == 1) ? 1 : -1; } z("bits", nm + str(" bit %d", b), s / sqrt((double)n)); }
  { V k(u.begin(), u.begin() + std::min<size_t>(n, 20000)); z("ks", nm + " Kolmogorov-Smirnov", ksz(k)); }
  std::set<double> s(u.begin(), u.end()); if (s.size() + 2 < n) viol("repeats", "%s: only %zu distinct values among %zu", nm.c_str(), s.size(), n);
}
static void streams(Rng& g) {
  // one sampler per thread
  const size_t T = 24, N = 6000; std::vector<V> u; std::map<double, size_t> seen; size_t dup = 0; V d0;
  for (size_t t = 0; t < T; t++) {
    MeshingRandomSampler r(t), r2(t); V a = draw(r, N), b = draw(r2, N); if (a != b) viol("equal-thread", "two samplers of thread %zu differ", t);
    u.push_back(a); for (double v : a) { auto it = seen.find(v); if (it != seen.end() && it->second != t) dup++; seen[v] = t; } }
  if (dup > 2) viol("shared", "%zu values occur in the streams of two different threads", dup);
  for (size_t a = 0; a < T; a++) for (size_t b = a + 1; b < T; b++) for (long lag = -2; lag <= 2; lag++) z("cross", str("streams of threads %zu and %zu at lag %ld", a, b, lag), corr(u[a], u[b], lag));
  // the combined stream
  V all; for (size_t i = 0; i < 3000; i++) for (size_t t = 0; t < T; t++) all.push_back(u[t][i]); stream("interleaved thread streams", all);
  // samplers created one after the other
  std::vector<V> w; for (int i = 0; i < 8; i++) { MeshingRandomSampler r; w.push_back(draw(r, 4000)); }
  for (int a = 0; a < 8; a++) for (int b = a + 1; b < 8; b++) { if (w[a] == w[b]) viol("same-instance", "samplers number %d and %d of a program have the same stream", a, b); z("cross-instance", str("samplers %d and %d", a, b), corr(w[a], w[b], 0)); }
  // equal seeds, equal streams; re-seeding restarts completely
  for (int i = 0; i < 6; i++) { unsigned long s = i == 0 ? 0 : i == 1 ? 1 : (unsigned long)(g.next() >> (i * 9)); MeshingRandomSampler a, b; draw(b, 1 + g.k(3000)); a.initiate_random_number_generator(s); b.initiate_random_number_generator(s);
    V x = draw(a, 3000), y = draw(b, 3000); if (x != y) viol("equal-seed", "two samplers seeded with %lu give different streams", s);
    MeshingRandomSampler c; c.initiate_random_number_generator(s + 1); if (draw(c, 3000) == x) viol("seed-ignored", "seeds %lu and %lu give the same stream", s, s + 1); }
}
static void points(Rng& g, uint64_t sd, int i) {
  MeshingRandomSampler r; r.initiate_random_number_generator((unsigned long)(sd * 131 + i + 17)); size_t N = 12000;
  { // box
    size_t d = 1 + g.k(7); V lo(d), hi(d), x(d); for (size_t k = 0; k < d; k++) { lo[k] = g.u(-5, 5) * g.lg(1e-3, 1e3); hi[k] = lo[k] + (g.u() < .1 ? 0 : g.lg(1e-3, 1e3)); }
    std::vector<V> u(d); for (size_t n = 0; n < N; n++) { r.sample_uniformly_from_box(d, lo.data(), hi.data(), x.data()); for (size_t k = 0; k < d; k++) { if (!(x[k] >= lo[k] && x[k] <= hi[k])) viol("box-range", "coordinate %.17g outside [%.17g, %.17g]", x[k], lo[k], hi[k]); u[k].push_back(hi[k] > lo[k] ? (x[k] - lo[k]) / (hi[k] - lo[k]) : .5); } }
    for (size_t k = 0; k < d; k++) if (hi[k] > lo[k]) { z("box", str("box coordinate %zu of %zu", k, d), ksz(u[k])); for (size_t l = 0; l < k; l++) if (hi[l] > lo[l]) z("box-corr", str("box coordinates %zu and %zu", k, l), corr(u[k], u[l], 0)); }
    kase(str("box/dim%zu/%d", d, i)); }
  { // sphere
    size_t d = 1 + g.k(8); V x(d); std::vector<V> xs(d); for (size_t n = 0; n < N; n++) { r.sample_uniformly_from_unit_sphere(x.data(), d); double s = 0; for (double v : x) s += v * v; if (!le(fabs(s - 1), 1e-12)) viol("sphere-norm", "sampled direction has squared length %.17g", s); for (size_t k = 0; k < d; k++) xs[k].push_back(x[k]); }
    for (size_t k = 0; k < d; k++) {
      double m = 0, q = 0, f = 0; for (double v : xs[k]) { m += v; q += v * v; f += v * v * v * v; }
      z("sphere-mean", str("mean of direction component %zu in dimension %zu", k, d), m / sqrt(N / (double)d));
      double e4 = 3. / (d * (d + 2)), e8 = 105. / (d * (d + 2.) * (d + 4.) * (d + 6.));
      if (d > 1) { z("sphere-second", str("second moment of component %zu in dimension %zu", k, d), (q - N / (double)d) / sqrt(N * (e4 - 1. / (d * d)))); z("sphere-fourth", str("fourth moment of component %zu in dimension %zu", k, d), (f - N * e4) / sqrt(N * (e8 - e4 * e4))); }
      if (d == 3) { V u; for (double v : xs[k]) u.push_back((v + 1) / 2); z("sphere-ks", str("component %zu on the sphere", k), ksz(u)); }
      for (size_t l = 0; l < k; l++) { double c = 0, c2 = 0; for (size_t n = 0; n < N; n++) { c += xs[k][n] * xs[l][n]; c2 += xs[k][n] * xs[l][n] > 0 ? 1 : -1; } z("sphere-cross", str("components %zu and %zu in dimension %zu", k, l, d), c / sqrt(N / (double)(d * (d + 2)))); z("sphere-quadrant", str("quadrants of components %zu and %zu", k, l), c2 / sqrt((double)N)); } }
    kase(str("sphere/dim%zu/%d", d, i)); }
  { // simplex with k corners in d dimensions: recover the barycentric coordinates from unit corners embedded in R^d
    size_t k = 1 + g.k(6), d = k + g.k(3); std::vector<V> c(k, V(d, 0.)); std::vector<double*> p; V off(d); for (auto& v : off) v = g.u(-3, 3); double sc = g.lg(1e-2, 1e2);
    for (size_t a = 0; a < k; a++) { for (size_t e = 0; e < d; e++) c[a][e] = off[e] + (e == a ? sc : 0); } for (auto& v : c) p.push_back(v.data());
    V x(d); std::vector<V> b(k); for (size_t n = 0; n < N; n++) { r.sample_uniformly_from_simplex(x.data(), d, k, p.data()); double s = 0; bool bad = false; for (size_t a = 0; a < k; a++) { double t = (x[a] - off[a]) / sc; s += t; if (!(t >= -1e-9)) bad = true; b[a].push_back(k > 1 ? 1 - pow(1 - std::min(1., std::max(0., t)), k - 1.) : .5); } for (size_t e = k; e < d; e++) if (!le(fabs(x[e] - off[e]), 1e-9 * (3 + sc))) bad = true; if (bad || !le(fabs(s - 1), 1e-9 * (1 + 3 / sc))) { viol("simplex-range", "point outside the simplex of %zu corners (weights add up to %.12g)", k, s); break; } }
    if (k > 1) for (size_t a = 0; a < k; a++) z("simplex", str("weight of corner %zu of %zu", a, k), ksz(b[a]));
    kase(str("simplex/%zu/%d", k, i)); }
  { // discrete distribution
    size_t n = 1 + g.k(i % 3 ? 20 : 300); V w(n), cdf(n); double s = 0; int kind = (int)g.k(4); for (size_t a = 0; a < n; a++) { w[a] = kind == 0 ? 1 : kind == 1 ? g.lg(1e-3, 10) : kind == 2 ? (g.u() < .5 ? 0 : g.u()) : (a == n / 2 ? 1 : 0); } if (g.u() < .1) for (auto& v : w) v = 0;
    double sc = g.lg(1e-6, 1e6); for (size_t a = 0; a < n; a++) cdf[a] = s += w[a] * sc; std::vector<double> cnt(n, 0), p(n); for (size_t a = 0; a < n; a++) p[a] = s > 0 ? w[a] * sc / s : 1. / n;
    size_t M = N * (n > 20 ? 3 : 1); for (size_t t = 0; t < M; t++) { size_t k = r.sample_uniformly_from_discrete_cdf(n, cdf.data()); if (k >= n) { viol("cdf-range", "cell %zu of %zu chosen", k, n); break; } cnt[k]++; }
    // pool rare cells
    std::vector<double> c2, p2; double rc = 0, rp = 0; for (size_t a = 0; a < n; a++) { if (p[a] > 0 && p[a] * M < 8) { rc += cnt[a]; rp += p[a]; } else { c2.push_back(cnt[a]); p2.push_back(p[a]); } } if (rp * M > 8) { c2.push_back(rc); p2.push_back(rp); }
    double tot = 0; for (double v : p2) tot += v; if (tot > .999999 || true) chi2("cdf", str("discrete distribution of %zu cells", n), c2, p2, M);
    kase(str("cdf/%zu/%d", n, i)); }
}
int main(int argc, char** argv) {
  uint64_t seed = strtoull(argv[1], 0, 10); int reps = atoi(argv[2]); Rng g(seed);
  streams(g); kase(str("streams/%llu", (unsigned long long)seed));
  for (int i = 0; i < 4; i++) { MeshingRandomSampler r; r.initiate_random_number_generator(i == 0 ? 0 : i == 1 ? 1234567890 : (unsigned long)(g.next() >> 20)); stream(str("stream %d", i), draw(r, 300000)); kase(str("stream/%llu/%d", (unsigned long long)seed, i)); }
  for (int i = 0; i < reps; i++) points(g, seed, i);
  return done();
}
