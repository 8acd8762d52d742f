// P05: the flat kd-tree of the Voronoi mesher (private members) against a linear scan.
// args: seed reps
#include "vt.h"
#include <iostream>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <list>
#include <queue>
#include <stack>
#include <ctime>
#include <omp.h>
#define private public
#include "MeshingVoronoiMesher.h"
#undef private
using namespace vt;

struct Flat {
  size_t n, dim; V p; std::vector<size_t> R, L; size_t origin;
  double d(size_t i, const double* x) const { double s = 0; for (size_t k = 0; k < dim; k++) s += (p[i * dim + k] - x[k]) * (p[i * dim + k] - x[k]); return sqrt(s); }
  double dot(size_t i, const double* x, const double* e) const { double s = 0; for (size_t k = 0; k < dim; k++) s += (p[i * dim + k] - x[k]) * e[k]; return s; }
};
static V point(int kind, size_t dim, Rng& g, const Flat& f, size_t i) {
  V x(dim);
  switch (kind) {
    case 0: for (auto& v : x) v = g.u(-1, 1); break;
    case 1: for (auto& v : x) v = (double)g.k(5); break;                       // lattice: many equal coordinates and duplicates
    case 2: for (size_t k = 0; k < dim; k++) x[k] = k == i % dim ? g.u(-1, 1) : 0.25; break;  // axis-parallel lines
    case 3: for (auto& v : x) v = g.g() * g.lg(1e-6, 1e3); break;
    case 4: { double t = g.u(0, 6.28); for (size_t k = 0; k < dim; k++) x[k] = k == 0 ? cos(t) : k == 1 ? sin(t) : .01 * g.g(); break; }
    default: if (i && g.u() < .4) { size_t j = g.k(i); for (size_t k = 0; k < dim; k++) x[k] = f.p[j * dim + k]; } else for (auto& v : x) v = g.u(-1, 1);
  }
  return x;
}
static void queries(MeshingVoronoiMesher& m, Flat& f, Rng& g, int nq, const char* when) {
  size_t n = f.n, dim = f.dim; double span = 0; for (auto v : f.p) span = std::max(span, fabs(v));
  double eps = 1e-12 * (span + 1);
  for (int q = 0; q < nq; q++) {
    V x(dim); int how = (int)g.k(4); size_t j0 = g.k(n);
    for (size_t k = 0; k < dim; k++) x[k] = how == 0 ? g.u(-1.2, 1.2) * (span + .1) : f.p[j0 * dim + k] + (how == 1 ? 0 : how == 2 ? 1e-4 : .2) * (span + .1) * g.g();
    double best = DBL_MAX; for (size_t i = 0; i < n; i++) best = std::min(best, f.d(i, x.data()));
    size_t ic = n; double h = DBL_MAX;
    m.get_closest_tree_point(n, dim, f.p.data(), f.origin, f.R.data(), f.L.data(), x.data(), ic, h);
    if (ic >= n || !le(fabs(h - best), eps) || !le(fabs(f.d(ic, x.data()) - best), eps)) viol("flat-nearest", "%s: nearest of %zu points to %s: point %zu at %.17g, linear scan %.17g", when, n, vs(x.data(), dim).c_str(), ic, h, best);
    stat("flat_nearest_queries");
    // nearest ahead of x along e
    V e = g.unit(dim); if (g.u() < .3) { for (auto& v : e) v = 0; e[g.k(dim)] = g.u() < .5 ? -1 : 1; }
    auto scan = [&](const double* y, size_t skip, double& sure, double& maybe) { sure = maybe = DBL_MAX; for (size_t i = 0; i < n; i++) if (i != skip) { double d = f.d(i, y), s = f.dot(i, y, e.data()); if (s >= eps || d == 0) sure = std::min(sure, d); if (s >= -eps) maybe = std::min(maybe, d); } };
    double sure, maybe; scan(x.data(), n, sure, maybe);
    ic = n; h = DBL_MAX; m.get_closest_tree_point(n, dim, f.p.data(), f.origin, f.R.data(), f.L.data(), x.data(), e.data(), ic, h);
    if (ic >= n) { if (sure != DBL_MAX) viol("flat-ahead", "%s: nothing found ahead of %s, linear scan has a point at %.17g", when, vs(x.data(), dim).c_str(), sure); }
    else if (f.dot(ic, x.data(), e.data()) < -eps || !le(fabs(f.d(ic, x.data()) - h), eps) || !le(h, sure + eps) || !le(maybe - eps, h)) viol("flat-ahead", "%s: nearest of %zu points ahead of %s: %zu at %.17g, linear scan %.17g", when, n, vs(x.data(), dim).c_str(), ic, h, sure);
    stat("flat_ahead_queries");
    // nearest ahead of a stored point, itself excluded
    size_t s = g.k(n); scan(&f.p[s * dim], s, sure, maybe);
    ic = n; h = DBL_MAX; m.get_closest_tree_point(n, dim, f.p.data(), f.origin, f.R.data(), f.L.data(), s, e.data(), ic, h);
    if (ic >= n) { if (sure != DBL_MAX) viol("flat-ahead-stored", "%s: nothing found ahead of point %zu of %zu, linear scan has a point at %.17g", when, s, n, sure); }
    else if (ic == s || f.dot(ic, &f.p[s * dim], e.data()) < -eps || !le(fabs(f.d(ic, &f.p[s * dim]) - h), eps) || !le(h, sure + eps) || !le(maybe - eps, h)) viol("flat-ahead-stored", "%s: nearest of %zu points ahead of point %zu: %zu at %.17g, linear scan %.17g", when, n, s, ic, h, sure);
    // sphere
    std::vector<double> all; for (size_t i = 0; i < n; i++) all.push_back(f.d(i, x.data())); std::sort(all.begin(), all.end());
    double rad = g.u() < .3 ? all[g.k(n)] * g.u(.9, 1.1) : g.u(0, 1) * (all.back() + .1); if (g.u() < .1) rad = all.back() * 2 + 1;
    if (rad <= 0) continue;
    size_t cnt = 77, *out = 0; m.get_tree_points_in_sphere(n, dim, f.p.data(), f.origin, f.R.data(), f.L.data(), x.data(), rad, cnt, out);
    std::set<size_t> got; bool bad = false; for (size_t i = 0; i < cnt; i++) if (out[i] >= n || !got.insert(out[i]).second) bad = true;
    if (bad) viol("flat-sphere", "%s: duplicate or unknown index among the %zu points of a sphere", when, cnt);
    for (size_t i = 0; i < n; i++) {
      double d = f.d(i, x.data());
      if (d < rad * (1 - 1e-9) - eps && !got.count(i)) { viol("flat-sphere", "%s: point %zu at %.17g missing from the sphere of radius %.17g (%zu of %zu found)", when, i, d, rad, cnt, n); break; }
      if (d > rad * (1 + 1.1e-6) + eps && got.count(i)) { viol("flat-sphere", "%s: point %zu at %.17g reported in the sphere of radius %.17g", when, i, d, rad); break; }
    }
    if (cnt) delete[] out; stat("flat_sphere_queries");
  }
}
static void one(uint64_t seed, int kind) {
  Rng g(seed); MeshingVoronoiMesher m; Flat f; f.dim = g.u() < .8 ? 3 : 4; static const size_t ns[] = {1, 2, 3, 4, 10, 11, 40, 128, 333, 1000};
  f.n = ns[g.k(10)]; for (size_t i = 0; i < f.n; i++) { V x = point(kind, f.dim, g, f, i); f.p.insert(f.p.end(), x.begin(), x.end()); }
  f.R.assign(f.n, 0); f.L.assign(f.n, 0); f.origin = 0;
  V before = f.p; m.build_balanced_kd_tree(f.n, f.dim, f.p.data(), f.origin, f.R.data(), f.L.data());
  if (f.p != before) viol("flat-build", "building the tree changed the points");
  queries(m, f, g, 25, "flat tree");
  if (f.dim == 3) {
    Flat s = f; std::vector<size_t> o(f.n, f.n), w(f.n, f.n);
    m.re_enumerate_points_for_better_memory_access(f.n, f.dim, f.p.data(), s.origin, s.R.data(), s.L.data(), s.p.data(), o.data(), w.data());
    bool ok = true; for (size_t i = 0; i < f.n && ok; i++) { ok = o[i] < f.n && w[o[i]] == i; for (size_t k = 0; ok && k < 3; k++) ok = s.p[i * 3 + k] == f.p[o[i] * 3 + k]; }
    if (!ok) viol("flat-renumber", "renumbering %zu points is not a permutation of them", f.n);
    else { queries(m, s, g, 25, "renumbered flat tree"); stat("flat_renumberings"); }
  }
  // gradual change of the spacing
  { V sz(f.n), s2; double Lip = g.u(.05, .8), lo = DBL_MAX; for (auto& v : sz) { v = g.lg(.01, 2); lo = std::min(lo, v); } s2 = sz;
    m.impose_lipschitz_continuity(f.n, f.dim, f.p.data(), s2.data(), 1 + (int)g.k(3), Lip, f.origin, f.R.data(), f.L.data());
    // reference: repeated relaxation over the same neighbourhoods (points within twice the original value) until nothing changes
    V ref = sz; bool ch = true; while (ch) { ch = false; for (size_t i = 0; i < f.n; i++) for (size_t j = 0; j < f.n; j++) { double h = f.d(j, &f.p[i * f.dim]); if (h < 2 * sz[i] * (1 - 1e-9)) { double b = ref[j] + Lip * h; if (b < ref[i]) { ref[i] = b; ch = true; } } } }
    for (size_t i = 0; i < f.n; i++) {
      if (!le(s2[i], sz[i])) { viol("lip-grow", "imposing gradual spacing raised the value of point %zu from %.17g to %.17g", i, sz[i], s2[i]); break; }
      if (!le(s2[i], ref[i] + 1e-8)) { viol("lip-missed", "point %zu keeps spacing %.17g, its neighbours allow %.17g (Lipschitz %.3g)", i, s2[i], ref[i], Lip); break; }
      if (!le(lo - 1e-12, s2[i])) { viol("lip-shrunk", "point %zu is given spacing %.17g, below every requested value (smallest %.17g)", i, s2[i], lo); break; }
      double need = sz[i]; for (size_t j = 0; j < f.n; j++) need = std::min(need, s2[j] + Lip * f.d(j, &f.p[i * f.dim]));
      if (!le(need, s2[i] + 1e-9)) { viol("lip-shrunk", "point %zu is given spacing %.17g although its neighbours only require %.17g", i, s2[i], need); break; }
    }
    stat("lipschitz_points", f.n); }
  kase(str("flat%d/dim%zu/n%zu/%llu", kind, f.dim, f.n, (unsigned long long)seed));
}
int main(int argc, char** argv) {
  uint64_t seed = strtoull(argv[1], 0, 10); int reps = atoi(argv[2]);
  for (int i = 0; i < reps; i++) one(seed * 1000 + i, i % 6);
  return done();
}
