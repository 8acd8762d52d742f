// P05: every answer of MeshingSmartTree against a linear scan over everything inserted so far.
#include "vt.h"
#include "MeshingSmartTree.h"
using namespace vt;

struct Ref { size_t dim, nd; std::vector<V> x, n; std::vector<std::vector<size_t>> at; bool has_n, has_a; };

static double dst(const Ref& r, size_t i, const double* x) { double s = 0; for (size_t k = 0; k < r.dim; k++) { double d = r.x[i][k] - x[k]; s += d * d; } return sqrt(s); }

static V gen(int kind, size_t dim, Rng& g, const Ref& r, size_t i) {
  V x(dim);
  switch (kind) {
    case 0: for (auto& v : x) v = g.u(-1, 1); break;
    case 1: { double c = floor(g.u(0, 5)); for (size_t k = 0; k < dim; k++) x[k] = sin(c * (k + 1) * 3.7) + g.g() * 1e-3; } break;
    case 2: for (size_t k = 0; k < dim; k++) x[k] = (double)i * (k + 1) * 1e-2; break;                     // ascending line: degenerate branch
    case 3: for (size_t k = 0; k < dim; k++) x[k] = (k == 0) ? -(double)i : 0.5; break;                    // ties in all other coordinates
    case 4: for (auto& v : x) v = floor(g.u(0, 4)); break;                                                // lattice with duplicates
    case 5: if (!r.x.empty() && g.u() < .4) { x = r.x[g.k(r.x.size())]; x.resize(dim); } else for (auto& v : x) v = g.g() * 1e3; break;
    default: { V d = g.unit(dim); double s = g.lg(1e-6, 1e3); for (size_t k = 0; k < dim; k++) x[k] = d[k] * s; }
  }
  return x;
}

static void check_stored(MeshingSmartTree& t, const Ref& r, size_t i, const char* when) {
  double* p = t.get_tree_point(i);
  for (size_t k = 0; k < r.nd; k++) if (!(p[k] == r.x[i][k])) { viol("stored:point", "%s: coordinate %zu of point %zu of %zu is %.17g, inserted %.17g", when, k, i, r.x.size(), p[k], r.x[i][k]); return; }
  double* n = t.get_tree_point_normal(i);
  for (size_t k = 0; k < r.dim; k++) { double e = r.has_n ? r.n[i][k] : 0.0; if (!(n[k] == e)) { viol("stored:normal", "%s: normal component %zu of point %zu is %.17g, inserted %.17g", when, k, i, n[k], e); return; } }
  if (r.has_a) {
    size_t* a = t.get_tree_point_attrib(i);
    for (size_t k = 0; k < r.at[i].size(); k++) if (a[k] != r.at[i][k]) { viol("stored:attrib", "%s: attribute %zu of point %zu is %zu, inserted %zu", when, k, i, a[k], r.at[i][k]); return; }
    for (size_t k = 0; k + 1 < r.at[i].size(); k++) { size_t v = 77; if (!t.get_tree_point_attrib(i, k, v) || v != r.at[i][k + 1]) { viol("stored:attrib-get", "attribute %zu of point %zu not returned", k, i); return; } }
    for (size_t k : {r.at[i].size(), r.at[i].size() + 3, SIZE_MAX / 2}) { size_t v = 77; if (t.get_tree_point_attrib(i, k, v)) { viol("stored:attrib-get", "attribute %zu of a point with %zu is returned", k, r.at[i].size() - 1); return; } }
  }
  V y(r.nd); t.get_tree_point(i, r.nd, y.data()); if (y != r.x[i]) viol("stored:copy", "copied point %zu differs", i);
  V z(r.dim); t.get_tree_point(i, z.data()); for (size_t k = 0; k < r.dim; k++) if (z[k] != r.x[i][k]) { viol("stored:copy", "copied point %zu differs", i); break; }
  stat("stored_records_compared");
}

// which = crease predicate; returns -1 definitely smooth, 0 ambiguous (value too near its threshold), 1 crease
struct Crease { int which; double tol, thr; V xn; std::vector<V> nn; };
static int band(double v, double t) { return fabs(v - t) < 1e-7 ? 0 : (v > t ? -1 : 1); }  // above threshold: smooth
static double sinof(double c) { double s = 1 - c * c; return s > 0 ? sqrt(s) : 0; }
static int crease(const Ref& r, size_t i, const double* x, const Crease& c) {
  double d = 0, dp = 0, dxn = 0;
  for (size_t k = 0; k < r.dim; k++) { double e = x[k] - r.x[i][k]; d += e * e; dp += e * (r.has_n ? r.n[i][k] : 0.0); if (c.which == 1) dxn += e * c.xn[k]; }
  double d2 = d; d = sqrt(d);
  if (c.which == 0) {
    if (fabs(d - c.tol) < 1e-9 * (1 + c.tol) && d != 0) return 0;
    if (d <= c.tol) return band(1.0, c.thr);
    return band(sinof(dp / d), c.thr);
  }
  if (c.which == 1) {
    if (d2 != 0 && d < 1e-9) return 0;
    if (d == 0) return -1;
    int a = band(sinof(dp / d), c.thr), b = band(sinof(dxn / d), c.thr);
    if (a == 1 || b == 1) return 1;
    return (a == 0 || b == 0) ? 0 : -1;
  }
  if (c.which == 2) {
    if (d2 != 0 && d2 < 1e-8) return 0;
    int a = d2 == 0 ? band(1.0, c.thr) : band(sinof(dp / d), c.thr);
    if (a == 1) return 1;
    int best = 1;
    for (auto& n : c.nn) { double s = 0; for (size_t k = 0; k < r.dim; k++) s += n[k] * (r.has_n ? r.n[i][k] : 0.0); int b = band(fabs(s), c.thr); if (b == -1) { best = -1; break; } if (b == 0) best = 0; }
    if (best == 1) return 1;
    return (a == 0 || best == 0) ? 0 : -1;
  }
  // edge query: smooth along the tangent
  if (fabs(d - c.tol) < 1e-9 * (1 + c.tol) && d != 0) return 0;
  if (d <= c.tol) return band(1.0, c.thr);
  return band(fabs(dp / d), c.thr);
}

static void queries(MeshingSmartTree& t, const Ref& r, Rng& g, int nq, const char* when) {
  size_t n = r.x.size(); double span = 0; for (auto& p : r.x) for (size_t k = 0; k < r.dim; k++) span = std::max(span, fabs(p[k]));
  for (int q = 0; q < nq; q++) {
    V x(r.dim); int how = (int)g.k(4);
    if (how == 0) for (auto& v : x) v = g.u(-1.2, 1.2) * (span + .1);
    else { size_t i = g.k(n); double s = how == 1 ? 0 : (how == 2 ? 1e-4 : .2) * (span + .1); for (size_t k = 0; k < r.dim; k++) x[k] = r.x[i][k] + s * g.g(); if (how == 3 && g.u() < .5) x[g.k(r.dim)] = r.x[g.k(n)][g.k(r.dim)]; }
    double eps = 1e-12 * (span + 1);
    // nearest
    double best = DBL_MAX; for (size_t i = 0; i < n; i++) best = std::min(best, dst(r, i, x.data()));
    size_t ic = 12345; double h = DBL_MAX; t.get_closest_tree_point(x.data(), ic, h);
    if (ic >= n) viol("nearest", "%s: no nearest point found among %zu", when, n);
    else if (!le(fabs(h - best), eps) || !le(fabs(dst(r, ic, x.data()) - h), eps)) viol("nearest", "%s: nearest of %zu points to %s: point %zu at %.17g, linear scan finds %.17g (returned point is at %.17g)", when, n, vs(x.data(), r.dim).c_str(), ic, h, best, dst(r, ic, x.data()));
    stat("nearest_queries");
    // nearest within a given bound
    { double bound = best * g.u(.5, 1.5) + (best == 0 ? g.u(0, 1) : 0); size_t jc = 0; double hb = bound; t.get_closest_tree_point(x.data(), jc, hb);
      if (best < bound - eps) { if (jc >= n || !le(fabs(hb - best), eps)) viol("nearest-bounded", "%s: bound %.17g, linear scan %.17g, got %.17g", when, bound, best, hb); }
      else if (best > bound + eps && jc != n) viol("nearest-bounded", "%s: a point beyond the bound was returned", when); }
    // nearest to a stored point, itself excluded
    { size_t s = g.k(n); double b2 = DBL_MAX; for (size_t i = 0; i < n; i++) if (i != s) b2 = std::min(b2, dst(r, i, r.x[s].data()));
      size_t jc = n; double hb = DBL_MAX; t.get_closest_tree_point(s, jc, hb);
      if (n > 1) { if (jc >= n || jc == s || !le(fabs(hb - b2), eps) || !le(fabs(dst(r, jc, r.x[s].data()) - b2), eps)) viol("nearest-stored", "%s: neighbour of point %zu of %zu: got %zu at %.17g, linear scan %.17g", when, s, n, jc, hb, b2); }
      stat("nearest_stored_queries"); }
    // with an exclusion list
    { std::vector<std::pair<double, size_t>> all; for (size_t i = 0; i < n; i++) all.push_back({dst(r, i, x.data()), i}); std::sort(all.begin(), all.end());
      size_t ne = g.k(std::min<size_t>(n, 12) + 1); std::vector<size_t> ex; for (size_t i = 0; i < ne; i++) ex.push_back(g.u() < .7 ? all[i].second : g.k(n));
      std::set<size_t> es(ex.begin(), ex.end()); double b2 = DBL_MAX; for (auto& p : all) if (!es.count(p.second)) { b2 = p.first; break; }
      size_t dummy = 0; size_t jc = n; double hb = DBL_MAX; t.get_closest_tree_point(x.data(), ne, ex.empty() ? &dummy : ex.data(), jc, hb);
      if (b2 == DBL_MAX) { if (jc != n) viol("exclusion", "%s: everything excluded but point %zu returned", when, jc); }
      else if (jc >= n || es.count(jc) || !le(fabs(hb - b2), eps)) viol("exclusion", "%s: nearest outside %zu excluded of %zu: got %zu at %.17g, linear scan %.17g", when, ne, n, jc, hb, b2);
      stat("exclusion_queries"); 
      // sphere
      double rad = g.u() < .3 ? all[g.k(n)].first * g.u(.9, 1.1) : g.u(0, 1) * (all.back().first + .1); if (g.u() < .1) rad = all.back().first * 2 + 1;
      if (rad > 0) {
        size_t cap = 1 + g.k(12), m = 99; size_t* out = new size_t[cap]; t.get_tree_points_in_sphere(x.data(), rad, m, out, cap);
        std::set<size_t> got; bool dup = false; for (size_t i = 0; i < m; i++) { if (out[i] >= n || !got.insert(out[i]).second) dup = true; }
        if (dup) viol("sphere", "%s: the points in a sphere contain a duplicate or unknown index", when);
        for (auto& p : all) {
          bool in = got.count(p.second);
          if (p.first < rad * (1 - 1e-9) - eps && !in) { viol("sphere", "%s: point %zu at %.17g is missing from the sphere of radius %.17g (%zu of %zu reported)", when, p.second, p.first, rad, m, n); break; }
          if (p.first > rad * (1 + 1.1e-6) + eps && in) { viol("sphere", "%s: point %zu at %.17g reported inside the sphere of radius %.17g", when, p.second, p.first, rad); break; }
        }
        delete[] out; stat("sphere_queries"); stat("sphere_points", m);
      } }
    if (r.dim == 3 && r.has_n) {
      Crease c; c.which = (int)g.k(4); c.tol = g.u() < .5 ? 0 : g.u(0, .1); c.thr = cos(g.u(5, 80) * M_PI / 180); c.xn = g.unit(3); if (g.u() < .5) c.xn = r.n[g.k(n)];
      for (size_t i = 0, m = 1 + g.k(3); i < m; i++) c.nn.push_back(g.u() < .5 ? r.n[g.k(n)] : g.unit(3));
      double sure = DBL_MAX, maybe = DBL_MAX;
      for (size_t i = 0; i < n; i++) { int k = crease(r, i, x.data(), c); double d = dst(r, i, x.data()); if (k == 1) sure = std::min(sure, d); if (k >= 0) maybe = std::min(maybe, d); }
      size_t jc = 5; double hb = DBL_MAX; std::vector<double*> nn; for (auto& v : c.nn) nn.push_back(v.data());
      if (c.which == 0) t.get_closest_non_smooth_tree_point(x.data(), c.tol, c.thr, jc, hb);
      else if (c.which == 1) t.get_closest_non_smooth_tree_point(x.data(), c.xn.data(), c.thr, jc, hb);
      else if (c.which == 2) t.get_closest_non_smooth_tree_point(x.data(), nn.size(), nn.data(), c.thr, jc, hb);
      else t.get_closest_non_smooth_tree_edge_point(x.data(), c.tol, c.thr, jc, hb);
      const char* nm[] = {"crease-tol", "crease-normal", "crease-normals", "crease-edge"};
      if (jc >= n) { if (sure != DBL_MAX || hb != DBL_MAX) viol(nm[c.which], "%s: no point across a crease found, linear scan has one at %.17g (of %zu)", when, sure, n); }
      else if (crease(r, jc, x.data(), c) < 0) viol(nm[c.which], "%s: returned point %zu is not across a crease", when, jc);
      else if (!le(fabs(dst(r, jc, x.data()) - hb), eps) || !le(hb, sure + eps) || !le(maybe - eps, hb)) viol(nm[c.which], "%s: nearest across a crease among %zu: got %zu at %.17g, linear scan %.17g", when, n, jc, hb, sure);
      stat("crease_queries");
    }
  }
}

static void one(uint64_t seed, size_t n, int kind, size_t dim) {
  Rng g(seed); Ref r; r.dim = dim; r.nd = dim + g.k(2); if (g.u() < .3) r.nd = dim; r.has_n = g.u() < .85; r.has_a = g.u() < .7;
  MeshingSmartTree t(dim); if (g.u() < .4) t.disable_auto_balance();
  std::set<std::pair<size_t, size_t>> graph; bool use_graph = g.u() < .5;
  size_t next_check = 1;
  for (size_t i = 0; i < n; i++) {
    V x = gen(kind, dim, g, r, i); x.resize(r.nd); for (size_t k = dim; k < r.nd; k++) x[k] = g.u();
    V nrm = g.unit(dim); if (dim == 3 && g.u() < .7) { nrm = V{0, 0, 0}; nrm[g.k(3)] = g.u() < .5 ? 1 : -1; }
    nrm.resize(r.nd);  // the first point copies one entry per coordinate
    std::vector<size_t> a; if (r.has_a) { size_t m = 2 + g.k(6); a.push_back(m); for (size_t k = 1; k < m; k++) a.push_back(g.next() >> 3); }
    t.add_tree_point(r.nd, x.data(), r.has_n ? nrm.data() : 0, r.has_a ? a.data() : 0);
    r.x.push_back(x); nrm.resize(dim); r.n.push_back(nrm); r.at.push_back(a);
    if (t.get_num_tree_points() != i + 1) viol("count", "%zu points inserted, %zu reported", i + 1, t.get_num_tree_points());
    if (r.has_a && g.u() < .1) { size_t j = g.k(i + 1); size_t m = r.at[j][0]; if (m > 1) { size_t k = g.k(m - 1), v = g.next() >> 5; t.set_tree_point_attrib(j, k, v); r.at[j][k + 1] = v; } }
    if (use_graph && g.u() < .8) for (int e = 0; e < 3; e++) {
      size_t p = g.u() < .3 ? 0 : g.k(i + 1), q = g.k(i + 1);
      if (g.u() < .5) { t.graph_connect(p, q); graph.insert({p, q}); } else { t.graph_connect_nodes(p, q); graph.insert({p, q}); graph.insert({q, p}); }
    }
    if (i + 1 == next_check || i + 1 == 100 || i + 1 == 101 || i + 1 == 200 || i + 1 == n) {
      next_check = next_check * 3 / 2 + 1;
      queries(t, r, g, i + 1 == n ? 40 : 4, "after insertion");
      for (int k = 0; k < 20; k++) check_stored(t, r, g.k(i + 1), "after insertion"); check_stored(t, r, 0, "after insertion"); check_stored(t, r, i, "after insertion");
    }
    if (i > 3 && (g.u() < .002 || i == n / 2)) { t.kd_tree_build_balanced(); stat("rebuilds"); queries(t, r, g, 3, "after balancing"); }
  }
  if (use_graph && !graph.empty()) {
    for (size_t i = 0; i < n; i++) {
      std::set<size_t> want; for (auto it = graph.lower_bound({i, 0}); it != graph.end() && it->first == i; ++it) want.insert(it->second);
      bool ok = true; for (size_t w : want) ok = ok && t.graph_connected(i, w);
      for (int k = 0; k < 4; k++) { size_t j = g.k(n); if (t.graph_connected(i, j) != (want.count(j) > 0)) ok = false; }
      if (!ok) { viol("graph", "neighbours of point %zu in the graph are not the %zu connected ones", i, want.size()); break; }
      if (!want.empty()) {
        size_t* nb = 0; t.graph_get_neighbors(i, nb); std::multiset<size_t> got; if (nb) for (size_t k = 0; k < nb[1]; k++) got.insert(nb[2 + k]);
        if (got != std::multiset<size_t>(want.begin(), want.end())) { viol("graph", "neighbour list of point %zu has %zu entries, %zu connected (each once)", i, got.size(), want.size()); break; }
      }
      stat("graph_nodes_compared");
    }
  }
  t.kd_tree_build_balanced(); queries(t, r, g, 25, "after balancing"); for (size_t i = 0; i < n; i++) check_stored(t, r, i, "after balancing");
  if (r.has_a || true) {
    // renumbering: the same records in another order
    t.re_enumerate_points_for_better_memory_access();
    if (t.get_num_tree_points() != n) viol("renumber", "number of points changed");
    std::multiset<V> a, b; std::vector<V> nx; Ref r2 = r; r2.x.clear(); r2.n.clear(); r2.at.clear();
    for (size_t i = 0; i < n; i++) {
      V p(t.get_tree_point(i), t.get_tree_point(i) + r.nd), q(t.get_tree_point_normal(i), t.get_tree_point_normal(i) + dim); r2.x.push_back(p); r2.n.push_back(q);
      std::vector<size_t> at; if (r.has_a) { size_t* z = t.get_tree_point_attrib(i); at.assign(z, z + z[0]); } r2.at.push_back(at);
      V m = p; m.insert(m.end(), q.begin(), q.end()); for (auto v : at) m.push_back((double)v); b.insert(m);
      V m2 = r.x[i]; if (r.has_n) m2.insert(m2.end(), r.n[i].begin(), r.n[i].end()); else m2.insert(m2.end(), dim, 0.0); for (auto v : r.at[i]) m2.push_back((double)v); a.insert(m2);
    }
    if (a != b) viol("renumber", "renumbering the %zu points changed the set of records", n);
    else { queries(t, r2, g, 25, "after renumbering"); stat("renumberings"); }
    // it keeps growing correctly afterwards
    for (int i = 0; i < 120; i++) {
      V x = gen(kind == 2 || kind == 3 ? 0 : kind, dim, g, r2, n + i); x.resize(r.nd); V nrm = g.unit(dim); V n2 = nrm; n2.resize(r.nd); std::vector<size_t> at; if (r.has_a) at = {3, g.next() >> 4, (size_t)i};
      t.add_tree_point(r.nd, x.data(), r.has_n ? n2.data() : 0, r.has_a ? at.data() : 0); r2.x.push_back(x); r2.n.push_back(nrm); r2.at.push_back(at);
    }
    queries(t, r2, g, 10, "after growing a renumbered tree");
  }
  stat("points", n); kase(str("kind%d/dim%zu/n%zu/%llu", kind, dim, n, (unsigned long long)seed));
}

// bulk construction from an array of points
static void bulk(uint64_t seed, size_t n) {
  Rng g(seed); Ref r; size_t dim = 1 + g.k(5); r.dim = r.nd = dim; r.has_n = r.has_a = false;
  double** p = new double*[n]; for (size_t i = 0; i < n; i++) { V x = gen((int)g.k(7), dim, g, r, i); x.resize(dim); r.x.push_back(x); p[i] = new double[dim]; std::copy(x.begin(), x.end(), p[i]); }
  { MeshingSmartTree t(dim, n, p); if (t.get_num_tree_points() != n) viol("bulk-count", "bulk tree of %zu points reports %zu", n, t.get_num_tree_points()); queries(t, r, g, 60, "bulk construction"); }
  kase(str("bulk/dim%zu/n%zu/%llu", dim, n, (unsigned long long)seed));
}

int main(int argc, char** argv) {
  uint64_t seed = strtoull(argv[1], 0, 10); int reps = atoi(argv[2]); size_t big = strtoull(argv[3], 0, 10);
  for (int i = 0; i < reps; i++) {
    Rng g(seed * 1000 + i); static const size_t ns[] = {1, 2, 3, 7, 60, 99, 100, 101, 250, 900};
    size_t n = i % 12 == 11 ? big : ns[g.k(10)]; one(seed * 1000 + i, n, i % 7, g.u() < .55 ? 3 : 1 + g.k(6));
    if (i % 3 == 0) bulk(seed * 777 + i, 1 + g.k(i % 4 ? 50 : 1500));
  }
  return done();
}
