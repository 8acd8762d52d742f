// P21: growing arrays, sorting, number parsing and the stored tables. args: seed reps (writes files in the current directory)
#include "vt.h"
#include <fstream>
#include "MeshingMemoryHandler.h"
#include "MeshingSmartTree.h"
#include "MeshingVoronoiMesher.h"
using namespace vt;
static MeshingMemoryHandler M;
template <class T> static void grow(Rng& g, const char* nm, std::function<T(Rng&)> val) {
  size_t cap = g.u() < .3 ? 1 : 1 + g.k(20), n = 0; T* a = new T[cap]; std::vector<T> ref; size_t N = g.u() < .1 ? 5000 : g.k(400);
  for (size_t i = 0; i < N; i++) {
    T v = val(g); M.add_entry(v, n, a, cap); ref.push_back(v);
    if (n != ref.size() || cap <= n) { viol("grow-count", "%s: %zu entries counted after %zu insertions (capacity %zu)", nm, n, ref.size(), cap); return; }
    if (i + 1 == N || (i & (i + 1)) == 0 || g.u() < .03) for (size_t k = 0; k < n; k++) if (!(a[k] == ref[k])) { viol("grow", "%s: entry %zu of %zu changed while the array grew (capacity %zu)", nm, k, n, cap); return; }
    if (g.u() < .2 && n) { size_t k = g.k(n); T w = val(g); a[k] = w; ref[k] = w; } }
  stat("entries_grown", N); delete[] a; kase(str("grow/%s/%zu", nm, N)); }
static std::vector<double> keys(Rng& g, size_t n, int kind) {
  std::vector<double> x(n); for (size_t i = 0; i < n; i++) x[i] = kind == 0 ? g.u(-1, 1) * 1e3 : kind == 1 ? i : kind == 2 ? (double)(n - i) : kind == 3 ? g.k(3) : kind == 4 ? 5 : kind == 5 ? (i < n / 2 ? i : n - i) : kind == 6 ? (i % 2 ? i : n - i) : kind == 7 ? floor(g.u(0, 8)) * (g.u() < .5 ? -1 : 1) : g.lg(1e-300, 1e300) * (g.u() < .5 ? -1 : 1); return x; }
static void sorting(Rng& g) {
  for (int which = 0; which < 3; which++) {
    int kind = (int)g.k(9); size_t n = 1 + (g.u() < .05 ? g.k(3000) : g.k(40)), pad = g.k(4); auto k0 = keys(g, n, kind); size_t N = n + 2 * pad;
    std::vector<double> kd(N); std::vector<size_t> ks(N), I(N); for (size_t i = 0; i < N; i++) { kd[i] = i >= pad && i < pad + n ? k0[i - pad] : (g.u() < .5 ? -1e301 : 1e301); ks[i] = i >= pad && i < pad + n ? (size_t)(kind == 8 ? g.next() : fabs(k0[i - pad])) : (g.u() < .5 ? 0 : SIZE_MAX); I[i] = g.u() < .3 ? i : g.next(); }
    std::vector<double> kd0 = kd; std::vector<size_t> ks0 = ks, I0 = I; size_t l = pad, r = pad + n - 1; const char* nm = which == 0 ? "integers" : which == 1 ? "reals with companion" : "integers with companion";
    if (which == 0) M.quicksort(ks.data(), l, r); else if (which == 1) M.quicksort(kd.data(), I.data(), l, r); else M.quicksort(ks.data(), I.data(), l, r);
    for (size_t i = 0; i < N; i++) if (i < l || i > r) if (ks[i] != ks0[i] || kd[i] != kd0[i] || I[i] != I0[i]) viol("sort-range", "sorting %s %zu..%zu changed entry %zu outside the range", nm, l, r, i);
    for (size_t i = l; i < r; i++) if (which == 1 ? !(kd[i] <= kd[i + 1]) : !(ks[i] <= ks[i + 1])) { viol("sort-order", "%s (pattern %d, %zu entries) are not in order after sorting, at %zu", nm, kind, n, i - l); break; }
    std::vector<std::pair<double, size_t>> a, b; std::vector<std::pair<size_t, size_t>> c, d; for (size_t i = l; i <= r; i++) { a.push_back({kd[i], which == 1 ? I[i] : 0}); b.push_back({kd0[i], which == 1 ? I0[i] : 0}); c.push_back({ks[i], which == 2 ? I[i] : 0}); d.push_back({ks0[i], which == 2 ? I0[i] : 0}); }
    std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); std::sort(c.begin(), c.end()); std::sort(d.begin(), d.end()); if (a != b || c != d) viol("sort-content", "sorting %s (pattern %d, %zu entries) lost entries or separated them from their companions", nm, kind, n);
    stat("entries_sorted", n); kase(str("sort/%d/%d/%zu", which, kind, n)); } }
static void parsing(Rng& g) {
  for (int i = 0; i < 40; i++) { double v = g.u() < .2 ? floor(g.u(-1e6, 1e6)) : g.g() * g.lg(1e-250, 1e250); std::string f[] = {"%.17g", "%.16e", " %.17g", "%.17g ", "\t%.17g\r", "%.6f", "%.17g,7", "+%.17g"}; int k = (int)g.k(8); if (k == 5) v = g.u(-1e3, 1e3); if (k == 7) v = fabs(v); std::string t = str(f[k].c_str(), v); double e = strtod(t.c_str(), 0), got = M.string_to_double(t); if (!(got == e)) viol("parse-real", "\"%s\" is read as %.17g", t.c_str(), got); stat("numbers_parsed"); }
  for (int i = 0; i < 20; i++) { size_t v = g.u() < .5 ? g.k(100000) : g.next() >> g.k(60); std::string t = str(g.u() < .5 ? "%zu" : " %zu ", v); if (M.string_to_size_t(t) != v) viol("parse-int", "\"%s\" is read as %zu", t.c_str(), M.string_to_size_t(t)); }
  for (const char* t : {"", " ", "abc", "-", ".", ",", "e5"}) if (M.string_to_double(t) != 0.0) viol("parse-none", "\"%s\" is read as a number", t); }
static bool same(double a, double b) { return fabs(a - b) <= 7e-16 * fabs(b) || (a == 0 && b == 0); }
static void trees(Rng& g) {
  size_t dim = 1 + g.k(4), nd = dim + (g.u() < .6 ? g.k(3) : 0), n = 1 + (g.u() < .1 ? g.k(3000) : g.k(120)); bool hn = g.u() < .6, ha = hn && g.u() < .6; size_t na = 1 + g.k(5);
  MeshingSmartTree t(dim); if (g.u() < .5) t.disable_auto_balance(); std::vector<V> X, N; std::vector<std::vector<size_t>> A;
  for (size_t i = 0; i < n; i++) { V x(nd), q(dim); for (auto& v : x) v = g.u() < .1 ? floor(g.u(-5, 5)) : g.g() * g.lg(1e-12, 1e9); for (auto& v : q) v = g.u() < .15 ? 0. : g.g(); std::vector<size_t> a(na); a[0] = na; for (size_t k = 1; k < na; k++) a[k] = g.u() < .5 ? g.k(1000) : g.next() >> 1; if (!hn) q.assign(dim, 0.); V x2 = x, q2 = q; auto a2 = a; t.add_tree_point(nd, x2.data(), hn ? q2.data() : 0, ha ? a2.data() : 0); X.push_back(x); N.push_back(q); A.push_back(a); }
  // companions set afterwards
  for (size_t i = 0; i < n; i++) { if (nd > dim && g.u() < .3) { size_t c = g.k(nd - dim); double v = g.lg(1e-3, 1e3); t.set_tree_point_attrib(i, c, v); X[i][dim + c] = v; if (t.get_tree_point_attrib(i, c) != v) viol("attrib-real", "attribute %zu of point %zu", c, i); } if (ha && na > 1 && g.u() < .3) { size_t c = g.k(na - 1), v = g.next() >> 2; t.set_tree_point_attrib(i, c, v); A[i][1 + c] = v; } }
  auto cmp = [&](MeshingSmartTree& u, size_t m, const char* w, bool exact) { if (u.get_num_tree_points() != m * n) { viol("table-count", "%s: %zu points instead of %zu", w, u.get_num_tree_points(), m * n); return; } for (size_t j = 0; j < m * n; j++) { size_t i = j % n; double* p = u.get_tree_point(j); for (size_t k = 0; k < nd; k++) if (exact ? p[k] != X[i][k] : !same(p[k], X[i][k])) { viol("table-point", "%s: coordinate %zu of point %zu of %zu is %.17g, stored %.17g", w, k, i, n, p[k], X[i][k]); return; } double* q = u.get_tree_point_normal(j); for (size_t k = 0; k < dim; k++) if (exact ? q[k] != N[i][k] : !same(q[k], N[i][k])) { viol("table-normal", "%s: normal %zu of point %zu is %.17g, stored %.17g", w, k, i, q[k], N[i][k]); return; } if (ha) { size_t* a = u.get_tree_point_attrib(j); if (!a) { viol("table-attrib", "%s: attributes lost", w); return; } for (size_t k = 0; k < na; k++) if (a[k] != A[i][k]) { viol("table-attrib", "%s: attribute %zu of point %zu is %zu, stored %zu", w, k, i, a[k], A[i][k]); return; } } } };
  cmp(t, 1, "in memory", true);
  t.save_tree_csv("t.csv", nd); MeshingSmartTree u(dim); u.load_tree_csv("t.csv", nd); cmp(u, 1, "after saving and loading", false);
  u.load_tree_csv("t.csv", nd); cmp(u, 2, "after loading twice", false);
  // saved again, nothing changes any more
  { MeshingSmartTree v(dim); v.load_tree_csv("t.csv", nd); v.save_tree_csv("t2.csv", nd); std::ifstream a("t.csv"), b("t2.csv"); std::string s((std::istreambuf_iterator<char>(a)), {}), r((std::istreambuf_iterator<char>(b)), {}); (void)r; MeshingSmartTree w2(dim); w2.load_tree_csv("t2.csv", nd); cmp(w2, 1, "after two rounds", false); }
  // a hand-written table without blanks, and with a header of coordinates only
  { std::ofstream f("h.csv"); bool sp = g.u() < .5; f << "x"; for (size_t k = 1; k < nd; k++) f << ",y"; f << "\n"; for (auto& x : X) { for (size_t k = 0; k < nd; k++) f << (k ? (sp ? ", " : ",") : "") << str("%.17g", x[k]); f << "\n"; } f.close(); MeshingSmartTree v(dim); v.load_tree_csv("h.csv", nd); if (v.get_num_tree_points() != n) viol("table-hand", "%zu rows of %zu were read", v.get_num_tree_points(), n); else if (nd < 2 * dim || true) for (size_t i = 0; i < n; i++) for (size_t k = 0; k < nd; k++) if (v.get_tree_point(i)[k] != X[i][k]) { viol("table-hand", "hand-written coordinate %zu of row %zu is read as %.17g instead of %.17g", k, i, v.get_tree_point(i)[k], X[i][k]); i = n - 1; break; } }
  stat("table_rows", n); kase(str("tree/%zu/%zu/%zu/%d%d", dim, nd, n, hn, ha)); }
static void spheres(Rng& g) {
  MeshingVoronoiMesher vm; size_t nd = 1 + g.k(4), n = g.u() < .3 ? 99 + g.k(4) : g.u() < .1 ? 0 : g.k(500); V x(n * (nd + 1)), c(n * nd), r(n); std::vector<size_t> id(n);
  for (size_t i = 0; i < n; i++) { for (size_t k = 0; k < nd; k++) x[i * (nd + 1) + k] = c[i * nd + k] = g.g() * g.lg(1e-9, 1e6); x[i * (nd + 1) + nd] = r[i] = g.lg(1e-6, 1e3); id[i] = g.k(9); }
  for (int lay = 0; lay < 4; lay++) { vm.save_spheres_csv("s.csv", nd, n, lay & 1 ? c.data() : x.data(), lay & 1 ? (n ? r.data() : (double*)8) : 0, lay & 2 ? id.data() : 0); size_t m = 77; double* y = 0; vm.load_spheres_csv("s.csv", nd, m, y); if (m != n) { viol("spheres-count", "%zu spheres read, %zu written (layout %d)", m, n, lay); } else for (size_t i = 0; i < n * (nd + 1); i++) if (!same(y[i], x[i])) { viol("spheres", "value %zu of sphere %zu of %zu is read as %.17g, written %.17g (layout %d)", i % (nd + 1), i / (nd + 1), n, y[i], x[i], lay); break; } delete[] y;
    if (lay & 2) { std::ifstream f("s.csv"); std::string l; getline(f, l); for (size_t i = 0; i < n && getline(f, l); i++) { size_t p = l.rfind(','); if (p == std::string::npos || strtoull(l.c_str() + p + 1, 0, 10) != id[i]) { viol("spheres-id", "region of sphere %zu is written as '%s', it is %zu", i, l.c_str(), id[i]); break; } } } }
  stat("sphere_rows", n); kase(str("spheres/%zu/%zu", nd, n)); }
int main(int argc, char** argv) {
  uint64_t seed = strtoull(argv[1], 0, 10); int reps = atoi(argv[2]);
  for (int i = 0; i < reps; i++) { Rng g(seed * 1000003 + i);
    grow<size_t>(g, "indices", [](Rng& g) { return (size_t)g.next(); }); grow<double>(g, "reals", [](Rng& g) { return g.g(); });
    grow<size_t*>(g, "index lists", [](Rng& g) { return (size_t*)(g.next() & ~7ull); }); grow<double*>(g, "real lists", [](Rng& g) { return (double*)(g.next() & ~7ull); }); grow<bool*>(g, "flag lists", [](Rng& g) { return (bool*)(g.next() & ~7ull); });
    for (int k = 0; k < 4; k++) sorting(g); parsing(g); trees(g); spheres(g); }
  return done();
}
