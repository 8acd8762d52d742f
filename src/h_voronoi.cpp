// P22: ray trimming, neighbour search, cells, faces and vertices of MeshingSmartTree against brute force.
// args: seed reps
#include "vt.h"
#include "MeshingSmartTree.h"
using namespace vt;
typedef long double L;
typedef std::array<L, 3> P3;
static P3 operator-(const P3& a, const P3& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static P3 operator+(const P3& a, const P3& b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
static P3 operator*(L t, const P3& a) { return {t * a[0], t * a[1], t * a[2]}; }
static L dot(const P3& a, const P3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static P3 cross(const P3& a, const P3& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static L nrm(const P3& a) { return sqrtl(dot(a, a)); }
struct Poly { std::map<long, std::vector<P3>> f; };  // facet -> ordered corners; negative keys: the surrounding box
static L area(const std::vector<P3>& c) { P3 n = {0, 0, 0}; for (size_t i = 1; i + 1 < c.size(); i++) n = n + cross(c[i] - c[0], c[i + 1] - c[0]); return nrm(n) / 2; }
static Poly cellof(const std::vector<P3>& s, size_t i, L big) {
  Poly c; P3 o = s[i]; for (int a = 0; a < 3; a++) for (int sg = -1; sg <= 1; sg += 2) { std::vector<P3> q; L uv[4][2] = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}}; for (auto& k : uv) { P3 p; p[a] = sg * big; p[(a + 1) % 3] = k[0] * big; p[(a + 2) % 3] = k[1] * big; q.push_back(o + p); } c.f[-(2 * a + (sg > 0)) - 1] = q; }
  std::vector<std::pair<L, size_t>> ord; for (size_t j = 0; j < s.size(); j++) if (j != i) ord.push_back({nrm(s[j] - o), j}); std::sort(ord.begin(), ord.end());
  for (auto& oj : ord) { size_t j = oj.second; P3 n = (1 / oj.first) * (s[j] - o); L h = oj.first / 2; bool any = false; for (auto& f : c.f) for (auto& p : f.second) if (dot(p - o, n) > h) any = true; if (!any) continue;
    std::vector<P3> cut; std::map<long, std::vector<P3>> nf;
    for (auto& f : c.f) { std::vector<P3> out; size_t m = f.second.size(); for (size_t k = 0; k < m; k++) { P3 a = f.second[k], b = f.second[(k + 1) % m]; L da = dot(a - o, n) - h, db = dot(b - o, n) - h; if (da <= 0) out.push_back(a); if ((da < 0 && db > 0) || (da > 0 && db < 0)) { P3 x = a + (da / (da - db)) * (b - a); out.push_back(x); cut.push_back(x); } else if (da == 0) cut.push_back(a); } if (out.size() >= 3) nf[f.first] = out; }
    P3 m = {0, 0, 0}; for (auto& p : cut) m = m + (1.0L / cut.size()) * p; P3 u = fabsl(n[0]) < .6L ? P3{1, 0, 0} : P3{0, 1, 0}; u = cross(n, u); u = (1 / nrm(u)) * u; P3 v = cross(n, u); std::vector<std::pair<L, P3>> so; for (auto& p : cut) so.push_back({atan2l(dot(p - m, v), dot(p - m, u)), p}); std::sort(so.begin(), so.end(), [](const std::pair<L, P3>& a, const std::pair<L, P3>& b) { return a.first < b.first; });
    std::vector<P3> q; for (auto& p : so) if (q.empty() || nrm(p.second - q.back()) > big * 1e-14L) q.push_back(p.second); while (q.size() > 1 && nrm(q.front() - q.back()) <= big * 1e-14L) q.pop_back(); if (q.size() >= 3) nf[(long)j] = q; c.f = nf; }
  return c; }
static std::vector<V> cloud(Rng& g, size_t n, size_t d, double sc, int kind) {
  std::vector<V> x; for (size_t i = 0; i < n; i++) { V p(d); for (size_t k = 0; k < d; k++) p[k] = kind == 0 ? sc * g.u(-1, 1) : kind == 1 ? sc * (k ? 1 : .2) * g.u(-1, 1) : kind == 2 ? sc * .3 * g.g() : sc * (floor(g.u(0, 4)) / 2 - .75 + .12 * g.u(-1, 1)); bool ok = true; for (auto& q : x) { double s = 0; for (size_t k = 0; k < d; k++) s += (p[k] - q[k]) * (p[k] - q[k]); if (s < 1e-4 * sc * sc * (d < 3 ? .01 : 1)) ok = false; } if (ok) x.push_back(p); } return x; }
static void fill(MeshingSmartTree& t, const std::vector<V>& x) { for (auto& p : x) { V q = p; t.add_tree_point(p.size(), q.data(), 0, 0); } }
static double d2(const V& a, const V& b) { double s = 0; for (size_t k = 0; k < a.size(); k++) s += (a[k] - b[k]) * (a[k] - b[k]); return s; }

static void rays(Rng& g) {
  size_t d = 1 + g.k(6); double sc = g.lg(.2, 50); int kind = (int)g.k(4); auto x = cloud(g, 2 + g.k(g.u() < .2 ? 400 : 60), d, sc, kind); size_t n = x.size(); if (n < 2) return; MeshingSmartTree t(d); if (g.u() < .4) t.disable_auto_balance(); fill(t, x); if (g.u() < .4) t.kd_tree_build_balanced();
  for (int r = 0; r < 40; r++) {
    // cell of a tree point, or of a new point
    std::vector<size_t> inv; V c; if (g.u() < .7) { size_t i = g.k(n); c = x[i]; inv.push_back(i); } else { c.resize(d); for (auto& v : c) v = sc * g.u(-1.2, 1.2); double m = 1e300; for (auto& q : x) m = std::min(m, d2(c, q)); if (m < 1e-6 * sc * sc) continue; }
    V o = c; if (inv.size() && g.u() < .4) { V dir = g.unit(d); double len = .3 * sc * g.u(); bool ok = false; for (int it = 0; it < 6 && !ok; it++, len *= .5) { for (size_t k = 0; k < d; k++) o[k] = c[k] + len * dir[k]; ok = true; for (size_t q = 0; q < n; q++) if (q != inv[0] && d2(o, x[q]) <= d2(o, c)) ok = false; } if (!ok) o = c; }
    if (inv.size() && g.u() < .2) { size_t k = g.k(n); if (k != inv[0]) inv.push_back(k); }
    V e = g.unit(d); if (d == 1) e[0] = g.u() < .5 ? -1 : 1; if (g.u() < .15) { e.assign(d, 0.); e[g.k(d)] = g.u() < .5 ? -1 : 1; }
    L best = -1, second = -1; size_t arg = n; bool risky = false; for (size_t q = 0; q < n; q++) { if (std::find(inv.begin(), inv.end(), q) != inv.end()) continue; L a = 0, b = 0; for (size_t k = 0; k < d; k++) { L m = ((L)x[q][k] + c[k]) / 2, w = (L)x[q][k] - c[k]; a += (m - o[k]) * w; b += e[k] * w; } if (fabsl(b) < 1e-6L * sc) risky = true; if (b <= 1e-6L * sc) continue; if (a < 0) a = 0; L h = a / b; if (best < 0 || h < best) { second = best; best = h; arg = q; } else if (second < 0 || h < second) second = h; }
    double len = DBL_MAX; size_t nb = n + 5; t.trim_spoke(c.data(), inv.size(), inv.empty() ? 0 : inv.data(), o.data(), e.data(), len, nb); stat("rays");
    if (best < 0) { if (!risky && len != DBL_MAX) viol("ray-unbounded", "a ray that leaves the cell unbounded was cut at %g (dimension %zu, %zu seeds)", len, d, n); stat("unbounded_rays"); continue; }
    if (risky && best > 1e3L * sc) continue;
    if (!le(fabs((double)(len - best)), 1e-7 * (sc + (double)best))) { viol("ray", "ray in dimension %zu among %zu seeds (%zu excluded, pattern %d) is cut at %.12g, the cell ends at %.12Lg", d, n, inv.size(), kind, len, best); continue; }
    if ((second < 0 || second - best > 1e-6L * (sc + best)) && nb != arg) viol("ray-seed", "ray is cut at the right distance but the seed across is %zu instead of %zu", nb, arg);
  }
  kase(str("rays/%zu/%zu/%d", d, n, kind)); }
static void neighbours(Rng& g, int rep) {
  size_t d = 2 + g.k(3); double sc = g.lg(.2, 50); bool shell = g.u() < .06; auto x = cloud(g, shell ? 4 : 8 + g.k(60), d, sc, (int)g.k(4)); if (shell) { d = 3 + g.k(2); x.clear(); for (size_t k = 0, w = 110 + g.k(150); k < w; k++) { V q = g.unit(d); for (auto& v : q) v *= sc; x.push_back(q); } /* more neighbours than the lists hold at first */ } size_t n = x.size(); if (n < 3) return; MeshingSmartTree t(d); fill(t, x); bool thr = g.u() < .5; if (thr) t.init_random_samplers(3);
  for (int r = 0; r < 3; r++) {
    size_t self = !shell && g.u() < .6 ? g.k(n) : n; V c(d); if (self < n) c = x[self]; else if (shell) { for (auto& v : c) v = sc * g.u(-.01, .01); } else { for (auto& v : c) v = sc * g.u(-1, 1); double m = 1e300; for (auto& q : x) m = std::min(m, d2(c, q)); if (m < 1e-6 * sc * sc) continue; }
    size_t ns = shell ? 800 + g.k(1500) : 1 + g.k(150), nl = 1 + g.k(2), m = 0; size_t *nb = 0, *hit = 0, *lev = 0; std::vector<double*> ep(ns, (double*)0); std::vector<size_t> en(ns, 99999); bool pts = nl == 1 && g.u() < .7, lv = g.u() < .5; int th = (int)g.k(3);
    if (thr) { if (lv) t.get_Voronoi_neighbors(th, ns, nl, d, c.data(), pts ? ep.data() : 0, pts ? en.data() : 0, m, nb, hit, lev); else t.get_Voronoi_neighbors(th, ns, nl, d, c.data(), pts ? ep.data() : 0, pts ? en.data() : 0, m, nb, hit); }
    else if (lv) { if (pts) t.get_Voronoi_neighbors(ns, nl, d, c.data(), ep.data(), en.data(), m, nb, hit, lev); else t.get_Voronoi_neighbors(ns, nl, d, c.data(), m, nb, hit, lev); }
    else t.get_Voronoi_neighbors(ns, nl, d, c.data(), pts ? ep.data() : 0, pts ? en.data() : 0, m, nb, hit);
    std::set<size_t> seen; size_t hits = 0, s0 = self < n ? 1 : 0;
    for (size_t i = 0; i < m; i++) { if (nb[i] >= n) { viol("nb-index", "unknown neighbour reported"); break; } if (!seen.insert(nb[i]).second) viol("nb-twice", "neighbour %zu is reported twice", nb[i]); if (i >= s0) { if (hit[i] < 1) viol("nb-hits", "a neighbour never hit"); hits += hit[i]; } if (lv && (i >= s0 ? lev[i] < 1 || lev[i] > nl : lev[i] != 0)) viol("nb-level", "neighbour level %zu of %zu layers", lev[i], nl); }
    if (s0 && (m < 1 || nb[0] != self)) viol("nb-self", "a seed is not first in its own list");
    if (hits > ns * nl) viol("nb-hits", "%zu hits from %zu rays", hits, ns * nl);
    // true neighbours: a hit point is equally near to both and no seed is nearer
    if (pts) { std::map<size_t, size_t> cnt; for (size_t k = 0; k < ns; k++) { if (!ep[k]) { viol("nb-ray", "ray %zu not reported", k); continue; } V p(ep[k], ep[k] + d); delete[] ep[k]; if (en[k] == SIZE_MAX) { double s = 0; for (double v : p) s += v * v; if (fabs(s - 1) > 1e-9) viol("nb-ray", "unbounded ray is not a direction"); continue; } if (en[k] >= n) { viol("nb-ray", "ray ends at unknown seed %zu", en[k]); continue; } cnt[en[k]]++; double a = sqrt(d2(p, c)), b = sqrt(d2(p, x[en[k]])); if (a > 1e4 * sc) continue; if (!le(fabs(a - b), 1e-6 * (sc + a))) viol("nb-ray", "end of a ray is %g from the seed and %g from its neighbour", a, b); for (size_t q = 0; q < n; q++) if (q != self && sqrt(d2(p, x[q])) < a - 1e-6 * (sc + a)) { viol("nb-false", "seed %zu was reported as neighbour although seed %zu is nearer to the end of the ray (dimension %zu)", en[k], q, d); break; } stat("neighbour_rays"); }
      for (size_t i = s0; i < m; i++) if (cnt[nb[i]] != hit[i]) viol("nb-hits", "neighbour %zu has %zu hits, %zu rays end there", nb[i], hit[i], cnt[nb[i]]); }
    if (d == 3 && nl == 1) { std::vector<P3> s; for (auto& q : x) s.push_back({q[0], q[1], q[2]}); size_t me = self; if (self == n) { s.push_back({c[0], c[1], c[2]}); me = n; } Poly pc = cellof(s, me, 1e5L * sc); for (size_t i = s0; i < m; i++) if (!pc.f.count((long)nb[i])) viol("nb-false", "seed %zu is not a Voronoi neighbour but was hit %zu times", nb[i], hit[i]); stat("neighbour_lists_exact"); }
    stat("neighbours_reported", m); delete[] nb; delete[] hit; delete[] lev; }
  { size_t want = 1 + g.k(n < 9 ? 2 : 7), m = 0, *nb = 0, self = g.k(n); V c = x[self]; // a bounded cell is needed for every direction to be cut eventually; directions are drawn until enough neighbours are found
    t.get_Voronoi_neighbors(want, d, c.data(), m, nb); std::set<size_t> s(nb, nb + m); if (m < want || s.size() != m) viol("nb-wanted", "%zu neighbours wanted, %zu different ones of %zu returned", want, s.size(), m); for (size_t v : s) if (v >= n) viol("nb-wanted", "unknown neighbour"); delete[] nb; }
  kase(str("neighbours/%zu/%zu/%d", d, n, rep)); }
static void cells(Rng& g) {
  double sc = g.lg(.3, 30); int kind = (int)g.k(4); auto x = cloud(g, 30 + g.k(50), 3, sc, kind); size_t n = x.size(); if (n < 12) return; MeshingSmartTree t(3); fill(t, x); std::vector<P3> s; for (auto& q : x) s.push_back({q[0], q[1], q[2]});
  int used = 0; for (size_t trial = 0; trial < 3 * n && used < 5; trial++) {
    size_t i = g.k(n); Poly pc = cellof(s, i, 1e4L * sc); bool bounded = true; L vol = 0, ext = 0; for (auto& f : pc.f) { if (f.first < 0) bounded = false; for (auto& p : f.second) ext = std::max(ext, nrm(p - s[i])); } if (!bounded || ext > 4 * sc) continue; used++;
    bool tie = false; L minlen = 1e300; for (auto& f : pc.f) { P3 n0 = s[f.first] - s[i]; n0 = (1 / nrm(n0)) * n0; P3 u = cross(n0, fabsl(n0[0]) < .6L ? P3{1, 0, 0} : P3{0, 1, 0}); u = (1 / nrm(u)) * u; P3 v = cross(n0, u); std::vector<L> th; P3 mid = 0.5L * (s[f.first] + s[i]); for (auto& fk : pc.f) if (fk.first != f.first) { size_t k = (size_t)fk.first; th.push_back(atan2l(dot(s[k] - mid, v), dot(s[k] - mid, u))); } std::sort(th.begin(), th.end()); for (size_t k = 1; k < th.size(); k++) if (th[k] - th[k - 1] < 3e-5L) tie = true; for (size_t k = 0; k < f.second.size(); k++) minlen = std::min(minlen, nrm(f.second[k] - f.second[(k + 1) % f.second.size()])); }
    for (auto& f : pc.f) vol += area(f.second) * nrm(s[f.first] - s[i]) / 6;
    if (tie || minlen < 1e-5L * sc) { stat("cells_skipped_near_degenerate"); continue; }
    size_t nn = 0, *nb = 0, *nfc = 0; double v = -1, *fa = 0; double*** fc = 0; t.get_3d_Voronoi_cell(i, nn, nb, v, nfc, fc, fa); std::map<size_t, double> got; bool bad = false;
    for (size_t k = 0; k < nn; k++) { if (got.count(nb[k])) { viol("cell-twice", "neighbour %zu of cell %zu is reported twice", nb[k], i); bad = true; } got[nb[k]] = fa[k]; }
    for (auto& f : pc.f) { L a = area(f.second); auto it = got.find(f.first); if (it == got.end()) { if (a > 1e-6L * sc * sc) { viol("cell-missing", "cell of seed %zu of %zu (pattern %d) lacks its facet of area %Lg with seed %ld", i, n, kind, a, f.first); bad = true; } } else if (!le(fabs(it->second - (double)a), 1e-6 * sc * sc)) { viol("cell-area", "facet between seeds %zu and %ld has area %.12g, true %.12Lg", i, f.first, it->second, a); bad = true; } }
    for (auto& q : got) if (!pc.f.count((long)q.first) && !le(q.second, 1e-6 * sc * sc)) { viol("cell-false", "cell of seed %zu has a facet of area %g with seed %zu, which is no neighbour", i, q.second, q.first); bad = true; }
    if (!bad && !le(fabs(v - (double)vol), 1e-6 * sc * sc * sc)) viol("cell-volume", "volume of the cell of seed %zu is %.12g, true %.12Lg", i, v, vol);
    maxi("cell_volume_err", fabs(v - (double)vol) / (sc * sc * sc)); stat("cells_compared"); stat("facets_compared", pc.f.size());
    // corners of the facets are equidistant from the two seeds and no seed is nearer
    for (size_t k = 0; k < nn && !bad; k++) { if (!pc.f.count((long)nb[k])) continue; for (size_t c = 0; c < nfc[k]; c++) { V p(fc[k][c], fc[k][c] + 3); double a = sqrt(d2(p, x[i])); double m = 1e300; for (size_t q = 0; q < n; q++) m = std::min(m, d2(p, x[q])); if (!le(fabs(a - sqrt(d2(p, x[nb[k]]))), 1e-6 * sc) || !le(a - sqrt(m), 1e-6 * sc)) { viol("cell-corner", "corner %zu of the facet between %zu and %zu is no Voronoi vertex", c, i, nb[k]); break; } stat("corners_compared"); } if (nfc[k] != pc.f[nb[k]].size() && fa[k] > 1e-6 * sc * sc) viol("cell-corners", "facet between %zu and %zu has %zu corners, true %zu", i, nb[k], nfc[k], pc.f[nb[k]].size()); }
    for (size_t k = 0; k < nn; k++) if (nfc[k]) { for (size_t c = 0; c < nfc[k]; c++) delete[] fc[k][c]; delete[] fc[k]; } delete[] nb; delete[] nfc; delete[] fa; delete[] fc;
    // one facet queried by itself from a point of its interior
    size_t pick = g.k(pc.f.size()); auto it = pc.f.begin(); std::advance(it, pick); if (area(it->second) > 1e-4L * sc * sc) { P3 m = {0, 0, 0}; for (auto& p : it->second) m = m + (1.0L / it->second.size()) * p; double xf[3] = {(double)m[0], (double)m[1], (double)m[2]}, A = 0, h = 0; size_t nc = 0; double** co = 0; t.get_3d_Voronoi_face(i, (size_t)it->first, xf, nc, co, A, h); if (!le(fabs(A - (double)area(it->second)), 1e-6 * sc * sc) || !le(fabs(h - (double)nrm(s[it->first] - s[i]) / 2), 1e-6 * sc) || nc != it->second.size()) viol("face", "facet between %zu and %ld: area %.12g height %.12g with %zu corners, true %.12Lg, %.12Lg, %zu", i, it->first, A, h, nc, area(it->second), nrm(s[it->first] - s[i]) / 2, it->second.size()); for (size_t c = 0; c < nc; c++) delete[] co[c]; delete[] co; stat("facets_queried"); } }
  kase(str("cells/%zu/%d/%.3g", n, kind, sc)); }
// one seed inside a shell of many: a cell with as many facets as there are seeds around it
static void shell(Rng& g) {
  size_t n = 60 + g.k(240); double sc = g.lg(.3, 30), off = g.u(0, 6.28); MeshingSmartTree t(3); V o = {.02 * sc * g.g(), .02 * sc * g.g(), .02 * sc * g.g()}; std::vector<V> x; x.push_back(o);
  for (size_t i = 0; i < n; i++) { double z = 1 - (2 * i + 1.) / n, a = 2.399963229728653 * i + off, r = sqrt(1 - z * z), q = sc * (1 + .002 * g.u(-1, 1) / sqrt((double)n)); x.push_back({q * r * cos(a), q * r * sin(a), q * z}); }
  for (size_t i = 1; i < x.size(); i++) std::swap(x[i], x[1 + g.k(x.size() - 1)]); fill(t, x); std::vector<P3> s; for (auto& q : x) s.push_back({q[0], q[1], q[2]}); Poly pc = cellof(s, 0, 1e4L * sc); L vol = 0; for (auto& f : pc.f) vol += area(f.second) * nrm(s[f.first] - s[0]) / 6;
  size_t nn = 0, *nb = 0, *nfc = 0; double v = -1, *fa = 0; double*** fc = 0; t.get_3d_Voronoi_cell(0, nn, nb, v, nfc, fc, fa); std::map<size_t, double> got; for (size_t k = 0; k < nn; k++) { if (got.count(nb[k])) viol("shell-twice", "neighbour %zu of a cell with %zu facets is reported twice", nb[k], n); got[nb[k]] = fa[k]; }
  for (auto& f : pc.f) { L a = area(f.second); auto it = got.find(f.first); if (it == got.end() ? a > 1e-6L * sc * sc : !le(fabs(it->second - (double)a), 1e-6 * sc * sc)) viol("shell-facet", "facet %ld of a cell with %zu facets: area %g, true %Lg", f.first, n, it == got.end() ? -1. : it->second, a); }
  if (!le(fabs(v - (double)vol), 1e-6 * sc * sc * sc)) viol("shell-volume", "volume of a cell with %zu facets is %.12g, true %.12Lg", n, v, vol); maxi("facets_of_one_cell_max", nn); stat("shell_cells");
  for (size_t k = 0; k < nn; k++) if (nfc[k]) { for (size_t c = 0; c < nfc[k]; c++) delete[] fc[k][c]; delete[] fc[k]; } delete[] nb; delete[] nfc; delete[] fa; delete[] fc; kase(str("shell/%zu", n)); }
static void vertices(Rng& g) {
  size_t d = 1 + g.k(6); double sc = g.lg(.1, 100); auto x = cloud(g, d + 1 + g.k(20), d, sc, 0); size_t n = x.size(); if (n < d + 1) return; MeshingSmartTree t(d); fill(t, x); std::vector<size_t> p(n); for (size_t i = 0; i < n; i++) p[i] = i; for (size_t i = n; i > 1; i--) std::swap(p[i - 1], p[g.k(i)]);
  { std::vector<V> q; for (size_t i = 1; i <= d; i++) { V v(d); for (size_t k = 0; k < d; k++) v[k] = x[p[i]][k] - x[p[0]][k]; for (auto& e : q) { double s = 0; for (size_t k = 0; k < d; k++) s += v[k] * e[k]; for (size_t k = 0; k < d; k++) v[k] -= s * e[k]; } double l = 0; for (double w : v) l += w * w; l = sqrt(l); if (l < .05 * sc) return; for (auto& w : v) w /= l; q.push_back(v); } }
  V v(d, 1e300); if (!t.get_Voronoi_vertex(d + 1, p.data(), v.data())) { viol("vertex", "no vertex for %zu seeds in dimension %zu", d + 1, d); return; } double a = sqrt(d2(v, x[p[0]])); for (size_t i = 1; i <= d; i++) if (!le(fabs(sqrt(d2(v, x[p[i]])) - a), 1e-8 * (sc + a))) { viol("vertex", "vertex of %zu seeds is %.12g from one and %.12g from another", d + 1, a, sqrt(d2(v, x[p[i]]))); break; } if (n > d + 1 && t.get_Voronoi_vertex(d + 2, p.data(), v.data())) viol("vertex", "accepted %zu seeds in dimension %zu", d + 2, d); stat("vertices_compared"); kase(str("vertex/%zu/%zu", d, n)); }
int main(int argc, char** argv) {
  uint64_t seed = strtoull(argv[1], 0, 10); int reps = atoi(argv[2]);
  for (int i = 0; i < reps; i++) { Rng g(seed * 1000003 + i); if (getenv("VT_TRACE")) fprintf(stderr, "rep %d\n", i); for (int k = 0; k < 3; k++) rays(g); neighbours(g, i); cells(g); if (i % 25 == 7) shell(g); for (int k = 0; k < 5; k++) vertices(g); }
  return done();
}
