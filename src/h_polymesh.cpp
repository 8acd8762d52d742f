// P16: reading, welding and writing of triangle models against independent computations.
// args: seed reps
#include "vt.h"
#include "MeshingPolyMesh.h"
#include <fstream>
#include <sstream>
using namespace vt;
typedef std::array<double, 3> P3;
typedef std::array<size_t, 3> T3;
struct Mod { std::vector<P3> p; std::vector<T3> f; };
typedef std::array<P3, 3> Tri;
static Tri canon(Tri t) { size_t k = std::min_element(t.begin(), t.end()) - t.begin(); return Tri{{t[k], t[(k + 1) % 3], t[(k + 2) % 3]}}; }
static std::multiset<Tri> tris(const std::vector<P3>& p, const std::vector<T3>& f) { std::multiset<Tri> s; for (auto& t : f) s.insert(canon(Tri{{p[t[0]], p[t[1]], p[t[2]]}})); return s; }
// what the definition says: points in order; a point closer than tol to kept ones joins the nearest of them
static Mod weld(const Mod& m, double tol, bool& close) {
  Mod r; std::vector<size_t> map(m.p.size()); close = false;
  for (size_t i = 0; i < m.p.size(); i++) {
    double best = DBL_MAX; size_t at = 0; int near = 0; for (size_t j = 0; j < r.p.size(); j++) { double s = 0; for (int k = 0; k < 3; k++) s += (r.p[j][k] - m.p[i][k]) * (r.p[j][k] - m.p[i][k]); s = sqrt(s); if (s < best) { best = s; at = j; } if (s < tol * 1.001) near++; if (fabs(s - tol) < 1e-3 * tol) close = true; }
    if (near > 1) close = true;
    if (best < tol) map[i] = at; else { map[i] = r.p.size(); r.p.push_back(m.p[i]); } }
  bool merged = r.p.size() != m.p.size();
  for (auto t : m.f) { for (auto& v : t) v = map[v]; if (merged && (t[0] == t[1] || t[1] == t[2] || t[2] == t[0])) { stat("collapsed_triangles"); continue; } r.f.push_back(t); }
  return r; }
static void give(const Mod& m, size_t& np, double**& p, size_t& nf, size_t**& f) { np = m.p.size(); nf = m.f.size(); p = new double*[np]; f = new size_t*[nf]; for (size_t i = 0; i < np; i++) { p[i] = new double[3]; for (int k = 0; k < 3; k++) p[i][k] = m.p[i][k]; } for (size_t i = 0; i < nf; i++) { f[i] = new size_t[4]; f[i][0] = 3; for (int k = 0; k < 3; k++) f[i][k + 1] = m.f[i][k]; } }
static bool take(size_t np, double** p, size_t nf, size_t** f, Mod& m, const char* what) { m.p.clear(); m.f.clear(); for (size_t i = 0; i < np; i++) { m.p.push_back(P3{{p[i][0], p[i][1], p[i][2]}}); delete[] p[i]; } delete[] p; bool ok = true; for (size_t i = 0; i < nf; i++) { if (f[i][0] != 3) ok = false; T3 t = {{f[i][1], f[i][2], f[i][3]}}; for (auto v : t) if (v >= np) ok = false; m.f.push_back(t); delete[] f[i]; } delete[] f; if (!ok) viol("index", "%s: a triangle refers to a vertex that does not exist", what); return ok; }
static std::string where(const Mod& m) { return str("%zu vertices, %zu triangles", m.p.size(), m.f.size()); }
static bool same(const Mod& got, const Mod& want, const char* key, const std::string& what) {
  if (got.p.size() != want.p.size()) { viol(key, "%s: %zu vertices are left instead of %zu", what.c_str(), got.p.size(), want.p.size()); return false; }
  if (got.f.size() != want.f.size()) { viol(key, "%s: %zu triangles are left instead of %zu", what.c_str(), got.f.size(), want.f.size()); return false; }
  auto a = got.p, b = want.p; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) { viol(key, "%s: vertex %s became %s", what.c_str(), vs(b[i].data(), 3).c_str(), vs(a[i].data(), 3).c_str()); return false; }
  auto s = tris(got.p, got.f), t = tris(want.p, want.f); if (s != t) { for (auto& x : t) if (s.count(x) != t.count(x)) { viol(key, "%s: triangle %s %s %s appears %zu times instead of %zu (orientation counts)", what.c_str(), vs(x[0].data(), 3).c_str(), vs(x[1].data(), 3).c_str(), vs(x[2].data(), 3).c_str(), s.count(x), t.count(x)); return false; } viol(key, "%s: unknown triangles appeared", what.c_str()); return false; }
  return true; }
// soup of triangles with repeated and nearly repeated vertices
static Mod soup(Rng& g, double tol, double sc) {
  Mod m; size_t n = 3 + g.k(g.u() < .15 ? 700 : 80); double pd = g.u() < .3 ? 0 : g.u(.05, .6); int grid = (int)g.k(3);
  for (size_t i = 0; i < n; i++) { P3 q; if (m.p.size() && g.u() < pd) { q = m.p[g.k(m.p.size())]; double r = g.u(); if (r < .5) { V d = g.unit(3); double l = tol * (g.u() < .5 ? g.u(0, .35) : g.u(1.6, 4)); for (int k = 0; k < 3; k++) q[k] += l * d[k]; } }
    else for (int k = 0; k < 3; k++) q[k] = grid == 0 ? sc * g.u(-1, 1) : grid == 1 ? sc * (double)g.k(4) / 4 : sc * pow(10, g.u(-3, 0)) * (g.u() < .5 ? -1 : 1); m.p.push_back(q); }
  size_t nf = g.k(2 * n + 1); for (size_t i = 0; i < nf; i++) { T3 t; for (int tr = 0; tr < 20; tr++) { for (auto& v : t) v = g.k(n); if (t[0] != t[1] && t[1] != t[2] && t[0] != t[2]) break; } if (t[0] == t[1] || t[1] == t[2] || t[0] == t[2]) continue; m.f.push_back(t);
    // triangles that use both copies of a duplicate
    if (g.u() < .25) { size_t a = g.k(n); for (size_t b = 0; b < n; b++) if (b != a) { double s = 0; for (int k = 0; k < 3; k++) s += (m.p[a][k] - m.p[b][k]) * (m.p[a][k] - m.p[b][k]); if (s < tol * tol) { size_t c = g.k(n); if (c == a || c == b) break; T3 u = {{a, b, c}}; std::rotate(u.begin(), u.begin() + g.k(3), u.end()); m.f.push_back(u); break; } } } }
  return m; }
static void write(const char* fn, const Mod& m, Rng& g, int style) {
  std::ofstream o(fn); auto num = [&](double v) { const char* f[] = {"%.17g", "%.17e", "%.20g"}; o << str(f[style == 0 ? 0 : g.k(3)], v); };
  const char* eol = style == 3 ? "\r\n" : "\n"; auto sep = [&]() { if (style < 2) o << " "; else for (size_t k = 0, n = 1 + g.k(3); k < n; k++) o << (g.u() < .3 ? "\t" : " "); };
  auto noise = [&]() { if (style < 2) return; double r = g.u(); if (r < .04) o << eol; else if (r < .08) o << "# v 1 2 3" << eol; else if (r < .1) o << "vn 0 0 1" << eol; else if (r < .12) o << "vt 0.5 0.5" << eol; else if (r < .14) o << "g part" << eol; else if (r < .16) o << "usemtl x" << eol; else if (r < .17) o << "s off" << eol; else if (r < .18) o << "   " << eol; };
  auto ref = [&](size_t v) { o << v + 1; if (style >= 1) { double r = g.u(); if (style == 1 || r < .6) { int k = (int)g.k(4); if (k == 1) o << "/" << 1 + g.k(9); if (k == 2) o << "//" << 1 + g.k(9); if (k == 3) o << "/" << 1 + g.k(9) << "/" << 1 + g.k(9); } } };
  bool inter = style >= 2 && g.u() < .4; size_t jf = 0;
  for (size_t i = 0; i < m.p.size(); i++) { noise(); if (style >= 2 && g.u() < .2) o << "  "; o << "v"; for (int k = 0; k < 3; k++) { sep(); num(m.p[i][k]); } if (style >= 2 && g.u() < .1) o << " 1.0"; o << eol;
    if (inter) while (jf < m.f.size() && std::max({m.f[jf][0], m.f[jf][1], m.f[jf][2]}) <= i) { noise(); o << "f"; for (auto v : m.f[jf]) { sep(); ref(v); } o << eol; jf++; } }
  for (; jf < m.f.size(); jf++) { noise(); o << "f"; for (auto v : m.f[jf]) { sep(); ref(v); } if (style >= 2 && g.u() < .2) o << "  "; o << (jf + 1 == m.f.size() && style >= 2 && g.u() < .3 ? "" : eol); } }
static void one(Rng& g, int rep) {
  bool close; Mod m, want, got; double sc = g.lg(.5, 1e4); size_t np, nf; double** p; size_t** f;
  { // direct welding at any tolerance
    double tol = g.lg(1e-8, .1) * (g.u() < .8 ? 1 : sc); m = soup(g, tol, sc); want = weld(m, tol, close); if (!close && m.p.size()) { MeshingPolyMesh pm; give(m, np, p, nf, f); pm.weld_nearby_points(np, p, nf, f, tol); stat("models_welded"); stat("vertices_merged", m.p.size() - want.p.size()); if (!take(np, p, nf, f, got, "weld") || !same(got, want, "weld", str("welding %s at %g", where(m).c_str(), tol))) return; kase(str("weld/%d/%zu/%zu/%zu", rep, m.p.size(), m.f.size(), m.p.size() - want.p.size())); } }
  { // reading
    double tol = 1e-8; m = soup(g, tol, std::min(sc, 10.)); want = weld(m, tol, close); int style = (int)g.k(4); /* a file without triangles is refused */ if (!close && m.f.size()) { write("in.obj", m, g, style); MeshingPolyMesh pm; pm.read_input_obj_file("in.obj", np, p, nf, f); stat("models_read"); if (!take(np, p, nf, f, got, "read") || !same(got, want, "read", str("reading %s (style %d)", where(m).c_str(), style))) return; kase(str("read/%d/%d/%zu/%zu", rep, style, m.p.size(), m.f.size()));
      // what it saved, read again: the same up to the digits written
      std::vector<P3> q = got.p; if (got.f.empty()) return; MeshingPolyMesh pm2; size_t np2, nf2; double** p2; size_t** f2; Mod again; pm2.read_input_obj_file("clean.obj", np2, p2, nf2, f2); stat("models_read_again"); if (!take(np2, p2, nf2, f2, again, "clean.obj")) return;
      bool sep = true; if (again.p.size() != got.p.size()) { for (size_t i = 0; i < got.p.size() && sep; i++) for (size_t j = 0; j < i; j++) { double s = 0; for (int k = 0; k < 3; k++) s += (got.p[i][k] - got.p[j][k]) * (got.p[i][k] - got.p[j][k]); if (sqrt(s) < 1.01e-8) { sep = false; break; } } if (sep) viol("rewrite", "clean.obj holds %zu vertices instead of %zu", again.p.size(), got.p.size()); return; }
      if (again.f.size() != got.f.size()) { viol("rewrite", "clean.obj holds %zu triangles instead of %zu", again.f.size(), got.f.size()); return; }
      for (size_t i = 0; i < q.size(); i++) for (int k = 0; k < 3; k++) if (!le(fabs(q[i][k] - again.p[i][k]), 1e-15 * fabs(q[i][k]))) { viol("rewrite", "coordinate %.17g is %.17g in clean.obj", q[i][k], again.p[i][k]); return; } else maxi("rewrite_rel_err", q[i][k] ? fabs(q[i][k] - again.p[i][k]) / fabs(q[i][k]) : 0);
      Mod a = got, b = again; b.p = q; if (!same(b, a, "rewrite", "triangles of clean.obj")) return; } }
  { // saving alone
    m = soup(g, 1e-3, sc); give(m, np, p, nf, f); MeshingPolyMesh pm; pm.save_mesh_obj("out.obj", np, p, nf, f); Mod now; if (!take(np, p, nf, f, now, "save") || !same(now, m, "save-touch", "the model in memory after saving")) return; std::ifstream i("out.obj"); std::string w; Mod r; while (i >> w) { if (w == "v") { P3 q; i >> q[0] >> q[1] >> q[2]; r.p.push_back(q); } else if (w == "f") { T3 t; i >> t[0] >> t[1] >> t[2]; for (auto& v : t) v--; r.f.push_back(t); } } stat("models_saved");
    if (r.p.size() != m.p.size() || r.f != m.f) { viol("save", "saved model of %s has %s", where(m).c_str(), where(r).c_str()); return; } for (size_t k = 0; k < r.p.size(); k++) for (int c = 0; c < 3; c++) if (!le(fabs(r.p[k][c] - m.p[k][c]), 1e-15 * fabs(m.p[k][c]))) { viol("save", "coordinate %.17g was saved as %.17g", m.p[k][c], r.p[k][c]); return; } }
}
int main(int c, char** v) { uint64_t seed = c > 1 ? strtoull(v[1], 0, 10) : 1; int reps = c > 2 ? atoi(v[2]) : 200; Rng g(seed); for (int r = 0; r < reps && nviol() == 0; r++) one(g, r); return done(); }
