// P18: geometric primitives against their mathematical definition, computed independently in long double.
// args: seed reps
#include "vt.h"
#include "MeshingGeometricalMethods.h"
#include "MeshingSpheresMethods.h"
using namespace vt;
typedef long double L;
typedef std::vector<L> W;
static W w(const double* x, size_t n) { return W(x, x + n); }
static L dot(const W& a, const W& b) { L s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
static W sub(const W& a, const W& b) { W c(a); for (size_t i = 0; i < a.size(); i++) c[i] -= b[i]; return c; }
static W axpy(const W& a, L t, const W& b) { W c(a); for (size_t i = 0; i < a.size(); i++) c[i] += t * b[i]; return c; }
static L nrm(const W& a) { return sqrtl(dot(a, a)); }
static L dst(const W& a, const W& b) { return nrm(sub(a, b)); }
static W cross(const W& a, const W& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static void near(const char* key, const std::string& what, L got, L want, L tol) { L e = fabsl(got - want); maxi(std::string("err_") + key, (double)(e / tol)); if (!(e <= tol)) viol(key, "%s: %.15Lg instead of %.15Lg", what.c_str(), got, want); }
static W segnear(const W& p, const W& a, const W& b) { W d = sub(b, a); L t = dot(sub(p, a), d) / dot(d, d); t = t < 0 ? 0 : t > 1 ? 1 : t; return axpy(a, t, d); }
static W trinear(const W& p, const W& a, const W& b, const W& c) {
  W n = cross(sub(b, a), sub(c, a)); L nn = dot(n, n); W q = axpy(p, -dot(sub(p, a), n) / nn, n);
  L l0 = dot(cross(sub(c, b), sub(q, b)), n), l1 = dot(cross(sub(a, c), sub(q, c)), n), l2 = dot(cross(sub(b, a), sub(q, a)), n);
  if (l0 >= 0 && l1 >= 0 && l2 >= 0) return q;
  W best; L h = -1; for (int i = 0; i < 3; i++) { W s = i == 0 ? segnear(p, a, b) : i == 1 ? segnear(p, b, c) : segnear(p, c, a); L d = dst(p, s); if (h < 0 || d < h) { h = d; best = s; } }
  return best; }
static V rp(Rng& g, double sc, const V& sh) { V x(3); for (int k = 0; k < 3; k++) x[k] = sh[k] + sc * g.u(-1, 1); return x; }

static void scalars(Rng& g) {
  MeshingGeometricalMethods G; double pi2 = 2 * 3.141592653589793238462643383279502884L;
  { double r = g.lg(1e-4, 1e4), t = g.u() < .4 ? (double)g.k(16) * pi2 / 16 : g.u(0, pi2), x = r * cos(t), y = r * sin(t); if (g.u() < .1) { x = 0; } else if (g.u() < .1) y = 0;
    if (fabs(x) + fabs(y) > 1e-6 && (fabs(x) > 1e-8 || x == 0) && (fabs(y) > 1e-8 || y == 0)) { L e = atan2l(y, x); if (e < 0) e += pi2; L got = G.get_point_angle(x, y), d = fabsl(got - e); if (d > 3) d = fabsl(d - pi2); maxi("err_angle", d / 1e-9L); stat("angles"); if (!(d <= 1e-9L) || !(got >= 0 && got <= pi2 + 1e-12)) viol("angle", "angle of (%.17g, %.17g) is %.15Lg instead of %.15Lg", x, y, got, e); } }
  { size_t d = 1 + g.k(8); double sc = g.lg(1e-3, 1e3); V x(d), y(d), z(d); for (size_t k = 0; k < d; k++) { x[k] = sc * g.g(); y[k] = sc * g.g(); z[k] = g.u() < .15 ? x[k] : sc * g.g(); }
    near("distance", "distance", G.distance(d, x.data(), y.data()), dst(w(x.data(), d), w(y.data(), d)), 1e-12L * sc * d);
    near("dot", "scalar product", G.dot_product(d, x.data(), y.data()), dot(w(x.data(), d), w(y.data(), d)), 1e-12L * sc * sc * d * 10);
    W a = sub(w(x.data(), d), w(y.data(), d)), b = sub(w(z.data(), d), w(y.data(), d)); if (nrm(a) > 1e-3 * sc && nrm(b) > 1e-3 * sc && nrm(a) > 1e-8 && nrm(b) > 1e-8) near("cos", "cosine of the angle at y", G.cos_angle(d, x.data(), y.data(), z.data()), dot(a, b) / (nrm(a) * nrm(b)), 1e-10L);
    V u = x; L nx = nrm(w(x.data(), d)); if (nx > 1e-6) { if (!G.normalize_vector(d, u.data())) viol("normalize", "vector of length %Lg rejected", nx); for (size_t k = 0; k < d; k++) near("normalize", "normalised component", u[k], x[k] / nx, 1e-12L); }
    V zero(d, 0.); V z0 = zero; if (G.normalize_vector(d, zero.data()) || zero != z0) viol("normalize", "the zero vector was normalised"); stat("vectors", 4); }
  { // orthogonal component to an orthonormal basis
    size_t d = 2 + g.k(7), nb = g.k(d); std::vector<V> B; while (B.size() < nb) { W v = w(g.unit(d).data(), d); for (int pass = 0; pass < 2; pass++) for (auto& q : B) v = axpy(v, -dot(v, w(q.data(), d)), w(q.data(), d)); L n = nrm(v); if (n < .05) continue; V o(d); for (size_t k = 0; k < d; k++) o[k] = (double)(v[k] / n); B.push_back(o); }
    V v = g.unit(d); double sc = g.lg(1e-2, 1e3); for (auto& t : v) t *= sc; bool inside = nb && g.u() < .15; if (inside) { v.assign(d, 0.); for (auto& q : B) { double c = g.g(); for (size_t k = 0; k < d; k++) v[k] += c * q[k]; } }
    W r = w(v.data(), d); for (int pass = 0; pass < 2; pass++) for (auto& q : B) r = axpy(r, -dot(r, w(q.data(), d)), w(q.data(), d)); L rn = nrm(r); std::vector<double*> bp; for (auto& q : B) bp.push_back(q.data()); std::vector<V> B0 = B; double norm = 0; int rc = G.get_normal_component(d, nb, bp.data(), v.data(), norm);
    if (B != B0) viol("orthogonal", "the basis was changed");
    if (rn > 1e-3 * sc && rn > 1e-4) { if (rc != 0) viol("orthogonal", "component of length %Lg reported as zero", rn); else for (size_t k = 0; k < d; k++) near("orthogonal", str("component %zu orthogonal to %zu of %zu directions", k, nb, d), v[k], r[k] / rn, 1e-9L); }
    else if (rn < 1e-7) { if (rc == 0) viol("orthogonal", "a vector of the subspace has a normal component (length %Lg)", rn); } stat("orthogonal_components"); }
  { size_t d = 1 + g.k(5); double sc = g.lg(1e-2, 1e3); V a(d + 1), b(d + 1); for (size_t k = 0; k < d; k++) { a[k] = sc * g.g(); b[k] = sc * g.g(); } L h = dst(w(a.data(), d), w(b.data(), d)); a[d] = sc * g.lg(1e-3, 3); b[d] = g.u() < .3 ? (double)h - a[d] + sc * 1e-4 * (g.u() < .5 ? 1 : -1) : sc * g.lg(1e-3, 3); if (b[d] > 0 && fabsl(h - a[d] - b[d]) > 1e-8 * (1 + sc)) { MeshingGeometricalMethods G2; bool e = h < (L)a[d] + b[d]; if (G2.overlapping_spheres(d, a.data(), b.data()) != e || G2.overlapping_spheres(d, b.data(), a.data()) != e) viol("overlap", "overlap of spheres of radius %g and %g at distance %.12Lg in dimension %zu is answered wrongly", a[d], b[d], h, d); stat("overlap_tests"); } }
}
static void triangles(Rng& g) {
  MeshingGeometricalMethods G; double sc = g.lg(1e-2, 1e3); V sh = {g.u(-1, 1) * sc * 5, g.u(-1, 1) * sc * 5, g.u(-1, 1) * sc * 5}; if (g.u() < .4) sh = {0, 0, 0};
  std::vector<V> c; int kind = (int)g.k(5);
  for (;;) { c = {rp(g, sc, sh), rp(g, sc, sh), rp(g, sc, sh)};
    if (kind == 1) for (int i = 0; i < 3; i++) { c[i][g.k(3)] = sh[0]; }                                              // axis aligned
    if (kind == 2) { double t = g.u(.05, .95), e = g.lg(1e-4, 1e-1) * sc; V d = g.unit(3); for (int k = 0; k < 3; k++) c[2][k] = c[0][k] + t * (c[1][k] - c[0][k]) + e * d[k]; }  // needle or cap
    if (kind == 3) for (auto& p : c) for (auto& v : p) v = floor(v / sc * 3) * sc;                                   // lattice
    if (kind == 4) { double e = g.lg(1e-4, 1e-1) * sc; V d = g.unit(3); for (int k = 0; k < 3; k++) c[2][k] = c[0][k] + e * d[k]; }  // one short edge
    W n = cross(sub(w(c[1].data(), 3), w(c[0].data(), 3)), sub(w(c[2].data(), 3), w(c[0].data(), 3))); L l = std::max({dst(w(c[0].data(), 3), w(c[1].data(), 3)), dst(w(c[1].data(), 3), w(c[2].data(), 3)), dst(w(c[0].data(), 3), w(c[2].data(), 3))});
    if (nrm(n) > 1e-5 * l * l) break; }
  W a = w(c[0].data(), 3), b = w(c[1].data(), 3), d = w(c[2].data(), 3); W n = cross(sub(b, a), sub(d, a)); L n2 = nrm(n); double m[3]; double* cp[3] = {c[0].data(), c[1].data(), c[2].data()}; std::vector<V> c0 = c;
  near("area", "area of a triangle", G.get_3d_triangle_area(cp), n2 / 2, 1e-10L * sc * sc * 20);
  if (!G.get_3d_triangle_normal(cp, m)) viol("normal", "a triangle of area %Lg was reported as degenerate", n2 / 2); else { for (int k = 0; k < 3; k++) near("normal", "triangle normal", m[k], n[k] / n2, 1e-8L); }
  for (int t = 0; t < 24; t++) {
    V p = rp(g, sc * g.lg(.1, 4), sh); W P;
    if (t % 3 == 0) { double u = g.u(-1, 2), v = g.u(-1, 2), h = sc * g.u(-1, 1) * (g.u() < .3 ? 0 : 1); for (int k = 0; k < 3; k++) p[k] = c[0][k] + u * (c[1][k] - c[0][k]) + v * (c[2][k] - c[0][k]) + h * (double)(n[k] / n2); }
    if (t % 8 == 1) { double u = g.u() < .5 ? 0 : g.u(-.5, 1.5), h = sc * g.u(-1, 1); int e = (int)g.k(3); for (int k = 0; k < 3; k++) p[k] = c[e][k] + u * (c[(e + 1) % 3][k] - c[e][k]) + h * (double)(n[k] / n2); }  // over an edge or corner
    P = w(p.data(), 3); double q[3] = {7, 7, 7}, h = -1; V p0 = p; L S = sc + nrm(sub(P, a));
    G.project_to_3d_triangle(p.data(), cp, q, h); if (p != p0 || c != c0) viol("projection-input", "projection changed its input");
    W r = trinear(P, a, b, d); near("projection-distance", str("distance of a point to a triangle (kind %d)", kind), h, dst(P, r), 1e-7L * S); near("projection-consistent", "reported distance against the returned point", h, dst(P, w(q, 3)), 1e-9L * S);
    // the nearest point of a convex set is unique
    L e = dst(w(q, 3), r); maxi("err_projection", (double)(e / (1e-6L * S))); if (!(e <= 1e-6L * S)) viol("projection", "nearest point of a triangle (kind %d) is off by %.3Lg (size %g)", kind, e, sc);
    { double t3 = (double)dst(w(q, 3), trinear(w(q, 3), a, b, d)); if (!le(t3, (double)(1e-7L * S))) viol("projection-inside", "the returned point is %.3g outside the triangle", t3); }
    G.project_to_3d_line_segment(p.data(), c[0].data(), c[1].data(), q, h); r = segnear(P, a, b); near("segment", "distance to a segment", h, dst(P, r), 1e-9L * S); L es = dst(w(q, 3), r); if (!(es <= 1e-6L * S)) viol("segment", "nearest point of a segment is off by %.3Lg", es);
    V u = g.unit(3); G.project_to_3d_line(p.data(), c[0].data(), u.data(), q, h); W U = w(u.data(), 3); r = axpy(a, dot(sub(P, a), U) / dot(U, U), U); near("line", "distance to a line", h, dst(P, r), 1e-9L * S); es = dst(w(q, 3), r); if (!(es <= 1e-9L * S)) viol("line", "nearest point of a line is off by %.3Lg", es);
    stat("projections", 3); }
  kase(str("triangle/%d/%.4g", kind, sc)); }
static bool power(Rng& g, MeshingGeometricalMethods& G, MeshingSpheresMethods& M) {
  size_t d = 2 + g.k(4), n = 2 + g.k(d); double sc = g.lg(1e-1, 1e3); std::vector<V> s(n, V(d + 1)); V sh(d); for (auto& v : sh) v = g.u() < .4 ? 0 : sc * g.u(-4, 4);
  double eq = g.u(); for (auto& x : s) { for (size_t k = 0; k < d; k++) x[k] = sh[k] + sc * g.u(-1, 1); x[d] = eq < .25 ? sc : sc * g.u(.05, 1.5); }
  if (g.u() < .2) for (auto& x : s) x[0] = sh[0] + sc * floor(g.u(0, 3)) * .5;
  { std::vector<W> q; for (size_t i = 1; i < n; i++) { W v = sub(w(s[i].data(), d), w(s[0].data(), d)); for (auto& e : q) v = axpy(v, -dot(v, e), e); L l = nrm(v); if (l < .08 * sc) return false; for (auto& t : v) t /= l; q.push_back(v); } }
  std::vector<double*> p; V r; for (auto& x : s) { p.push_back(x.data()); r.push_back(x[d]); }
  std::vector<V> s0 = s;
  for (int which = 0; which < 4; which++) {
    V pv(d + 1, 1e300); bool ok = true; const char* nm;
    if (which == 0) { nm = "GeometricalMethods, n spheres"; ok = G.get_power_vertex(d, n, p.data(), r.data(), pv.data()); }
    else if (which == 1) { nm = "SpheresMethods, n spheres"; ok = M.get_power_vertex(d, n, p.data(), pv.data()); }
    else if (n != 2) continue;
    else if (which == 2) { nm = "GeometricalMethods, 2 spheres"; G.get_power_vertex(d, p[0], r[0], p[1], r[1], pv.data()); }
    else { nm = "SpheresMethods, 2 spheres"; ok = M.get_power_vertex(d, p[0], p[1], pv.data()) == 0; }
    if (!ok) { viol("power-failed", "%s: no power vertex for %zu spheres in general position in dimension %zu", nm, n, d); continue; }
    W P = w(pv.data(), d); L p0 = dot(sub(P, w(p[0], d)), sub(P, w(p[0], d))) - (L)r[0] * r[0]; L S = sc + nrm(sub(P, w(p[0], d)));
    for (size_t i = 1; i < n; i++) { W t = sub(P, w(p[i], d)); L e = fabsl(dot(t, t) - (L)r[i] * r[i] - p0) / (S * S); maxi("err_power", (double)(e / 1e-6L)); if (!(e <= 1e-6L)) viol("power", "%s: powers to sphere 0 and %zu of %zu differ by %.3Lg of the size (dimension %zu)", nm, i, n, e, d); }
    { W v = sub(P, w(p[0], d)); std::vector<W> q; for (size_t i = 1; i < n; i++) { W t = sub(w(p[i], d), w(p[0], d)); for (int ps = 0; ps < 2; ps++) for (auto& e : q) t = axpy(t, -dot(t, e), e); L l = nrm(t); for (auto& x : t) x /= l; q.push_back(t); } for (auto& e : q) v = axpy(v, -dot(v, e), e); L o = nrm(v) / S; maxi("err_power_hull", (double)(o / 1e-6L)); if (!(o <= 1e-6L)) viol("power-hull", "%s: power vertex of %zu spheres in dimension %zu is %.3Lg off their affine hull", nm, n, d, o); }
    stat("power_vertices"); }
  if (s != s0) viol("power-input", "the power vertex computation changed the spheres");
  kase(str("power/%zu/%zu/%.3g", d, n, sc)); return true; }
struct Sph { std::vector<V> s; double Lip; };
static void put(MeshingSmartTree& t, const std::vector<V>& s) { V z(3, 0.); for (auto& x : s) { V y = x; V n = z; size_t at[2] = {2, 0}; t.add_tree_point(4, y.data(), n.data(), at); } }
static double dd(const V& a, const double* b) { double x = a[0] - b[0], y = a[1] - b[1], z = a[2] - b[2]; return sqrt(x * x + y * y + z * z); }
static V closure(const std::vector<V>& s, double Lip) { V r; for (auto& x : s) r.push_back(x[3]); for (size_t i = 0; i < s.size(); i++) for (size_t j = 0; j < s.size(); j++) r[i] = std::min(r[i], s[j][3] + Lip * dd(s[i], s[j].data())); return r; }
static std::vector<V> cloud(Rng& g, double sc) {
  size_t n = 1 + g.k(g.u() < .2 ? 220 : 40); std::vector<V> s(n, V(4)); int kind = (int)g.k(4); V u = g.unit(3);
  for (size_t i = 0; i < n; i++) { for (int k = 0; k < 3; k++) s[i][k] = kind == 0 ? sc * g.u(-1, 1) : kind == 1 ? sc * (k == 2 ? 0 : g.u(-1, 1)) : kind == 2 ? sc * u[k] * i * .05 : sc * floor(g.u(0, 5)) * .5 + 1e-3 * sc * g.g(); s[i][3] = sc * g.lg(2e-2, 2); }
  return s; }
static void limiting(Rng& g, MeshingSpheresMethods& M) {
  double sc = g.lg(1e-2, 1e3), Lip = g.u() < .5 ? .25 : g.u(.02, .9); std::vector<V> s = cloud(g, sc); V cl = closure(s, Lip); size_t n = s.size(); bool any = false; for (size_t i = 0; i < n; i++) if (cl[i] < s[i][3] - 1e-12 * sc) any = true;
  { MeshingSmartTree t(3); t.disable_auto_balance(); put(t, s); bool sh = false; M.impose_lipschitz_continuity_brute(&t, Lip, sh); for (size_t i = 0; i < n; i++) { double* p = t.get_tree_point(i); for (int k = 0; k < 3; k++) if (p[k] != s[i][k]) viol("limit-moved", "limiting moved a sphere"); near("limit-brute", str("radius %zu of %zu after limiting at rate %g", i, n, Lip), p[3], cl[i], 1e-9L * sc); } if (any && !sh) viol("limit-flag", "spheres were shrunk without saying so"); }
  { MeshingSmartTree t(3); put(t, s); bool sh = false; M.impose_lipschitz_continuity(&t, Lip, sh); bool ch = false; V r(n);
    for (size_t i = 0; i < n; i++) { double* p = t.get_tree_point(i); r[i] = p[3]; for (int k = 0; k < 3; k++) if (p[k] != s[i][k]) viol("limit-moved", "limiting moved a sphere"); if (r[i] != s[i][3]) ch = true; if (!le(r[i], s[i][3])) viol("limit-grown", "limiting enlarged sphere %zu from %g to %g", i, s[i][3], r[i]); if (!le(cl[i] - r[i], 1e-9 * sc)) viol("limit-toofar", "sphere %zu of %zu shrank to %.12g, the limited radius is %.12g", i, n, r[i], cl[i]); }
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { double h = dd(s[i], s[j].data()); if (i != j && h < 2 * r[i] * (1 - 1e-9)) { stat("limited_pairs"); if (!le(r[i], r[j] + Lip * h + 1e-9 * sc)) viol("limit", "spheres of radius %.12g and %.12g at distance %.12g violate the rate %g (%zu spheres)", r[i], r[j], h, Lip, n); } }
    if (ch != sh) viol("limit-flag", "the answer whether spheres were shrunk is %d, they were%s", (int)sh, ch ? "" : " not"); }
  kase(str("limit/%zu/%.3g/%.3g", n, sc, Lip)); }
static void covering(Rng& g, MeshingSpheresMethods& M) {
  double sc = g.lg(1e-1, 1e3), Lip = g.u() < .5 ? .25 : g.u(.02, .7); std::vector<V> s = cloud(g, sc); { V cl = closure(s, Lip); for (size_t i = 0; i < s.size(); i++) s[i][3] = cl[i]; } size_t n = s.size();
  MeshingSmartTree t(3); if (g.u() < .5) t.disable_auto_balance(); put(t, s);
  { MeshingSmartTree e(3); double p[4] = {0, 0, 0, 1}; size_t m = 7, *o = (size_t*)1; if (M.point_covered(p, &e, Lip, 0.5)) viol("cover-empty", "covered by nothing"); M.get_overlapping_spheres(p, &e, Lip, m, o); if (m != 0) viol("overlap-empty", "no sphere, %zu overlap", m); }
  for (int q = 0; q < 60; q++) {
    double alpha = g.u() < .2 ? 0 : g.u() < .5 ? .5 : g.u(.05, .95), beta = sqrt(1 - alpha * alpha); V c = s[g.k(n)]; V d = g.unit(3); double h = c[3] * (g.u() < .5 ? g.u(0, 1.6) : beta * (1 + 1e-4 * g.g())); V p = {c[0] + h * d[0], c[1] + h * d[1], c[2] + h * d[2]}; if (g.u() < .15) for (int k = 0; k < 3; k++) p[k] = sc * g.u(-3, 3);
    int cov = 0; for (auto& x : s) { double m = dd(x, p.data()) - beta * x[3]; if (fabs(m) < 1e-7 * (1 + x[3])) cov = 2; else if (m < 0) { cov = 1; break; } }
    if (cov != 2) { stat("coverage_queries"); if (M.point_covered(p.data(), &t, Lip, alpha) != (cov == 1)) viol("cover-point", "coverage of a point by %zu spheres (rate %g, margin %g) should be %d", n, Lip, alpha, cov); }
    { const V& x = s[g.k(n)]; double m = dd(x, p.data()) - beta * x[3]; V y = x; if (fabs(m) > 1e-7 * (1 + x[3]) && M.point_covered(p.data(), y.data(), alpha) != (m < 0)) viol("cover-sphere", "coverage of a point by one sphere should be %d", m < 0); }
    V e[3]; double z = c[3] * g.lg(1e-2, 1.5); for (int i = 0; i < 3; i++) { V u = g.unit(3); e[i] = p; for (int k = 0; k < 3; k++) e[i][k] += z * u[k]; } double* ep[3] = {e[0].data(), e[1].data(), e[2].data()};
    for (int nc = 2; nc <= 3; nc++) { cov = 0; for (auto& x : s) { double m = -1e300; for (int i = 0; i < nc; i++) m = std::max(m, dd(x, ep[i]) - beta * x[3]); if (fabs(m) < 1e-7 * (1 + x[3])) cov = cov == 1 ? 1 : 2; else if (m < 0) { cov = 1; break; } } if (cov == 2) continue; stat("coverage_queries"); bool got = nc == 2 ? M.edge_covered(ep, &t, Lip, alpha) : M.face_covered(ep, &t, Lip, alpha); if (got != (cov == 1)) viol(nc == 2 ? "cover-edge" : "cover-face", "coverage of %s by %zu spheres (rate %g, margin %g) should be %d", nc == 2 ? "an edge" : "a face", n, Lip, alpha, cov); }
    V qs = {p[0], p[1], p[2], c[3] * g.lg(.05, 4)}; size_t m = 0, *o = 0; M.get_overlapping_spheres(qs.data(), &t, Lip, m, o); std::set<size_t> got; for (size_t i = 0; i < m; i++) { if (o[i] >= n) { viol("overlap-list", "unknown sphere reported"); continue; } if (!got.insert(o[i]).second) viol("overlap-list", "sphere %zu reported twice", o[i]); } delete[] o;
    for (size_t i = 0; i < n; i++) { double v = dd(s[i], qs.data()) - s[i][3] - qs[3]; if (fabs(v) < 1e-8 * (1 + qs[3])) continue; if ((v < 0) != (got.count(i) > 0)) { viol("overlap-list", "sphere %zu of %zu %s although it %s (rate %g)", i, n, v < 0 ? "is not reported" : "is reported", v < 0 ? "overlaps" : "does not overlap", Lip); break; } } stat("overlap_lists"); }
  kase(str("cover/%zu/%.3g/%.3g", n, sc, Lip)); }
static void slivers(Rng& g, MeshingSpheresMethods& M) {
  size_t n = 4 + g.k(3); double sc = g.lg(1e-1, 1e3); std::vector<V> s(n, V(4)); V sh = {sc * g.u(-3, 3), sc * g.u(-3, 3), sc * g.u(-3, 3)}; bool fx[8]; double flat = g.u() < .5 ? .1 : 1;
  for (size_t i = 0; i < n; i++) { for (int k = 0; k < 3; k++) s[i][k] = sh[k] + sc * g.u(-1, 1) * (k == 2 ? flat : 1); s[i][3] = sc * g.u(.6, 1.6); fx[i] = g.u() < .25; }
  std::vector<double*> p; for (auto& x : s) p.push_back(x.data()); size_t idx = 99; double rad = -1; std::vector<V> s0 = s; std::vector<std::array<double, 3>> cand; L edge = 1e300;
  for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) for (size_t k = j + 1; k < n; k++) {
    W A = w(p[i], 3), B = w(p[j], 3), C = w(p[k], 3); W ab = sub(B, A), ac = sub(C, A); W N = cross(ab, ac); L nn = nrm(N); if (nn < .02 * sc * sc) return;
    // point of the plane with equal power: solve 2x2
    L b1 = (dot(ab, ab) + (L)s[i][3] * s[i][3] - (L)s[j][3] * s[j][3]) / 2, b2 = (dot(ac, ac) + (L)s[i][3] * s[i][3] - (L)s[k][3] * s[k][3]) / 2; L m11 = dot(ab, ab), m12 = dot(ab, ac), m22 = dot(ac, ac), D = m11 * m22 - m12 * m12; L u = (b1 * m22 - b2 * m12) / D, v = (m11 * b2 - m12 * b1) / D; W pv = axpy(axpy(A, u, ab), v, ac); L h2 = dot(sub(pv, A), sub(pv, A)), t2 = (L)s[i][3] * s[i][3] - h2; edge = std::min(edge, fabsl(t2) / (sc * sc)); if (t2 < 0) continue; L t = sqrtl(t2); for (auto& q : N) q /= nn; W up = axpy(pv, t, N), lo = axpy(pv, -t, N);
    for (size_t l = 0; l < n; l++) { if (fx[l] || l == i || l == j || l == k) continue; L hm = std::min(dst(w(p[l], 3), up), dst(w(p[l], 3), lo)); edge = std::min(edge, fabsl(hm - s[l][3]) / sc); if (hm > s[l][3]) continue; cand.push_back({(double)(s[l][3] - .95 * hm), (double)l, (double)(.95 * hm)}); } }
  if (edge < 1e-6) return; M.resolve_sliver(n, p.data(), fx, idx, rad); if (s != s0) viol("sliver-input", "spheres changed"); std::sort(cand.begin(), cand.end()); stat("sliver_queries");
  if (cand.empty()) { if (idx != n) viol("sliver", "no intersection is covered but sphere %zu was chosen", idx); }
  else { bool ok = false; for (auto& c : cand) { if (c[0] > cand[0][0] + 1e-6 * sc) break; if (idx == (size_t)c[1] && fabs(rad - c[2]) < 1e-5 * sc) ok = true; } if (!ok) viol("sliver", "of %zu spheres sphere %zu should shrink to %.10g, chosen was %zu with %.10g", n, (size_t)cand[0][1], cand[0][2], idx, rad); stat("slivers_resolved"); }
  kase(str("sliver/%zu/%zu/%.3g", n, cand.size(), sc)); }
int main(int argc, char** argv) {
  uint64_t seed = strtoull(argv[1], 0, 10); int reps = atoi(argv[2]); MeshingGeometricalMethods G; MeshingSpheresMethods M;
  for (int i = 0; i < reps; i++) { Rng g(seed * 1000003 + i); for (int k = 0; k < 10; k++) scalars(g); triangles(g); for (int k = 0; k < 6; k++) power(g, G, M); if (i % 4 == 0) limiting(g, M); if (i % 4 == 1) covering(g, M); for (int k = 0; k < 4; k++) slivers(g, M); }
  return done();
}
