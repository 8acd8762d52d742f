// P19: least squares and sparse Cholesky against dense references in long double.
// args: seed reps
#include "vt.h"
#include "MeshingLinearSolver.h"
using namespace vt;
typedef std::vector<std::vector<long double>> M;
struct Sp { size_t n = 0; size_t** J = 0; double** W = 0; };
static Sp sparse(const M& A, Rng& g) {
  Sp s; s.n = A.size(); s.J = new size_t*[s.n]; s.W = new double*[s.n];
  for (size_t i = 0; i < s.n; i++) { std::vector<size_t> c; for (size_t j = 0; j < s.n; j++) if (A[i][j] != 0) c.push_back(j); size_t cap = c.size() + g.k(4); if (cap < 1) cap = 1; s.J[i] = new size_t[cap + 2]; s.W[i] = new double[cap]; s.J[i][0] = cap; s.J[i][1] = c.size(); for (size_t k = 0; k < c.size(); k++) { s.J[i][2 + k] = c[k]; s.W[i][k] = (double)A[i][c[k]]; } }
  return s; }
static void row(const std::vector<long double>& a, size_t*& j, double*& v) { std::vector<size_t> c; for (size_t k = 0; k < a.size(); k++) if (a[k] != 0) c.push_back(k); j = new size_t[c.size() + 2 + 1]; v = new double[c.size() + 1]; j[0] = c.size() + 1; j[1] = c.size(); for (size_t k = 0; k < c.size(); k++) { j[2 + k] = c[k]; v[k] = (double)a[c[k]]; } }
static void release(Sp& s) { for (size_t i = 0; i < s.n; i++) { delete[] s.J[i]; delete[] s.W[i]; } delete[] s.J; delete[] s.W; s = Sp(); }
// sparse, symmetric, diagonally dominant enough: smallest eigenvalue bounded away from zero
static M spd(size_t n, Rng& g, double dens, int kind) {
  M A(n, std::vector<long double>(n, 0));
  if (kind == 0) { std::vector<std::vector<double>> B(n, V(n, 0.)); for (auto& r : B) for (auto& v : r) if (g.u() < dens) v = g.g(); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { long double s = 0; for (size_t k = 0; k < n; k++) s += (long double)B[i][k] * B[j][k]; A[i][j] = s; } for (size_t i = 0; i < n; i++) A[i][i] += .3; }
  else if (kind == 1) { for (size_t i = 0; i < n; i++) { A[i][i] = 2.3; if (i) A[i][i - 1] = A[i - 1][i] = -1; } }                        // tridiagonal
  else if (kind == 2) { for (size_t i = 0; i < n; i++) A[i][i] = g.u(.5, 3); }                                                          // diagonal
  else if (kind == 3) { for (size_t i = 0; i + 1 < n; i++) { A[i][i] = 2; A[i][n - 1] = A[n - 1][i] = g.u(-1, 1); } A[n - 1][n - 1] = n; } // arrow: much fill when eliminated backwards
  else if (kind == 4) { for (size_t i = 1; i < n; i++) { A[i][i] = n; A[i][0] = A[0][i] = g.u(-1, 1); } A[0][0] = n; }                    // arrow: complete fill
  else { V p(n); for (auto& v : p) v = g.u(0, 4); double t = .3; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { double d = fabs(p[i] - p[j]); A[i][j] = d < 1.2 ? exp(-d * d / t) * (i == j ? 1 : .5) : 0; } long double mx = 0; for (size_t i = 0; i < n; i++) { long double s = 0; for (size_t j = 0; j < n; j++) if (j != i) s += fabsl(A[i][j]); mx = std::max(mx, s); } for (size_t i = 0; i < n; i++) A[i][i] = mx + .5; }
  return A; }
static double entry(const Sp& s, size_t i, size_t j, const char* when) { if (!s.J[i]) return 0; double v = 0; int c = 0; for (size_t k = 0; k < s.J[i][1]; k++) if (s.J[i][2 + k] == j) { v = s.W[i][k]; c++; } if (c > 1) viol("chol-structure", "%s: entry (%zu,%zu) is stored twice", when, i, j); return v; }
static bool check(const Sp& s, const M& A, const char* when) {
  size_t n = A.size(); if (s.n != n) { viol("chol-size", "%s: %zu rows instead of %zu", when, s.n, n); return false; }
  long double big = 0; for (auto& r : A) for (auto v : r) big = std::max(big, fabsl(v));
  for (size_t i = 0; i < n; i++) { if (!s.J[i]) { viol("chol-structure", "%s: row %zu is missing", when, i); return false; } for (size_t k = 0; k < s.J[i][1]; k++) { if (s.J[i][2 + k] >= n || (k && s.J[i][2 + k] <= s.J[i][1 + k])) { viol("chol-structure", "%s: row %zu has unordered or unknown columns", when, i); return false; } } if (s.J[i][1] > s.J[i][0]) { viol("chol-structure", "%s: row %zu holds more entries than its capacity", when, i); return false; } }
  M L(n, std::vector<long double>(n, 0)); for (size_t i = 0; i < n; i++) for (size_t k = 0; k < s.J[i][1]; k++) { size_t j = s.J[i][2 + k]; if (j <= i) L[i][j] = s.W[i][k]; else { double t = entry(s, j, i, when); if (!le(fabs(t - s.W[i][k]), 1e-12)) { viol("chol-symmetry", "%s: L(%zu,%zu)=%g but its transpose holds %g", when, j, i, t, s.W[i][k]); return false; } } }
  for (size_t i = 0; i < n; i++) { if (!(L[i][i] > 0)) { viol("chol-diag", "%s: diagonal entry %zu is %g", when, i, (double)L[i][i]); return false; } for (size_t j = 0; j <= i; j++) { if (L[i][j] != 0 && j < i && fabs(entry(s, j, i, when) - (double)L[i][j]) > 1e-12) { viol("chol-symmetry", "%s: entry (%zu,%zu) is not mirrored", when, i, j); return false; } long double t = 0; for (size_t k = 0; k <= j; k++) t += L[i][k] * L[j][k]; double e = (double)(fabsl(t - A[i][j]) / big); maxi("factor_err", e); if (!le(e, 1e-8)) { viol("chol-factor", "%s: entry (%zu,%zu) of L L^T is %.12g, of the matrix %.12g (%zu rows)", when, i, j, (double)t, (double)A[i][j], n); return false; } } }
  return true; }
static void solve(MeshingLinearSolver& ls, const Sp& s, const M& A, Rng& g, const char* when) {
  size_t n = A.size(); V x(n), b(n), y(n, 1e300); for (auto& v : x) v = g.u(-2, 2); for (size_t i = 0; i < n; i++) { long double t = 0; for (size_t j = 0; j < n; j++) t += A[i][j] * x[j]; b[i] = (double)t; } V b0 = b;
  ls.Cholesky_Solver(n, s.J, s.W, b.data(), y.data()); if (b != b0) viol("chol-solve", "%s: the right hand side was changed", when);
  for (size_t i = 0; i < n; i++) { maxi("solve_err", fabs(x[i] - y[i])); if (!le(fabs(x[i] - y[i]), 1e-6)) { viol("chol-solve", "%s: component %zu of the solution of %zu equations is %.12g, true %.12g", when, i, n, y[i], x[i]); break; } } stat("systems_solved"); }
static void chol(uint64_t seed, int i) {
  Rng g(seed); MeshingLinearSolver ls; size_t n = 1 + g.k(i % 5 == 0 ? 60 : 16); M A = spd(n, g, g.u(.05, .9), i % 6); Sp s = sparse(A, g);
  if (!ls.Cholesky_factorization(n, s.J, s.W)) { viol("chol-rejected", "a positive definite matrix of %zu rows (kind %d) was reported as not positive definite", n, i % 6); return; }
  if (!check(s, A, "factorization")) return; solve(ls, s, A, g, "factorization");
  std::string ops; int steps = 10 + (int)g.k(14);
  for (int t = 0; t < steps; t++) {
    int op = (int)g.k(3); n = A.size();
    if (op == 0) { // rank one update A + w w^T
      std::vector<long double> w(n, 0); double dens = g.u(.05, 1); for (auto& v : w) if (g.u() < dens) v = g.u(-1.5, 1.5); bool any = false; for (auto v : w) any = any || v != 0; if (!any) w[g.k(n)] = 1; size_t* j; double* v; row(w, j, v); for (auto& e : w) e = (double)e; 
      ls.Cholesky_factorization_rank_one_update(n, s.J, s.W, j, v); delete[] j; delete[] v; for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) A[a][b] += w[a] * w[b]; ops += "u"; stat("rank_one_updates"); }
    else if (op == 1) { if (n == 1) continue; size_t k = g.u() < .3 ? n - 1 : g.u() < .3 ? 0 : g.k(n); ls.Cholesky_factorization_remove_row(s.n, s.J, s.W, k); A.erase(A.begin() + k); for (auto& r : A) r.erase(r.begin() + k); ops += str("r%zu", k); stat("rows_removed"); }
    else { // add a row that keeps the matrix positive definite: a = A y, diagonal above y^T A y
      std::vector<long double> y(n), a(n + 1, 0); double dens = g.u(.1, 1); for (auto& v : y) v = g.u() < dens ? g.u(-1, 1) : 0; if (g.u() < .15) for (auto& v : y) v = 0; long double q = 0; for (size_t p = 0; p < n; p++) { long double t2 = 0; for (size_t r = 0; r < n; r++) t2 += A[p][r] * y[r]; if (fabsl(t2) < 1e-6) t2 = 0; a[p] = (double)t2; q += t2 * y[p]; }
      bool singular = g.u() < .25 && q > 1e-3; a[n] = singular ? (double)(q * (.5 + .4 * g.u())) : (double)(q + g.u(.3, 2)); size_t* j; double* v; row(a, j, v); size_t before = s.n; bool ok = ls.Cholesky_factorization_add_row(s.n, s.J, s.W, j, v); delete[] j; delete[] v;
      if (singular) { stat("indefinite_rows_offered"); if (ok) { viol("add-accepted", "a row that makes the matrix indefinite was accepted (%zu rows)", n); return; } if (s.n != before) viol("add-size", "a rejected row changed the number of rows"); ops += "x"; }
      else { if (!ok) { viol("add-rejected", "a row that keeps the matrix positive definite was rejected (%zu rows, after %s)", n, ops.c_str()); return; } for (size_t p = 0; p < n; p++) A[p].push_back(a[p]); A.push_back(a); ops += "a"; stat("rows_added"); } }
    std::string w = "after " + ops; if (!check(s, A, w.c_str())) return; if (g.u() < .5) solve(ls, s, A, g, w.c_str());
  }
  release(s); kase(str("chol/%d/%s", i % 6, ops.c_str()));
}
static void indefinite(uint64_t seed) {
  Rng g(seed); MeshingLinearSolver ls; size_t n = 1 + g.k(20); M A = spd(n, g, .5, (int)g.k(6)); size_t k = g.k(n);
  long double smax = 0; for (size_t j = 0; j < n; j++) smax += fabsl(A[k][j]); int how = (int)g.k(3);
  if (how == 0) A[k][k] = -g.u(.1, 1); else if (how == 1) A[k][k] = 0; else { if (n < 2) A[k][k] = -1; else { size_t l = (k + 1) % n; for (size_t j = 0; j < n; j++) { A[k][j] = A[l][j]; } for (size_t j = 0; j < n; j++) A[j][k] = A[k][j]; A[k][k] = A[l][l] * .5; } }
  Sp s = sparse(A, g); if (ls.Cholesky_factorization(n, s.J, s.W)) viol("indefinite", "a matrix of %zu rows that is not positive definite (kind %d, row %zu) was factored", n, how, k); stat("indefinite_matrices"); release(s); kase(str("indefinite/%d/%zu/%zu", how, n, k)); }
static void ls(uint64_t seed) {
  Rng g(seed); MeshingLinearSolver s; size_t nc = 1 + g.k(9), nr = nc + (g.u() < .3 ? 0 : g.k(25)); double sc = g.lg(1e-3, 1e4); int kind = (int)g.k(4);
  std::vector<V> A(nr, V(nc)); for (auto& r : A) for (auto& v : r) v = sc * g.g();
  if (kind == 1) for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nc; j++) if (i < nc) A[i][j] = (i == j ? sc * g.u(.5, 2) * (g.u() < .5 ? -1 : 1) : j > i ? A[i][j] : 0); // upper triangular head
  if (kind == 2) for (auto& r : A) { double t = g.u(-1, 1); for (size_t j = 0; j < nc; j++) r[j] = sc * cos(j * acos(t)); }                                                                     // Chebyshev-Vandermonde
  if (kind == 3) { for (auto& r : A) for (auto& v : r) v = 0; for (size_t i = 0; i < nr; i++) A[i][i % nc] = sc * g.u(.5, 2) * (g.u() < .5 ? -1 : 1); }                                            // many exact zeros
  // condition from a Gram-Schmidt pass; skip ill-conditioned draws
  { std::vector<V> q; double mn = 1e300, mx = 0; for (size_t j = 0; j < nc; j++) { V c(nr); for (size_t i = 0; i < nr; i++) c[i] = A[i][j]; double n0 = 0; for (double v : c) n0 += v * v; for (auto& p : q) { double d = 0; for (size_t i = 0; i < nr; i++) d += p[i] * c[i]; for (size_t i = 0; i < nr; i++) c[i] -= d * p[i]; } double n = 0; for (double v : c) n += v * v; mx = std::max(mx, sqrt(n0)); mn = std::min(mn, sqrt(n)); if (n > 0) for (auto& v : c) v /= sqrt(n); q.push_back(c); } if (!(mn > 1e-2 * mx)) { stat("ill_conditioned_skipped"); return; } }
  V b(nr), xt(nc), x(nc, 1e300); for (auto& v : xt) v = g.u(-3, 3); bool exact = g.u() < .5; for (size_t i = 0; i < nr; i++) { long double t = 0; for (size_t j = 0; j < nc; j++) t += (long double)A[i][j] * xt[j]; b[i] = (double)t + (exact ? 0 : sc * g.g()); }
  std::vector<double*> p; for (auto& r : A) p.push_back(r.data()); std::vector<V> A0 = A; V b0 = b;
  s.LS_QR_Solver(nr, nc, p.data(), b.data(), x.data()); if (A != A0 || b != b0) viol("ls-input", "the least squares solver changed its input");
  double rn = 0, bn = 0; V r(nr); for (size_t i = 0; i < nr; i++) { long double t = -(long double)b[i]; for (size_t j = 0; j < nc; j++) t += (long double)A[i][j] * x[j]; r[i] = (double)t; rn += r[i] * r[i]; bn += b[i] * b[i]; }
  for (size_t j = 0; j < nc; j++) { long double t = 0; for (size_t i = 0; i < nr; i++) t += (long double)A[i][j] * r[i]; double e = fabs((double)t) / (sc * (sqrt(bn) + sc) * nr); maxi("ls_gradient", e); if (!le(e, 1e-9)) { viol("ls", "solution of a %zu x %zu least squares problem (kind %d) is not the minimiser: gradient component %zu is %g", nr, nc, kind, j, (double)t); break; } }
  if (exact) for (size_t j = 0; j < nc; j++) { maxi("ls_err", fabs(x[j] - xt[j])); if (!le(fabs(x[j] - xt[j]), 1e-7)) { viol("ls-exact", "solution component %zu is %.12g, true %.12g (%zu x %zu, kind %d)", j, x[j], xt[j], nr, nc, kind); break; } }
  { std::vector<V> Q(nr, V(nr)), R(nr, V(nc)); std::vector<double*> q, rr; for (auto& v : Q) q.push_back(v.data()); for (auto& v : R) rr.push_back(v.data()); s.householder(nr, nc, p.data(), q.data(), rr.data());
    double e1 = 0, e2 = 0, e3 = 0; for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nr; j++) { double t = 0; for (size_t k = 0; k < nr; k++) t += Q[k][i] * Q[k][j]; e1 = std::max(e1, fabs(t - (i == j))); if (t != t) e1 = NAN; } for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nc; j++) { double t = 0; for (size_t k = 0; k < nr; k++) t += Q[i][k] * R[k][j]; e2 = std::max(e2, fabs(t - A[i][j]) / sc); if (i > j) e3 = std::max(e3, fabs(R[i][j]) / sc); }
    if (!le(e1, 1e-9) || !le(e2, 1e-8) || !le(e3, 1e-8)) viol("qr", "QR factors of a %zu x %zu matrix (kind %d): |Q^TQ-I| %g, |QR-A| %g, below the diagonal %g", nr, nc, kind, e1, e2, e3); }
  stat("ls_problems"); kase(str("ls/%zux%zu/%d/%llu", nr, nc, kind, (unsigned long long)seed)); }
int main(int argc, char** argv) {
  uint64_t seed = strtoull(argv[1], 0, 10); int reps = atoi(argv[2]);
  for (int i = 0; i < reps; i++) { chol(seed * 100000 + i, i); indefinite(seed * 100000 + i); for (int k = 0; k < 4; k++) ls(seed * 400000 + 4 * i + k); }
  return done();
}
