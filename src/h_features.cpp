// P20: sharp features and point clouds. args: n; reads in<k>.txt (np nf cos_threshold, points, faces), writes out<k>.txt (sharp edges, sharp corners)
#include "vt.h"
#include <iostream>
#include <fstream>
#include "MeshingVoroCrustSampler.h"
using namespace vt;
static double dist(const double* a, const double* b) { return sqrt((a[0]-b[0])*(a[0]-b[0]) + (a[1]-b[1])*(a[1]-b[1]) + (a[2]-b[2])*(a[2]-b[2])); }
int main(int argc, char** argv) {
  int n = atoi(argv[1]);
  for (int k = 0; k < n; k++) {
    std::ifstream f("in" + std::to_string(k) + ".txt"); size_t np, nf; double ct; f >> np >> nf >> ct;
    double** p = new double*[np]; size_t** t = new size_t*[nf]; double L = 0;
    for (size_t i = 0; i < np; i++) { p[i] = new double[3]; f >> p[i][0] >> p[i][1] >> p[i][2]; L = std::max(L, dist(p[i], p[0])); }
    for (size_t i = 0; i < nf; i++) { t[i] = new size_t[4]; t[i][0] = 3; f >> t[i][1] >> t[i][2] >> t[i][3]; }
    MeshingSmartTree surf, edge; size_t ne = 0, nc = 0; size_t** e = 0; size_t* c = 0;
    MeshingVoroCrustSampler s(1 + k % 3);
    s.detect_features_generate_point_clouds_clean(np, p, nf, t, ct, &surf, &edge, ne, e, nc, c);
    std::ofstream o("out" + std::to_string(k) + ".txt"); o << ne << " " << nc << "\n";
    for (size_t i = 0; i < ne; i++) o << e[i][0] << " " << e[i][1] << "\n";
    for (size_t i = 0; i < nc; i++) o << c[i] << "\n";
    o.close();
    double tol = 1e-9 * L; double off = 0; for (size_t i = 0; i < np; i++) off = std::max(off, fabs(p[i][0]) + fabs(p[i][1]) + fabs(p[i][2])); tol += 1e-13 * off;
    // every point of the surface cloud lies in its face and carries its normal; faces get their share of points
    std::vector<double> A(nf), cnt(nf, 0.), mean(3 * nf, 0.); double tot = 0; std::vector<V> nrm(nf);
    for (size_t i = 0; i < nf; i++) { double *a = p[t[i][1]], *b = p[t[i][2]], *d = p[t[i][3]]; V u = {b[0]-a[0], b[1]-a[1], b[2]-a[2]}, v = {d[0]-a[0], d[1]-a[1], d[2]-a[2]};
      V w = {u[1]*v[2]-u[2]*v[1], u[2]*v[0]-u[0]*v[2], u[0]*v[1]-u[1]*v[0]}; double m = sqrt(w[0]*w[0]+w[1]*w[1]+w[2]*w[2]); A[i] = m / 2; tot += A[i]; for (auto& x : w) x /= m; nrm[i] = w; }
    size_t N = surf.get_num_tree_points(); bool bad = N == 0; if (bad) viol("cloud-empty", "no surface points (case %d)", k);
    for (size_t q = 0; q < N && !bad; q++) {
      double* x = surf.get_tree_point(q); double* m = surf.get_tree_point_normal(q); size_t* at = surf.get_tree_point_attrib(q);
      if (at == 0 || m == 0 || at[1] >= nf) { viol("cloud-face", "surface point %zu carries no face (case %d)", q, k); bad = true; break; }
      size_t i = at[1]; double *a = p[t[i][1]], *b = p[t[i][2]], *d = p[t[i][3]]; double h = 0, dn = 0; for (int z = 0; z < 3; z++) { h += (x[z] - a[z]) * nrm[i][z]; dn = std::max(dn, fabs(m[z] - nrm[i][z])); }
      double* P[3] = {a, b, d}; bool in = fabs(h) <= tol;
      for (int s1 = 0; s1 < 3 && in; s1++) { double *u = P[s1], *v = P[(s1 + 1) % 3]; double E[3] = {v[0]-u[0], v[1]-u[1], v[2]-u[2]}, W[3] = {x[0]-u[0], x[1]-u[1], x[2]-u[2]}; double le = sqrt(E[0]*E[0]+E[1]*E[1]+E[2]*E[2]);
        double cr = nrm[i][0]*(E[1]*W[2]-E[2]*W[1]) + nrm[i][1]*(E[2]*W[0]-E[0]*W[2]) + nrm[i][2]*(E[0]*W[1]-E[1]*W[0]); if (!(cr / le >= -tol)) in = false; }
      if (!in) { viol("cloud-off-surface", "surface point %s is not in face %zu it is said to sample (case %d)", vs(x, 3).c_str(), i, k); bad = true; break; }
      if (!(dn <= 1e-9)) { viol("cloud-normal", "surface point %zu carries normal %s, its face has %s (case %d)", q, vs(m, 3).c_str(), vs(nrm[i].data(), 3).c_str(), k); bad = true; break; }
      cnt[i]++; for (int z = 0; z < 3; z++) mean[3 * i + z] += x[z];
    }
    for (size_t i = 0; i < nf && !bad; i++) { double ex = N * A[i] / tot; if (!(fabs(cnt[i] - ex) <= 8 * sqrt(ex) + 8)) { viol("cloud-share", "face %zu holds %g of %zu surface points, %g are its share (case %d)", i, cnt[i], N, ex, k); bad = true; }
      if (cnt[i] >= 100) { double r = 0, d2 = 0; for (int z = 0; z < 3; z++) { double g = (p[t[i][1]][z] + p[t[i][2]][z] + p[t[i][3]][z]) / 3, w = mean[3 * i + z] / cnt[i] - g; d2 += w * w; for (int j = 1; j <= 3; j++) r += (p[t[i][j]][z] - g) * (p[t[i][j]][z] - g); }
        if (!(sqrt(d2) <= 8 * sqrt(r / 12 / cnt[i]) + tol)) { viol("cloud-uniform", "the points of face %zu are not spread evenly: their mean is %g from its centroid (case %d)", i, sqrt(d2), k); bad = true; } } }
    stat("surface_cloud_points", N); size_t M = edge.get_num_tree_points(); if (ne > 0 && M == 0) viol("edge-cloud-empty", "no points on %zu sharp edges (case %d)", ne, k);
    if (ne == 0 && M > 0) viol("edge-cloud-spurious", "%zu edge points without a sharp edge (case %d)", M, k);
    std::map<std::pair<size_t, size_t>, double> ec; double el = 0; std::map<std::pair<size_t, size_t>, double> len;
    for (size_t i = 0; i < ne; i++) { std::pair<size_t, size_t> id(std::min(e[i][0], e[i][1]), std::max(e[i][0], e[i][1])); if (!len.count(id)) { len[id] = 0; } double l = dist(p[id.first], p[id.second]); len[id] += l; el += l; }
    for (size_t q = 0; q < M && ne; q++) { double* x = edge.get_tree_point(q); size_t* at = edge.get_tree_point_attrib(q); double* m = edge.get_tree_point_normal(q);
      if (at == 0 || m == 0 || at[1] >= ne) { viol("edge-cloud-edge", "edge point %zu carries no edge (case %d)", q, k); break; }
      size_t i = at[1]; double *a = p[e[i][0]], *b = p[e[i][1]]; double l = dist(a, b), s2 = dist(a, x) + dist(x, b) - l, dn = 0; for (int z = 0; z < 3; z++) dn = std::max(dn, fabs(fabs(m[z]) - fabs(b[z] - a[z]) / l));
      double h = 0; for (int z = 0; z < 3; z++) h += (x[z] - a[z]) * (b[z] - a[z]) / l; double d2 = 0; for (int z = 0; z < 3; z++) { double w = x[z] - a[z] - h * (b[z] - a[z]) / l; d2 += w * w; }
      if (!(sqrt(d2) <= tol && h >= -tol && h <= l + tol && s2 <= 4 * tol)) { viol("edge-cloud-off-edge", "edge point %s is not on edge %zu (case %d)", vs(x, 3).c_str(), i, k); break; }
      if (!(dn <= 1e-9)) { viol("edge-cloud-tangent", "edge point %zu carries a direction other than its edge's (case %d)", q, k); break; }
      ec[{std::min(e[i][0], e[i][1]), std::max(e[i][0], e[i][1])}]++; }
    for (auto& l : len) { double ex = M * l.second / el; if (!(fabs(ec[l.first] - ex) <= 8 * sqrt(ex) + 8)) { viol("edge-cloud-share", "sharp edge %zu-%zu holds %g of %zu edge points, %g are its share (case %d)", l.first.first, l.first.second, ec[l.first], M, ex, k); break; } }
    stat("edge_cloud_points", M); stat("clouds_checked");
    for (size_t i = 0; i < ne; i++) delete[] e[i]; delete[] e; delete[] c; for (size_t i = 0; i < np; i++) delete[] p[i]; for (size_t i = 0; i < nf; i++) delete[] t[i]; delete[] p; delete[] t;
  }
  return done();
}
