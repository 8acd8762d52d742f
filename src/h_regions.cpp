// P10: regions written for cells whose seeds carry patch ids. args: reps; cases read from the files case<k>.csv (x y z size id, first line: number of surface seeds, threads)
#include "vt.h"
#include <iostream>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <list>
#include <queue>
#include <stack>
#include <set>
#include <map>
#include <ctime>
#include <chrono>
#include <numeric>
#include <limits>
#include <omp.h>
#define private public
#include "MeshingVoroCrust.h"
#undef private
int main(int argc, char** argv) {
  int n = atoi(argv[1]);
  for (int k = 0; k < n; k++) {
    std::ifstream f("case" + std::to_string(k) + ".csv"); size_t ns; int th; f >> ns >> th; std::vector<double> x, s; std::vector<size_t> id; double a, b, c, d; size_t e;
    while (f >> a >> b >> c >> d >> e) { x.push_back(a); x.push_back(b); x.push_back(c); s.push_back(d); id.push_back(e); }
    size_t m = s.size(); double* X = new double[3 * m]; double* S = new double[m]; size_t* I = new size_t[m];
    std::copy(x.begin(), x.end(), X); std::copy(s.begin(), s.end(), S); std::copy(id.begin(), id.end(), I);
    MeshingVoroCrust vc("none"); int rc = vc.generate_explicit_mesh(th, m, X, I, S, ns, true, false);
    std::string o = "mesh" + std::to_string(k) + ".vcg"; rename("mesh.vcg", o.c_str()); printf("@STAT\tharness_meshes\t1\n"); if (rc) printf("@VIOL\tregions-status\tstatus %d for case %d\n", rc, k); fflush(stdout);
  }
  printf("@DONE\n"); return 0;
}
