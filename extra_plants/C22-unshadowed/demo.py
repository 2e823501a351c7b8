# the kernel as it is, compiled without register allocation so that shared variables are really shared
import os, subprocess
W, src = os.environ["WORK"], os.path.join(os.getcwd(), "rankeval", "analysis")
open(os.path.join(W, "t.cpp"), "w").write(r"""
#include <vector>
#include <cstdio>
#include <cmath>
#include "_efficient_feature_impl.h"
int main() {
  const int n = 400000;
  std::vector<float> X(n), y(n);
  for (int i = 0; i < n; ++i) { X[i] = i % 2; y[i] = (i % 2) ? 3 : 1; }
  int root[] = {0}; float w[] = {1}; short f[] = {0, -1, -1}; float v[] = {0.5f, 0, 0};
  int l[] = {1, -1, -1}, r[] = {2, -1, -1};
  for (int k = 0; k < 20; ++k) {
    float imp[] = {0}; short cnt[] = {0};
    c_feature_importance(X.data(), y.data(), root, w, f, v, l, r, imp, cnt, n, 1, 1);
    if (std::fabs(imp[0] - 1) > 1e-3) { std::printf("importance %g instead of 1\n", imp[0]); return 1; }
  }
  return 0;
}
""")
subprocess.check_call(["g++", "-O0", "-fopenmp", "-std=c++11", "-w", "-I", src, os.path.join(W, "t.cpp"), os.path.join(src, "_efficient_feature_impl.cpp"), "-o", os.path.join(W, "t")])
assert subprocess.call([os.path.join(W, "t")], env=dict(os.environ, OMP_NUM_THREADS="4")) == 0
