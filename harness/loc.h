// Independent evaluation of local bilinear and linear forms.
#pragma once
#include "fespace.h"
namespace harness {
// Gauss points on [0,1] (6 points, exact to degree 11)
struct Gauss1 { int n; double x[6], w[6]; };
inline const Gauss1& gauss6() {
  static Gauss1 g = [] {
    Gauss1 r;
    r.n = 6;
    const double x[3] = {0.2386191860831969086305017, 0.6612093864662645136613996, 0.9324695142031520278123016};
    const double w[3] = {0.4679139345726910473898703, 0.3607615730481386075698335, 0.1713244923791703450402961};
    for (int i = 0; i < 3; i++) { r.x[i] = 0.5 * (1 - x[2 - i]); r.x[5 - i] = 0.5 * (1 + x[2 - i]); r.w[i] = r.w[5 - i] = 0.5 * w[2 - i]; }
    return r;
  }();
  return g;
}
// points (columns) and weights on a reference element, exact to degree 10
inline void rule(const lf::base::RefEl& re, Mat& x, std::vector<double>& w) {
  const Gauss1& g = gauss6();
  w.clear();
  if (re == lf::base::RefEl::kSegment()) {
    x.resize(1, 6);
    for (int i = 0; i < 6; i++) { x(0, i) = g.x[i]; w.push_back(g.w[i]); }
    return;
  }
  x.resize(2, 36);
  for (int i = 0; i < 6; i++)
    for (int j = 0; j < 6; j++) {
      const bool t = re == lf::base::RefEl::kTria();
      x(0, i * 6 + j) = t ? g.x[i] * (1 - g.x[j]) : g.x[i];
      x(1, i * 6 + j) = g.x[j];
      w.push_back(g.w[i] * g.w[j] * (t ? 1 - g.x[j] : 1));
    }
}
// a single straight cell: shape 0 triangle, 1 parallelogram, 2 general quadrilateral
struct OneCell {
  MeshP mesh;
  Mat p;      // corners
  Mat J;      // constant Jacobian (shapes 0 and 1)
  double det; // positive area factor
};
inline OneCell oneCell(int shape, int wd, double r, bool mirror) {
  Topo t = baseTopo(shape == 0 ? T_TRI : T_QUAD);
  Mat p = points(t, wd, 0);
  for (int j = 1; j < p.cols(); j++) for (int d = 0; d < wd; d++) if (shape != 1 || j != 2) p(d, j) += lfs_real("node", -r, r);
  if (mirror) for (int j = 0; j < p.cols(); j++) p(0, j) = -p(0, j);
  if (shape == 1) for (int d = 0; d < wd; d++) p(d, 2) = p(d, 1) + p(d, 3) - p(d, 0);
  OneCell c;
  c.p = p;
  c.mesh = simpleMesh(t, p);
  c.J.resize(wd, 2);
  const int last = shape == 0 ? 2 : 3;
  for (int d = 0; d < wd; d++) { c.J(d, 0) = p(d, 1) - p(d, 0); c.J(d, 1) = p(d, last) - p(d, 0); }
  if (wd == 2) {
    c.det = c.J(0, 0) * c.J(1, 1) - c.J(0, 1) * c.J(1, 0);
    if (mirror) c.det = -c.det;
  } else c.det = 0;
  return c;
}
// reference integrals
struct RefInt {
  int n;
  std::vector<Mat> g;  // g[2*r+s](i,j) = int d_r b_i d_s b_j
  Mat m;               // int b_i b_j
  std::vector<double> l;
};
inline RefInt refInt(const Fe& fe) {
  RefInt R;
  R.n = fe.NumRefShapeFunctions();
  Mat x;
  std::vector<double> w;
  rule(fe.RefEl(), x, w);
  const int dim = fe.RefEl().Dimension();
  Mat v = fe.EvalReferenceShapeFunctions(x), g = fe.GradientsReferenceShapeFunctions(x);
  R.m = Mat::Zero(R.n, R.n);
  R.l.assign(R.n, 0.0);
  for (int k = 0; k < dim * dim; k++) R.g.push_back(Mat::Zero(R.n, R.n));
  for (size_t q = 0; q < w.size(); q++)
    for (int i = 0; i < R.n; i++) {
      R.l[i] += w[q] * v(i, q);
      for (int j = 0; j < R.n; j++) {
        R.m(i, j) += w[q] * v(i, q) * v(j, q);
        for (int r = 0; r < dim; r++) for (int s = 0; s < dim; s++) R.g[dim * r + s](i, j) += w[q] * g(i, dim * q + r) * g(j, dim * q + s);
      }
    }
  return R;
}
// det * K with K = J^-1 A J^-T
inline void pullback(const OneCell& c, const double A[2][2], double K[2][2]) {
  // adj(J) = det * J^-1 (signed); the sign cancels in the product
  const double a[2][2] = {{c.J(1, 1), -c.J(0, 1)}, {-c.J(1, 0), c.J(0, 0)}};
  for (int r = 0; r < 2; r++)
    for (int s = 0; s < 2; s++) {
      double t = 0;
      for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) t += a[r][i] * A[i][j] * a[s][j];
      K[r][s] = t / c.det;
    }
}
}  // namespace harness
