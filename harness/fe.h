// Independent description of reference finite elements.
#pragma once
#include <lfs.h>
#include <lf/fe/fe.h>
#include <lf/uscalfe/uscalfe.h>
#include <cmath>
#include <functional>
#include <memory>
#include <vector>
namespace harness {
using Mat = Eigen::MatrixXd;
using Fe = lf::fe::ScalarReferenceFiniteElement<double>;
typedef unsigned U;
// derivative of a polynomial of degree at most 2m from its values at x +- k*h, exact up to rounding
inline double diff(const std::function<double(double)>& f, int degree) {
  const int m = (degree + 1) / 2 > 0 ? (degree + 1) / 2 : 1;
  const double h = 0.125;
  auto fac = [](int n) { double r = 1; for (int i = 2; i <= n; i++) r *= i; return r; };
  double s = 0;
  for (int k = 1; k <= m; k++) {
    double c = (k % 2 ? 1 : -1) * fac(m) * fac(m) / (k * fac(m - k) * fac(m + k)) / h;
    s += c * (f(k * h) - f(-k * h));
  }
  return s;
}
// any point of the reference element
inline Mat refPoint(const lf::base::RefEl& re, int n = 1) {
  Mat x(re.Dimension(), n);
  for (int j = 0; j < n; j++) {
    if (re.Dimension() == 0) continue;
    x(0, j) = lfs_real("x", 0, 1);
    if (re.Dimension() == 2) {
      x(1, j) = lfs_real("y", 0, 1);
      if (re == lf::base::RefEl::kTria()) lfs_assume_ge(1.0, x(0, j) + x(1, j));
    }
  }
  return x;
}
inline Mat edgePoint(const lf::base::RefEl& re, int i, double s) {
  Mat nc = re.NodeCoords(), x(2, 1);
  const int k = nc.cols();
  for (int d = 0; d < 2; d++) x(d, 0) = nc(d, i) * (1 - s) + nc(d, (i + 1) % k) * s;
  return x;
}
// sizes, gradients = derivatives, dual functionals, dofs per sub-entity; degree: polynomial degree (per variable)
inline void checkElement(const Fe& fe, lf::base::RefEl re, int degree, bool nodal, int maxPoints = 3) {
  const int dim = re.Dimension(), n = fe.NumRefShapeFunctions();
  lfs_assert(fe.RefEl() == re && (int)fe.Dimension() == dim, "reference element");
  lfs_assert((int)fe.Degree() == degree, "announced degree");
  int sum = 0;
  for (int c = 0; c <= dim; c++) for (U i = 0; i < re.NumSubEntities(c); i++) sum += fe.NumRefShapeFunctions(c, i);
  lfs_assert(sum == n, "the shape functions of all sub-entities add up");
  const int npt = maxPoints < 0 ? -maxPoints : 1 + lfs_choice("npoints", maxPoints);
  Mat x = refPoint(re, npt);
  Mat v = fe.EvalReferenceShapeFunctions(x);
  lfs_assert(v.rows() == n && v.cols() == npt, "size of the values");
  if (dim > 0) {
    Mat g = fe.GradientsReferenceShapeFunctions(x);
    lfs_assert(g.rows() == n && g.cols() == npt * dim, "size of the gradients");
    for (int j = 0; j < npt; j++)
      for (int d = 0; d < dim; d++) {
        std::vector<Mat> val;
        for (int i = 0; i < n; i++) {
          int q = 0;
          double w = diff([&](double t) {
            if (i == 0) { Mat y = x.col(j); y(d, 0) += t; val.push_back(fe.EvalReferenceShapeFunctions(y)); }
            return val[q++](i, 0);
          }, degree);
          lfs_near(g(i, j * dim + d), w, 1e-8, "gradients are the derivatives of the shape functions");
        }
      }
  }
  // all points are evaluated independently
  for (int j = 0; j < npt; j++) {
    Mat w = fe.EvalReferenceShapeFunctions(Mat(x.col(j)));
    for (int i = 0; i < n; i++) lfs_near(v(i, j), w(i, 0), 1e-9, "values at several points");
  }
  // dual functionals
  Mat nodes = fe.EvaluationNodes();
  const int ne = fe.NumEvaluationNodes();
  lfs_assert(nodes.rows() == dim && nodes.cols() == ne, "size of the evaluation nodes");
  for (int j = 0; j < ne; j++) {
    for (int d = 0; d < dim; d++) { lfs_ge(nodes(d, j), -1e-12, "evaluation nodes lie in the reference element"); lfs_ge(1 + 1e-12, nodes(d, j), "evaluation nodes lie in the reference element"); }
    if (re == lf::base::RefEl::kTria()) lfs_ge(1 + 1e-12, nodes(0, j) + nodes(1, j), "evaluation nodes lie in the reference element");
  }
  Mat b = fe.EvalReferenceShapeFunctions(nodes);
  if (nodal) {
    lfs_assert(ne == n, "one node per shape function");
    for (int i = 0; i < n; i++) for (int j = 0; j < ne; j++) lfs_near(b(i, j), i == j ? 1.0 : 0.0, 1e-9, "a shape function is one at its own node and zero at the others");
    for (int j = 0; j < npt; j++) {
      double s = 0;
      for (int i = 0; i < n; i++) s += v(i, j);
      lfs_near(s, 1.0, 1e-9, "the shape functions sum to one");
    }
  }
  Eigen::Matrix<double, 1, Eigen::Dynamic> c(1, n), val(1, ne);
  for (int i = 0; i < n; i++) c(0, i) = lfs_real("c", -1, 1);
  for (int j = 0; j < ne; j++) {
    double s = 0;
    for (int i = 0; i < n; i++) s += c(0, i) * b(i, j);
    val(0, j) = s;
  }
  auto r = fe.NodalValuesToDofs(val);
  lfs_assert(r.cols() == n, "number of coefficients");
  for (int i = 0; i < n; i++) lfs_near(r(0, i), c(0, i), 1e-7, "the coefficients of a function of the span are recovered from its values at the evaluation nodes");
}
// Restriction to the boundary. edge(i): element on edge i; orient(i): +1/-1
inline void checkTrace(const Fe& fe, const std::function<const Fe*(int)>& edge, const std::function<int(int)>& orient) {
  const lf::base::RefEl re = fe.RefEl();
  const int k = re.NumNodes(), n = fe.NumRefShapeFunctions();
  int nv = 0;
  std::vector<int> vOff, eOff;
  for (int i = 0; i < k; i++) { vOff.push_back(nv); nv += fe.NumRefShapeFunctions(2, i); }
  for (int i = 0; i < k; i++) { eOff.push_back(nv); nv += fe.NumRefShapeFunctions(1, i); }
  lfs_assert(nv + (int)fe.NumRefShapeFunctions(0, 0) == n, "the shape functions of all sub-entities add up");
  for (int i = 0; i < k; i++) {
    const Fe& se = *edge(i);
    double s = lfs_real("s", 0, 1);
    Mat p(1, 1);
    const bool neg = orient(i) < 0;
    p(0, 0) = neg ? 1 - s : s;
    Mat v = fe.EvalReferenceShapeFunctions(edgePoint(re, i, s)), w = se.EvalReferenceShapeFunctions(p);
    const int ni = fe.NumRefShapeFunctions(1, i);
    lfs_assert(w.rows() == 2 + ni && (int)se.NumRefShapeFunctions(0, 0) == ni, "as many shape functions on an edge as attached to it and its end points");
    std::vector<double> want(n, 0.0);
    want[vOff[i]] = neg ? w(1, 0) : w(0, 0);
    want[vOff[(i + 1) % k]] = neg ? w(0, 0) : w(1, 0);
    for (int j = 0; j < ni; j++) want[eOff[i] + j] = w(2 + (neg ? ni - 1 - j : j), 0);
    for (int j = 0; j < n; j++) lfs_near(v(j, 0), want[j], 1e-8, "on an edge the shape functions coincide with those of the edge, all others vanish");
  }
}
}  // namespace harness
