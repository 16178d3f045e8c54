// Common to the geometry harnesses: symbolic element geometries and an independent description of their mappings.
#pragma once
#include <lfs.h>
#include <lf/geometry/geometry.h>
#include <lf/refinement/hybrid2d_refinement_pattern.h>
#include <cmath>
#include <memory>
#include <vector>
namespace harness {
using Mat = Eigen::MatrixXd;
enum Kind { SEG1, SEG2, TRI1, TRI2, QUAD1, QUAD2, PARA, NKIND };
inline const double* baseNodes(Kind k) {
  // chosen such that the entries of the Jacobian keep their signs under the perturbations used
  static const double seg[] = {0.1, 0.2, 1.0, 0.5, 0.55, 0.37};
  static const double tri[] = {0.0, 0.1, 1.0, 0.4, 0.4, 1.7, 0.51, 0.23, 0.72, 1.03, 0.19, 0.91};
  static const double quad[] = {0.0, 0.0, 1.0, 0.3, 1.5, 2.0, 0.4, 1.6, 0.51, 0.13, 1.26, 1.16, 0.96, 1.81, 0.19, 0.79};
  return k == SEG1 || k == SEG2 ? seg : k == TRI1 || k == TRI2 ? tri : quad;
}
inline int numNodes(Kind k) { static const int n[] = {2, 3, 3, 6, 4, 8, 3}; return n[k]; }
// node coordinates: base shape (optionally mirrored) plus an arbitrary displacement of every coordinate by at most r
inline Mat symNodes(Kind k, int wd, double r, bool mirror = false) {
  const int n = numNodes(k);
  const double* b = baseNodes(k);
  Mat c(wd, n);
  for (int j = 0; j < n; j++)
    for (int d = 0; d < wd; d++) {
      double base = d < 2 ? b[2 * j + d] : 0.3 * b[2 * j] - 0.2 * b[2 * j + 1];
      if (mirror && d == 0) base = -base;
      c(d, j) = base + lfs_real("coord", -r, r);
    }
  return c;
}
inline std::unique_ptr<lf::geometry::Geometry> makeGeo(Kind k, const Mat& c) {
  using namespace lf::geometry;
  switch (k) {
    case SEG1: return std::make_unique<SegmentO1>(c);
    case SEG2: return std::make_unique<SegmentO2>(c);
    case TRI1: return std::make_unique<TriaO1>(c);
    case TRI2: return std::make_unique<TriaO2>(c);
    case QUAD1: return std::make_unique<QuadO1>(c);
    case QUAD2: return std::make_unique<QuadO2>(c);
    default: return std::make_unique<Parallelogram>(c.col(0), c.col(1), c.col(2));
  }
}
// corners of the element (the parallelogram is given by three points)
inline Mat nodesOf(Kind k, const Mat& c) {
  if (k != PARA) return c;
  Mat r(c.rows(), 4);
  r.col(0) = c.col(0); r.col(1) = c.col(1); r.col(3) = c.col(2);
  for (int d = 0; d < c.rows(); d++) r(d, 2) = c(d, 1) + c(d, 2) - c(d, 0);
  return r;
}
// independent shape functions of the mapping: value (der = -1) or partial derivative
inline std::vector<double> shape(Kind k, double x, double y, int der) {
  std::vector<double> v;
  auto L = [&](double a, double b, double c) { v = {a, b, c}; };
  switch (k) {
    case SEG1: if (der < 0) v = {1 - x, x}; else v = {-1.0, 1.0}; break;
    case SEG2: if (der < 0) L((1 - x) * (1 - 2 * x), x * (2 * x - 1), 4 * x * (1 - x)); else L(4 * x - 3, 4 * x - 1, 4 - 8 * x); break;
    case TRI1: if (der < 0) L(1 - x - y, x, y); else if (der == 0) L(-1, 1, 0); else L(-1, 0, 1); break;
    case TRI2: {
      double l = 1 - x - y;
      if (der < 0) v = {l * (2 * l - 1), x * (2 * x - 1), y * (2 * y - 1), 4 * l * x, 4 * x * y, 4 * y * l};
      else if (der == 0) v = {1 - 4 * l, 4 * x - 1, 0.0, 4 * (l - x), 4 * y, -4 * y};
      else v = {1 - 4 * l, 0.0, 4 * y - 1, -4 * x, 4 * x, 4 * (l - y)};
      break;
    }
    case QUAD1: case PARA:
      if (der < 0) v = {(1 - x) * (1 - y), x * (1 - y), x * y, (1 - x) * y};
      else if (der == 0) v = {y - 1, 1 - y, y, -y};
      else v = {x - 1, -x, x, 1 - x};
      break;
    default: {
      // eight-node serendipity element
      double X = 1 - x, Y = 1 - y;
      if (der < 0)
        v = {X * Y * (1 - 2 * x - 2 * y), x * Y * (2 * x - 2 * y - 1), x * y * (2 * x + 2 * y - 3), X * y * (2 * y - 2 * x - 1),
             4 * x * X * Y, 4 * x * y * Y, 4 * x * X * y, 4 * X * y * Y};
      else if (der == 0)
        v = {Y * (-3 + 4 * x + 2 * y), Y * (4 * x - 2 * y - 1), y * (4 * x + 2 * y - 3), y * (4 * x - 2 * y - 1),
             4 * (1 - 2 * x) * Y, 4 * y * Y, 4 * (1 - 2 * x) * y, -4 * y * Y};
      else
        v = {X * (-3 + 2 * x + 4 * y), x * (-2 * x + 4 * y - 1), x * (2 * x + 4 * y - 3), X * (4 * y - 2 * x - 1),
             -4 * x * X, 4 * x * (1 - 2 * y), 4 * x * X, 4 * X * (1 - 2 * y)};
    }
  }
  return v;
}
inline double refMap(Kind k, const Mat& nodes, int d, double x, double y, int der) {
  std::vector<double> N = shape(k, x, y, der);
  double s = 0;
  for (int j = 0; j < (int)N.size(); j++) s += nodes(d, j) * N[j];
  return s;
}
inline int refDim(Kind k) { return k <= SEG2 ? 1 : 2; }
// n symbolic reference points, all inside the reference element
inline Mat symLocal(Kind k, int n, bool simplex = false) {
  Mat l(refDim(k), n);
  for (int i = 0; i < n; i++) {
    for (int d = 0; d < refDim(k); d++) l(d, i) = lfs_real("loc", 0, 1);
    if (simplex && (k == TRI1 || k == TRI2)) lfs_assume_ge(1 - l(0, i), l(1, i));
  }
  return l;
}
}  // namespace harness
