// Quadrature rules.
// units: core quad! quadt
// bound: reference segment, triangle and quadrilateral; segment and triangle rules for every requested degree 0..60, quadrilateral rules for degree 0..20 (thorough 30); every polynomial of at most the announced degree with coefficients in [-1,1] with respect to the monomial basis; Gauss-Jacobi rules with 1..12 points and exponents (0,0), (1,0), (0,1), (2,1), (1,3); caches with up to 3 requests
// outside: higher degrees; tolerance 1e-11 (rounding of the stored nodes and weights)
#include <cmath>
#include <deque>
#include <lf/quad/gauss_quadrature.h>
#include <lf/quad/quad.h>
#include "lfs.h"
using lf::base::RefEl;
using lf::quad::QuadRule;
static void inside(const QuadRule& q) {
  const Eigen::MatrixXd& x = q.Points();
  lfs_assert(x.rows() == (int)q.RefEl().Dimension() && x.cols() == q.Weights().size() && (int)q.NumPoints() == x.cols() && x.cols() > 0, "one weight per point");
  const double e = 1e-14;
  for (int k = 0; k < x.cols(); k++) {
    bool in = true;
    for (int d = 0; d < x.rows(); d++) in = in && x(d, k) >= -e && x(d, k) <= 1 + e;
    if (q.RefEl() == RefEl::kTria()) in = in && x(0, k) + x(1, k) <= 1 + e;
    lfs_assert(in, "quadrature points lie in the reference element");
  }
}
static double fact(int n) { double r = 1; for (int i = 2; i <= n; i++) r *= i; return r; }
// integral of x^a y^b over the reference element
static double moment(const RefEl& re, int a, int b) {
  if (re == RefEl::kTria()) {   // a! b! / (a+b+2)!
    double r = 1.0 / ((a + b + 1.0) * (a + b + 2.0));
    for (int i = 1; i <= b; i++) r *= (double)i / (a + i);
    return r;
  }
  return 1.0 / (a + 1.0) / (b + 1.0);
}
static void exact(const QuadRule& q, unsigned atLeast) {
  inside(q);
  const unsigned D = q.Degree();
  lfs_assert(D >= atLeast && q.Order() == D + 1, "the announced degree is at least the requested one");
  const Eigen::MatrixXd& x = q.Points();
  const Eigen::VectorXd& w = q.Weights();
  const int n = x.cols(), dim = x.rows();
  // powers of the nodes
  std::vector<std::vector<double>> px(dim, std::vector<double>(n * (D + 1)));
  for (int d = 0; d < dim; d++)
    for (int k = 0; k < n; k++) {
      double v = 1;
      for (unsigned a = 0; a <= D; a++) { px[d][k * (D + 1) + a] = v; v *= x(d, k); }
    }
  double lhs = 0, rhs = 0;
  for (unsigned a = 0; a <= D; a++)
    for (unsigned b = 0; b <= (dim == 1 ? 0 : q.RefEl() == RefEl::kTria() ? D - a : D); b++) {
      // an arbitrary coefficient of the polynomial times the rule applied to its monomial
      const double c = lfs_real("c", -1, 1);
      double s = 0;
      for (int k = 0; k < n; k++) s += w(k) * px[0][k * (D + 1) + a] * (dim == 1 ? 1.0 : px[1][k * (D + 1) + b]);
      lhs += c * s;
      rhs += c * moment(q.RefEl(), a, b);
    }
  lfs_near(lhs, rhs, 1e-11, "the rule integrates every polynomial of its degree exactly");
}
LFS_CASE(segment) {
  const int d = lfs_choice("degree", 61);
  exact(lf::quad::make_QuadRule(RefEl::kSegment(), d), d);
}
LFS_CASE(tria_low) {
  const int d = lfs_choice("degree", 31);
  exact(lf::quad::make_QuadRule(RefEl::kTria(), d), d);
}
LFS_CASE(tria_high) {
  const int d = 31 + lfs_choice("degree", 20);
  exact(lf::quad::make_QuadRule(RefEl::kTria(), d), d);
}
LFS_CASE(tria_duffy) {
  const int d = 51 + lfs_choice("degree", 10);
  exact(lf::quad::make_QuadRule(RefEl::kTria(), d), d);
}
LFS_CASE(quad) {
  const int d = lfs_choice("degree", lfs_thorough() ? 31 : 21);
  exact(lf::quad::make_QuadRule(RefEl::kQuad(), d), d);
}
LFS_CASE(named) {
  switch (lfs_choice("rule", 11)) {
    case 0: exact(lf::quad::make_TriaQR_MidpointRule(), 1); break;
    case 1: exact(lf::quad::make_TriaQR_P1O2(), 1); break;
    case 2: exact(lf::quad::make_TriaQR_EdgeMidpointRule(), 2); break;
    case 3: exact(lf::quad::make_TriaQR_P3O3(), 2); break;
    case 4: exact(lf::quad::make_TriaQR_P7O6(), 5); break;
    case 5: exact(lf::quad::make_TriaQR_P6O4(), 3); break;
    case 6: exact(lf::quad::make_QuadQR_MidpointRule(), 1); break;
    case 7: exact(lf::quad::make_QuadQR_P1O2(), 1); break;
    case 8: exact(lf::quad::make_QuadQR_EdgeMidpointRule(), 1); break;
    case 9: exact(lf::quad::make_QuadQR_P4O2(), 1); break;
    case 10: exact(lf::quad::make_QuadQR_P4O4(), 3); break;
  }
}
LFS_CASE(nodal) {
  const RefEl re[3] = {RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()};
  const RefEl r = re[lfs_choice("refel", 3)];
  QuadRule q = lf::quad::make_QuadRuleNodal(r);
  lfs_assert(q.RefEl() == r && q.NumPoints() == r.NumNodes(), "one quadrature point per node");
  for (unsigned k = 0; k < r.NumNodes(); k++)
    for (unsigned d = 0; d < r.Dimension(); d++) lfs_assert(q.Points()(d, k) == r.NodeCoords()(d, k), "the quadrature points are the nodes");
  exact(q, 1);
}
static bool same(const QuadRule& a, const QuadRule& b) {
  return a.RefEl() == b.RefEl() && a.Degree() == b.Degree() && a.Points().rows() == b.Points().rows() && a.Points().cols() == b.Points().cols() && a.Points() == b.Points() && a.Weights() == b.Weights();
}
LFS_CASE(cache) {
  const RefEl re[3] = {RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()};
  const unsigned deg[6] = {0, 1, 2, 3, 7, 12};
  lf::quad::QuadRuleCache* c = new lf::quad::QuadRuleCache;
  const int n = 3;
  const QuadRule* r[n];
  RefEl el[n] = {re[0], re[0], re[0]};
  unsigned dg[n];
  for (int i = 0; i < n; i++) {
    el[i] = re[lfs_choice("refel", 3)];
    dg[i] = deg[lfs_choice("degree", 6)];
    r[i] = &c->Get(el[i], dg[i]);
  }
  lf::quad::QuadRuleCache d(std::move(*c));
  for (int i = 0; i < n; i++) {
    const QuadRule& again = d.Get(el[i], dg[i]);
    lfs_assert(r[i] == &again, "references into the cache stay valid");
    lfs_assert(again.RefEl() == el[i] && again.Degree() >= dg[i], "cached rules obey the contract of make_QuadRule");
    lfs_assert(same(again, lf::quad::make_QuadRule(el[i], dg[i])), "cached rules equal those of make_QuadRule");
  }
  delete c;
}
// every rule obtained through a cache is exact as well
LFS_CASE(cache_exact) {
  const RefEl re[3] = {RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()};
  const RefEl r = re[lfs_choice("refel", 3)];
  const int first = lfs_choice("first", 11), second = lfs_choice("second", 11);
  lf::quad::QuadRuleCache c;
  c.Get(r, first);
  exact(c.Get(r, second), second);
}
LFS_CASE(jacobi) {
  const double al[5] = {0, 1, 0, 2, 1}, be[5] = {0, 0, 1, 1, 3};
  const int e = lfs_choice("exponents", 5), n = 1 + lfs_choice("points", 12);
  auto [x, w] = lf::quad::GaussJacobi(n, al[e], be[e]);
  lfs_assert(x.size() == n && w.size() == n, "number of points");
  double lhs = 0, rhs = 0;
  for (int a = 0; a <= 2 * n - 1; a++) {
    const double c = lfs_real("c", -1, 1);
    double s = 0;
    for (int k = 0; k < n; k++) {
      lfs_assert(x(k) > -1 && x(k) < 1 && w(k) > 0, "Gauss points are interior and weights positive");
      s += w(k) * std::pow((1 + x(k)) / 2, a);
    }
    // integral of (1-x)^al (1+x)^be ((1+x)/2)^a over [-1,1] = 2^(al+be+1) B(a+be+1, al+1)
    const double m = std::pow(2.0, al[e] + be[e] + 1) * fact(a + (int)be[e]) * fact((int)al[e]) / fact(a + (int)(be[e] + al[e]) + 1);
    lhs += c * s;
    rhs += c * m;
  }
  lfs_near(lhs, rhs, 1e-11, "Gauss-Jacobi rules integrate weighted polynomials of degree 2n-1 exactly");
}
LFS_CASE(legendre) {
  const int n = 1 + lfs_choice("points", 40);
  auto [x, w] = lf::quad::GaussLegendre(n);
  lfs_assert(x.size() == n && w.size() == n, "number of points");
  Eigen::MatrixXd p = x.transpose();
  exact(QuadRule(RefEl::kSegment(), p, w, 2 * n - 1), 2 * n - 1);
}
