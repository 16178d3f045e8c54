// Hierarchic finite elements and the underlying polynomials.
// units: core fem
// bound: degrees 1 to 4 (polynomials: up to 8, triangle interior up to 5), every combination of edge degrees and edge orientations from these; any 1 or 2 points of the reference element, arbitrary coefficients
// outside: higher degrees, edge degree 0, other scalar types than double
#include "fe.h"
using namespace harness;
using O = lf::mesh::Orientation;
static const lf::quad::QuadRuleCache& cache() { static lf::quad::QuadRuleCache c; return c; }
// Legendre polynomials on [0,t], scaled: P_n(x;t) = t^n P_n(x/t)
LFS_CASE(legendre) {
  const U n = lfs_choice("n", 9);
  const double x = lfs_real("x", 0, 1), t = lfs_real("t", 0, 1);
  auto pw = [](double b, int e) { double r = 1; while (e--) r *= b; return r; };
  auto binom = [](int n, int k) { double r = 1; for (int i = 1; i <= k; i++) r = r * (n - k + i) / i; return r; };
  double want = 0, iwant = 0;
  for (U k = 0; k <= n; k++) {
    double c = ((n + k) % 2 ? -1 : 1) * binom(n, k) * binom(n + k, k);
    want += c * pw(x, k) * pw(t, n - k);
    iwant += c * pw(x, k + 1) / (k + 1) * pw(t, n - k);
  }
  lfs_near(lf::fe::Legendre(n, x, t), want, 1e-8, "scaled Legendre polynomial");
  lfs_near(lf::fe::ILegendre(n + 1, x, t), iwant, 1e-8, "integrated scaled Legendre polynomial");
  lfs_near(lf::fe::ILegendreDx(n + 1, x, t), want, 1e-8, "derivative of the integrated Legendre polynomial");
  lfs_near(lf::fe::Legendre(n, x), lf::fe::Legendre(n, x, 1), 1e-9, "default scaling");
  if (n >= 1) {
    lfs_near(lf::fe::ILegendre(n + 1, 0, t), 0, 1e-9, "integrated Legendre polynomials vanish at the end points");
    lfs_near(lf::fe::ILegendre(n + 1, t, t), 0, 1e-9, "integrated Legendre polynomials vanish at the end points");
  }
  lfs_near(lf::fe::ILegendreDt(n + 1, x, t), diff([&](double h) { return lf::fe::ILegendre(n + 1, x, t + h); }, n + 1), 1e-6, "derivative of the integrated Legendre polynomial with respect to the scaling");
}
LFS_CASE(legendre_dx) {
  const U n = lfs_choice("n", 9);
  const double x = lfs_real("x", 0, 1);
  lfs_near(lf::fe::LegendreDx(n, x), diff([&](double h) { return lf::fe::Legendre(n, x + h); }, n), 1e-6, "derivative of the Legendre polynomial");
}
LFS_CASE(jacobi) {
  const U n = lfs_choice("n", 7);
  const int alpha = lfs_choice("alpha", lfs_thorough() ? 13 : 9);
  const double x = lfs_real("x", 0, 1);
  auto binom = [](int n, int k) { double r = 1; for (int i = 1; i <= k; i++) r = r * (n - k + i) / i; return r; };
  // P_n^(a,b)(2x-1) = sum_s C(n+a,n-s) C(n+b,s) (x-1)^s x^(n-s)
  auto jac = [&](int m, int a, int b, double y) {
    double s = 0;
    for (int k = 0; k <= m; k++) {
      double p = 1;
      for (int i = 0; i < k; i++) p *= y - 1;
      for (int i = 0; i < m - k; i++) p *= y;
      s += binom(m + a, m - k) * binom(m + b, k) * p;
    }
    return s;
  };
  lfs_near(lf::fe::Jacobi(n, alpha, x), jac(n, alpha, 0, x), 1e-6, "Jacobi polynomial");
  lfs_near(lf::fe::Jacobi(n, alpha + 1, 1, x), jac(n, alpha + 1, 1, x), 1e-6, "Jacobi polynomial");
  lfs_near(lf::fe::JacobiDx(n, alpha, x), diff([&](double h) { return jac(n, alpha, 0, x + h); }, n), 1e-5, "derivative of the Jacobi polynomial");
  if (alpha > 0 || n != 1) {
    lfs_near(lf::fe::IJacobi(n + 1, alpha, 0), 0, 1e-8, "integrated Jacobi polynomials vanish at zero");
    lfs_near(diff([&](double h) { return lf::fe::IJacobi(n + 1, alpha, x + h); }, n + 1), jac(n, alpha, 0, x), 1e-5, "the integrated Jacobi polynomial has the Jacobi polynomial as derivative");
  }
  lfs_near(lf::fe::IJacobiDx(n + 1, alpha, x), jac(n, alpha, 0, x), 1e-6, "derivative of the integrated Jacobi polynomial");
}
LFS_CASE(segment) {
  const int p = 1 + lfs_choice("degree", lfs_thorough() ? 8 : 6);
  lf::fe::FeHierarchicSegment<double> fe(p, cache());
  checkElement(fe, lf::base::RefEl::kSegment(), p, false, 2);
  Mat v = fe.EvalReferenceShapeFunctions(lf::base::RefEl::kSegment().NodeCoords());
  for (int j = 0; j < 2; j++) for (int i = 0; i < v.rows(); i++) lfs_near(v(i, j), i == j ? 1 : 0, 1e-9, "at a vertex only the shape function of that vertex does not vanish");
}
template <int K> struct Cell {
  std::array<U, K> deg;
  std::vector<O> orient;
  U interior;
  int maxDegree;
  std::unique_ptr<Fe> fe;
};
template <int K> static Cell<K> cell(int nedge, int firstEdge, int interiorMin, int interiorMax, bool sameOrient = false) {
  Cell<K> c;
  for (int i = 0; i < K; i++) c.deg[i] = firstEdge + lfs_choice("edge degree", nedge);
  const int o = sameOrient ? lfs_choice("orientations", K + 1) : lfs_choice("orientations", 1 << K);
  for (int i = 0; i < K; i++) c.orient.push_back((sameOrient ? i == o : (o >> i & 1)) ? O::negative : O::positive);
  c.interior = interiorMin + lfs_choice("interior degree", interiorMax - interiorMin + 1);
  c.maxDegree = c.interior;
  for (int i = 0; i < K; i++) c.maxDegree = std::max(c.maxDegree, (int)c.deg[i]);
  return c;
}
static Cell<3> tria(int nedge, int firstEdge, int lo, int hi) {
  auto c = cell<3>(nedge, firstEdge, lo, hi);
  c.fe = std::make_unique<lf::fe::FeHierarchicTria<double>>(c.interior, c.deg, cache(), c.orient);
  return c;
}
static Cell<4> quad(int nedge, int firstEdge, int lo, int hi) {
  auto c = cell<4>(nedge, firstEdge, lo, hi);
  c.fe = std::make_unique<lf::fe::FeHierarchicQuad<double>>(c.interior, c.deg, cache(), c.orient);
  return c;
}
template <int K> static void traces(const Cell<K>& c) {
  std::vector<lf::fe::FeHierarchicSegment<double>> seg;
  for (int i = 0; i < K; i++) seg.emplace_back(c.deg[i], cache());
  checkTrace(*c.fe, [&](int i) -> const Fe* { return &seg[i]; }, [&](int i) { return c.orient[i] == O::positive ? 1 : -1; });
  const U interior = K == 3 ? (c.interior > 2 ? (c.interior - 1) * (c.interior - 2) / 2 : 0) : (c.interior - 1) * (c.interior - 1);
  lfs_assert(c.fe->NumRefShapeFunctions(0, 0) == interior && c.fe->NumRefShapeFunctions(0) == interior, "number of interior shape functions");
}
LFS_CASE(tria_a) { auto c = tria(2, 1, 1, 3); checkElement(*c.fe, lf::base::RefEl::kTria(), c.maxDegree, false, -1); }
LFS_CASE(tria_b) { auto c = tria(1, 3, 2, 4); checkElement(*c.fe, lf::base::RefEl::kTria(), c.maxDegree, false, -2); }
LFS_CASE(tria_c) { auto c = tria(1, 4, 4, 5); checkElement(*c.fe, lf::base::RefEl::kTria(), c.maxDegree, false, -1); }
LFS_CASE(tria_trace) { traces(tria(4, 1, 3, 3)); }
LFS_CASE(tria_trace5) { traces(tria(1, 4, 1, 5)); }
LFS_CASE(quad_a) { auto c = quad(2, 1, 1, 2); checkElement(*c.fe, lf::base::RefEl::kQuad(), c.maxDegree, false, -1); }
LFS_CASE(quad_b) { auto c = quad(1, 3, 2, 4); checkElement(*c.fe, lf::base::RefEl::kQuad(), c.maxDegree, false, -1); }
LFS_CASE(quad_trace) { traces(quad(2, 2, 3, 3)); }
LFS_CASE(quad_trace4) { traces(quad(1, 4, 1, 4)); }
LFS_CASE_THOROUGH(tria_all) { auto c = tria(3, 1, 1, 4); checkElement(*c.fe, lf::base::RefEl::kTria(), c.maxDegree, false, -1); }
LFS_CASE_THOROUGH(quad_all) { auto c = quad(3, 1, 1, 3); checkElement(*c.fe, lf::base::RefEl::kQuad(), c.maxDegree, false, -1); }
