// Lagrangian finite elements.
// units: core fem
// bound: all Lagrangian elements of order 1 to 3 on segment, triangle and quadrilateral, and the point element; any 1 to 3 points of the reference element, arbitrary coefficients
// outside: other scalar types than double
#include "fe.h"
using namespace harness;
template <class F> static void cell(int degree, lf::base::RefEl re) {
  F fe;
  checkElement(fe, re, degree, true);
  // the shape functions are polynomials of the degree: differences of order degree+1 vanish
  Mat x = refPoint(re);
  const int dim = re.Dimension();
  const bool total = re == lf::base::RefEl::kTria();
  double d[2] = {0, 0};
  const int dir = lfs_choice("direction", total ? 3 : dim);
  if (dir < 2) d[dir] = 0.25;
  else { d[0] = 0.25; d[1] = -0.5; }
  std::vector<Mat> val;
  for (int k = 0; k <= degree + 1; k++) {
    Mat y = x;
    for (int e = 0; e < dim; e++) y(e, 0) += k * d[e];
    val.push_back(fe.EvalReferenceShapeFunctions(y));
  }
  for (int i = 0; i < val[0].rows(); i++) {
    double s = 0, bin = 1;
    for (int k = 0; k <= degree + 1; k++) { s += bin * val[k](i, 0); bin = -bin * (degree + 1 - k) / (k + 1); }
    lfs_near(s, 0.0, 1e-8, "shape functions are polynomials of the announced degree");
  }
  for (int c = 0; c <= dim; c++) for (U i = 0; i < re.NumSubEntities(c); i++) lfs_assert(fe.NumRefShapeFunctions(c) == fe.NumRefShapeFunctions(c, i), "number of shape functions per codimension");
}
template <class F, class S> static void trace() {
  F fe;
  S se;
  checkTrace(fe, [&](int) -> const Fe* { return &se; }, [](int) { return 1; });
}
using namespace lf::uscalfe;
LFS_CASE(seg1) { cell<FeLagrangeO1Segment<double>>(1, lf::base::RefEl::kSegment()); }
LFS_CASE(seg2) { cell<FeLagrangeO2Segment<double>>(2, lf::base::RefEl::kSegment()); }
LFS_CASE(seg3) { cell<FeLagrangeO3Segment<double>>(3, lf::base::RefEl::kSegment()); }
LFS_CASE(tria1) { cell<FeLagrangeO1Tria<double>>(1, lf::base::RefEl::kTria()); }
LFS_CASE(tria2) { cell<FeLagrangeO2Tria<double>>(2, lf::base::RefEl::kTria()); }
LFS_CASE(tria3) { cell<FeLagrangeO3Tria<double>>(3, lf::base::RefEl::kTria()); }
LFS_CASE(quad1) { cell<FeLagrangeO1Quad<double>>(1, lf::base::RefEl::kQuad()); }
LFS_CASE(quad2) { cell<FeLagrangeO2Quad<double>>(2, lf::base::RefEl::kQuad()); }
LFS_CASE(quad3) { cell<FeLagrangeO3Quad<double>>(3, lf::base::RefEl::kQuad()); }
LFS_CASE(trace_tria1) { trace<FeLagrangeO1Tria<double>, FeLagrangeO1Segment<double>>(); }
LFS_CASE(trace_tria2) { trace<FeLagrangeO2Tria<double>, FeLagrangeO2Segment<double>>(); }
LFS_CASE(trace_tria3) { trace<FeLagrangeO3Tria<double>, FeLagrangeO3Segment<double>>(); }
LFS_CASE(trace_quad1) { trace<FeLagrangeO1Quad<double>, FeLagrangeO1Segment<double>>(); }
LFS_CASE(trace_quad2) { trace<FeLagrangeO2Quad<double>, FeLagrangeO2Segment<double>>(); }
LFS_CASE(trace_quad3) { trace<FeLagrangeO3Quad<double>, FeLagrangeO3Segment<double>>(); }
// at the ends of a segment exactly the shape function of that end point is one
template <class S> static void ends() {
  S se;
  Mat v = se.EvalReferenceShapeFunctions(lf::base::RefEl::kSegment().NodeCoords());
  for (int j = 0; j < 2; j++) for (int i = 0; i < v.rows(); i++) lfs_near(v(i, j), i == j ? 1 : 0, 1e-9, "at a vertex the shape functions coincide with that of the vertex");
}
LFS_CASE(seg_ends) { ends<FeLagrangeO1Segment<double>>(); ends<FeLagrangeO2Segment<double>>(); ends<FeLagrangeO3Segment<double>>(); }
LFS_CASE(point) {
  const int degree = 1 + lfs_choice("degree", 3);
  lf::fe::FePoint<double> fe(degree);
  checkElement(fe, lf::base::RefEl::kPoint(), degree, true);
}
// elements with values stored at quadrature points
template <class F> static void precomputed(lf::base::RefEl re) {
  F fe;
  auto qr = lf::quad::make_QuadRule(re, 1 + lfs_choice("qdegree", 6));
  PrecomputedScalarReferenceFiniteElement<double> p(&fe, qr);
  lfs_assert(p.isInitialized() && p.RefEl() == re && p.Degree() == fe.Degree() && p.NumRefShapeFunctions() == fe.NumRefShapeFunctions() && p.NumEvaluationNodes() == fe.NumEvaluationNodes(), "a precomputed element agrees with the original");
  for (U c = 0; c <= re.Dimension(); c++) for (U i = 0; i < re.NumSubEntities(c); i++) lfs_assert(p.NumRefShapeFunctions(c, i) == fe.NumRefShapeFunctions(c, i) && p.NumRefShapeFunctions(c) == fe.NumRefShapeFunctions(c), "a precomputed element agrees with the original");
  Mat x = refPoint(re);
  auto same = [](const Mat& a, const Mat& b, const char* m) {
    lfs_assert(a.rows() == b.rows() && a.cols() == b.cols(), m);
    for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) lfs_near(a(i, j), b(i, j), 1e-9, m);
  };
  same(p.EvalReferenceShapeFunctions(x), fe.EvalReferenceShapeFunctions(x), "a precomputed element agrees with the original");
  same(p.GradientsReferenceShapeFunctions(x), fe.GradientsReferenceShapeFunctions(x), "a precomputed element agrees with the original");
  same(p.EvaluationNodes(), fe.EvaluationNodes(), "a precomputed element agrees with the original");
  same(p.PrecompReferenceShapeFunctions(), fe.EvalReferenceShapeFunctions(qr.Points()), "precomputed values are those at the quadrature points");
  same(p.PrecompGradientsReferenceShapeFunctions(), fe.GradientsReferenceShapeFunctions(qr.Points()), "precomputed gradients are those at the quadrature points");
  same(p.Qr().Points(), qr.Points(), "quadrature rule of a precomputed element");
}
LFS_CASE(precomputed_tria) { precomputed<FeLagrangeO2Tria<double>>(lf::base::RefEl::kTria()); }
LFS_CASE(precomputed_quad) { precomputed<FeLagrangeO3Quad<double>>(lf::base::RefEl::kQuad()); }
LFS_CASE(precomputed_seg) { precomputed<FeLagrangeO2Segment<double>>(lf::base::RefEl::kSegment()); }
