// Metric factors: integration element, inverse Gramian, affine flag, volume.
// units: geo
// bound: node coordinates: base shape +- 0.05 (first order, all nodes), +- 0.02 (second order, all nodes), 8-node quadrilaterals and 3D second-order triangles +- 0.05 in any one node; both orientations, world dimension 1..3; reference points: all of the reference element; 1..2 points per call (quick tier: 1 point for 8-node quadrilaterals and 3D second-order triangles)
// outside: node coordinates far from the base shapes (in particular cells with a vanishing or sign-changing Jacobian); bilinear quadrilaterals in 3D are perturbed by 0.05 in one node only
#include "geo.h"
using namespace harness;
static Mat gram(const Mat& J) { Mat g(J.cols(), J.cols()); for (int a = 0; a < J.cols(); a++) for (int b = 0; b < J.cols(); b++) { double s = 0; for (int d = 0; d < J.rows(); d++) s += J(d, a) * J(d, b); g(a, b) = s; } return g; }
static void check(Kind k, int wd, const Mat& c, int n, bool jig = true) {
  auto g = makeGeo(k, c);
  Mat nodes = nodesOf(k, c);
  const int rd = refDim(k);
  Mat l = symLocal(k, n, true);
  Eigen::VectorXd ie = g->IntegrationElement(l);
  lfs_assert(ie.size() == n, "IntegrationElement size");
  Mat G;
  if (jig) G = g->JacobianInverseGramian(l);
  if (jig) lfs_assert(G.rows() == wd && G.cols() == n * rd, "JacobianInverseGramian size");
  for (int i = 0; i < n; i++) {
    double y = rd == 2 ? l(1, i) : 0.0;
    Mat J(wd, rd);
    for (int d = 0; d < wd; d++) for (int e = 0; e < rd; e++) J(d, e) = refMap(k, nodes, d, l(0, i), y, e);
    Mat A = gram(J);
    double det = rd == 1 ? A(0, 0) : A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0);
    lfs_near(ie(i) * ie(i), det, 1e-9, "integration element squared is the Gram determinant");
    lfs_ge(ie(i), 0, "integration element is non-negative");
    if (!jig) continue;
    for (int d = 0; d < wd; d++)
      for (int e = 0; e < rd; e++) {
        double s = 0;
        for (int f = 0; f < rd; f++) s += G(d, i * rd + f) * A(f, e);
        lfs_near(s, J(d, e), 1e-8, "JacobianInverseGramian times Gramian is the Jacobian");
      }
  }
  if (g->isAffine()) {
    Mat p = symLocal(k, 1, true), q = symLocal(k, 1, true), m = 0.5 * (p + q);
    Mat Jp = g->Jacobian(p), Jq = g->Jacobian(q), Gp = g->Global(p), Gq = g->Global(q), Gm = g->Global(m);
    for (int d = 0; d < wd; d++) {
      for (int e = 0; e < rd; e++) lfs_near(Jp(d, e), Jq(d, e), 1e-9, "an affine geometry has a constant Jacobian");
      lfs_near(Gm(d, 0), 0.5 * (Gp(d, 0) + Gq(d, 0)), 1e-9, "an affine geometry maps midpoints to midpoints");
    }
  }
  // volume
  double v = lf::geometry::Volume(*g);
  if (k == SEG1) {
    double s = 0;
    for (int d = 0; d < wd; d++) s += (nodes(d, 1) - nodes(d, 0)) * (nodes(d, 1) - nodes(d, 0));
    lfs_near(v * v, s, 1e-9, "length of a straight segment");
    lfs_ge(v, 0, "length is positive");
  } else if (k == TRI1 || k == PARA) {
    Mat B(wd, 2);
    for (int d = 0; d < wd; d++) { B(d, 0) = nodes(d, 1) - nodes(d, 0); B(d, 1) = (k == PARA ? nodes(d, 3) : nodes(d, 2)) - nodes(d, 0); }
    Mat A = gram(B);
    lfs_near((k == TRI1 ? 4 : 1) * v * v, A(0, 0) * A(1, 1) - A(0, 1) * A(0, 1), 1e-9, "area of a flat cell");
    lfs_ge(v, 0, "area is positive");
  } else if (k == QUAD1 && wd == 2) {
    double s = 0;
    for (int i = 0; i < 4; i++) s += nodes(0, i) * nodes(1, (i + 1) % 4) - nodes(1, i) * nodes(0, (i + 1) % 4);
    lfs_near(4 * v * v, s * s, 1e-9, "area of a planar quadrilateral");
    lfs_ge(v, 0, "area is positive");
  }
}
static void run(Kind k, int wd) {
  bool mirror = lfs_choice("mirror", 2);
  const bool one = k == QUAD2 || (k == TRI2 && wd == 3);
  Mat c = symNodes(k, wd, one ? 0 : k == TRI2 || k == SEG2 ? 0.02 : 0.05, mirror);
  if (one) {
    int j = lfs_choice("node", numNodes(k));
    for (int d = 0; d < wd; d++) c(d, j) += lfs_real("dx", -0.05, 0.05);
  }
  check(k, wd, c, one && !lfs_thorough() ? 1 : 1 + lfs_choice("npoints", 2));
}
LFS_CASE(seg1_1d) { run(SEG1, 1); }
LFS_CASE(seg1_2d) { run(SEG1, 2); }
LFS_CASE(seg1_3d) { run(SEG1, 3); }
LFS_CASE(seg2_1d) { run(SEG2, 1); }
LFS_CASE(seg2_2d) { run(SEG2, 2); }
LFS_CASE(seg2_3d) { run(SEG2, 3); }
LFS_CASE(tria1_2d) { run(TRI1, 2); }
LFS_CASE(tria1_3d) { run(TRI1, 3); }
LFS_CASE(tria2_2d) { run(TRI2, 2); }
LFS_CASE(tria2_3d) { run(TRI2, 3); }
LFS_CASE(quad1_2d) { run(QUAD1, 2); }
LFS_CASE(quad2_2d) { run(QUAD2, 2); }
LFS_CASE(quad2_3d) { run(QUAD2, 3); }
LFS_CASE(para_2d) { run(PARA, 2); }
LFS_CASE(para_3d) { run(PARA, 3); }
LFS_CASE(quad1_3d) {
  Mat c = symNodes(QUAD1, 3, 0, false);
  int j = lfs_choice("node", 4);
  for (int d = 0; d < 3; d++) c(d, j) += lfs_real("dx", -0.05, 0.05);
  check(QUAD1, 3, c, 1, false);
}
