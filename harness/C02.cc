// Jacobian = derivative of the mapping; mapping = documented polynomial through the nodes.
// units: geo
// bound: node coordinates: base shape +- 0.15 per coordinate (both orientations), world dimension 1..3; reference points: all of [0,1]^d; 1..3 points per call
// outside: node coordinates far from the base shapes; meshes of points in other dimensions
#include "geo.h"
using namespace harness;
static void run(Kind k, int wd) {
  bool mirror = lfs_choice("mirror", 2);
  Mat c = symNodes(k, wd, 0.15, mirror);
  auto g = makeGeo(k, c);
  Mat nodes = nodesOf(k, c);
  int n = 1 + lfs_choice("npoints", 3);
  const int rd = refDim(k);
  lfs_assert(g->DimLocal() == rd, "DimLocal");
  lfs_assert(g->DimGlobal() == wd, "DimGlobal");
  lfs_assert(g->RefEl() == (rd == 1 ? lf::base::RefEl::kSegment() : (k == TRI1 || k == TRI2) ? lf::base::RefEl::kTria() : lf::base::RefEl::kQuad()), "RefEl");
  Mat l = symLocal(k, n);
  Mat G = g->Global(l), J = g->Jacobian(l);
  lfs_assert(G.rows() == wd && G.cols() == n, "Global size");
  lfs_assert(J.rows() == wd && J.cols() == n * rd, "Jacobian size");
  for (int i = 0; i < n; i++)
    for (int d = 0; d < wd; d++) {
      double y = rd == 2 ? l(1, i) : 0.0;
      lfs_near(G(d, i), refMap(k, nodes, d, l(0, i), y, -1), 1e-9, "Global() is the isoparametric mapping of the nodes");
      for (int e = 0; e < rd; e++)
        lfs_near(J(d, i * rd + e), refMap(k, nodes, d, l(0, i), y, e), 1e-9, "Jacobian() is the derivative of Global()");
    }
  // corners and nodes
  Mat G2 = g->Global(g->RefEl().NodeCoords());
  for (int i = 0; i < G2.cols(); i++)
    for (int d = 0; d < wd; d++) lfs_near(G2(d, i), nodes(d, i), 1e-9, "corners are mapped to the first nodes");
  Mat C = lf::geometry::Corners(*g);
  lfs_assert(C.cols() == g->RefEl().NumNodes() && C.rows() == wd, "Corners size");
  for (int i = 0; i < C.cols(); i++)
    for (int d = 0; d < wd; d++) lfs_near(C(d, i), nodes(d, i), 1e-9, "Corners()");
}
LFS_CASE(seg1_1d) { run(SEG1, 1); }
LFS_CASE(seg1_2d) { run(SEG1, 2); }
LFS_CASE(seg1_3d) { run(SEG1, 3); }
LFS_CASE(seg2_1d) { run(SEG2, 1); }
LFS_CASE(seg2_2d) { run(SEG2, 2); }
LFS_CASE(seg2_3d) { run(SEG2, 3); }
LFS_CASE(tria1_2d) { run(TRI1, 2); }
LFS_CASE(tria1_3d) { run(TRI1, 3); }
LFS_CASE(tria2_2d) { run(TRI2, 2); }
LFS_CASE(tria2_3d) { run(TRI2, 3); }
LFS_CASE(quad1_2d) { run(QUAD1, 2); }
LFS_CASE(quad1_3d) { run(QUAD1, 3); }
LFS_CASE(quad2_2d) { run(QUAD2, 2); }
LFS_CASE(quad2_3d) { run(QUAD2, 3); }
LFS_CASE(para_2d) { run(PARA, 2); }
LFS_CASE(para_3d) { run(PARA, 3); }
LFS_CASE(point) {
  int wd = 1 + lfs_choice("dim", 3);
  Eigen::VectorXd c(wd);
  for (int d = 0; d < wd; d++) c(d) = lfs_real("coord", -3, 3);
  lf::geometry::Point p(c);
  lfs_assert(p.DimLocal() == 0 && p.DimGlobal() == wd && p.RefEl() == lf::base::RefEl::kPoint(), "Point dimensions");
  Mat l(0, 1);
  Mat G = p.Global(l);
  lfs_assert(G.rows() == wd && G.cols() == 1, "Point Global size");
  for (int d = 0; d < wd; d++) lfs_near(G(d, 0), c(d), 0, "Point Global");
  Mat J = p.Jacobian(l);
  lfs_assert(J.rows() == wd && J.cols() == 0, "Point Jacobian has no columns");
}
