// Sub-entity geometries are restrictions of the parent mapping.
// units: geo
// bound: node coordinates: base shape +- 0.15 per coordinate (+- 0.02 for second-order elements), both orientations, world dimension 1..3; any point of the sub-entity
// outside: node coordinates far from the base shapes
#include "patterns.h"
using namespace harness;
static void run(Kind k, int wd) {
  bool mirror = lfs_choice("mirror", 2);
  Mat c = symNodes(k, wd, k == TRI2 || k == QUAD2 || k == SEG2 ? 0.02 : 0.15, mirror);
  auto g = makeGeo(k, c);
  Mat nodes = nodesOf(k, c);
  const int rd = refDim(k), nv = rd == 1 ? 2 : (k == TRI1 || k == TRI2) ? 3 : 4;
  Mat rc = refCorners(nv);
  const bool o2 = k == SEG2 || k == TRI2 || k == QUAD2;
  int codim = lfs_choice("codim", rd + 1);
  int i = codim == 0 ? 0 : codim == rd ? lfs_choice("corner", nv) : lfs_choice("edge", nv);
  auto s = g->SubGeometry(codim, i);
  lfs_assert(s != nullptr, "SubGeometry returned an object");
  lfs_assert(s->DimLocal() == rd - codim && s->DimGlobal() == wd, "dimensions of the sub-geometry");
  lfs_assert(s->RefEl() == g->RefEl().SubType(codim, i), "reference element of the sub-geometry");
  if (codim == rd) {
    Mat G = s->Global(Mat(0, 1));
    for (int d = 0; d < wd; d++) lfs_near(G(d, 0), nodes(d, i), 1e-9, "vertex geometry is at the node");
    return;
  }
  Kind sk = codim == 0 ? k : o2 ? SEG2 : SEG1;
  Mat l = symLocal(sk, 2, true);
  Mat G = s->Global(l), J = s->Jacobian(l);
  lfs_assert(G.rows() == wd && G.cols() == 2, "Global size");
  for (int p = 0; p < 2; p++) {
    double x, y, dx = 0, dy = 0;
    if (codim == 0) { x = l(0, p); y = rd == 2 ? l(1, p) : 0.0; }
    else {
      int a = i, b = (i + 1) % nv;
      dx = rc(0, b) - rc(0, a); dy = rc(1, b) - rc(1, a);
      x = rc(0, a) + l(0, p) * dx; y = rc(1, a) + l(0, p) * dy;
    }
    for (int d = 0; d < wd; d++) {
      lfs_near(G(d, p), refMap(k, nodes, d, x, y, -1), 1e-9, "sub-geometry is the parent mapping restricted to the sub-entity");
      if (codim == 1) lfs_near(J(d, p), dx * refMap(k, nodes, d, x, y, 0) + dy * refMap(k, nodes, d, x, y, 1), 1e-9, "tangent of the edge");
    }
  }
}
LFS_CASE(seg1_1d) { run(SEG1, 1); }
LFS_CASE(seg1_2d) { run(SEG1, 2); }
LFS_CASE(seg1_3d) { run(SEG1, 3); }
LFS_CASE(seg2_1d) { run(SEG2, 1); }
LFS_CASE(seg2_2d) { run(SEG2, 2); }
LFS_CASE(seg2_3d) { run(SEG2, 3); }
LFS_CASE(tria1_2d) { run(TRI1, 2); }
LFS_CASE(tria1_3d) { run(TRI1, 3); }
LFS_CASE(tria2_2d) { run(TRI2, 2); }
LFS_CASE(tria2_3d) { run(TRI2, 3); }
LFS_CASE(quad1_2d) { run(QUAD1, 2); }
LFS_CASE(quad1_3d) { run(QUAD1, 3); }
LFS_CASE(quad2_2d) { run(QUAD2, 2); }
LFS_CASE(quad2_3d) { run(QUAD2, 3); }
LFS_CASE(para_2d) { run(PARA, 2); }
LFS_CASE(para_3d) { run(PARA, 3); }
LFS_CASE(point) {
  Eigen::VectorXd c(2);
  c(0) = lfs_real("x", -3, 3); c(1) = lfs_real("y", -3, 3);
  lf::geometry::Point p(c);
  auto s = p.SubGeometry(0, 0);
  Mat G = s->Global(Mat(0, 1));
  for (int d = 0; d < 2; d++) lfs_near(G(d, 0), c(d), 0, "point");
}
