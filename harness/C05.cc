// Child geometries interpolate the parent's mapping on the polygons of the refinement pattern.
// units: geo refpat
// bound: parent nodes: base shape +- 0.1 per coordinate (+- 0.02 second order), both orientations, world dimension 2 (3 in the thorough tier); every pattern and anchor; every codimension; any point of the child
// outside: node coordinates far from the base shapes; lattice constants other than 6
#include "patterns.h"
using namespace harness;
static void run(Kind k, int wd) {
  const int rd = refDim(k), nv = rd == 1 ? 2 : (k == TRI1 || k == TRI2) ? 3 : 4;
  bool mirror = lfs_choice("mirror", 2);
  Mat c = symNodes(k, wd, k == TRI2 || k == QUAD2 || k == SEG2 ? 0.02 : 0.1, mirror);
  auto g = makeGeo(k, c);
  Mat nodes = nodesOf(k, c);
  const bool o2 = k == SEG2 || k == TRI2 || k == QUAD2;
  auto pats = patternsOf(nv);
  Pat pt = pats[lfs_choice("pattern", (int)pats.size())];
  auto rp = makePattern(nv, pt);
  int codim = lfs_choice("codim", rd + 1);
  auto ch = g->ChildGeometry(rp, codim);
  auto poly = rp.ChildPolygons(codim);
  lfs_assert(ch.size() == rp.NumChildren(codim), "number of child geometries");
  lfs_assert(ch.size() == poly.size(), "one polygon per child");
  const double h = 1.0 / rp.LatticeConst();
  for (int q = 0; q < (int)ch.size(); q++) {
    lfs_assert(ch[q] != nullptr, "child geometry exists");
    const int cn = poly[q].cols();
    lfs_assert(ch[q]->DimGlobal() == wd && ch[q]->DimLocal() == rd - codim, "dimensions of the child geometry");
    lfs_assert(ch[q]->RefEl().NumNodes() == cn, "reference element of the child geometry");
    Kind ck = cn == 2 ? (o2 ? SEG2 : SEG1) : cn == 3 ? (o2 ? TRI2 : TRI1) : (o2 ? QUAD2 : QUAD1);
    const int nn = cn == 1 ? 1 : numNodes(ck);
    // positions of the child's nodes in the parent's reference element
    std::vector<double> X(nn), Y(nn, 0.0);
    for (int i = 0; i < cn; i++) { X[i] = h * poly[q](0, i); if (rd == 2) Y[i] = h * poly[q](1, i); }
    if (o2 && cn > 1) for (int i = cn; i < nn; i++) { int a = i - cn, b = (a + 1) % cn; X[i] = 0.5 * (X[a] + X[b]); Y[i] = 0.5 * (Y[a] + Y[b]); }
    Mat cnodes(wd, nn);
    for (int i = 0; i < nn; i++) for (int d = 0; d < wd; d++) cnodes(d, i) = refMap(k, nodes, d, X[i], Y[i], -1);
    if (cn == 1) {
      Mat G = ch[q]->Global(Mat(0, 1));
      for (int d = 0; d < wd; d++) lfs_near(G(d, 0), cnodes(d, 0), 1e-9, "child point lies at the pattern's lattice point");
      continue;
    }
    Mat l = symLocal(ck, 1, true);
    Mat G = ch[q]->Global(l);
    for (int d = 0; d < wd; d++)
      lfs_near(G(d, 0), refMap(ck, cnodes, d, l(0, 0), cn > 2 ? l(1, 0) : 0.0, -1), 1e-9, "child geometry interpolates the parent mapping on its lattice polygon");
  }
}
LFS_CASE(seg1) { run(SEG1, 2); }
LFS_CASE(seg2) { run(SEG2, 2); }
LFS_CASE(tria1) { run(TRI1, 2); }
LFS_CASE(tria2) { run(TRI2, 2); }
LFS_CASE(quad1) { run(QUAD1, 2); }
LFS_CASE(quad2) { run(QUAD2, 2); }
LFS_CASE(para) { run(PARA, 2); }
LFS_CASE(seg1_1d) { run(SEG1, 1); }
LFS_CASE(tria1_3d) { run(TRI1, 3); }
LFS_CASE_THOROUGH(seg1_3d) { run(SEG1, 3); }
LFS_CASE_THOROUGH(seg2_3d) { run(SEG2, 3); }
LFS_CASE_THOROUGH(tria2_3d) { run(TRI2, 3); }
LFS_CASE_THOROUGH(quad1_3d) { run(QUAD1, 3); }
LFS_CASE_THOROUGH(quad2_3d) { run(QUAD2, 3); }
LFS_CASE_THOROUGH(para_3d) { run(PARA, 3); }
LFS_CASE(point) {
  Eigen::VectorXd c(2);
  c(0) = lfs_real("x", -3, 3); c(1) = lfs_real("y", -3, 3);
  lf::geometry::Point p(c);
  lf::refinement::Hybrid2DRefinementPattern rp(lf::base::RefEl::kPoint(), lf::refinement::rp_copy);
  auto ch = p.ChildGeometry(rp, 0);
  lfs_assert(ch.size() == 1 && rp.NumChildren(0) == 1, "a point has one copy");
  Mat G = ch[0]->Global(Mat(0, 1));
  for (int d = 0; d < 2; d++) lfs_near(G(d, 0), c(d), 0, "copied point");
}
