// Entity geometries agree with the mesh topology.
// units: core
// bound: meshes of 1..4 triangles and quadrilaterals in 2D and 3D space with every choice of first vertices (and of directions for two cells), first- and second-order cells, any subset of cells with explicit geometry, one explicit straight or curved edge in either direction (or without geometry); node positions arbitrary in boxes of half-width 0.05 (second order 0.02); any point of the edges
// outside: larger meshes; nodes without geometry (not constructible through the factory)
#include "meshes.h"
using namespace harness;
// second-order geometry of a cell whose edge midpoints are given per edge
static std::unique_ptr<lf::geometry::Geometry> curved(const Mat& pts, const std::vector<U>& c, std::map<Edge, Eigen::VectorXd>& mid) {
  const int k = c.size();
  Mat m(pts.rows(), 2 * k);
  for (int j = 0; j < k; j++) { m.col(j) = pts.col(c[j]); m.col(k + j) = mid[sorted(c[j], c[(j + 1) % k])]; }
  if (k == 3) return std::make_unique<lf::geometry::TriaO2>(m);
  return std::make_unique<lf::geometry::QuadO2>(m);
}
static std::map<Edge, Eigen::VectorXd> midpoints(const Topo& t, const Mat& pts, double r) {
  std::map<Edge, Eigen::VectorXd> mid;
  int k = 0;
  for (auto& e : edgesOf(t.cells)) {
    Eigen::VectorXd v(pts.rows());
    for (int d = 0; d < pts.rows(); d++) v(d) = (pts(d, e.first) + pts(d, e.second)) * 0.5 + (k % 2 ? 0.03 : -0.02) + lfs_real("mid", -r, r);
    mid[e] = v;
    k++;
  }
  return mid;
}
static void straightMesh(int id, int wd, bool flip, int maxVary) {
  Topo t = baseTopo(id);
  varyCells(t, flip, maxVary);
  Mat pts = points(t, wd, 0.05);
  lf::mesh::hybrid2d::MeshFactory f(wd, false);
  addPoints(f, pts);
  for (auto& c : t.cells) addCell(f, c, lfs_choice("cgeo", 2) ? straight(pts, c) : nullptr);
  auto m = f.Build();
  lfs_assert((int)m->DimWorld() == wd, "dimension of the surrounding space");
  checkTopology(*m, pts.cols(), t.cells, {}, false);
  checkGeometry(*m, pts, true);
}
LFS_CASE(tri) { straightMesh(T_TRI, 2, true, 9); }
LFS_CASE(quad) { straightMesh(T_QUAD, 2, true, 9); }
LFS_CASE(tritri) { straightMesh(T_TRITRI, 2, true, 9); }
LFS_CASE(triquad) { straightMesh(T_TRIQUAD, 2, true, 9); }
LFS_CASE(quadquad) { straightMesh(T_QUADQUAD, 2, false, 9); }
LFS_CASE(fan) { straightMesh(T_FAN, 2, false, 9); }
LFS_CASE(tritri_3d) { straightMesh(T_TRITRI, 3, false, 9); }
LFS_CASE(triquad_3d) { straightMesh(T_TRIQUAD, 3, false, 9); }
LFS_CASE_THOROUGH(mixed) { straightMesh(T_MIXED, 2, false, 3); }
// second-order cells that agree on the common curves: whichever cell an edge inherits from, both see the same curve
static void curvedMesh(int id, int wd, bool flip, bool allCurved) {
  Topo t = baseTopo(id);
  varyCells(t, flip);
  Mat pts = points(t, wd, 0.02);
  auto mid = midpoints(t, pts, 0.01);
  lf::mesh::hybrid2d::MeshFactory f(wd, true);
  addPoints(f, pts);
  for (auto& c : t.cells) addCell(f, c, curved(pts, c, mid));
  auto m = f.Build();
  checkTopology(*m, pts.cols(), t.cells, {}, false);
  checkGeometry(*m, pts, true);
}
LFS_CASE(curved_tri) { curvedMesh(T_TRI, 2, true, true); }
LFS_CASE(curved_tritri) { curvedMesh(T_TRITRI, 2, true, true); }
LFS_CASE(curved_triquad) { curvedMesh(T_TRIQUAD, 2, false, true); }
LFS_CASE(curved_fan) { curvedMesh(T_FAN, 2, false, true); }
LFS_CASE(curved_tritri_3d) { curvedMesh(T_TRITRI, 3, false, true); }
// an explicit edge keeps its geometry; without one it inherits it from an adjacent cell that has one
static void explicitEdge(int id, bool flip) {
  Topo t = baseTopo(id);
  varyCells(t, flip);
  Mat pts = points(t, 2, 0.03);
  std::vector<Edge> all;
  for (auto& e : edgesOf(t.cells)) all.push_back(e);
  Edge e = all[lfs_choice("edge", (int)all.size())];
  if (lfs_choice("dir", 2)) std::swap(e.first, e.second);
  int kind = lfs_choice("kind", 3);  // 0: no geometry, 1: straight, 2: curved
  auto mid = midpoints(t, pts, 0.02);
  lf::mesh::hybrid2d::MeshFactory f(2, true);
  addPoints(f, pts);
  std::vector<U> nd{e.first, e.second};
  std::unique_ptr<lf::geometry::Geometry> g;
  Mat m3(2, 3);
  m3.col(0) = pts.col(e.first); m3.col(1) = pts.col(e.second); m3.col(2) = mid[sorted(e.first, e.second)];
  if (kind == 1) g = straight(pts, nd);
  if (kind == 2) g = std::make_unique<lf::geometry::SegmentO2>(m3);
  const lf::geometry::Geometry* gp = g.get();
  f.AddEntity(lf::base::RefEl::kSegment(), std::span<const U>(nd.data(), 2), std::move(g));
  for (auto& c : t.cells) addCell(f, c, kind == 0 ? curved(pts, c, mid) : nullptr);
  auto m = f.Build();
  checkTopology(*m, pts.cols(), t.cells, {e}, kind > 0);
  checkGeometry(*m, pts, kind == 0);
  const lf::mesh::Entity* me = m->EntityByIndex(1, 0);
  double s = lfs_real("s", 0, 1);
  Mat a(1, 1);
  a(0, 0) = s;
  Mat v = me->Geometry()->Global(a);
  bool rev = m->Index(*me->SubEntities(1)[0]) != e.first;
  double x = rev ? 1 - s : s;
  for (int d = 0; d < 2; d++) {
    double w = kind == 1 ? m3(d, 0) * (1 - x) + m3(d, 1) * x : m3(d, 0) * (1 - x) * (1 - 2 * x) + m3(d, 1) * x * (2 * x - 1) + m3(d, 2) * 4 * x * (1 - x);
    lfs_near(v(d, 0), w, 1e-9, kind ? "an explicit edge keeps its supplied geometry" : "an edge without geometry inherits the curve of an adjacent cell");
  }
}
LFS_CASE(edge_tri) { explicitEdge(T_TRI, true); }
LFS_CASE(edge_tritri) { explicitEdge(T_TRITRI, false); }
LFS_CASE(edge_triquad) { explicitEdge(T_TRIQUAD, false); }
// only one of two adjacent cells has a (curved) geometry: the common edge inherits it, the other edges are straight
static void oneGeometry(int id, bool flip) {
  Topo t = baseTopo(id);
  varyCells(t, flip);
  Mat pts = points(t, 2, 0.03);
  auto mid = midpoints(t, pts, 0.02);
  const int which = lfs_choice("which", (int)t.cells.size());
  lf::mesh::hybrid2d::MeshFactory f(2, true);
  addPoints(f, pts);
  for (int i = 0; i < (int)t.cells.size(); i++) addCell(f, t.cells[i], i == which ? curved(pts, t.cells[i], mid) : nullptr);
  auto m = f.Build();
  checkTopology(*m, pts.cols(), t.cells, {}, false);
  checkGeometry(*m, pts, false);
  std::set<Edge> curvedEdges = edgesOf({t.cells[which]});
  for (auto* e : m->Entities(1)) {
    U n0 = m->Index(*e->SubEntities(1)[0]), n1 = m->Index(*e->SubEntities(1)[1]);
    double x = lfs_real("s", 0, 1);
    Mat a(1, 1);
    a(0, 0) = x;
    Mat v = e->Geometry()->Global(a);
    bool cv = curvedEdges.count(sorted(n0, n1));
    Eigen::VectorXd md = mid[sorted(n0, n1)];
    for (int d = 0; d < 2; d++) {
      double w = !cv ? pts(d, n0) * (1 - x) + pts(d, n1) * x : pts(d, n0) * (1 - x) * (1 - 2 * x) + pts(d, n1) * x * (2 * x - 1) + md(d) * 4 * x * (1 - x);
      lfs_near(v(d, 0), w, 1e-9, "an edge without own geometry inherits it from the adjacent cell that has one, else it is straight");
    }
  }
}
LFS_CASE(one_tritri) { oneGeometry(T_TRITRI, true); }
LFS_CASE(one_triquad) { oneGeometry(T_TRIQUAD, false); }
