// Meshes built by the factory: numbering and incidence.
// units: core
// bound: all meshes of one or two cells (triangles with any vertex order, convex quadrilaterals with any first vertex and direction) on 5 nodes with every choice of one explicit edge (either direction, with or without geometry) and, for two cells, optionally none; families of 3 and 4 cells with every choice of first vertices and of two explicit edges; node positions arbitrary in boxes of half-width 0.02
// outside: more cells and nodes, other refinement histories (see C09, C10), 3D surfaces with default geometries beyond one cell pair
#include "meshes.h"
using namespace harness;
static const double P5[5][2] = {{1.0, 0.0}, {0.31, 0.95}, {-0.81, 0.59}, {-0.81, -0.58}, {0.3, -0.95}};  // convex position
static std::vector<U> tri(int v0, const char* n) {
  // any ordered triple of distinct nodes (v0 >= 0: only permutations of 0,1,2)
  int N = v0 >= 0 ? 3 : 5;
  int a = lfs_choice(n, N), b = lfs_choice(n, N - 1), c = lfs_choice(n, N - 2);
  std::vector<U> r(N), o;
  for (int i = 0; i < N; i++) r[i] = i;
  for (int k : {a, b, c}) { o.push_back(r[k]); r.erase(r.begin() + k); }
  return o;
}
static std::vector<U> quad(int v0, const char* n) {
  int miss = v0 >= 0 ? 4 : lfs_choice(n, 5);
  std::vector<U> o;
  for (int i = 0; i < 5; i++) if (i != miss) o.push_back(i);
  rotateCell(o, lfs_choice(n, 4));
  if (lfs_choice(n, 2)) std::reverse(o.begin(), o.end());
  return o;
}
static Mat nodes5() { Mat m(2, 5); for (int i = 0; i < 5; i++) for (int d = 0; d < 2; d++) m(d, i) = P5[i][d] + lfs_real("node", -0.02, 0.02); return m; }
static Mat nodesC() { Mat m(2, 5); for (int i = 0; i < 5; i++) for (int d = 0; d < 2; d++) m(d, i) = P5[i][d]; return m; }
static void build(const Mat& pts, const std::vector<std::vector<U>>& cells, const std::vector<Edge>& ex, bool egeo, bool cgeo, int order, bool complete) {
  lf::mesh::hybrid2d::MeshFactory f(2, complete);
  addPoints(f, pts);
  auto edges = [&] {
    for (size_t i = 0; i < ex.size(); i++) {
      std::vector<U> nd{ex[i].first, ex[i].second};
      lfs_assert(f.AddEntity(lf::base::RefEl::kSegment(), std::span<const U>(nd.data(), 2), egeo ? straight(pts, nd) : nullptr) == i, "index returned for an edge");
    }
  };
  if (order == 0) edges();
  for (size_t i = 0; i < cells.size(); i++)
    lfs_assert(f.AddEntity(cellType(cells[i].size()), std::span<const U>(cells[i].data(), cells[i].size()), cgeo ? straight(pts, cells[i]) : nullptr) == i, "index returned for a cell");
  if (order == 1) edges();
  auto m = f.Build();
  checkTopology(*m, pts.cols(), cells, ex, egeo);
  // the factory is empty again
  Topo t = baseTopo(T_TRI);
  for (int i = 0; i < 3; i++) lfs_assert(f.AddPoint(Eigen::Vector2d(t.p[i][0], t.p[i][1])) == (U)i, "the factory is empty after building");
  std::vector<U> c{2, 0, 1};
  lfs_assert(f.AddEntity(lf::base::RefEl::kTria(), std::span<const U>(c.data(), 3), nullptr) == 0, "the factory is empty after building");
  auto m2 = f.Build();
  checkTopology(*m2, 3, {c}, {}, false);
  for (U k = 0; k < 3; k++)
    for (U i = 0; i < m2->NumEntities(k); i++) lfs_assert(!m->Contains(*m2->EntityByIndex(k, i)), "a mesh does not contain entities of another mesh");
  for (U k = 0; k < 3; k++)
    for (U i = 0; i < m->NumEntities(k); i++) lfs_assert(!m2->Contains(*m->EntityByIndex(k, i)), "a mesh does not contain entities of another mesh");
}
static std::vector<Edge> explicitEdges(int n) {
  std::vector<Edge> r;
  for (int k = 0; k < n; k++) {
    int a = lfs_choice("ea", 5), b = lfs_choice("eb", 4);
    if (b >= a) b++;
    r.push_back(Edge(a, b));
  }
  if (n == 2) lfs_assume(sorted(r[0].first, r[0].second) != sorted(r[1].first, r[1].second));
  return r;
}
LFS_CASE(one_cell) {
  std::vector<std::vector<U>> cells{lfs_choice("quad", 2) ? quad(-1, "q") : tri(-1, "t")};
  auto ex = explicitEdges(1);
  build(nodes5(), cells, ex, lfs_choice("egeo", 2), lfs_choice("cgeo", 2), 0, false);
}
static void two(bool q0, bool q1, bool edge) {
  std::vector<std::vector<U>> cells{q0 ? quad(0, "q0") : tri(0, "t0"), q1 ? quad(-1, "q1") : tri(-1, "t1")};
  std::vector<Edge> ex;
  if (edge) ex = explicitEdges(1);
  build(edge ? nodesC() : nodes5(), cells, ex, true, false, 0, false);
}
LFS_CASE(tri_tri) { two(false, false, false); }
LFS_CASE(tri_quad) { two(false, true, false); }
LFS_CASE(quad_tri) { two(true, false, false); }
LFS_CASE(quad_quad) { two(true, true, false); }
LFS_CASE(tri_tri_edge) { two(false, false, true); }
LFS_CASE_THOROUGH(tri_quad_edge) { two(false, true, true); }
LFS_CASE_THOROUGH(quad_tri_edge) { two(true, false, true); }
LFS_CASE_THOROUGH(quad_quad_edge) { two(true, true, true); }
static void family(int id, bool flip, bool complete, int nEx) {
  Topo t = baseTopo(id);
  varyCells(t, flip);
  renumber(t, lfs_choice("shift", (int)t.p.size()), lfs_choice("reverse", 2));
  std::vector<Edge> all;
  for (auto& e : edgesOf(t.cells)) all.push_back(e);
  std::vector<Edge> ex;
  if (nEx > 0) {
    int a = lfs_choice("e1", (int)all.size());
    ex.push_back(all[a]);
    if (nEx > 1) { int b = lfs_choice("e2", (int)all.size() - 1); ex.push_back(all[b >= a ? b + 1 : b]); }
    if (lfs_choice("edir", 2)) for (auto& e : ex) std::swap(e.first, e.second);
  }
  bool eg = nEx == 0 || lfs_choice("egeo", 2);
  build(points(t, 2, 0.02), t.cells, ex, eg, lfs_choice("cgeo", 2), 1, complete);
}
LFS_CASE(complete_tri) { family(T_TRI, true, true, 2); }
LFS_CASE(complete_triquad) { family(T_TRIQUAD, false, true, 1); }
LFS_CASE(fan) { family(T_FAN, false, true, 0); }
LFS_CASE(mixed) { Topo t = baseTopo(T_MIXED); varyCells(t, false, 2); renumber(t, lfs_choice("shift", 7), lfs_choice("reverse", 2)); build(points(t, 2, 0.02), t.cells, {}, true, false, 0, true); }
LFS_CASE_THOROUGH(fan_edges) { family(T_FAN, false, true, 2); }
LFS_CASE_THOROUGH(quadquad_edges) { family(T_QUADQUAD, false, true, 2); }
