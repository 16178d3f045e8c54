// Small meshes for the harnesses: topology families and an independent description of what a mesh must look like.
#pragma once
#include <lfs.h>
#include <lf/mesh/hybrid2d/hybrid2d.h>
#include <lf/mesh/mesh.h>
#include <lf/geometry/geometry.h>
#include <algorithm>
#include <array>
#include <map>
#include <memory>
#include <set>
#include <vector>
namespace harness {
using Mat = Eigen::MatrixXd;
typedef unsigned U;
struct Topo {
  std::vector<std::array<double, 2>> p;
  std::vector<std::vector<U>> cells;
};
enum { T_TRI, T_QUAD, T_TRITRI, T_TRIQUAD, T_QUADQUAD, T_FAN, T_MIXED, T_NUM };
inline Topo baseTopo(int id) {
  switch (id) {
    case T_TRI: return {{{0, 0.1}, {1, 0.4}, {0.4, 1.7}}, {{0, 1, 2}}};
    case T_QUAD: return {{{0, 0}, {1, 0.3}, {1.5, 2}, {0.4, 1.6}}, {{0, 1, 2, 3}}};
    case T_TRITRI: return {{{0, 0.1}, {1, 0.4}, {0.4, 1.7}, {1.6, 1.9}}, {{0, 1, 2}, {2, 1, 3}}};
    case T_TRIQUAD: return {{{0, 0}, {1, 0.3}, {1.5, 2}, {0.4, 1.6}, {2.3, 0.9}}, {{0, 1, 2, 3}, {1, 4, 2}}};
    case T_QUADQUAD: return {{{0, 0}, {1, 0.3}, {1.5, 2}, {0.4, 1.6}, {2.3, 0.1}, {2.7, 1.9}}, {{0, 1, 2, 3}, {1, 4, 5, 2}}};
    case T_FAN: return {{{0, 0.1}, {2, 0.4}, {0.4, 1.7}, {0.75, 0.7}}, {{0, 1, 3}, {1, 2, 3}, {2, 0, 3}}};  // closed fan around node 3
    default: return {{{0, 0}, {1, 0.1}, {2.1, 0.2}, {0.1, 1}, {1.2, 1.1}, {2.2, 1.3}, {1, 2.1}}, {{0, 1, 4, 3}, {1, 2, 4}, {2, 5, 4}, {3, 4, 6}}};
  }
}
inline void rotateCell(std::vector<U>& c, int r) { std::rotate(c.begin(), c.begin() + r, c.end()); }
// start the vertices of every cell anywhere; optionally reverse them too
inline void varyCells(Topo& t, bool flip, int maxCells = 99) {
  for (int i = 0; i < (int)t.cells.size() && i < maxCells; i++) {
    rotateCell(t.cells[i], lfs_choice("rot", (int)t.cells[i].size()));
    if (flip && lfs_choice("flip", 2)) std::reverse(t.cells[i].begin(), t.cells[i].end());
  }
}
// renumber the nodes by i -> (s*i + d) mod n
inline void renumber(Topo& t, int d, bool rev) {
  const int n = t.p.size();
  auto f = [&](int i) { int k = (i + d) % n; return rev ? n - 1 - k : k; };
  std::vector<std::array<double, 2>> q(n);
  for (int i = 0; i < n; i++) q[f(i)] = t.p[i];
  t.p = q;
  for (auto& c : t.cells) for (U& v : c) v = f(v);
}
typedef std::pair<U, U> Edge;
inline Edge sorted(U a, U b) { return a < b ? Edge(a, b) : Edge(b, a); }
inline std::set<Edge> edgesOf(const std::vector<std::vector<U>>& cells) {
  std::set<Edge> s;
  for (auto& c : cells) for (size_t j = 0; j < c.size(); j++) s.insert(sorted(c[j], c[(j + 1) % c.size()]));
  return s;
}
inline lf::base::RefEl cellType(size_t n) { return n == 3 ? lf::base::RefEl::kTria() : lf::base::RefEl::kQuad(); }
inline Mat corners(const Mat& pts, const std::vector<U>& nodes) {
  Mat m(pts.rows(), nodes.size());
  for (size_t j = 0; j < nodes.size(); j++) m.col(j) = pts.col(nodes[j]);
  return m;
}
inline std::unique_ptr<lf::geometry::Geometry> straight(const Mat& pts, const std::vector<U>& nodes) {
  Mat m = corners(pts, nodes);
  if (nodes.size() == 2) return std::make_unique<lf::geometry::SegmentO1>(m);
  if (nodes.size() == 3) return std::make_unique<lf::geometry::TriaO1>(m);
  return std::make_unique<lf::geometry::QuadO1>(m);
}
inline Mat points(const Topo& t, int wd, double r) {
  Mat m(wd, t.p.size());
  for (size_t i = 0; i < t.p.size(); i++)
    for (int d = 0; d < wd; d++) {
      double b = d < 2 ? t.p[i][d] : 0.3 * t.p[i][0] - 0.2 * t.p[i][1] + 0.05 * (i % 3);
      m(d, i) = r > 0 ? b + lfs_real("node", -r, r) : b;
    }
  return m;
}
inline void addPoints(lf::mesh::hybrid2d::MeshFactory& f, const Mat& pts) {
  for (int i = 0; i < pts.cols(); i++) lfs_assert(f.AddPoint(Eigen::VectorXd(pts.col(i))) == (U)i, "index returned for a point");
}
inline void addCell(lf::mesh::hybrid2d::MeshFactory& f, const std::vector<U>& c, std::unique_ptr<lf::geometry::Geometry> g) {
  f.AddEntity(cellType(c.size()), std::span<const U>(c.data(), c.size()), std::move(g));
}
inline std::shared_ptr<lf::mesh::Mesh> simpleMesh(const Topo& t, const Mat& pts, bool withGeometry = false) {
  lf::mesh::hybrid2d::MeshFactory f(pts.rows(), false);
  for (int i = 0; i < pts.cols(); i++) f.AddPoint(Eigen::VectorXd(pts.col(i)));
  for (auto& c : t.cells) addCell(f, c, withGeometry ? straight(pts, c) : nullptr);
  return f.Build();
}
// topology, numbering and queries; fixedEdges: explicitly added edges (index = position), kept: their direction must be kept
inline void checkTopology(const lf::mesh::Mesh& m, U nNodes, const std::vector<std::vector<U>>& cells, const std::vector<Edge>& fixedEdges, bool kept) {
  using lf::mesh::Entity;
  std::set<Edge> es = edgesOf(cells);
  for (auto& e : fixedEdges) es.insert(sorted(e.first, e.second));
  const U n[3] = {(U)cells.size(), (U)es.size(), nNodes};
  lfs_assert(m.DimMesh() == 2, "dimension of the mesh");
  for (U c = 0; c < 3; c++) {
    lfs_assert(m.NumEntities(c) == n[c], "number of entities of each codimension");
    auto ent = m.Entities(c);
    lfs_assert(ent.size() == n[c], "number of entities enumerated");
    for (U i = 0; i < n[c]; i++) {
      const Entity* e = m.EntityByIndex(c, i);
      lfs_assert(e != nullptr && e == ent[i], "entities are enumerated in the order of their indices");
      lfs_assert(m.Index(*e) == i, "index of an entity looked up by its index");
      lfs_assert(e->Codim() == c, "codimension of an entity");
      lfs_assert(m.Contains(*e), "a mesh contains its entities");
      lfs_assert(e->SubEntities(0).size() == 1 && e->SubEntities(0)[0] == e, "an entity is its own sub-entity of relative codimension 0");
      lfs_assert(*e == *e && (i == 0 || !(*e == *ent[i - 1])), "equality of entities");
    }
  }
  U nt = 0, nq = 0;
  for (auto& c : cells) (c.size() == 3 ? nt : nq)++;
  lfs_assert(m.NumEntities(lf::base::RefEl::kTria()) == nt, "number of triangles");
  lfs_assert(m.NumEntities(lf::base::RefEl::kQuad()) == nq, "number of quadrilaterals");
  lfs_assert(m.NumEntities(lf::base::RefEl::kSegment()) == n[1], "number of segments");
  lfs_assert(m.NumEntities(lf::base::RefEl::kPoint()) == n[2], "number of points");
  std::map<Edge, U> seen;
  for (U i = 0; i < n[1]; i++) {
    const Entity* e = m.EntityByIndex(1, i);
    lfs_assert(e->RefEl() == lf::base::RefEl::kSegment(), "type of an edge");
    auto nd = e->SubEntities(1);
    lfs_assert(nd.size() == 2 && nd[0] != nd[1], "an edge has two distinct end points");
    U a = m.Index(*nd[0]), b = m.Index(*nd[1]);
    lfs_assert(es.count(sorted(a, b)), "an edge of the mesh belongs to a cell or was added explicitly");
    lfs_assert(seen.emplace(sorted(a, b), i).second, "every edge occurs once");
    if (i < fixedEdges.size()) {
      lfs_assert(sorted(a, b) == sorted(fixedEdges[i].first, fixedEdges[i].second), "explicitly added edges keep the order in which they were added");
      if (kept) lfs_assert(a == fixedEdges[i].first, "an edge with explicit geometry keeps its node order");
    }
  }
  for (U i = 0; i < n[0]; i++) {
    const Entity* e = m.EntityByIndex(0, i);
    const std::vector<U>& c = cells[i];
    const U k = c.size();
    lfs_assert(e->RefEl() == cellType(k), "type of a cell");
    auto nd = e->SubEntities(2), ed = e->SubEntities(1);
    auto ori = e->RelativeOrientations();
    lfs_assert(nd.size() == k && ed.size() == k && ori.size() == k, "numbers of sub-entities of a cell");
    for (U j = 0; j < k; j++) {
      lfs_assert(m.Index(*nd[j]) == c[j], "nodes of a cell in the order in which they were given");
      U a = c[j], b = c[(j + 1) % k];
      auto it = seen.find(sorted(a, b));
      lfs_assert(it != seen.end() && m.Index(*ed[j]) == it->second, "edge j of a cell connects its corners j and j+1");
      auto en = ed[j]->SubEntities(1);
      lfs_assert((ori[j] == lf::mesh::Orientation::positive) == (m.Index(*en[0]) == a), "relative orientation of an edge is positive exactly if its direction agrees with that induced by the cell");
    }
  }
  for (U i = 0; i < n[2]; i++) lfs_assert(m.EntityByIndex(2, i)->RefEl() == lf::base::RefEl::kPoint(), "type of a node");
}
// positions: nodes, end points of edges and corners of cells; curves: cell boundaries agree with the edges
inline void checkGeometry(const lf::mesh::Mesh& m, const Mat& pts, bool curves) {
  const int wd = pts.rows();
  auto same = [&](const Mat& a, int i, const Mat& b, int j, const char* msg) { for (int d = 0; d < wd; d++) lfs_near(a(d, i), b(d, j), 1e-9, msg); };
  for (auto* e : m.Entities(2)) {
    Mat g = e->Geometry()->Global(Mat(0, 1));
    lfs_assert(g.rows() == wd && g.cols() == 1, "size of a node position");
    same(g, 0, pts, m.Index(*e), "position of a node");
  }
  for (auto* e : m.Entities(1)) {
    Mat g = e->Geometry()->Global(lf::base::RefEl::kSegment().NodeCoords());
    lfs_assert(g.rows() == wd && g.cols() == 2, "size of the end points of an edge");
    for (int j = 0; j < 2; j++) same(g, j, pts, m.Index(*e->SubEntities(1)[j]), "end points of an edge are the positions of its nodes");
  }
  for (auto* e : m.Entities(0)) {
    Mat g = e->Geometry()->Global(e->RefEl().NodeCoords());
    auto nd = e->SubEntities(2);
    lfs_assert(g.rows() == wd && g.cols() == (int)nd.size(), "size of the corners of a cell");
    for (size_t j = 0; j < nd.size(); j++) same(g, j, pts, m.Index(*nd[j]), "corners of a cell are the positions of its nodes");
    if (!curves) continue;
    auto ori = e->RelativeOrientations();
    for (size_t j = 0; j < nd.size(); j++) {
      double t = lfs_real("t", 0, 1);
      Mat a(1, 1), b(1, 1);
      a(0, 0) = t;
      b(0, 0) = ori[j] == lf::mesh::Orientation::positive ? t : 1 - t;
      same(e->Geometry()->SubGeometry(1, j)->Global(a), 0, e->SubEntities(1)[j]->Geometry()->Global(b), 0, "the boundary of a cell coincides with its edges, run through according to the orientation");
    }
  }
}
}  // namespace harness
