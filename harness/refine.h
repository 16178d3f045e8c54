// Mesh hierarchies built by arbitrary refinement histories and an independent description of what they must look like.
#pragma once
#include "meshes.h"
#include <lf/refinement/refinement.h>
namespace harness {
using lf::mesh::Entity;
using lf::mesh::Mesh;
using Hier = lf::refinement::MeshHierarchy;
using lf::refinement::RefPat;
const U kNil = lf::refinement::idx_nil;
inline std::shared_ptr<Hier> hierarchy(std::shared_ptr<Mesh> m) { return std::make_shared<Hier>(m, std::make_unique<lf::mesh::hybrid2d::MeshFactory>(m->DimWorld(), false)); }
inline std::vector<std::vector<U>> cellsOf(const Mesh& m) {
  std::vector<std::vector<U>> r;
  for (auto* e : m.Entities(0)) {
    std::vector<U> c;
    for (auto* n : e->SubEntities(2)) c.push_back(m.Index(*n));
    r.push_back(c);
  }
  return r;
}
inline Mat positions(const Mesh& m) {
  Mat p(m.DimWorld(), m.NumEntities(2));
  for (auto* e : m.Entities(2)) p.col(m.Index(*e)) = e->Geometry()->Global(Mat(0, 1));
  return p;
}
// twice the signed area of a polygon
inline double area2(const Mat& p, const std::vector<U>& c) {
  double s = 0;
  for (size_t j = 1; j + 1 < c.size(); j++) s += (p(0, c[j]) - p(0, c[0])) * (p(1, c[j + 1]) - p(1, c[0])) - (p(0, c[j + 1]) - p(0, c[0])) * (p(1, c[j]) - p(1, c[0]));
  return s;
}
// mark the edges with the given indices and refine
inline void refineMarked(Hier& h, const std::set<U>& marked) {
  h.MarkEdges([&](const Mesh& m, const Entity& e) -> bool { return marked.count(m.Index(e)) > 0; });
  h.RefineMarked();
}
// The mesh of level l+1 is a conforming refinement of that of level l that splits the marked edges.
// straightSides: areas are compared through the vertices
inline void checkConforming(const Hier& h, U l, const std::set<U>& marked, bool straightSides = true) {
  const Mesh &c = *h.getMesh(l), &f = *h.getMesh(l + 1);
  auto cc = cellsOf(c), fc = cellsOf(f);
  checkTopology(f, f.NumEntities(2), fc, {}, false);
  // adjacency
  std::map<Edge, int> ca, fa;
  for (auto& x : cc) for (auto& e : edgesOf({x})) ca[e]++;
  for (auto& x : fc) {
    std::set<U> nd(x.begin(), x.end());
    lfs_assert(nd.size() == x.size(), "corners of a child cell are distinct");
    for (auto& e : edgesOf({x})) fa[e]++;
  }
  for (auto& e : fa) lfs_assert(e.second <= 2, "an edge of the fine mesh belongs to at most two cells");
  const auto& pc = h.PointChildInfos(l);
  const auto& ec = h.EdgeChildInfos(l);
  std::set<U> used;
  for (auto& p : pc) lfs_assert(p.child_point_idx < f.NumEntities(2) && used.insert(p.child_point_idx).second, "every node has its own child node");
  U nsplit = 0;
  std::set<Edge> bnd;  // expected boundary of the fine mesh
  for (auto* e : c.Entities(1)) {
    const U i = c.Index(*e);
    const auto& ci = ec[i];
    const bool split = !ci.child_point_idx.empty();
    if (marked.count(i)) lfs_assert(split, "every marked edge is split");
    U a = pc[c.Index(*e->SubEntities(1)[0])].child_point_idx, b = pc[c.Index(*e->SubEntities(1)[1])].child_point_idx;
    const bool onBnd = ca[sorted(c.Index(*e->SubEntities(1)[0]), c.Index(*e->SubEntities(1)[1]))] == 1;
    if (split) {
      U m = ci.child_point_idx[0];
      lfs_assert(m < f.NumEntities(2) && used.insert(m).second, "the midpoint of a split edge is a new node of the fine mesh");
      lfs_assert(!fa.count(sorted(a, b)), "no edge of the fine mesh crosses the midpoint of a split edge (no hanging node)");
      lfs_assert(fa.count(sorted(a, m)) == 1 && fa.count(sorted(m, b)) == 1, "both halves of a split edge are edges of the fine mesh");
      if (onBnd) { bnd.insert(sorted(a, m)); bnd.insert(sorted(m, b)); }
      Mat mid = e->Geometry()->Global((Mat(1, 1) << 0.5).finished()), got = f.EntityByIndex(2, m)->Geometry()->Global(Mat(0, 1));
      for (int d = 0; d < mid.rows(); d++) lfs_near(got(d, 0), mid(d, 0), 1e-9, "a split edge is split at its midpoint");
      nsplit++;
    } else {
      lfs_assert(fa.count(sorted(a, b)) == 1, "an edge that is not split is an edge of the fine mesh");
      if (onBnd) bnd.insert(sorted(a, b));
    }
  }
  for (auto& e : fa) lfs_assert((e.second == 1) == (bnd.count(e.first) == 1), "edges of one cell only are exactly the children of boundary edges (no hanging nodes)");
  for (auto* n : c.Entities(2)) {
    Mat a = n->Geometry()->Global(Mat(0, 1)), b = f.EntityByIndex(2, pc[c.Index(*n)].child_point_idx)->Geometry()->Global(Mat(0, 1));
    for (int d = 0; d < a.rows(); d++) lfs_near(a(d, 0), b(d, 0), 1e-9, "a node keeps its position");
  }
  if (!straightSides) return;
  Mat cp = positions(c), fp = positions(f);
  std::vector<double> sum(cc.size(), 0.0);
  std::vector<int> cnt(cc.size(), 0);
  for (U k = 0; k < fc.size(); k++) {
    const U par = h.ParentInfos(l + 1, 0)[k].parent_index;
    lfs_assert(par < cc.size(), "a child cell has a parent cell");
    double a = area2(fp, fc[k]);
    if (a < 0) a = -a;
    double pa = area2(cp, cc[par]);
    if (pa < 0) pa = -pa;
    lfs_ge(a, pa * 0.02, "a child cell is not degenerate");
    if (fc[k].size() == 4) {
      double s = area2(fp, fc[k]) < 0 ? -1 : 1;
      for (int j = 0; j < 4; j++) lfs_ge(s * area2(fp, {fc[k][j], fc[k][(j + 1) % 4], fc[k][(j + 3) % 4]}), pa * 0.01, "a quadrilateral child cell is convex");
    }
    double vol = lf::geometry::Volume(*f.EntityByIndex(0, k)->Geometry());
    lfs_near(vol, a * 0.5, 1e-9, "volume of a child cell");
    sum[par] = sum[par] + a;
    cnt[par]++;
  }
  for (U i = 0; i < cc.size(); i++) {
    double pa = area2(cp, cc[i]);
    if (pa < 0) pa = -pa;
    lfs_assert(cnt[i] > 0, "every cell has children");
    lfs_near(sum[i], pa, 1e-9, "the children of a cell have its area");
  }
}
// Parent-child relations between the levels l and l+1 are inverse to each other.
inline void checkRelations(const Hier& h, U l, bool geometry = true) {
  const Mesh &c = *h.getMesh(l), &f = *h.getMesh(l + 1);
  lfs_assert(h.PointChildInfos(l).size() == c.NumEntities(2) && h.EdgeChildInfos(l).size() == c.NumEntities(1) && h.CellChildInfos(l).size() == c.NumEntities(0), "one child record per entity");
  // children: fine (codim,index) -> (coarse codim, index, number)
  std::map<std::pair<U, U>, std::array<U, 3>> par;
  auto child = [&](U fcodim, U fidx, U ccodim, U cidx, U nr) {
    lfs_assert(fidx < f.NumEntities(fcodim), "index of a child refers to an entity of the fine mesh");
    lfs_assert(par.emplace(std::make_pair(fcodim, fidx), std::array<U, 3>{ccodim, cidx, nr}).second, "an entity occurs exactly once among all children");
  };
  for (U i = 0; i < c.NumEntities(2); i++) child(2, h.PointChildInfos(l)[i].child_point_idx, 2, i, 0);
  for (U i = 0; i < c.NumEntities(1); i++) {
    const auto& ci = h.EdgeChildInfos(l)[i];
    lfs_assert(ci.ref_pat_ == RefPat::rp_split || ci.ref_pat_ == RefPat::rp_copy, "an edge is split or copied");
    const bool split = ci.ref_pat_ == RefPat::rp_split;
    lfs_assert(ci.child_edge_idx.size() == (split ? 2u : 1u) && ci.child_point_idx.size() == (split ? 1u : 0u), "numbers of children of an edge");
    for (U k = 0; k < ci.child_edge_idx.size(); k++) child(1, ci.child_edge_idx[k], 1, i, k);
    for (U k = 0; k < ci.child_point_idx.size(); k++) child(2, ci.child_point_idx[k], 1, i, k);
  }
  for (U i = 0; i < c.NumEntities(0); i++) {
    const auto& ci = h.CellChildInfos(l)[i];
    lf::refinement::Hybrid2DRefinementPattern rp(c.EntityByIndex(0, i)->RefEl(), ci.ref_pat_, ci.anchor_);
    lfs_assert(ci.child_cell_idx.size() == rp.NumChildren(0) && ci.child_edge_idx.size() == rp.NumChildren(1) && ci.child_point_idx.size() == rp.NumChildren(2), "numbers of children of a cell are those of its pattern");
    for (U k = 0; k < ci.child_cell_idx.size(); k++) child(0, ci.child_cell_idx[k], 0, i, k);
    for (U k = 0; k < ci.child_edge_idx.size(); k++) child(1, ci.child_edge_idx[k], 0, i, k);
    for (U k = 0; k < ci.child_point_idx.size(); k++) child(2, ci.child_point_idx[k], 0, i, k);
  }
  lfs_assert(par.size() == f.NumEntities(0) + f.NumEntities(1) + f.NumEntities(2), "every entity of the fine mesh is a child of an entity of the coarse mesh");
  std::map<std::pair<U, U>, double> cover;  // parts of edges and cells covered by their children
  for (U cd = 0; cd < 3; cd++) {
    const auto& pi = h.ParentInfos(l + 1, cd);
    lfs_assert(pi.size() == f.NumEntities(cd), "one parent record per entity");
    for (U i = 0; i < f.NumEntities(cd); i++) {
      const Entity* e = f.EntityByIndex(cd, i);
      auto& r = par[{cd, i}];
      const Entity* p = c.EntityByIndex(r[0], r[1]);
      lfs_assert(pi[i].parent_ptr == p && pi[i].parent_index == r[1] && pi[i].child_number == r[2], "the parent record refers back to the child record");
      lfs_assert(h.ParentEntity(l + 1, *e) == p, "parent entity");
      lfs_assert(p->Codim() <= cd, "the parent has at least the dimension of the child");
      const lf::geometry::Geometry* g = h.GeometryInParent(l + 1, *e);
      lfs_assert(g != nullptr, "position in the parent");
      if (!g) continue;
      const U pd = 2 - r[0];
      lfs_assert(g->DimGlobal() == pd && g->DimLocal() == 2 - cd && g->RefEl() == e->RefEl(), "dimensions of the position in the parent");
      if (pd == 2 - cd && pd > 0) {
        // children of the same dimension: relative length / area
        Mat q = g->Global(e->RefEl().NodeCoords());
        std::vector<U> all;
        for (int k = 0; k < q.cols(); k++) all.push_back(k);
        cover[{r[0], r[1]}] += std::abs(pd == 1 ? q(0, 1) - q(0, 0) : area2(q, all) * 0.5);
      }
      if (!geometry) continue;
      // corners, and for triangles and segments a general point
      Mat nc = e->RefEl().NodeCoords();
      Mat rel = g->Global(nc);
      for (int k = 0; k < rel.cols(); k++) {
        for (U d = 0; d < pd; d++) { lfs_ge(rel(d, k), -1e-9, "the position in the parent is inside"); lfs_ge(1 + 1e-9, rel(d, k), "the position in the parent is inside"); }
        if (p->RefEl() == lf::base::RefEl::kTria()) lfs_ge(1 + 1e-9, rel(0, k) + rel(1, k), "the position in the parent is inside");
      }
      Mat a = p->Geometry()->Global(rel), b = e->Geometry()->Global(nc);
      for (int k = 0; k < rel.cols(); k++) for (int d = 0; d < a.rows(); d++) lfs_near(a(d, k), b(d, k), 1e-9, "the corners of a child lie at its position in the parent");
      const bool full = p->Geometry()->isAffine() || (pd == 2 - cd && p->RefEl() == e->RefEl());  // otherwise the child only interpolates
      if (cd < 2 && full && !(cd == 0 && !p->Geometry()->isAffine() && h.CellChildInfos(l)[r[1]].ref_pat_ == RefPat::rp_threeedge)) {
        Mat x(2 - cd, 1);
        for (U d = 0; d < 2 - cd; d++) x(d, 0) = lfs_real("x", 0, cd ? 1 : 0.5);
        Mat u = p->Geometry()->Global(g->Global(x)), v = e->Geometry()->Global(x);
        for (int d = 0; d < u.rows(); d++) lfs_near(u(d, 0), v(d, 0), 1e-9, "the position in the parent, mapped through the parent, is the geometry of the child");
      }
    }
  }
  for (U cd = 0; cd < 2; cd++)
    for (U i = 0; i < c.NumEntities(cd); i++) lfs_assert(std::abs(cover[{cd, i}] - (c.EntityByIndex(cd, i)->RefEl() == lf::base::RefEl::kTria() ? 0.5 : 1.0)) < 1e-9, "edges and cells are covered by their children");
  // refinement edges of the fine mesh
  const auto& re = h.RefinementEdges(l + 1);
  lfs_assert(re.size() == f.NumEntities(0), "one refinement edge record per cell");
  for (U i = 0; i < re.size(); i++) if (f.EntityByIndex(0, i)->RefEl() == lf::base::RefEl::kTria()) lfs_assert(re[i] < 3, "every triangle has a refinement edge");
}
}  // namespace harness
