// Parent-child relations of mesh hierarchies.
// units: core refine
// bound: meshes of 1..4 triangles and quadrilaterals (7 topologies) with every choice of first vertices (single cells and pairs) in 2D and 3D space, node positions arbitrary in boxes of half-width 0.02, any point of the children; every set of marked edges; uniform regular and barycentric refinement; second-order cells; up to 4 levels with fixed positions where every step marks any one edge
// outside: larger meshes, more levels
#include "refine.h"
using namespace harness;
static std::shared_ptr<Hier> start(int id, bool flip, int vary, double r, int wd = 2) {
  Topo t = baseTopo(id);
  varyCells(t, flip, vary);
  return hierarchy(simpleMesh(t, points(t, wd, r)));
}
static std::set<U> anySubset(U n) {
  std::set<U> s;
  for (U i = 0; i < n; i++) if (lfs_choice("mark", 2)) s.insert(i);
  return s;
}
static U edges(const Hier& h) { return h.getMesh(h.NumLevels() - 1)->NumEntities(1); }
static void once(int id, bool flip, int vary, double r, int wd = 2) {
  auto h = start(id, flip, vary, r, wd);
  refineMarked(*h, anySubset(edges(*h)));
  checkRelations(*h, 0);
}
LFS_CASE(tri) { once(T_TRI, true, 9, 0.02); }
LFS_CASE(quad) { once(T_QUAD, true, 9, 0.02); }
LFS_CASE(tritri) { once(T_TRITRI, false, 1, 0.02); }
LFS_CASE(triquad) { once(T_TRIQUAD, false, 1, 0.02); }
LFS_CASE(tri_3d) { once(T_TRI, false, 9, 0.02, 3); }
LFS_CASE(quad_3d) { once(T_QUAD, false, 9, 0.02, 3); }
LFS_CASE(fan) { once(T_FAN, false, 9, 0); }
LFS_CASE(quadquad) { once(T_QUADQUAD, false, 1, 0); }
LFS_CASE(mixed) { once(T_MIXED, false, 0, 0); }
static void uniform(int id, bool flip, int vary, double r, int n) {
  Topo t = baseTopo(id);
  varyCells(t, flip, vary);
  auto m = simpleMesh(t, points(t, 2, r));
  auto p = lfs_choice("barycentric", 2) ? RefPat::rp_barycentric : RefPat::rp_regular;
  auto h = lf::refinement::GenerateMeshHierarchyByUniformRefinemnt(m, n, p);
  lfs_assert((int)h->NumLevels() == n + 1 && h->getMesh(0) == m, "requested number of refinement steps");
  lfs_assert(h->getMeshes().size() == h->NumLevels() && h->getMeshes()[n] == h->getMesh(n), "list of all meshes");
  for (int l = 0; l < n; l++) checkRelations(*h, l);
}
LFS_CASE(uniform_tri) { uniform(T_TRI, false, 9, 0.005, 1); }
LFS_CASE(uniform_quad) { uniform(T_QUAD, true, 9, 0.02, 1); }
LFS_CASE(uniform_mixed) { uniform(T_MIXED, false, 2, 0, 2); }
LFS_CASE(uniform_triquad) { uniform(T_TRIQUAD, false, 9, 0, 2); }
static void several(int id, int vary, int n) {
  auto h = start(id, false, vary, 0);
  for (int i = 0; i < n; i++) {
    const int k = lfs_choice("mark1", (int)edges(*h) + (i ? 0 : 1));
    if (k == (int)edges(*h)) h->RefineRegular();
    else refineMarked(*h, {(U)k});
    checkRelations(*h, i);
  }
  for (int i = 0; i + 1 < n; i++) checkRelations(*h, i, false);  // relations between coarser levels remain valid
}
LFS_CASE(several_tri) { several(T_TRI, 9, 3); }
LFS_CASE(several_quad) { several(T_QUAD, 0, 3); }
LFS_CASE(several_triquad) { several(T_TRIQUAD, 0, 3); }
LFS_CASE(several_mixed) { several(T_MIXED, 0, 2); }
LFS_CASE_THOROUGH(several_fan) { several(T_FAN, 0, 3); }
LFS_CASE_THOROUGH(several_tri4) { several(T_TRI, 9, 4); }
// cells with curved sides: the children interpolate the geometry of the parent
static void curved(bool quad) {
  const int k = quad ? 4 : 3;
  Topo t = baseTopo(quad ? T_QUAD : T_TRI);
  Mat pts = points(t, 2, 0.01);
  Mat m(2, 2 * k);
  for (int j = 0; j < k; j++) {
    m.col(j) = pts.col(j);
    for (int d = 0; d < 2; d++) m(d, k + j) = 0.5 * (pts(d, j) + pts(d, (j + 1) % k)) + (j % 2 ? 0.03 : -0.02) + lfs_real("mid", -0.01, 0.01);
  }
  lf::mesh::hybrid2d::MeshFactory f(2, false);
  addPoints(f, pts);
  if (quad) addCell(f, t.cells[0], std::make_unique<lf::geometry::QuadO2>(m));
  else addCell(f, t.cells[0], std::make_unique<lf::geometry::TriaO2>(m));
  auto h = hierarchy(f.Build());
  const int k2 = lfs_choice("mark1", k + 1);
  std::set<U> mk;
  if (k2 == k) h->RefineRegular();
  else { mk.insert(k2); refineMarked(*h, mk); }
  checkRelations(*h, 0);
  checkConforming(*h, 0, mk, false);
}
LFS_CASE(curved_tri) { curved(false); }
LFS_CASE(curved_quad) { curved(true); }
