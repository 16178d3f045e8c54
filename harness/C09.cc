// Local refinement of arbitrary sets of marked edges.
// units: core refine
// bound: meshes of 1..4 triangles and quadrilaterals (7 topologies) with every choice of first vertices (single cells and pairs), node positions arbitrary in boxes of half-width 0.02 (single steps) or fixed (repeated refinement); every set of marked edges in the first step; in further steps every pair of edges of the refined mesh; uniform regular and barycentric refinement, also followed by local refinement
// outside: larger meshes, more steps, curved cells (positions of their children: C05, C10)
#include "refine.h"
using namespace harness;
static std::set<U> anySubset(U n) {
  std::set<U> s;
  for (U i = 0; i < n; i++) if (lfs_choice("mark", 2)) s.insert(i);
  return s;
}
static std::set<U> anyPair(U n) {
  U a = lfs_choice("mark1", (int)n), b = a + lfs_choice("mark2", (int)(n - a));
  return {a, b};
}
static std::shared_ptr<Hier> start(int id, bool flip, int vary, double r) {
  Topo t = baseTopo(id);
  varyCells(t, flip, vary);
  return hierarchy(simpleMesh(t, points(t, 2, r)));
}
static void once(int id, bool flip, int vary, double r) {
  auto h = start(id, flip, vary, r);
  auto s = anySubset(h->getMesh(0)->NumEntities(1));
  refineMarked(*h, s);
  lfs_assert(h->NumLevels() == 2, "refinement adds one level");
  checkConforming(*h, 0, s);
}
LFS_CASE(tri) { once(T_TRI, true, 9, 0.02); }
LFS_CASE(quad) { once(T_QUAD, true, 9, 0.02); }
LFS_CASE(tritri) { once(T_TRITRI, false, 9, 0.02); }
LFS_CASE(triquad) { once(T_TRIQUAD, false, 9, 0.02); }
LFS_CASE(fan) { once(T_FAN, false, 9, 0); }
LFS_CASE(quadquad) { once(T_QUADQUAD, false, 1, 0); }
LFS_CASE(mixed) { once(T_MIXED, false, 0, 0); }
static void step(Hier& h, std::set<U> s) {
  const U l = h.NumLevels() - 1;
  refineMarked(h, s);
  lfs_assert(h.NumLevels() == l + 2, "refinement adds one level");
  checkConforming(h, l, s);
}
static std::set<U> one(U n) { return {(U)lfs_choice("mark1", (int)n)}; }
static U edges(const Hier& h) { return h.getMesh(h.NumLevels() - 1)->NumEntities(1); }
static void twice(int id, int vary) {
  auto h = start(id, false, vary, 0);
  step(*h, anySubset(edges(*h)));
  step(*h, anyPair(edges(*h)));
}
LFS_CASE(twice_tri) { twice(T_TRI, 9); }
LFS_CASE(twice_quad) { twice(T_QUAD, 0); }
LFS_CASE(twice_tritri) { twice(T_TRITRI, 0); }
LFS_CASE(twice_triquad) { twice(T_TRIQUAD, 0); }
LFS_CASE_THOROUGH(twice_tritri_all) { twice(T_TRITRI, 9); }
// several steps, one marked edge each
static void several(int id, int vary, int n) {
  auto h = start(id, false, vary, 0);
  for (int i = 0; i < n; i++) step(*h, one(edges(*h)));
}
LFS_CASE(several_tri) { several(T_TRI, 9, 3); }
LFS_CASE(several_triquad) { several(T_TRIQUAD, 0, 3); }
LFS_CASE(several_mixed) { several(T_MIXED, 0, 2); }
LFS_CASE(several_fan) { several(T_FAN, 0, 3); }
LFS_CASE_THOROUGH(several_tri4) { several(T_TRI, 9, 4); }
// uniform refinement, then local refinement
static void uniform(int id, bool flip, int vary, double r) {
  auto h = start(id, flip, vary, r);
  std::set<U> all;
  for (U i = 0; i < edges(*h); i++) all.insert(i);
  h->RefineRegular(lfs_choice("barycentric", 2) ? RefPat::rp_barycentric : RefPat::rp_regular);
  checkConforming(*h, 0, all);
  if (r == 0) step(*h, one(edges(*h)));
}
LFS_CASE(uniform_tri) { uniform(T_TRI, true, 1, 0.005); }
LFS_CASE(uniform_quad) { uniform(T_QUAD, true, 9, 0.02); }
LFS_CASE(uniform_tritri) { uniform(T_TRITRI, false, 9, 0); }
LFS_CASE(uniform_triquad) { uniform(T_TRIQUAD, false, 9, 0.02); }
LFS_CASE(uniform_mixed) { uniform(T_MIXED, false, 0, 0); }
LFS_CASE(uniform_fan) { uniform(T_FAN, false, 1, 0); }
