// Dof numberings.
// units: core asm
// bound: meshes of 1..4 triangles and quadrilaterals (7 topologies) with every choice of first vertices (of directions too for pairs of triangles), uniform layouts with 0..2 dofs per point, 0..3 per edge, 0..2 per triangle and quadrilateral, with and without edge orientation; variable layouts where the numbers of dofs of three arbitrary entities of every dimension are chosen freely in 0..2 and the others alternate; 4..7 (uniform) or 4..8 (variable) dofs per edge and 3..8 per cell on pairs of cells
// outside: more dofs per entity; larger meshes
#include "dofs.h"
using namespace harness;
static std::shared_ptr<lf::mesh::Mesh> mesh(int id, bool flip, int vary) {
  Topo t = baseTopo(id);
  varyCells(t, flip, vary);
  return simpleMesh(t, points(t, 2, 0));
}
static void uniform(int id, bool flip, int vary, int np, int ne, int nc) {
  auto m = mesh(id, flip, vary);
  std::map<lf::base::RefEl, lf::base::size_type> d;
  int n[4] = {lfs_choice("points", np), lfs_choice("edges", ne), id == T_QUAD || id == T_QUADQUAD ? 0 : lfs_choice("tria", nc), id == T_TRI || id == T_TRITRI || id == T_FAN ? 0 : lfs_choice("quad", nc)};
  if (nc == 1) { n[2] = id == T_QUAD || id == T_QUADQUAD ? 0 : 2; n[3] = n[0] ? 1 : 3; }
  lf::base::RefEl r[4] = {lf::base::RefEl::kPoint(), lf::base::RefEl::kSegment(), lf::base::RefEl::kTria(), lf::base::RefEl::kQuad()};
  // types without dofs may be left out of the map
  for (int k = 0; k < 4; k++) if (n[k] || k == 2) d[r[k]] = n[k];
  bool orient = lfs_choice("orient", 2);
  lf::assemble::UniformFEDofHandler dh(m, d, orient);
  checkDofs(dh, *m, [&](const lf::mesh::Entity& e) { for (int k = 0; k < 4; k++) if (e.RefEl() == r[k]) return n[k]; return 0; }, orient);
  lf::assemble::UniformFEDofHandler dd(m, d);
  checkDofs(dd, *m, [&](const lf::mesh::Entity& e) { for (int k = 0; k < 4; k++) if (e.RefEl() == r[k]) return n[k]; return 0; }, true);
}
// many dofs per edge and cell
static void many(int id, bool flip, int vary) {
  auto m = mesh(id, flip, vary);
  const int k = lfs_choice("many", 4);
  int n[4] = {k % 2 ? 3 : 1, 4 + k, 3 + k, 4 + k};
  std::map<lf::base::RefEl, lf::base::size_type> d{{lf::base::RefEl::kPoint(), n[0]}, {lf::base::RefEl::kSegment(), n[1]}, {lf::base::RefEl::kTria(), n[2]}, {lf::base::RefEl::kQuad(), n[3]}};
  const bool orient = lfs_choice("orient", 2);
  lf::assemble::UniformFEDofHandler dh(m, d, orient);
  auto f = [&](const lf::mesh::Entity& e) { return e.Codim() == 2 ? n[0] : e.Codim() == 1 ? n[1] : e.RefEl() == lf::base::RefEl::kTria() ? n[2] : n[3]; };
  checkDofs(dh, *m, f, orient);
  auto g = [&](const lf::mesh::Entity& e) -> lf::base::size_type { return f(e) + m->Index(e) % 2; };
  lf::assemble::DynamicFEDofHandler dy(m, g);
  checkDofs(dy, *m, g, true);
}
LFS_CASE(many_tritri) { many(T_TRITRI, true, 9); }
LFS_CASE(many_triquad) { many(T_TRIQUAD, true, 9); }
LFS_CASE(many_quadquad) { many(T_QUADQUAD, true, 1); }
LFS_CASE(uniform_tri) { uniform(T_TRI, true, 9, 3, 4, 3); }
LFS_CASE(uniform_quad) { uniform(T_QUAD, true, 9, 3, 4, 3); }
LFS_CASE(uniform_tritri) { uniform(T_TRITRI, true, 9, 3, 4, 3); }
LFS_CASE(uniform_triquad) { uniform(T_TRIQUAD, false, 9, 3, 4, 3); }
LFS_CASE(uniform_quadquad) { uniform(T_QUADQUAD, false, 9, 2, 4, 2); }
LFS_CASE(uniform_fan) { uniform(T_FAN, false, 9, 2, 4, 1); }
LFS_CASE(uniform_mixed) { uniform(T_MIXED, false, 2, 2, 4, 2); }
static void dynamic(int id, bool flip, int vary, int nmax) {
  auto m = mesh(id, flip, vary);
  std::vector<int> n[3];
  for (int c = 0; c < 3; c++) {
    const int k = m->NumEntities(c);
    for (int i = 0; i < k; i++) n[c].push_back((i + c) % 3);
    n[c][0] = lfs_choice("first", nmax);
    if (k > 1) n[c][k - 1] = lfs_choice("last", nmax);
    if (c == 1 && k > 3) n[c][k / 2] = lfs_choice("mid", nmax);
  }
  auto f = [&](const lf::mesh::Entity& e) -> lf::base::size_type { return n[e.Codim()][m->Index(e)]; };
  lf::assemble::DynamicFEDofHandler dh(m, f);
  checkDofs(dh, *m, f, true);
}
LFS_CASE(dynamic_tri) { dynamic(T_TRI, true, 9, 3); }
LFS_CASE(dynamic_quad) { dynamic(T_QUAD, false, 9, 3); }
LFS_CASE(dynamic_tritri) { dynamic(T_TRITRI, false, 1, 3); }
LFS_CASE(dynamic_triquad) { dynamic(T_TRIQUAD, false, 1, 3); }
LFS_CASE(dynamic_fan) { dynamic(T_FAN, false, 1, 3); }
LFS_CASE_THOROUGH(dynamic_mixed) { dynamic(T_MIXED, false, 2, 3); }
LFS_CASE_THOROUGH(dynamic_quadquad) { dynamic(T_QUADQUAD, false, 9, 3); }
