// Continuity of finite element spaces.
// units: core fem
// bound: Lagrangian spaces of order 1 to 3 and hierarchic spaces of degree 1 to 4 (per entity 1 to 3), on meshes of 1 to 4 triangles and quadrilaterals (7 topologies) with every choice of first vertices and, for pairs, directions; arbitrary coefficients, any point of every edge
// outside: larger meshes, higher degrees, other scalar types
#include "fespace.h"
using namespace harness;
static void continuous(const Space& s, const lf::mesh::Mesh& m) {
  Eigen::VectorXd c = coeffs(s.LocGlobMap().NumDofs());
  Mat pt(0, 1);
  std::vector<double> node;
  for (auto* e : m.Entities(2)) node.push_back(valueOn(s, c, *e, pt));
  for (auto* e : m.Entities(1)) {
    Mat x(1, 1);
    for (int j = 0; j < 2; j++) { x(0, 0) = j; lfs_near(valueOn(s, c, *e, x), node[m.Index(*e->SubEntities(1)[j])], 1e-9, "the value at a vertex is the same on every edge"); }
  }
  for (auto* e : m.Entities(0)) {
    Mat nc = e->RefEl().NodeCoords();
    for (int j = 0; j < nc.cols(); j++) lfs_near(valueOn(s, c, *e, Mat(nc.col(j))), node[m.Index(*e->SubEntities(2)[j])], 1e-8, "the value at a vertex is the same on every cell");
    for (int i = 0; i < nc.cols(); i++) {
      Mat x(1, 1);
      x(0, 0) = lfs_real("s", 0, 1);
      lfs_near(valueOn(s, c, *e, onCell(*e, i, x(0, 0))), valueOn(s, c, *e->SubEntities(1)[i], x), 1e-8, "the value on an edge is the same seen from the edge and from every adjacent cell");
    }
  }
  for (int d = 0; d < 3; d++)
    for (auto* e : m.Entities(d)) {
      lfs_assert(s.NumRefShapeFunctions(*e) == s.LocGlobMap().NumInteriorDofs(*e), "number of interior shape functions of an entity");
      lfs_assert(s.ShapeFunctionLayout(*e)->NumRefShapeFunctions() == s.LocGlobMap().NumLocalDofs(*e), "number of shape functions of an entity");
    }
  lfs_assert(s.Mesh().get() == &m, "mesh of the space");
}
static MeshP mesh(int id, bool flip, int vary) {
  Topo t = baseTopo(id);
  varyCells(t, flip, vary);
  return simpleMesh(t, points(t, 2, 0));
}
static void lag(int id, bool flip, int vary = 9) {
  auto m = mesh(id, flip, vary);
  auto s = lagrange(m, lfs_choice("order", 3));
  continuous(*s, *m);
}
LFS_CASE(lagrange_tri) { lag(T_TRI, true); }
LFS_CASE(lagrange_quad) { lag(T_QUAD, true); }
LFS_CASE(lagrange_tritri) { lag(T_TRITRI, true); }
LFS_CASE(lagrange_triquad) { lag(T_TRIQUAD, true); }
LFS_CASE(lagrange_quadquad) { lag(T_QUADQUAD, true); }
LFS_CASE(lagrange_fan) { lag(T_FAN, true); }
LFS_CASE(lagrange_mixed) { lag(T_MIXED, false, 4); }
// a space may describe only the kinds of cells that occur
LFS_CASE(triangles_only) {
  auto m = mesh(T_TRITRI, true, 9);
  using namespace lf::uscalfe;
  UniformScalarFESpace<double> s(m, std::make_shared<FeLagrangeO2Tria<double>>(), nullptr, std::make_shared<FeLagrangeO2Segment<double>>(), std::make_shared<lf::fe::FePoint<double>>(2));
  continuous(s, *m);
}
LFS_CASE(quads_only) {
  auto m = mesh(T_QUADQUAD, true, 9);
  using namespace lf::uscalfe;
  UniformScalarFESpace<double> s(m, nullptr, std::make_shared<FeLagrangeO3Quad<double>>(), std::make_shared<FeLagrangeO3Segment<double>>(), std::make_shared<lf::fe::FePoint<double>>(3));
  continuous(s, *m);
}
static void hier(int id, bool flip, int vary = 9) {
  auto m = mesh(id, flip, vary);
  lf::fe::HierarchicScalarFESpace<double> s(m, 1 + lfs_choice("degree", 4));
  continuous(s, *m);
}
LFS_CASE(hierarchic_tri) { hier(T_TRI, true); }
LFS_CASE(hierarchic_quad) { hier(T_QUAD, true); }
LFS_CASE(hierarchic_tritri) { hier(T_TRITRI, true); }
LFS_CASE(hierarchic_triquad) { hier(T_TRIQUAD, true); }
LFS_CASE(hierarchic_quadquad) { hier(T_QUADQUAD, true); }
LFS_CASE(hierarchic_fan) { hier(T_FAN, false); }
LFS_CASE(hierarchic_mixed) { hier(T_MIXED, false, 2); }
// degrees vary from entity to entity
static void variable(int id, bool flip, int vary, int maxDegree) {
  auto m = mesh(id, flip, vary);
  std::vector<U> deg[2];
  for (int c = 0; c < 2; c++) {
    const int n = m->NumEntities(c);
    for (int i = 0; i < n; i++) deg[c].push_back(1 + (i + c) % maxDegree);
    deg[c][0] = 1 + lfs_choice("first", maxDegree);
    deg[c][n - 1] = 1 + lfs_choice("last", maxDegree);
    if (c == 1) { deg[c][1] = 1 + lfs_choice("second", maxDegree); deg[c][n / 2] = 1 + lfs_choice("mid", maxDegree); }
  }
  lf::fe::HierarchicScalarFESpace<double> s(m, [&](const lf::mesh::Entity& e) -> U { return deg[e.Codim()][m->Index(e)]; });
  continuous(s, *m);
  for (int c = 0; c < 2; c++) for (auto* e : m->Entities(c)) {
    U d = deg[c][m->Index(*e)];
    if (c == 0) for (auto* f : e->SubEntities(1)) d = std::max(d, deg[1][m->Index(*f)]);
    lfs_assert(s.ShapeFunctionLayout(*e)->Degree() == d, "degree of the shape functions on an entity");
  }
}
LFS_CASE(variable_tri) { variable(T_TRI, true, 9, 3); }
LFS_CASE(variable_quad) { variable(T_QUAD, false, 9, 3); }
LFS_CASE(variable_tritri) { variable(T_TRITRI, false, 2, 3); }
LFS_CASE(variable_triquad) { variable(T_TRIQUAD, false, 1, 3); }
LFS_CASE_THOROUGH(variable_quadquad) { variable(T_QUADQUAD, false, 2, 3); }
LFS_CASE_THOROUGH(variable_tritri4) { variable(T_TRITRI, true, 2, 4); }
LFS_CASE_THOROUGH(variable_mixed) { variable(T_MIXED, false, 1, 3); }
