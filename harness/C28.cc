// Dof handling of product spaces.
// units: core fem dpg
// bound: meshes of 1..3 triangles and quadrilaterals (6 topologies) with every choice of first vertices and directions of the first cells; products of 1 to 3 components, where the first one has any number 0..2 of dofs per point, 0..3 per edge and 0..2 per cell and the others are taken from a list; product spaces built of H1, L2, flux and trace components of degree 0 to 3 in every order of two; prescribed signs and inflow/outflow flags for an arbitrary constant velocity; essential conditions on any set of edges for any linear data
// outside: larger meshes, more components, curved cells, a velocity that is tangential to a boundary edge (up to rounding)
#include "dofs.h"
#include "fespace.h"
#include "dpg_tools.h"
#include "product_fe_space_factory.h"
using namespace harness;
using projects::dpg::ProductUniformFEDofHandler;
typedef lf::assemble::UniformFEDofHandler::dof_map_t DofMap;
static MeshP mesh(int id, bool flip, int vary) {
  Topo t = baseTopo(id);
  varyCells(t, flip, vary);
  return simpleMesh(t, points(t, 2, 0));
}
// n[k][type]: dofs per point, segment, triangle, quadrilateral of component k
typedef std::vector<std::array<int, 4>> Layout;
static int typeIdx(const lf::mesh::Entity& e) { return e.Codim() == 2 ? 0 : e.Codim() == 1 ? 1 : e.RefEl() == lf::base::RefEl::kTria() ? 2 : 3; }
static void checkProduct(const ProductUniformFEDofHandler& dh, const lf::mesh::Mesh& m, const Layout& n) {
  const U K = n.size();
  lfs_assert(dh.NumComponents() == K, "number of components");
  lfs_assert(dh.Mesh().get() == &m, "mesh of the dof handler");
  U off = 0;
  for (U k = 0; k < K; k++) {
    const auto& c = dh.ComponentDofHandler(k);
    checkDofs(c, m, [&](const lf::mesh::Entity& e) { return n[k][typeIdx(e)]; }, true);
    lfs_assert(dh.Offset(k) == off, "the offset of a component is the number of dofs of the components before it");
    lfs_assert(dh.NumDofs(k) == c.NumDofs(), "number of dofs of a component");
    for (U i = 0; i < c.NumDofs(); i++) {
      lfs_assert(dh.Component(off + i) == k, "a dof belongs to the component in whose block it lies");
      lfs_assert(&dh.Entity(off + i) == &c.Entity(i), "the entity of a dof is that of the component");
    }
    off += c.NumDofs();
  }
  lfs_assert(dh.Offset(K) == off && dh.NumDofs() == off, "number of dofs");
  for (U c = 0; c < 3; c++)
    for (auto* e : m.Entities(c)) {
      Idx all, in;
      for (U k = 0; k < K; k++) {
        const auto& h = dh.ComponentDofHandler(k);
        lfs_assert(dh.LocalStartIndex(*e, k) == all.size(), "the local dofs of a component start behind those of the components before it");
        Idx a = vec(h.GlobalDofIndices(*e)), b = vec(h.InteriorGlobalDofIndices(*e));
        lfs_assert(dh.NumLocalDofs(*e, k) == a.size() && dh.NumInteriorDofs(*e, k) == b.size(), "numbers of local dofs of a component");
        for (U i : a) all.push_back(i + dh.Offset(k));
        for (U i : b) in.push_back(i + dh.Offset(k));
      }
      lfs_assert(dh.NumLocalDofs(*e) == all.size(), "number of local dofs");
      lfs_assert(dh.NumInteriorDofs(*e) == in.size(), "number of interior dofs");
      lfs_assert(vec(dh.GlobalDofIndices(*e)) == all, "global indices are those of the components, shifted by the offsets");
      lfs_assert(vec(dh.InteriorGlobalDofIndices(*e)) == in, "interior indices are those of the components, shifted by the offsets");
    }
}
static void layouts(int id, bool flip, int vary, int np, int ne, int nc, int maxK) {
  auto m = mesh(id, flip, vary);
  const int K = maxK < 0 ? -maxK : 1 + lfs_choice("components", maxK);
  const int pos = K > 1 ? lfs_choice("position", K) : 0, other = K > 1 ? lfs_choice("others", 4) : 0;
  static const std::array<int, 4> list[4] = {{0, 2, 0, 0}, {1, 1, 0, 1}, {0, 0, 3, 4}, {1, 2, 1, 2}};
  Layout n;
  for (int k = 0; k < K; k++) n.push_back(list[(other + 2 * k + (k > 1)) % 4]);
  n[pos] = {lfs_choice("points", np), lfs_choice("edges", ne), 0, 0};
  const int c = lfs_choice("cell", nc);
  n[pos][2] = c;
  n[pos][3] = c ? 3 - c : 1;
  lf::base::RefEl r[4] = {lf::base::RefEl::kPoint(), lf::base::RefEl::kSegment(), lf::base::RefEl::kTria(), lf::base::RefEl::kQuad()};
  std::vector<DofMap> d(K);
  for (int k = 0; k < K; k++) for (int i = 0; i < 4; i++) if (n[k][i] || i == 3) d[k][r[i]] = n[k][i];
  ProductUniformFEDofHandler dh(m, d);
  checkProduct(dh, *m, n);
}
LFS_CASE(layout_tri) { layouts(T_TRI, true, 1, 3, 4, 3, 2); }
LFS_CASE(layout_quad) { layouts(T_QUAD, false, 1, 3, 4, 2, 2); }
LFS_CASE(layout_tritri) { layouts(T_TRITRI, true, 1, 2, 4, 3, 2); }
LFS_CASE(layout_triquad) { layouts(T_TRIQUAD, false, 2, 2, 3, 2, -2); }
LFS_CASE(layout_quadquad) { layouts(T_QUADQUAD, false, 1, 2, 3, 2, -3); }
LFS_CASE(layout_fan) { layouts(T_FAN, false, 2, 2, 3, 2, -3); }
LFS_CASE_THOROUGH(layout_triquad3) { layouts(T_TRIQUAD, true, 9, 3, 4, 3, -3); }
// the spaces of the factory
enum { H1, L2, FLUX, TRACE };
static std::array<int, 4> expected(int kind, int p) {
  if (kind == H1 || kind == TRACE) return {1, p - 1, kind == H1 ? (p - 1) * (p - 2) / 2 : 0, kind == H1 ? (p - 1) * (p - 1) : 0};
  if (kind == L2) return {0, 0, (p + 1) * (p + 2) / 2, (p + 1) * (p + 1)};
  return {0, p + 1, 0, 0};
}
static int add(projects::dpg::ProductUniformFESpaceFactory<double>& f, int kind, int p) {
  return kind == H1 ? f.AddH1Component(p) : kind == L2 ? f.AddL2Component(p) : kind == FLUX ? f.AddFluxComponent(p) : f.AddTraceComponent(p);
}
static void factory(int id, int vary) {
  auto m = mesh(id, false, vary);
  projects::dpg::ProductUniformFESpaceFactory<double> f(m);
  const int third = lfs_choice("third", 2);
  std::vector<int> kind{lfs_choice("kind", 4), lfs_choice("kind", 4)}, deg;
  if (third) kind.push_back(FLUX);
  Layout n;
  for (int k = 0; k < (int)kind.size(); k++) {
    deg.push_back(k == 2 ? 2 : kind[k] == L2 || kind[k] == FLUX ? lfs_choice("degree", 4) : 1 + lfs_choice("degree", 3));
    lfs_assert(add(f, kind[k], deg[k]) == k, "components are numbered in the order in which they are added");
    n.push_back(expected(kind[k], deg[k]));
  }
  lfs_assert(f.NumComponents() == kind.size(), "number of components of the factory");
  auto s = f.Build();
  lfs_assert(s->NumComponents() == kind.size() && s->Mesh() == m, "number of components and mesh of the space");
  checkProduct(s->LocGlobMap(), *m, n);
  const lf::base::RefEl r[4] = {lf::base::RefEl::kPoint(), lf::base::RefEl::kSegment(), lf::base::RefEl::kTria(), lf::base::RefEl::kQuad()};
  for (int k = 0; k < (int)kind.size(); k++) {
    for (int i = 0; i < 4; i++) lfs_assert((int)s->NumRefShapeFunctions(r[i], k) == n[k][i], "number of interior shape functions of a component");
    for (auto* e : m->Entities(0)) {
      auto* l = s->ShapeFunctionLayout(e->RefEl(), k);
      lfs_assert((l != nullptr) == (kind[k] != FLUX), "components other than fluxes have shape functions on cells");
      if (!l) continue;
      lfs_assert(l->RefEl() == e->RefEl() && (int)l->Degree() == deg[k], "degree of the shape functions of a component");
      lfs_assert(l->NumRefShapeFunctions() == s->LocGlobMap().NumLocalDofs(*e, k), "one local dof per shape function");
    }
    auto* l = s->ShapeFunctionLayout(r[1], k);
    lfs_assert((l != nullptr) == (kind[k] != L2), "components other than discontinuous ones have shape functions on edges");
    if (l) {
      lfs_assert(l->RefEl() == r[1] && (int)l->Degree() == deg[k], "degree of the shape functions of a component");
      for (auto* e : m->Entities(1)) lfs_assert(l->NumRefShapeFunctions() == s->LocGlobMap().NumLocalDofs(*e, k), "one local dof per shape function");
    }
    auto c = s->ComponentFESpace(k);
    lfs_assert(c->Mesh() == m && c->LocGlobMap().NumDofs() == s->LocGlobMap().NumDofs(k), "space of a component");
    for (U cd = 0; cd < 3; cd++) for (auto* e : m->Entities(cd)) lfs_assert(vec(c->LocGlobMap().GlobalDofIndices(*e)) == vec(s->LocGlobMap().ComponentDofHandler(k).GlobalDofIndices(*e)), "dofs of the space of a component");
  }
}
LFS_CASE(factory_triquad) { factory(T_TRIQUAD, 0); }
LFS_CASE(factory_tritri) { factory(T_TRITRI, 1); }
// the signs of prescribed normals
static void signs(int id, bool flip, int vary) {
  auto m = mesh(id, flip, vary);
  projects::dpg::PrescribedSignProvider p(m);
  for (auto* e : m->Entities(1)) {
    int sum = 0, cnt = 0;
    for (auto* c : m->Entities(0))
      for (auto* s : c->SubEntities(1))
        if (s == e) {
          const int v = p.PrescribedSign(*c, *e);
          lfs_assert(v == 1 || v == -1, "a sign is 1 or -1");
          sum += v;
          cnt++;
        }
    lfs_assert(cnt == 1 ? sum == 1 : sum == 0, "prescribed normals agree for the cells of an edge and point outwards on the boundary");
  }
}
LFS_CASE(signs_tritri) { signs(T_TRITRI, true, 9); }
LFS_CASE(signs_triquad) { signs(T_TRIQUAD, true, 9); }
LFS_CASE(signs_fan) { signs(T_FAN, true, 9); }
LFS_CASE(signs_mixed) { signs(T_MIXED, false, 2); }
// inflow and outflow boundary
static void flow(int id, bool flip, int vary) {
  Topo t = baseTopo(id);
  varyCells(t, flip, vary);
  Mat x = points(t, 2, 0);
  auto m = simpleMesh(t, x);
  Eigen::Vector2d b(lfs_real("b", -1, 1), lfs_real("b", -1, 1));
  lf::mesh::utils::MeshFunctionConstant<Eigen::Vector2d> beta(b);
  auto in = projects::dpg::flagEntitiesOnInflowBoundary(m, beta), out = projects::dpg::flagEntitiesOnOutflowBoundary(m, beta);
  for (auto* e : m->Entities(1)) {
    const lf::mesh::Entity* owner = nullptr;
    int cnt = 0;
    for (auto* c : m->Entities(0)) for (auto* s : c->SubEntities(1)) if (s == e) { owner = c; cnt++; }
    if (cnt != 1) {
      lfs_assert(!in(*e) & !out(*e), "edges inside the domain are neither inflow nor outflow");
      continue;
    }
    lfs_assert(in(*e) != out(*e), "every edge of the boundary is either inflow or outflow");
    const int i = m->Index(*e->SubEntities(1)[0]), j = m->Index(*e->SubEntities(1)[1]);
    double nx = x(1, j) - x(1, i), ny = x(0, i) - x(0, j), cx = 0, cy = 0;
    auto nd = owner->SubEntities(2);
    for (auto* v : nd) { cx += x(0, m->Index(*v)) / nd.size(); cy += x(1, m->Index(*v)) / nd.size(); }
    if (nx * (cx - x(0, i)) + ny * (cy - x(1, i)) > 0) { nx = -nx; ny = -ny; }
    const double f = b(0) * nx + b(1) * ny;
    if (in(*e)) lfs_ge_tol(0, f, 1e-9, "flow enters through inflow edges");
    else lfs_ge_tol(f, 0, 1e-9, "flow leaves through outflow edges");
  }
}
LFS_CASE(flow_tri) { flow(T_TRI, true, 9); }
LFS_CASE(flow_quad) { flow(T_QUAD, true, 9); }
LFS_CASE(flow_triquad) { flow(T_TRIQUAD, true, 1); }
LFS_CASE(flow_tritri) { flow(T_TRITRI, true, 2); }
// boundary values of traces and fluxes
static void essential(int id) {
  auto m = mesh(id, false, 1);
  projects::dpg::ProductUniformFESpaceFactory<double> f(m);
  const int order = lfs_choice("order", 2), dt = 1 + lfs_choice("trace", 3), df = lfs_choice("flux", 4);
  int tr, fl;
  f.AddL2Component(1);
  if (order) { tr = f.AddTraceComponent(dt); fl = f.AddFluxComponent(df); }
  else { fl = f.AddFluxComponent(df); tr = f.AddTraceComponent(dt); }
  auto s = f.Build();
  const auto& dh = s->LocGlobMap();
  const int ne = m->NumEntities(1);
  // all sets of edges in turn for one of them, the complement for the other
  const int set = lfs_choice("edges", 1 << ne);
  auto isD = [&](const lf::mesh::Entity& e) { return (set >> m->Index(e)) % 2 == 1; };
  auto isN = [&](const lf::mesh::Entity& e) { return (set >> m->Index(e)) % 2 == 0; };
  double a[3], b[3];
  for (int i = 0; i < 3; i++) { a[i] = lfs_real("g", -1, 1); b[i] = df == 0 && i ? 0 : lfs_real("h", -1, 1); }
  lf::mesh::utils::MeshFunctionGlobal g([&](const Eigen::Vector2d& x) { return a[0] + a[1] * x(0) + a[2] * x(1); });
  lf::mesh::utils::MeshFunctionGlobal h([&](const Eigen::Vector2d& x) { return b[0] + b[1] * x(0) + b[2] * x(1); });
  auto r = projects::dpg::InitEssentialConditionsFromFunctions(*s, tr, fl, isD, isN, g, h);
  lfs_assert(r.size() == dh.NumDofs(), "one flag per dof");
  std::vector<int> want(dh.NumDofs(), 0);
  for (auto* e : m->Entities(1)) {
    const bool D = isD(*e);
    const int k = D ? tr : fl;
    for (U i : dh.ComponentDofHandler(k).GlobalDofIndices(*e)) want[dh.Offset(k) + i] = 1;
  }
  for (U i = 0; i < dh.NumDofs(); i++) lfs_assert(r[i].first == (want[i] == 1), "the dofs of the trace on the first and of the flux on the second set of edges are fixed");
  for (auto* e : m->Entities(1)) {
    const bool D = isD(*e);
    const int k = D ? tr : fl;
    Idx in = vec(dh.ComponentDofHandler(k).GlobalDofIndices(*e));
    auto* l = s->ShapeFunctionLayout(lf::base::RefEl::kSegment(), k);
    for (double p : {0.0, 0.3, 1.0}) {
      Mat q(1, 1);
      q(0, 0) = p;
      Mat v = l->EvalReferenceShapeFunctions(q), x = e->Geometry()->Global(q);
      double sum = 0;
      for (U i = 0; i < in.size(); i++) sum += v(i, 0) * r[dh.Offset(k) + in[i]].second;
      const double* c = D ? a : b;
      lfs_near(sum, c[0] + c[1] * x(0, 0) + c[2] * x(1, 0), 1e-7, "the fixed values represent the given function on the edge");
    }
  }
}
LFS_CASE(essential_tri) { essential(T_TRI); }
LFS_CASE(essential_quad) { essential(T_QUAD); }
