// Transfer of mesh functions to refined meshes.
// units: core refine fem
// bound: one or two cells (triangles, parallelograms, both); every subset of marked edges, regular and barycentric refinement in the first step, marking of one edge, of all or of every second edge in the second; transfers over one and two levels; every point of every cell, edge and node of the fine mesh; polynomials of degree 2 with arbitrary coefficients and moving vertices, cell-wise arbitrary values, finite element functions of order 1 to 3 with arbitrary coefficients
// outside: more levels and larger meshes; quadrilaterals that are not parallelograms (the child triangles of such cells are not positioned affinely) and meshes embedded in space; prolongation into spaces that are not nested (quadrilaterals split into triangles for orders above 1)
#include "fespace.h"
#include "refine.h"
#include <lf/fe/prolongation.h>
#include <lf/refinement/mesh_function_transfer.h>
using namespace harness;
namespace mfu = lf::mesh::utils;
enum { B_TRI, B_PARA, B_TRITRI, B_TRIPARA, B_PARAPARA, NBASE };
static Topo base(int id) {
  switch (id) {
    case B_TRI: return {{{0, 0.125}, {1, 0.5}, {0.5, 1.75}}, {{0, 1, 2}}};
    case B_PARA: return {{{0, 0}, {1, 0.25}, {1.5, 1.75}, {0.5, 1.5}}, {{0, 1, 2, 3}}};
    case B_TRITRI: return {{{0, 0.125}, {1, 0.5}, {0.5, 1.75}, {1.5, 2}}, {{0, 1, 2}, {2, 1, 3}}};
    case B_TRIPARA: return {{{0, 0}, {1, 0.25}, {1.5, 1.75}, {0.5, 1.5}, {2.25, 1}}, {{0, 1, 2, 3}, {1, 4, 2}}};
    default: return {{{0, 0}, {1, 0.25}, {1.5, 1.75}, {0.5, 1.5}, {2.25, 0.25}, {2.75, 1.75}}, {{0, 1, 2, 3}, {1, 4, 5, 2}}};
  }
}
// one refinement step; kinds: 0 every subset of marked edges, 1 regular, 2 barycentric, 3.. one edge, all edges, every second edge
static void refineAny(Hier& h, bool all) {
  const U n = h.getMesh(h.NumLevels() - 1)->NumEntities(1);
  if (all) {
    const int k = lfs_choice("refinement", (1 << n) + 1);
    if (k == 0) { h.RefineRegular(); return; }
    if (k == (1 << n)) { h.RefineRegular(lf::refinement::RefPat::rp_barycentric); return; }
    std::set<U> s;
    for (U i = 0; i < n; i++) if (k >> i & 1) s.insert(i);
    refineMarked(h, s);
    return;
  }
  const int k = lfs_choice("second", 4);
  std::set<U> s;
  if (k == 0) { h.RefineRegular(); return; }
  for (U i = 0; i < n; i++) if (k == 1 ? i == 0 : k == 2 ? i == n - 1 : i % 2 == 0) s.insert(i);
  refineMarked(h, s);
}
// ancestor cell on level l of a cell of level L
static U ancestor(const Hier& h, U L, U l, U i) {
  for (U k = L; k > l; k--) i = h.ParentInfos(k, 0)[i].parent_index;
  return i;
}
// coordinates of physical points in an affine cell
static Mat locate(const Entity& cell, const Mat& y) {
  Mat c = cell.Geometry()->Global(cell.RefEl().NodeCoords());
  const int last = c.cols() - 1;
  const double a = c(0, 1) - c(0, 0), b = c(0, last) - c(0, 0), d = c(1, 1) - c(1, 0), e = c(1, last) - c(1, 0), det = a * e - b * d;
  Mat x(2, y.cols());
  for (int k = 0; k < y.cols(); k++) {
    const double u = y(0, k) - c(0, 0), v = y(1, k) - c(1, 0);
    x(0, k) = (u * e - v * b) / det;
    x(1, k) = (v * a - u * d) / det;
  }
  return x;
}
struct Levels { std::shared_ptr<Hier> h; U lo, hi; };
static Levels levels(int id, double r, bool two) {
  Topo t = base(id);
  Mat p = points(t, 2, r);
  if (r > 0) for (auto& c : t.cells) if (c.size() == 4) p.col(c[2]) = p.col(c[1]) + p.col(c[3]) - p.col(c[0]);
  Levels l;
  l.h = hierarchy(simpleMesh(t, p));
  refineAny(*l.h, !two || id == B_TRI || id == B_PARA);
  l.lo = 0;
  if (two) { refineAny(*l.h, false); l.lo = lfs_choice("from", 2); }
  l.hi = l.h->NumLevels() - 1;
  if (two && l.lo == 0) l.hi = 1 + lfs_choice("to", 2);
  return l;
}
// --- a function of the position
static void global(int id, double r, bool two) {
  Levels L = levels(id, r, two);
  double c[6];
  for (double& v : c) v = lfs_real("poly", -1, 1);
  auto p = [&](double x, double y) { return c[0] + c[1] * x + c[2] * y + c[3] * x * y + c[4] * x * x + c[5] * y * y; };
  mfu::MeshFunctionGlobal f([&](const Eigen::Vector2d& x) { return p(x(0), x(1)); });
  lf::refinement::MeshFunctionTransfer t(*L.h, f, L.lo, L.hi);
  const auto m = L.h->getMesh(L.hi);
  lfs_assert(t.getMesh() == m, "the transferred function lives on the fine mesh");
  for (int cd = 0; cd < 3; cd++)
    for (const Entity* e : m->Entities(cd)) {
      const int np = cd == 2 ? 1 : 2;
      Mat x = refPoint(e->RefEl(), np), nc = e->Geometry()->Global(e->RefEl().NodeCoords());
      auto v = t(*e, x);
      lfs_assert((int)v.size() == np, "one value per point");
      for (int k = 0; k < np; k++) {
        double y[2];
        for (int d = 0; d < 2; d++) {
          if (cd == 2) y[d] = nc(d, 0);
          else if (cd == 1) y[d] = nc(d, 0) + x(0, k) * (nc(d, 1) - nc(d, 0));
          else y[d] = nc(d, 0) + x(0, k) * (nc(d, 1) - nc(d, 0)) + x(1, k) * (nc(d, nc.cols() - 1) - nc(d, 0)) + (nc.cols() == 4 ? x(0, k) * x(1, k) * (nc(d, 0) - nc(d, 1) + nc(d, 2) - nc(d, 3)) : 0.0);
        }
        lfs_near(v[k], p(y[0], y[1]), 1e-8, "value at the same physical point");
      }
    }
}
LFS_CASE(position_tri) { global(B_TRI, 0.02, false); }
LFS_CASE(position_para) { global(B_PARA, 0.02, false); }
LFS_CASE(position_tritri) { global(B_TRITRI, 0, false); }
LFS_CASE(position_tripara) { global(B_TRIPARA, 0, false); }
LFS_CASE(position_parapara) { global(B_PARAPARA, 0, false); }
LFS_CASE(position_two_levels) { global(lfs_choice("base", 4), 0, true); }
// --- values that differ from cell to cell
struct Cellwise {
  const Mesh* m;
  std::vector<double> val;
  std::shared_ptr<const Mesh> mesh;
  std::vector<double> operator()(const Entity& e, const Mat& x) const {
    lfs_assert(e.Codim() == 0 && m->Contains(e), "the original function is evaluated on cells of its own mesh");
    Mat y = e.Geometry()->Global(x);
    std::vector<double> r;
    for (int k = 0; k < x.cols(); k++) r.push_back(val[m->Index(e)] * (1 + y(0, k)));
    return r;
  }
  [[nodiscard]] std::shared_ptr<const Mesh> getMesh() const { return mesh; }
};
LFS_CASE(cellwise) {
  Levels L = levels(lfs_choice("base", 4), 0, lfs_choice("levels", 2));
  Cellwise f;
  f.mesh = L.h->getMesh(L.lo);
  f.m = f.mesh.get();
  for (U i = 0; i < f.m->NumEntities(0); i++) f.val.push_back(lfs_real("value", -1, 1));
  lf::refinement::MeshFunctionTransfer t(*L.h, f, L.lo, L.hi);
  const auto m = L.h->getMesh(L.hi);
  lfs_assert(t.getMesh() == m, "the transferred function lives on the fine mesh");
  for (const Entity* e : m->Entities(0)) {
    Mat x = refPoint(e->RefEl(), 1), y = e->Geometry()->Global(x);
    lfs_near(t(*e, x)[0], f.val[ancestor(*L.h, L.hi, L.lo, m->Index(*e))] * (1 + y(0, 0)), 1e-8, "a child cell gets the values of its ancestor");
  }
}
// --- finite element functions
static double coarseValue(const Levels& L, const Space& s, const Eigen::VectorXd& c, const Entity& fineCell, const Mat& x) {
  const auto m = L.h->getMesh(L.hi);
  const Entity* a = L.h->getMesh(L.lo)->EntityByIndex(0, ancestor(*L.h, L.hi, L.lo, m->Index(fineCell)));
  return valueOn(s, c, *a, locate(*a, fineCell.Geometry()->Global(x)));
}
static void fe(int id, bool two, int maxOrder) {
  Levels L = levels(id, 0, two);
  auto s = lagrange(L.h->getMesh(L.lo), lfs_choice("order", maxOrder));
  Eigen::VectorXd c = coeffs(s->LocGlobMap().NumDofs());
  lf::fe::MeshFunctionFE f(s, c);
  lf::refinement::MeshFunctionTransfer t(*L.h, f, L.lo, L.hi);
  const auto m = L.h->getMesh(L.hi);
  lfs_assert(t.getMesh() == m, "the transferred function lives on the fine mesh");
  for (const Entity* e : m->Entities(0)) {
    Mat x = refPoint(e->RefEl(), 1);
    lfs_near(t(*e, x)[0], coarseValue(L, *s, c, *e, x), 1e-7, "value of the function at the same physical point of the coarse mesh");
    // on the boundary of the cell
    for (U i = 0; i < e->RefEl().NumNodes(); i++) {
      Mat q(1, 1);
      q(0, 0) = lfs_real("s", 0, 1);
      const Entity* ed = e->SubEntities(1)[i];
      Mat on = onCell(*e, i, q(0, 0));
      lfs_near(t(*ed, q)[0], coarseValue(L, *s, c, *e, on), 1e-7, "value of the function on an edge of the fine mesh");
      lfs_near(t(*e->SubEntities(2)[i], Mat(0, 1))[0], coarseValue(L, *s, c, *e, Mat(e->RefEl().NodeCoords().col(i))), 1e-7, "value of the function at a node of the fine mesh");
    }
  }
}
LFS_CASE(fe_tri) { fe(B_TRI, false, 3); }
LFS_CASE(fe_para) { fe(B_PARA, false, 3); }
LFS_CASE(fe_tritri) { fe(B_TRITRI, false, 3); }
LFS_CASE(fe_tripara) { fe(B_TRIPARA, false, 3); }
LFS_CASE(fe_two_levels) { fe(lfs_choice("base", 4), true, 3); }
// --- prolongation
static void prolong(int id, bool two, bool hierarchic) {
  Levels L = levels(id, 0, two);
  if (L.hi != L.lo + 1) return;
  const int k = lfs_choice("order", 3), kf = k + (k < 2 ? lfs_choice("finer", 2) : 0);
  SpaceP s = lagrange(L.h->getMesh(L.lo), k), t;
  if (hierarchic) t = std::make_shared<lf::fe::HierarchicScalarFESpace<double>>(L.h->getMesh(L.hi), (U)kf + 1);
  else t = lagrange(L.h->getMesh(L.hi), kf);
  Eigen::VectorXd c = coeffs(s->LocGlobMap().NumDofs());
  Eigen::VectorXd r = lf::fe::prolongate(*L.h, s, t, c, L.lo);
  lfs_assert(r.size() == t->LocGlobMap().NumDofs(), "one coefficient per dof of the fine space");
  const auto m = L.h->getMesh(L.hi);
  for (const Entity* e : m->Entities(0)) {
    const Entity* a = L.h->getMesh(L.lo)->EntityByIndex(0, ancestor(*L.h, L.hi, L.lo, m->Index(*e)));
    if (a->RefEl() != e->RefEl()) {
      // not nested: agreement at the nodes (a Lagrangian interpolant)
      if (hierarchic) continue;
      Mat n = t->ShapeFunctionLayout(*e)->EvaluationNodes();
      for (int j = 0; j < n.cols(); j++) lfs_near(valueOn(*t, r, *e, Mat(n.col(j))), coarseValue(L, *s, c, *e, Mat(n.col(j))), 1e-7, "the prolongated function agrees at the nodes of the fine space");
      continue;
    }
    // an edge or corner shared with another type of cell may be interpolated there, but the traces are nested
    Mat x = refPoint(e->RefEl(), 1);
    lfs_near(valueOn(*t, r, *e, x), coarseValue(L, *s, c, *e, x), 1e-7, "the prolongated function is the coarse function");
  }
}
LFS_CASE(prolong_tri) { prolong(B_TRI, false, lfs_choice("hierarchic", 2)); }
LFS_CASE(prolong_para) { prolong(B_PARA, false, false); }
LFS_CASE(prolong_tritri) { prolong(B_TRITRI, false, false); }
LFS_CASE(prolong_tripara) { prolong(B_TRIPARA, false, false); }
LFS_CASE(prolong_two_levels) { prolong(B_TRITRI, true, false); }
