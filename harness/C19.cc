// Element vectors.
// units: core fem
// bound: triangles and parallelograms (base shape and its mirror image, one corner fixed, every other coordinate +- 0.05), straight edges in 2D and 3D; Lagrangian orders 1 to 3, hierarchic degree 1 to 3; source functions affine or (order 2 and 3) quadratic in the position with arbitrary coefficients in [-2,2]; user-chosen quadrature on general cells with one arbitrary node
// outside: curved cells (except straight-sided second-order triangles for the midpoint rule), cells far from the base shapes, complex sources
#include "loc.h"
using namespace harness;
using lf::mesh::utils::MeshFunctionConstant;
using lf::mesh::utils::MeshFunctionGlobal;
static double coef(const char* n) { return lfs_real(n, -2, 2); }
// a polynomial source term of degree at most 2
struct Source {
  double c[6];
  double operator()(const Eigen::VectorXd& x) const { return c[0] + c[1] * x[0] + c[2] * x[1] + c[3] * x[0] * x[0] + c[4] * x[0] * x[1] + c[5] * x[1] * x[1]; }
};
static Source source(int degree) {
  Source s;
  for (int i = 0; i < 6; i++) s.c[i] = i < (degree + 1) * (degree + 2) / 2 ? coef("c") : 0.0;
  return s;
}
static Mat at(const Mat& p, const lf::base::RefEl& re, const Mat& x) {
  Mat r(p.rows(), x.cols());
  for (int k = 0; k < x.cols(); k++)
    for (int d = 0; d < p.rows(); d++)
      r(d, k) = re == lf::base::RefEl::kTria() ? p(d, 0) * (1 - x(0, k) - x(1, k)) + p(d, 1) * x(0, k) + p(d, 2) * x(1, k)
                                               : p(d, 0) * (1 - x(0, k)) * (1 - x(1, k)) + p(d, 1) * x(0, k) * (1 - x(1, k)) + p(d, 2) * x(0, k) * x(1, k) + p(d, 3) * (1 - x(0, k)) * x(1, k);
  return r;
}
// the integral of f times every shape function over an affine cell
static std::vector<double> load(const OneCell& c, const Fe& fe, const Source& f) {
  Mat x;
  std::vector<double> w;
  rule(fe.RefEl(), x, w);
  Mat v = fe.EvalReferenceShapeFunctions(x), g = at(c.p, fe.RefEl(), x);
  const int n = fe.NumRefShapeFunctions();
  std::vector<double> r(n, 0.0);
  for (size_t q = 0; q < w.size(); q++) {
    const double fv = f(Eigen::VectorXd(g.col(q)));
    for (int i = 0; i < n; i++) r[i] += w[q] * v(i, q) * fv;
  }
  for (int i = 0; i < n; i++) r[i] *= c.det;
  return r;
}
static const char* kLoad = "the element vector is the integral of the source times the local shape functions";
template <class V> static void compare(const V& v, const std::vector<double>& want) {
  lfs_assert(v.rows() == (int)want.size() && v.cols() == 1, "size of the element vector");
  for (size_t i = 0; i < want.size(); i++) lfs_near(v(i), want[i], 1e-8, kLoad);
}
static void cell(int shape, int lo, int hi) {
  OneCell c = oneCell(shape, 2, 0.05, lfs_choice("mirror", 2));
  const int order = lo + lfs_choice("order", hi - lo + 1), kind = lfs_choice("space", 3);
  auto lag = lagrange(c.mesh, order);
  SpaceP s = lag;
  if (kind == 2) s = std::make_shared<lf::fe::HierarchicScalarFESpace<double>>(c.mesh, order + 1);
  const lf::mesh::Entity& e = *c.mesh->EntityByIndex(0, 0);
  Source f = source(order == 0 ? 1 : 2);
  MeshFunctionGlobal<Source> mf(f);
  auto want = load(c, *s->ShapeFunctionLayout(e), f);
  if (kind == 0) {
    lf::uscalfe::ScalarLoadElementVectorProvider p(lag, mf);
    lfs_assert(p.isActive(e), "all cells are active");
    compare(p.Eval(e), want);
    compare(p.Eval(e), want);
  } else {
    lf::fe::ScalarLoadElementVectorProvider p(s, mf);
    lfs_assert(p.isActive(e), "all cells are active");
    compare(p.Eval(e), want);
    compare(p.Eval(e), want);
  }
}
LFS_CASE(tria) { cell(0, 0, 1); }
LFS_CASE(tria3) { cell(0, 2, 2); }
LFS_CASE(para) { cell(1, 0, 1); }
LFS_CASE(para3) { cell(1, 2, 2); }
// quadrature rule chosen by the user
static void custom(int shape) {
  Topo t = baseTopo(shape == 0 ? T_TRI : T_QUAD);
  Mat p = points(t, 2, 0);
  const int node = lfs_choice("node", (int)p.cols());
  for (int d = 0; d < 2; d++) p(d, node) += lfs_real("node", -0.05, 0.05);
  auto mesh = simpleMesh(t, p);
  auto s = lagrange(mesh, lfs_choice("order", 3));
  const lf::mesh::Entity& e = *mesh->EntityByIndex(0, 0);
  const lf::base::RefEl re = e.RefEl();
  const Fe& fe = *s->ShapeFunctionLayout(e);
  const int n = fe.NumRefShapeFunctions();
  Source f = source(2);
  Mat x(2, 2);
  x << 0.25, 0.5, 0.125, 0.375;
  Eigen::VectorXd w(2);
  w << 0.375, 0.125;
  std::map<lf::base::RefEl, lf::quad::QuadRule> coll;
  for (auto r : {lf::base::RefEl::kTria(), lf::base::RefEl::kQuad()}) coll.emplace(r, lf::quad::QuadRule(r, x, w, 0));
  lf::uscalfe::ScalarLoadElementVectorProvider<double, MeshFunctionGlobal<Source>> pr(s, MeshFunctionGlobal<Source>(f), coll);
  auto V = pr.Eval(e);
  lfs_assert(V.rows() == n, "size of the element vector");
  std::vector<double> want(n, 0.0);
  Mat g = at(p, re, x), v = fe.EvalReferenceShapeFunctions(x);
  for (int k = 0; k < 2; k++) {
    Mat J(2, 2);
    for (int d = 0; d < 2; d++) {
      if (shape == 0) { J(d, 0) = p(d, 1) - p(d, 0); J(d, 1) = p(d, 2) - p(d, 0); }
      else {
        J(d, 0) = (p(d, 1) - p(d, 0)) * (1 - x(1, k)) + (p(d, 2) - p(d, 3)) * x(1, k);
        J(d, 1) = (p(d, 3) - p(d, 0)) * (1 - x(0, k)) + (p(d, 2) - p(d, 1)) * x(0, k);
      }
    }
    const double det = J(0, 0) * J(1, 1) - J(0, 1) * J(1, 0), fv = f(Eigen::VectorXd(g.col(k)));
    for (int i = 0; i < n; i++) want[i] += w(k) * det * v(i, k) * fv;
  }
  for (int i = 0; i < n; i++) lfs_near(V(i), want[i], 1e-8, "the element vector is the sum over the quadrature points chosen by the user");
}
LFS_CASE(custom_tria) { custom(0); }
LFS_CASE(custom_quad) { custom(1); }
// edge midpoint rule: exact for affine sources on triangles and constant ones on parallelograms
LFS_CASE(midpoint) {
  const int shape = lfs_choice("shape", 2);
  OneCell c = oneCell(shape, 2, 0.05, lfs_choice("mirror", 2));
  const lf::mesh::Entity& e = *c.mesh->EntityByIndex(0, 0);
  auto s = lagrange(c.mesh, S_O1);
  Source f = source(shape == 0 ? 1 : 0);
  lf::uscalfe::LinearFELocalLoadVector<double, MeshFunctionGlobal<Source>> p{MeshFunctionGlobal<Source>(f)};
  lfs_assert(p.isActive(e), "all cells are active");
  auto want = load(c, *s->ShapeFunctionLayout(e), f);
  auto v = p.Eval(e);
  for (size_t i = 0; i < want.size(); i++) lfs_near(v(i), want[i], 1e-8, kLoad);
}
LFS_CASE(midpoint_quadratic_geometry) {
  OneCell c = oneCell(0, 2, 0.05, false);
  Mat q(2, 6);
  for (int d = 0; d < 2; d++) for (int j = 0; j < 3; j++) { q(d, j) = c.p(d, j); q(d, 3 + j) = 0.5 * (c.p(d, j) + c.p(d, (j + 1) % 3)); }
  lf::mesh::hybrid2d::MeshFactory fac(2, false);
  for (int j = 0; j < 3; j++) fac.AddPoint(Eigen::VectorXd(q.col(j)));
  addCell(fac, {0, 1, 2}, std::make_unique<lf::geometry::TriaO2>(q));
  c.mesh = fac.Build();
  const lf::mesh::Entity& e = *c.mesh->EntityByIndex(0, 0);
  Source f = source(1);
  lf::uscalfe::LinearFELocalLoadVector<double, MeshFunctionGlobal<Source>> p{MeshFunctionGlobal<Source>(f)};
  auto want = load(c, *lagrange(c.mesh, S_O1)->ShapeFunctionLayout(e), f);
  auto v = p.Eval(e);
  for (size_t i = 0; i < want.size(); i++) lfs_near(v(i), want[i], 1e-8, kLoad);
}
// edges
static void edges(int wd) {
  Topo t = baseTopo(T_TRI);
  Mat p = points(t, wd, 0);
  const int k = lfs_choice("edge", 3);
  for (int j = 0; j < 2; j++) for (int d = 0; d < wd; d++) p(d, (k + j) % 3) += lfs_real("node", -0.05, 0.05);
  auto mesh = simpleMesh(t, p);
  const lf::mesh::Entity& e = *mesh->EntityByIndex(0, 0)->SubEntities(1)[k];
  const int a = mesh->Index(*e.SubEntities(1)[0]), b = mesh->Index(*e.SubEntities(1)[1]);
  double len2 = 0;
  for (int d = 0; d < wd; d++) len2 += (p(d, b) - p(d, a)) * (p(d, b) - p(d, a));
  const double len = std::sqrt(len2);
  const int kind = lfs_choice("space", 3), order = lfs_choice("order", 3);
  auto lag = lagrange(mesh, order);
  SpaceP s = lag;
  if (kind == 2) s = std::make_shared<lf::fe::HierarchicScalarFESpace<double>>(mesh, order + 1);
  const Fe& fe = *s->ShapeFunctionLayout(e);
  const int n = fe.NumRefShapeFunctions();
  Source f = source(1);
  Mat x;
  std::vector<double> w, want(n, 0.0);
  rule(fe.RefEl(), x, w);
  Mat v = fe.EvalReferenceShapeFunctions(x);
  for (size_t q = 0; q < w.size(); q++) {
    Eigen::VectorXd y(wd);
    for (int d = 0; d < wd; d++) y(d) = p(d, a) * (1 - x(0, q)) + p(d, b) * x(0, q);
    const double fv = f(y);
    for (int i = 0; i < n; i++) want[i] += w[q] * v(i, q) * fv;
  }
  auto test = [&](const auto& V) {
    lfs_assert(V.rows() == n && V.cols() == 1, "size of the edge vector");
    for (int i = 0; i < n; i++) lfs_near(V(i), len * want[i], 1e-8, "the edge vector is the integral of the source times the shape functions of the edge");
  };
  MeshFunctionGlobal<Source> g(f);
  const lf::mesh::Entity* sel = mesh->EntityByIndex(1, lfs_choice("selected", 3));
  auto pred = [sel](const lf::mesh::Entity& x) { return &x == sel; };
  if (kind == 0) {
    lf::uscalfe::ScalarLoadEdgeVectorProvider m(lag, g);
    test(m.Eval(e));
    lf::uscalfe::ScalarLoadEdgeVectorProvider ms(lag, g, pred);
    test(ms.Eval(e));
    for (auto* x : mesh->Entities(1)) lfs_assert(m.isActive(*x) && ms.isActive(*x) == (x == sel), "exactly the selected edges are active");
    lf::uscalfe::ScalarLoadEdgeVectorProvider<double, MeshFunctionGlobal<Source>, decltype(pred)> mq(lag, g, lf::quad::make_QuadRule(lf::base::RefEl::kSegment(), 2 * order + 4), pred);
    test(mq.Eval(e));
    for (auto* x : mesh->Entities(1)) lfs_assert(mq.isActive(*x) == (x == sel), "exactly the selected edges are active");
  } else {
    lf::fe::ScalarLoadEdgeVectorProvider m(s, g);
    test(m.Eval(e));
    lf::fe::ScalarLoadEdgeVectorProvider ms(s, g, pred);
    test(ms.Eval(e));
    for (auto* x : mesh->Entities(1)) lfs_assert(m.isActive(*x) && ms.isActive(*x) == (x == sel), "exactly the selected edges are active");
  }
}
LFS_CASE(edges_2d) { edges(2); }
LFS_CASE_THOROUGH(edges_3d) { edges(3); }
