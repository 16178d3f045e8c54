// Element matrices.
// units: core fem
// bound: triangles and parallelograms (base shape and its mirror image, one corner fixed, every other coordinate +- 0.05), flat triangles in 3D with one coordinate +- 0.1, straight edges in 2D and 3D; Lagrangian orders 1 to 3, hierarchic degree 1 to 3 (quick: 1 to 2 for quadrilaterals); constant scalar and arbitrary (also nonsymmetric) tensor diffusion coefficients and reaction coefficients in [-2,2], affine scalar diffusion coefficients; user-chosen quadrature on general triangles and quadrilaterals with one arbitrary node
// outside: curved cells, cells far from the base shapes, coefficients for which the quadrature is not exact, complex coefficients
#include "loc.h"
using namespace harness;
using lf::mesh::utils::MeshFunctionConstant;
using lf::mesh::utils::MeshFunctionGlobal;
static double coef(const char* n) { return lfs_real(n, -2, 2); }
template <class M> static void compare(const M& a, int n, const std::function<double(int, int)>& want, const char* msg) {
  lfs_assert(a.rows() == n && a.cols() == n, "size of the element matrix");
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) lfs_near(a(i, j), want(i, j), 1e-8, msg);
}
struct Form {
  double A[2][2], K[2][2], gamma;
  RefInt R;
  OneCell c;
  double diff(int i, int j) const {
    double s = 0;
    for (int r = 0; r < 2; r++) for (int t = 0; t < 2; t++) s += K[r][t] * R.g[2 * r + t](i, j);
    return s;
  }
  double mass(int i, int j) const { return gamma * c.det * R.m(i, j); }
};
static const char* kDiff = "the element matrix is the diffusion form on the local shape functions";
static const char* kMass = "the element matrix is the mass form on the local shape functions";
static const char* kRD = "the element matrix is the reaction-diffusion form on the local shape functions";
static void form(Form& f, const Fe& fe, bool tensor) {
  const double a = coef("a");
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) f.A[i][j] = tensor ? coef("A") : i == j ? a : 0.0;
  f.gamma = coef("gamma");
  pullback(f.c, f.A, f.K);
  f.R = refInt(fe);
}
static Eigen::Matrix2d mat2(const double A[2][2]) { Eigen::Matrix2d m; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) m(i, j) = A[i][j]; return m; }
static void general(std::shared_ptr<const Space> s, Form& f, bool tensor) {
  const lf::mesh::Entity& e = *f.c.mesh->EntityByIndex(0, 0);
  form(f, *s->ShapeFunctionLayout(e), tensor);
  lf::fe::MassElementMatrixProvider m(s, MeshFunctionConstant<double>(f.gamma));
  lfs_assert(m.isActive(e), "all cells are active");
  compare(m.Eval(e), f.R.n, [&](int i, int j) { return f.mass(i, j); }, kMass);
  if (tensor) {
    lf::fe::DiffusionElementMatrixProvider d(s, MeshFunctionConstant<Eigen::Matrix2d>(mat2(f.A)));
    compare(d.Eval(e), f.R.n, [&](int i, int j) { return f.diff(i, j); }, kDiff);
  } else {
    lf::fe::DiffusionElementMatrixProvider d(s, MeshFunctionConstant<double>(f.A[0][0]));
    lfs_assert(d.isActive(e), "all cells are active");
    compare(d.Eval(e), f.R.n, [&](int i, int j) { return f.diff(i, j); }, kDiff);
  }
}
static void hierarchic(int shape, int lo, int hi) {
  Form f;
  f.c = oneCell(shape, 2, 0.05, lfs_choice("mirror", 2));
  general(std::make_shared<lf::fe::HierarchicScalarFESpace<double>>(f.c.mesh, lo + lfs_choice("degree", hi - lo + 1)), f, lfs_choice("tensor", 2));
}
LFS_CASE(hierarchic_tria) { hierarchic(0, 1, 3); }
LFS_CASE(hierarchic_para) { hierarchic(1, 1, 2); }
LFS_CASE_THOROUGH(hierarchic_para3) { hierarchic(1, 3, 3); }
LFS_CASE_THOROUGH(hierarchic_tria4) { hierarchic(0, 4, 4); }
static void lagrangian(int shape, int lo, int hi) {
  Form f;
  f.c = oneCell(shape, 2, 0.05, lfs_choice("mirror", 2));
  auto s = lagrange(f.c.mesh, lo + lfs_choice("order", hi - lo + 1));
  const bool tensor = lfs_choice("tensor", 2);
  const lf::mesh::Entity& e = *f.c.mesh->EntityByIndex(0, 0);
  if (lfs_choice("module", 2)) { general(s, f, tensor); return; }
  form(f, *s->ShapeFunctionLayout(e), tensor);
  auto want = [&](int i, int j) { return f.diff(i, j) + f.mass(i, j); };
  if (tensor) {
    lf::uscalfe::ReactionDiffusionElementMatrixProvider p(s, MeshFunctionConstant<Eigen::Matrix2d>(mat2(f.A)), MeshFunctionConstant<double>(f.gamma));
    compare(p.Eval(e), f.R.n, want, kRD);
  } else {
    lf::uscalfe::ReactionDiffusionElementMatrixProvider p(s, MeshFunctionConstant<double>(f.A[0][0]), MeshFunctionConstant<double>(f.gamma));
    lfs_assert(p.isActive(e), "all cells are active");
    compare(p.Eval(e), f.R.n, want, kRD);
    // a second evaluation gives the same
    compare(p.Eval(e), f.R.n, want, kRD);
  }
}
LFS_CASE(lagrange_tria) { lagrangian(0, 0, 1); }
LFS_CASE(lagrange_tria3) { lagrangian(0, 2, 2); }
LFS_CASE(lagrange_para) { lagrangian(1, 0, 1); }
LFS_CASE_THOROUGH(lagrange_para3) { lagrangian(1, 2, 2); }
LFS_CASE(laplace) {
  const int shape = lfs_choice("shape", 2);
  Form f;
  f.c = oneCell(shape, 2, 0.05, lfs_choice("mirror", 2));
  auto s = lagrange(f.c.mesh, S_O1);
  const lf::mesh::Entity& e = *f.c.mesh->EntityByIndex(0, 0);
  f.gamma = 0;
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) f.A[i][j] = i == j;
  pullback(f.c, f.A, f.K);
  f.R = refInt(*s->ShapeFunctionLayout(e));
  lf::uscalfe::LinearFELaplaceElementMatrix p;
  lfs_assert(p.isActive(e), "all cells are active");
  auto m = p.Eval(e);
  for (int i = 0; i < f.R.n; i++) for (int j = 0; j < f.R.n; j++) lfs_near(m(i, j), f.diff(i, j), 1e-8, "the element matrix is the Laplace form on the local shape functions");
}
// surfaces: flat cells in space
LFS_CASE(surface) {
  Form f;
  {
    const int shape = 0;
    Topo t = baseTopo(shape == 0 ? T_TRI : T_QUAD);
    Mat p = points(t, 3, 0);
    const int corner = lfs_choice("corner", 3), dir = lfs_choice("direction", 3);
    p(dir, shape == 1 && corner == 2 ? 3 : corner) += lfs_real("node", -0.1, 0.1);
    if (shape == 1) for (int d = 0; d < 3; d++) p(d, 2) = p(d, 1) + p(d, 3) - p(d, 0);
    f.c.mesh = simpleMesh(t, p);
    f.c.J.resize(3, 2);
    for (int d = 0; d < 3; d++) { f.c.J(d, 0) = p(d, 1) - p(d, 0); f.c.J(d, 1) = p(d, shape == 0 ? 2 : 3) - p(d, 0); }
  }
  const Mat& J = f.c.J;
  auto s = lagrange(f.c.mesh, S_O1);
  const lf::mesh::Entity& e = *f.c.mesh->EntityByIndex(0, 0);
  const double a = coef("a"), gamma = coef("gamma");
  RefInt R = refInt(*s->ShapeFunctionLayout(e));
  double G[2][2];
  for (int r = 0; r < 2; r++) for (int t = 0; t < 2; t++) { G[r][t] = 0; for (int d = 0; d < 3; d++) G[r][t] += J(d, r) * J(d, t); }
  const double area2 = G[0][0] * G[1][1] - G[0][1] * G[1][0], area = std::sqrt(area2);
  lf::fe::DiffusionElementMatrixProvider d(SpaceP{s}, MeshFunctionConstant<double>(a));
  lf::fe::MassElementMatrixProvider m(SpaceP{s}, MeshFunctionConstant<double>(gamma));
  auto D = d.Eval(e);
  auto M = m.Eval(e);
  lfs_assert(D.rows() == R.n && D.cols() == R.n && M.rows() == R.n && M.cols() == R.n, "size of the element matrix");
  for (int i = 0; i < R.n; i++)
    for (int j = 0; j < R.n; j++) {
      const double k = G[1][1] * R.g[0](i, j) - G[0][1] * (R.g[1](i, j) + R.g[2](i, j)) + G[0][0] * R.g[3](i, j);
      lfs_near(D(i, j) * area, a * k, 1e-8, kDiff);
      lfs_near(M(i, j), gamma * area * R.m(i, j), 1e-8, kMass);
    }
}
// coefficients that are affine functions of the position: the quadrature is still exact for the diffusion form
LFS_CASE(variable_coefficient) {
  OneCell c = oneCell(0, 2, 0.03, false);
  const int order = lfs_thorough() ? lfs_choice("order", 3) : lfs_choice("order", 2);
  auto s = lagrange(c.mesh, order);
  const lf::mesh::Entity& e = *c.mesh->EntityByIndex(0, 0);
  const double a0 = coef("a0"), a1 = coef("a1"), a2 = coef("a2");
  auto alpha = [=](const Eigen::Vector2d& x) -> double { return a0 + a1 * x[0] + a2 * x[1]; };
  MeshFunctionGlobal<decltype(alpha)> mf(alpha);
  // int a(x) d_r b_i d_s b_j = sum_k a(corner k) int lambda_k d_r b_i d_s b_j
  const Fe& fe = *s->ShapeFunctionLayout(e);
  Mat x;
  std::vector<double> w;
  rule(fe.RefEl(), x, w);
  Mat g = fe.GradientsReferenceShapeFunctions(x);
  const int n = fe.NumRefShapeFunctions();
  double I[2][2] = {{1, 0}, {0, 1}}, K[2][2];
  pullback(c, I, K);
  Mat want = Mat::Zero(n, n);
  for (int k = 0; k < 3; k++) {
    Mat R[4] = {Mat::Zero(n, n), Mat::Zero(n, n), Mat::Zero(n, n), Mat::Zero(n, n)};
    for (size_t q = 0; q < w.size(); q++) {
      const double lam = k == 0 ? 1 - x(0, q) - x(1, q) : x(k - 1, q);
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int r = 0; r < 4; r++) R[r](i, j) += w[q] * lam * g(i, 2 * q + r / 2) * g(j, 2 * q + r % 2);
    }
    const double ak = a0 + a1 * c.p(0, k) + a2 * c.p(1, k);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int r = 0; r < 4; r++) want(i, j) += ak * K[r / 2][r % 2] * R[r](i, j);
  }
  if (lfs_choice("module", 2)) {
    lf::fe::DiffusionElementMatrixProvider d(SpaceP{s}, mf);
    compare(d.Eval(e), n, [&](int i, int j) { return want(i, j); }, kDiff);
  } else {
    lf::uscalfe::ReactionDiffusionElementMatrixProvider d(s, mf, MeshFunctionConstant<double>(0.0));
    compare(d.Eval(e), n, [&](int i, int j) { return want(i, j); }, kDiff);
  }
}
// a quadrature rule chosen by the user is the one that is used, on cells of any shape
static void custom(int shape, double r) {
  Topo t = baseTopo(shape == 0 ? T_TRI : T_QUAD);
  Mat p = points(t, 2, 0);
  const int node = lfs_choice("node", (int)p.cols());
  for (int d = 0; d < 2; d++) p(d, node) += lfs_real("node", -r, r);
  auto mesh = simpleMesh(t, p);
  auto s = lagrange(mesh, lfs_choice("order", 2));
  const lf::mesh::Entity& e = *mesh->EntityByIndex(0, 0);
  const lf::base::RefEl re = e.RefEl();
  const Fe& fe = *s->ShapeFunctionLayout(e);
  const int n = fe.NumRefShapeFunctions();
  const double a = coef("a"), gamma = coef("gamma");
  Mat x(2, 2);
  x << 0.25, 0.5, 0.125, 0.375;
  Eigen::VectorXd w(2);
  w << 0.375, 0.125;
  lf::quad::QuadRule q(re, x, w, 0);
  std::map<lf::base::RefEl, lf::quad::QuadRule> coll{{re, q}};
  lf::uscalfe::ReactionDiffusionElementMatrixProvider pr(s, MeshFunctionConstant<double>(a), MeshFunctionConstant<double>(gamma), coll);
  auto M = pr.Eval(e);
  lfs_assert(M.rows() == n && M.cols() == n, "size of the element matrix");
  Mat want = Mat::Zero(n, n);
  for (int k = 0; k < 2; k++) {
    Mat J(2, 2);
    for (int d = 0; d < 2; d++) {
      if (shape == 0) { J(d, 0) = p(d, 1) - p(d, 0); J(d, 1) = p(d, 2) - p(d, 0); }
      else {
        J(d, 0) = (p(d, 1) - p(d, 0)) * (1 - x(1, k)) + (p(d, 2) - p(d, 3)) * x(1, k);
        J(d, 1) = (p(d, 3) - p(d, 0)) * (1 - x(0, k)) + (p(d, 2) - p(d, 1)) * x(0, k);
      }
    }
    const double det = J(0, 0) * J(1, 1) - J(0, 1) * J(1, 0);
    Mat v = fe.EvalReferenceShapeFunctions(Mat(x.col(k))), g = fe.GradientsReferenceShapeFunctions(Mat(x.col(k)));
    Mat h(n, 2);  // gradients times det
    for (int i = 0; i < n; i++) { h(i, 0) = J(1, 1) * g(i, 0) - J(1, 0) * g(i, 1); h(i, 1) = -J(0, 1) * g(i, 0) + J(0, 0) * g(i, 1); }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) want(i, j) += w(k) * (a * (h(i, 0) * h(j, 0) + h(i, 1) * h(j, 1)) / det + gamma * v(i, 0) * v(j, 0) * det);
  }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) lfs_near(M(i, j), want(i, j), 1e-8, "the element matrix is the sum over the quadrature points chosen by the user");
}
LFS_CASE(custom_tria) { custom(0, 0.05); }
LFS_CASE(custom_quad) { custom(1, 0.05); }
// edges
static void edges(int wd) {
  Topo t = baseTopo(T_TRI);
  Mat p = points(t, wd, 0);
  const int k = lfs_choice("edge", 3);
  for (int j = 0; j < 2; j++) for (int d = 0; d < wd; d++) p(d, (k + j) % 3) += lfs_real("node", -0.05, 0.05);
  auto mesh = simpleMesh(t, p);
  const lf::mesh::Entity& e = *mesh->EntityByIndex(0, 0)->SubEntities(1)[k];
  const double gamma = coef("gamma");
  double len2 = 0;
  for (int d = 0; d < wd; d++) len2 += (p(d, (k + 1) % 3) - p(d, k)) * (p(d, (k + 1) % 3) - p(d, k));
  const double len = std::sqrt(len2);
  const int kind = lfs_choice("space", 3), order = lfs_choice("order", 3);
  auto lag = lagrange(mesh, order);
  std::shared_ptr<const Space> s = lag;
  if (kind == 2) s = std::make_shared<lf::fe::HierarchicScalarFESpace<double>>(mesh, order + 1);
  RefInt R = refInt(*s->ShapeFunctionLayout(e));
  auto test = [&](const auto& M) {
    lfs_assert(M.rows() == R.n && M.cols() == R.n, "size of the edge matrix");
    for (int i = 0; i < R.n; i++) for (int j = 0; j < R.n; j++) lfs_near(M(i, j), gamma * len * R.m(i, j), 1e-8, "the edge matrix is the mass form on the shape functions of the edge");
  };
  MeshFunctionConstant<double> g(gamma);
  const lf::mesh::Entity* sel = mesh->EntityByIndex(1, lfs_choice("selected", 3));
  auto pred = [sel](const lf::mesh::Entity& x) { return &x == sel; };
  if (kind == 0) {
    lf::uscalfe::MassEdgeMatrixProvider m(lag, g);
    test(m.Eval(e));
    lf::uscalfe::MassEdgeMatrixProvider ms(lag, g, pred);
    test(ms.Eval(e));
    for (auto* x : mesh->Entities(1)) lfs_assert(m.isActive(*x) && ms.isActive(*x) == (x == sel), "exactly the selected edges are active");
    lf::uscalfe::MassEdgeMatrixProvider<double, MeshFunctionConstant<double>, decltype(pred)> mq(lag, g, lf::quad::make_QuadRule(lf::base::RefEl::kSegment(), 2 * order + 4), pred);
    test(mq.Eval(e));
    for (auto* x : mesh->Entities(1)) lfs_assert(mq.isActive(*x) == (x == sel), "exactly the selected edges are active");
  } else {
    lf::fe::MassEdgeMatrixProvider m(s, g);
    test(m.Eval(e));
    lf::fe::MassEdgeMatrixProvider ms(s, g, pred);
    test(ms.Eval(e));
    for (auto* x : mesh->Entities(1)) lfs_assert(m.isActive(*x) && ms.isActive(*x) == (x == sel), "exactly the selected edges are active");
  }
}
LFS_CASE(edges_2d) { edges(2); }
LFS_CASE(edges_3d) { edges(3); }
