// Finite element functions, nodal projection, integration and boundary interpolation.
// units: core fem
// bound: one to three cells (triangles, quadrilaterals, both), Lagrangian spaces of order 1 to 3 and hierarchic spaces of degree 1 to 4 (also varying), arbitrary coefficients in [-1,1] (real and complex), one or two arbitrary evaluation points on every cell, edge and node; gradients for vertices moved by up to 0.1 (planar, single cells) and on concrete meshes in the plane and in space (quadrilaterals in space: 49 points); arbitrary subsets of selected cells or edges; integrands with arbitrary values at every quadrature point, of scalar, complex, fixed-size (column- and row-major), dynamic and user-defined type
// outside: larger meshes; complex shape functions and nodal projection of complex functions (they do not compile); tolerance 1e-8
#include <complex>
#include "fespace.h"
#include "loc.h"
using namespace harness;
using C = std::complex<double>;
namespace mfu = lf::mesh::utils;
using lf::mesh::Entity;
static SpaceP space(const MeshP& m, int id) {
  if (id < 3) return lagrange(m, id);
  if (id < 7) return std::make_shared<lf::fe::HierarchicScalarFESpace<double>>(m, (U)(id - 2));
  return std::make_shared<lf::fe::HierarchicScalarFESpace<double>>(m, [m](const Entity& e) -> U { return e.Codim() == 2 ? 1 : 1 + (m->Index(e) + e.Codim()) % 3; });
}
enum { NSPACE = 8 };
static MeshP mesh(int wd = 2, bool vary = true) {
  const int id[3] = {T_TRIQUAD, T_TRITRI, T_QUADQUAD};
  Topo t = baseTopo(id[lfs_choice("mesh", 3)]);
  if (vary) varyCells(t, true, 1);
  return simpleMesh(t, points(t, wd, 0));
}
template <class S> static Eigen::Matrix<S, Eigen::Dynamic, 1> anyCoeffs(int n) {
  Eigen::Matrix<S, Eigen::Dynamic, 1> c(n);
  for (int i = 0; i < n; i++) {
    if constexpr (std::is_same_v<S, C>) { double re = lfs_real("re", -1, 1), im = lfs_real("im", -1, 1); c(i) = C(re, im); }
    else c(i) = lfs_real("coeff", -1, 1);
  }
  return c;
}
static Eigen::VectorXd part(const Eigen::VectorXd& c, bool) { return c; }
static Eigen::VectorXd part(const Eigen::VectorXcd& c, bool im) { return im ? Eigen::VectorXd(c.imag()) : Eigen::VectorXd(c.real()); }
static double part(double a, bool) { return a; }
static double part(C a, bool im) { return im ? a.imag() : a.real(); }
template <class S> static void value() {
  MeshP m = mesh(2);
  SpaceP s = space(m, lfs_choice("space", NSPACE));
  auto c = anyCoeffs<S>(s->LocGlobMap().NumDofs());
  lf::fe::MeshFunctionFE<double, S> f(s, c);
  lfs_assert(f.getMesh() == m && f.getFESpace() == s, "underlying mesh and space");
  const int codim = lfs_choice("codim", 3);
  for (const Entity* e : m->Entities(codim)) {
    const int np = 2;
    Mat x = refPoint(e->RefEl(), np);
    auto v = f(*e, x);
    lfs_assert((int)v.size() == np, "one value per point");
    for (int k = 0; k < np; k++)
      for (int im = 0; im < (std::is_same_v<S, C> ? 2 : 1); im++)
        lfs_near(part(v[k], im), valueOn(*s, part(c, im), *e, Mat(x.col(k))), 1e-9, "value of a finite element function");
  }
}
LFS_CASE(value_real) { value<double>(); }
LFS_CASE(value_complex) { value<C>(); }
// gradients: the chain rule with the derivatives of the values
template <class S> static void gradOn(const SpaceP& s, const Entity& e, int wd, int degree, int np, bool concrete = false) {
  auto c = anyCoeffs<S>(s->LocGlobMap().NumDofs());
  lf::fe::MeshFunctionGradFE<double, S> g(s, c);
  lfs_assert(g.getMesh() == s->Mesh() && g.getFESpace() == s, "underlying mesh and space");
  const int dim = e.RefEl().Dimension();
  Mat x;
  if (concrete) { x.resize(2, np); for (int k = 0; k < np; k++) { x(0, k) = 0.125 * (1 + lfs_choice("x", 7)); x(1, k) = 0.125 * (1 + lfs_choice("y", 7)); } }
  else x = refPoint(e.RefEl(), np);
  auto v = g(e, x);
  lfs_assert((int)v.size() == np, "one gradient per point");
  Mat nc = e.Geometry()->Global(e.RefEl().NodeCoords());
  for (int k = 0; k < np; k++) {
    lfs_assert(v[k].rows() == wd && v[k].cols() == 1, "a gradient is a vector of the physical space");
    // Jacobian from the corners
    Mat J(wd, dim);
    for (int d = 0; d < wd; d++) {
      if (e.RefEl() == lf::base::RefEl::kQuad()) {
        J(d, 0) = (1 - x(1, k)) * (nc(d, 1) - nc(d, 0)) + x(1, k) * (nc(d, 2) - nc(d, 3));
        J(d, 1) = (1 - x(0, k)) * (nc(d, 3) - nc(d, 0)) + x(0, k) * (nc(d, 2) - nc(d, 1));
      } else for (int r = 0; r < dim; r++) J(d, r) = nc(d, r + 1) - nc(d, 0);
    }
    for (int im = 0; im < (std::is_same_v<S, C> ? 2 : 1); im++) {
      Eigen::VectorXd pc = part(c, im);
      for (int r = 0; r < dim; r++) {
        double want = diff([&](double t) { Mat y = x.col(k); y(r, 0) += t; return valueOn(*s, pc, e, y); }, degree);
        double got = 0;
        for (int d = 0; d < wd; d++) got += part(v[k](d), im) * J(d, r);
        lfs_near(got, want, 1e-7, "the gradient is the derivative of the function with respect to physical coordinates");
      }
      // tangential
      if (wd == 3 && dim == 2) {
        double n[3] = {J(1, 0) * J(2, 1) - J(2, 0) * J(1, 1), J(2, 0) * J(0, 1) - J(0, 0) * J(2, 1), J(0, 0) * J(1, 1) - J(1, 0) * J(0, 1)};
        double d = 0;
        for (int i = 0; i < 3; i++) d += n[i] * part(v[k](i), im);
        lfs_near(d, 0, 1e-7, "the gradient is tangential to the surface");
      }
      if (dim == 1)
        for (int a = 0; a < wd; a++) for (int b = 0; b < a; b++)
          lfs_near(part(v[k](a), im) * J(b, 0) - part(v[k](b), im) * J(a, 0), 0, 1e-7, "the gradient is tangential to the edge");
    }
  }
}
LFS_CASE(gradient_cell) {
  const int shape = lfs_choice("shape", 3);
  const int order = lfs_choice("order", shape == 2 ? 2 : 3);
  OneCell c = oneCell(shape, 2, shape == 2 ? 0.0 : 0.1, lfs_choice("mirror", 2));
  gradOn<double>(lagrange(c.mesh, order), *c.mesh->EntityByIndex(0, 0), 2, order + 1, 1);
}
LFS_CASE(gradient_mesh) {
  const int wd = 2 + lfs_choice("space", 2), codim = lfs_choice("codim", 2);
  MeshP m = mesh(wd);
  const int id = lfs_choice("elements", NSPACE);
  SpaceP s = space(m, id);
  const int degree[NSPACE] = {1, 2, 3, 1, 2, 3, 4, 3};
  for (const Entity* e : m->Entities(codim)) {
    if (wd == 3 && e->RefEl() == lf::base::RefEl::kQuad()) continue;  // bent quadrilaterals: see gradient_quad3d
    gradOn<double>(s, *e, wd, degree[id], 2);
  }
}
LFS_CASE(gradient_quad3d) {
  OneCell c = oneCell(1 + lfs_choice("bent", 2), 3, 0, false);
  const int order = lfs_choice("order", 3);
  gradOn<double>(lagrange(c.mesh, order), *c.mesh->EntityByIndex(0, 0), 3, order + 1, 1, true);
}
LFS_CASE(gradient_complex) {
  MeshP m = mesh(2);
  const int order = lfs_choice("order", 3);
  SpaceP s = lagrange(m, order);
  for (const Entity* e : m->Entities(lfs_choice("codim", 2))) gradOn<C>(s, *e, 2, order + 1, 1);
}
// --- nodal projection
template <class S> static void projection(const SpaceP& s) {
  const auto& dh = s->LocGlobMap();
  const MeshP m = s->Mesh();
  auto c = anyCoeffs<S>(dh.NumDofs());
  lf::fe::MeshFunctionFE<double, S> f(s, c);
  const int nc = m->NumEntities(0);
  std::vector<int> sel(nc);
  for (auto& b : sel) b = lfs_bool("selected");
  auto r = lf::fe::NodalProjection(*s, f, [&](const Entity& e) -> bool { return sel[m->Index(e)]; });
  static_assert(std::is_same_v<typename decltype(r)::Scalar, S>);
  lfs_assert(r.size() == dh.NumDofs(), "one coefficient per dof");
  for (U i = 0; i < dh.NumDofs(); i++) {
    // selected if a selected cell carries it
    bool on = false;
    for (const Entity* e : m->Entities(0)) {
      bool has = false;
      for (auto g : dh.GlobalDofIndices(*e)) has = has || g == i;
      if (has && sel[m->Index(*e)]) on = true;
    }
    for (int im = 0; im < (std::is_same_v<S, C> ? 2 : 1); im++)
      lfs_near(part(r(i), im), on ? part(c(i), im) : 0.0, 1e-7, "the nodal projection of a function of the space returns its coefficients, restricted to the selected cells");
  }
}
LFS_CASE(projection_real) { projection<double>(space(mesh(), lfs_choice("space", NSPACE))); }
// a polynomial of the physical coordinates
struct Poly {
  double c[6];
  Poly() { for (double& v : c) v = lfs_real("poly", -1, 1); }
  double operator()(double x, double y) const { return c[0] + c[1] * x + c[2] * y + c[3] * x * y + c[4] * x * x + c[5] * y * y; }
};
LFS_CASE(projection_global) {
  MeshP m = mesh();
  const int order = lfs_choice("order", 3);
  auto s = lagrange(m, order);
  Poly p;
  auto r = lf::fe::NodalProjection(*s, mfu::MeshFunctionGlobal([&](const Eigen::Vector2d& x) { return p(x(0), x(1)); }));
  lfs_assert(r.size() == s->LocGlobMap().NumDofs(), "one coefficient per dof");
  // vertex and edge dofs are values at the vertices, and along the edges
  for (const Entity* e : m->Entities(1)) {
    Mat nc = e->Geometry()->Global(lf::base::RefEl::kSegment().NodeCoords());
    auto g = s->LocGlobMap().GlobalDofIndices(*e);
    lfs_assert((int)g.size() == order + 2, "dofs of an edge");
    for (int k = 0; k < order + 2; k++) {
      double t = k == 0 ? 0 : k == 1 ? 1 : (k - 1.0) / (order + 1);
      lfs_near(r(g[k]), p(nc(0, 0) * (1 - t) + nc(0, 1) * t, nc(1, 0) * (1 - t) + nc(1, 1) * t), 1e-9, "the coefficients of the nodal interpolant are the values at the nodes");
    }
  }
  // inside the cells: the interpolant agrees with the function at the evaluation nodes
  for (const Entity* e : m->Entities(0)) {
    Mat n = s->ShapeFunctionLayout(*e)->EvaluationNodes(), y = e->Geometry()->Global(n);
    for (int k = 0; k < n.cols(); k++) lfs_near(valueOn(*s, r, *e, Mat(n.col(k))), p(y(0, k), y(1, k)), 1e-8, "the nodal interpolant agrees with the function at the evaluation nodes");
  }
}
// --- integration
struct User {
  double v = 0;
  User() = default;
  explicit User(double x) : v(x) {}
  User operator+(const User& o) const { return User(v + o.v); }
  friend User operator*(double a, const User& o) { return User(a * o.v); }
};
template <class T> concept Eig = requires(T t) { t.rows(); t.cols(); };
template <class T> static T anyValue(int rows, int cols) {
  if constexpr (Eig<T>) { T t(rows, cols); for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) t(i, j) = anyValue<typename T::Scalar>(1, 1); return t; }
  else if constexpr (std::is_same_v<T, C>) { double re = lfs_real("re", -4, 4), im = lfs_real("im", -4, 4); return C(re, im); }
  else return T(lfs_real("value", -4, 4));
}
template <class T> struct Arbitrary {
  const lf::mesh::Mesh* m;
  int np;
  std::vector<std::vector<T>> val;   // per entity, per point
  std::vector<Mat>* asked;
  std::vector<T> operator()(const Entity& e, const Mat& x) const {
    lfs_assert((int)x.cols() == np, "the integrand is evaluated at the quadrature points");
    (*asked)[m->Index(e)] = x;
    return val[m->Index(e)];
  }
};
template <class T> static double entry(const T& t, int i, int j, bool im) {
  if constexpr (Eig<T>) return part(t(i, j), im);
  else if constexpr (std::is_same_v<T, User>) return t.v;
  else return part(t, im);
}
// rows, cols: shape of the values
template <class T> static void integrate(int rows = 1, int cols = 1) {
  Topo t = baseTopo(lfs_choice("mesh", 2) ? T_TRIQUAD : T_FAN);
  std::shared_ptr<lf::mesh::Mesh> m = simpleMesh(t, points(t, 2, 0));
  const int codim = lfs_choice("codim", 2), n = m->NumEntities(codim), np = 1 + lfs_choice("points", 2);
  // a rule with arbitrary points and weights for each entity
  std::vector<lf::quad::QuadRule> qr;
  Arbitrary<T> f{m.get(), np, {}, new std::vector<Mat>(n)};
  for (int i = 0; i < n; i++) {
    const Entity* e = m->EntityByIndex(codim, i);
    Eigen::VectorXd w(np);
    for (int k = 0; k < np; k++) w(k) = lfs_real("weight", 0.1, 1);
    qr.emplace_back(e->RefEl(), refPoint(e->RefEl(), np), w, 1);
    f.val.emplace_back();
    for (int k = 0; k < np; k++) f.val.back().push_back(anyValue<T>(rows, cols));
  }
  std::vector<int> sel(n);
  const int all = lfs_choice("all", 2);
  int any = all;
  for (int i = 0; i < n; i++) { sel[i] = all ? 1 : i < 3 ? lfs_bool("selected") : i % 2; if (sel[i]) any = 1; }
  auto rule = [&](const Entity& e) { return qr[m->Index(e)]; };
  T r = all ? lf::fe::IntegrateMeshFunction(*m, f, rule, lf::base::PredicateTrue{}, codim)
            : lf::fe::IntegrateMeshFunction(*m, f, rule, [&](const Entity& e) -> bool { return sel[m->Index(e)]; }, codim);
  if constexpr (Eig<T>) lfs_assert(r.rows() == rows && r.cols() == cols, "shape of the integral");
  for (int i = 0; i < rows; i++)
    for (int j = 0; j < cols; j++)
      for (int im = 0; im < 2; im++) {
        double want = 0;
        for (int q = 0; q < n; q++) {
          if (!sel[q]) continue;
          const Entity* e = m->EntityByIndex(codim, q);
          Mat nc = e->Geometry()->Global(e->RefEl().NodeCoords());
          for (int k = 0; k < np; k++) {
            const Mat& x = qr[q].Points();
            double ie;
            if (codim == 1) ie = std::sqrt((nc(0, 1) - nc(0, 0)) * (nc(0, 1) - nc(0, 0)) + (nc(1, 1) - nc(1, 0)) * (nc(1, 1) - nc(1, 0)));
            else {
              double a[2], b[2];
              for (int d = 0; d < 2; d++) {
                if (nc.cols() == 3) { a[d] = nc(d, 1) - nc(d, 0); b[d] = nc(d, 2) - nc(d, 0); }
                else { a[d] = (1 - x(1, k)) * (nc(d, 1) - nc(d, 0)) + x(1, k) * (nc(d, 2) - nc(d, 3)); b[d] = (1 - x(0, k)) * (nc(d, 3) - nc(d, 0)) + x(0, k) * (nc(d, 2) - nc(d, 1)); }
              }
              ie = a[0] * b[1] - a[1] * b[0];   // all cells of these meshes are oriented counter-clockwise
            }
            want += qr[q].Weights()(k) * ie * entry(f.val[q][k], i, j, im);
          }
        }
        lfs_near(entry(r, i, j, im), entry(f.val[0][0], i, j, im) * 0 + want, 1e-9, "the integral is the quadrature sum over precisely the selected entities");
        if constexpr (std::is_same_v<T, User> || std::is_same_v<T, double>) break;
      }
}
LFS_CASE(integrate_scalar) { integrate<double>(); }
LFS_CASE(integrate_complex) { integrate<C>(); }
LFS_CASE(integrate_user) { integrate<User>(); }
LFS_CASE(integrate_vector) { integrate<Eigen::Vector3d>(3, 1); }
LFS_CASE(integrate_rowvector) { integrate<Eigen::RowVector2d>(1, 2); }
LFS_CASE(integrate_matrix) { integrate<Eigen::Matrix<double, 2, 3>>(2, 3); }
LFS_CASE(integrate_rowmajor) { integrate<Eigen::Matrix<double, 2, 3, Eigen::RowMajor>>(2, 3); }
LFS_CASE(integrate_complex_matrix) { integrate<Eigen::Matrix2cd>(2, 2); }
LFS_CASE(integrate_dynamic) { integrate<Eigen::VectorXd>(2, 1); }
LFS_CASE(integrate_dynamic_matrix) { integrate<Eigen::MatrixXd>(2, 2); }
// requested degree: polynomials are integrated exactly
LFS_CASE(integrate_degree) {
  Topo t = baseTopo(T_TRIQUAD);
  std::shared_ptr<lf::mesh::Mesh> m = simpleMesh(t, points(t, 2, 0));
  const int codim = lfs_choice("codim", 2), degree = lfs_choice("degree", 4);
  int sel = lfs_choice("selected", (int)m->NumEntities(codim) + 1);
  // monomials of at most the degree
  std::vector<double> c;
  for (int a = 0; a <= degree; a++) for (int b = 0; a + b <= degree; b++) c.push_back(lfs_real("c", -1, 1));
  auto p = [&](double x, double y) { double r = 0; int q = 0; for (int a = 0; a <= degree; a++) for (int b = 0; a + b <= degree; b++) { double v = c[q++]; for (int i = 0; i < a; i++) v *= x; for (int i = 0; i < b; i++) v *= y; r += v; } return r; };
  auto f = mfu::MeshFunctionGlobal([&](const Eigen::Vector2d& x) { return p(x(0), x(1)); });
  // the map of a quadrilateral has degree one in each variable, and so has its determinant
  const int req = codim == 0 ? 2 * degree + 1 : degree;
  const bool all = sel == (int)m->NumEntities(codim);
  double r = all ? lf::fe::IntegrateMeshFunction(*m, f, req, lf::base::PredicateTrue{}, codim)
                 : lf::fe::IntegrateMeshFunction(*m, f, req, [&](const Entity& e) { return (int)m->Index(e) == sel; }, codim);
  double want = 0;
  for (const Entity* e : m->Entities(codim)) {
    if (!all && (int)m->Index(*e) != sel) continue;
    Mat x;
    std::vector<double> w;
    rule(e->RefEl(), x, w);
    Mat y = e->Geometry()->Global(x);
    Eigen::VectorXd ie = e->Geometry()->IntegrationElement(x);
    for (size_t k = 0; k < w.size(); k++) want += w[k] * ie(k) * p(y(0, k), y(1, k));
  }
  lfs_near(r, want, 1e-7, "polynomials of the requested degree are integrated exactly");
}
// --- boundary interpolation
static void essential(const SpaceP& s, bool fe) {
  const MeshP m = s->Mesh();
  const auto& dh = s->LocGlobMap();
  const int n = m->NumEntities(1);
  std::vector<int> sel(n);
  for (int& b : sel) b = lfs_bool("selected");
  auto pred = [&](const Entity& e) -> bool { return sel[m->Index(e)]; };
  Eigen::VectorXd c = coeffs(dh.NumDofs());
  Poly p;
  auto r = fe ? lf::fe::InitEssentialConditionFromFunction(*s, pred, lf::fe::MeshFunctionFE<double, double>(s, c))
              : lf::fe::InitEssentialConditionFromFunction(*s, pred, mfu::MeshFunctionGlobal([&](const Eigen::Vector2d& x) { return p(x(0), x(1)); }));
  lfs_assert(r.size() == dh.NumDofs(), "one flag per dof");
  std::vector<int> on(dh.NumDofs(), 0);
  for (const Entity* e : m->Entities(1)) {
    if (!sel[m->Index(*e)]) continue;
    auto g = dh.GlobalDofIndices(*e);
    for (auto i : g) on[i] = 1;
    if (!fe) {
      Mat nodes = s->ShapeFunctionLayout(*e)->EvaluationNodes(), nc = e->Geometry()->Global(lf::base::RefEl::kSegment().NodeCoords()), v = s->ShapeFunctionLayout(*e)->EvalReferenceShapeFunctions(nodes);
      for (int k = 0; k < nodes.cols(); k++) {
        double t = nodes(0, k), got = 0;
        for (size_t j = 0; j < g.size(); j++) got += r[g[j]].second * v(j, k);
        lfs_near(got, p(nc(0, 0) * (1 - t) + nc(0, 1) * t, nc(1, 0) * (1 - t) + nc(1, 1) * t), 1e-8, "the boundary interpolant agrees with the function at the evaluation nodes");
      }
    }
  }
  for (U i = 0; i < dh.NumDofs(); i++) {
    lfs_assert(r[i].first == (on[i] != 0), "exactly the dofs on the selected edges are flagged");
    if (on[i] && fe) lfs_near(r[i].second, c(i), 1e-7, "values of the flagged dofs");
  }
}
LFS_CASE(essential_fe) {
  MeshP m = mesh(2, false);
  essential(space(m, lfs_choice("space", NSPACE)), true);
}
LFS_CASE(essential_function) {
  MeshP m = mesh(2, false);
  essential(lagrange(m, lfs_choice("order", 3)), false);
}
