// Arithmetic of mesh functions.
// units: core
// bound: value types: real and complex scalars, fixed-size, dynamic and mixed matrices and arrays with up to 2x3 entries in column- and row-major storage, and a user-defined type; every pair of types for which the operation is defined; 1 to 3 evaluation points with arbitrary values in [-4,4] (scaled 2x3 bounds for the complex ones); nested expressions of depth 3; constant and global mesh functions on a triangle and an edge
// outside: evaluation at zero points, integer scalars, the combinations of scalar types that do not compile
#include <complex>
#include <lf/mesh/utils/utils.h>
#include "meshes.h"
using namespace harness;
using C = std::complex<double>;
namespace mfu = lf::mesh::utils;
using namespace lf::mesh::utils;
// a user-defined value type supporting +, -, * and unary -
struct User {
  double v = 0;
  User() = default;
  explicit User(double x) : v(x) {}
  User operator+(const User& o) const { return User(v + o.v); }
  User operator-(const User& o) const { return User(v - o.v); }
  User operator*(const User& o) const { return User(v * o.v); }
  User operator-() const { return User(-v); }
};
template <class T> concept Eig = requires(T t) { t.rows(); t.cols(); };
template <class T> struct Sc { using type = T; };
template <Eig T> struct Sc<T> { using type = typename T::Scalar; };
static double symbolic(double*) { return lfs_real("v", -4, 4); }
static C symbolic(C*) { double re = lfs_real("re", -4, 4), im = lfs_real("im", -4, 4); return C(re, im); }
static User symbolic(User*) { return User(lfs_real("v", -4, 4)); }
// a mesh function with arbitrary values: independent of the point, one value per column
template <class T> struct Arbitrary {
  std::vector<T> values;
  const lf::mesh::Entity* entity;
  explicit Arbitrary(const lf::mesh::Entity* e, int n, int rows, int cols) : entity(e) {
    for (int k = 0; k < n; k++) {
      if constexpr (Eig<T>) {
        T t(rows, cols);
        for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) t(i, j) = symbolic((typename T::Scalar*)nullptr);
        values.push_back(t);
      } else values.push_back(symbolic((T*)nullptr));
    }
  }
  // the operands are asked for the values at the given points of the given entity
  std::vector<T> operator()(const lf::mesh::Entity& e, const Eigen::MatrixXd& local) const {
    lfs_assert(&e == entity && local.cols() == (int)values.size() && local(0, 0) == 0.25, "operands are evaluated on the same entity at the same points");
    return values;
  }
};
struct At { const lf::mesh::Entity* e; Eigen::MatrixXd x; int n; };
static At at() {
  static std::shared_ptr<lf::mesh::Mesh> mesh;
  if (!mesh) mesh = simpleMesh(baseTopo(T_TRI), points(baseTopo(T_TRI), 2, 0));
  At a;
  a.e = mesh->EntityByIndex(0, 0);
  a.n = 1 + lfs_choice("points", 3);
  a.x = Eigen::MatrixXd::Constant(2, a.n, 0.25);
  return a;
}
template <class T> static auto ent(const T& t, int i, int j) {
  if constexpr (Eig<T>) return t(i, j);
  else if constexpr (std::is_same_v<T, User>) return t.v;
  else return t;
}
template <class T> static int rows(const T& t) { if constexpr (Eig<T>) return t.rows(); else return 1; }
template <class T> static int cols(const T& t) { if constexpr (Eig<T>) return t.cols(); else return 1; }
static void same(double a, double b, const char* m) { lfs_near(a, b, 1e-12, m); }
static void same(C a, C b, const char* m) { lfs_near(a.real(), b.real(), 1e-12, m); lfs_near(a.imag(), b.imag(), 1e-12, m); }
static void same(C a, double b, const char* m) { same(a, C(b, 0), m); }
static C mul(C a, C b) { return C(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
static C mul(C a, double b) { return C(a.real() * b, a.imag() * b); }
static C mul(double b, C a) { return C(a.real() * b, a.imag() * b); }
static double mul(double a, double b) { return a * b; }
static double conj_(double a) { return a; }
static C conj_(C a) { return C(a.real(), -a.imag()); }
// compares a list of values with a formula for the entry (i,j) of the value at point k
template <class V, class F> static void check(const std::vector<V>& v, int n, int r, int c, F want, const char* msg) {
  lfs_assert((int)v.size() == n, "one value per evaluation point");
  for (int k = 0; k < n; k++) {
    lfs_assert(rows(v[k]) == r && cols(v[k]) == c, "shape of the result");
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) same(ent(v[k], i, j), want(k, i, j), msg);
  }
}
template <class T> static void unchanged(const Arbitrary<T>& a, const Arbitrary<T>& copy) {
  for (size_t k = 0; k < a.values.size(); k++)
    for (int i = 0; i < rows(a.values[k]); i++) for (int j = 0; j < cols(a.values[k]); j++) same(ent(a.values[k], i, j), ent(copy.values[k], i, j), "the operands are unchanged");
}
// sums and differences of equally shaped values
template <class T, class U> static void addSub(int r, int c) {
  At p = at();
  Arbitrary<T> a(p.e, p.n, r, c), a0 = a;
  Arbitrary<U> b(p.e, p.n, r, c), b0 = b;
  auto s = a + b;
  auto d = a - b;
  for (int rep = 0; rep < 2; rep++) {
    check(s(*p.e, p.x), p.n, r, c, [&](int k, int i, int j) { return ent(a0.values[k], i, j) + ent(b0.values[k], i, j); }, "the sum is pointwise");
    check(d(*p.e, p.x), p.n, r, c, [&](int k, int i, int j) { return ent(a0.values[k], i, j) - ent(b0.values[k], i, j); }, "the difference is pointwise");
  }
  unchanged(a, a0); unchanged(b, b0);
}
// entrywise products (scalars, arrays, user types), and products with a scalar
template <class T, class U> static void entrywise(int r, int c) {
  At p = at();
  Arbitrary<T> a(p.e, p.n, r, c), a0 = a;
  Arbitrary<U> b(p.e, p.n, r, c), b0 = b;
  auto m = a * b;
  for (int rep = 0; rep < 2; rep++)
    check(m(*p.e, p.x), p.n, r, c, [&](int k, int i, int j) {
      return mul(ent(a0.values[k], Eig<T> ? i : 0, Eig<T> ? j : 0), ent(b0.values[k], Eig<U> ? i : 0, Eig<U> ? j : 0)); }, "the product is pointwise");
  unchanged(a, a0); unchanged(b, b0);
}
template <class T, class U> static void scalarBoth(int r, int c) { if (lfs_choice("swap", 2)) entrywise<U, T>(r, c); else entrywise<T, U>(r, c); }
// matrix products
template <class T, class U> static void matrix(int r, int m, int c) {
  At p = at();
  Arbitrary<T> a(p.e, p.n, r, m), a0 = a;
  Arbitrary<U> b(p.e, p.n, m, c), b0 = b;
  auto f = a * b;
  for (int rep = 0; rep < 2; rep++)
    check(f(*p.e, p.x), p.n, r, c, [&](int k, int i, int j) {
      auto s = mul(ent(a0.values[k], i, 0), ent(b0.values[k], 0, j));
      for (int l = 1; l < m; l++) s = s + mul(ent(a0.values[k], i, l), ent(b0.values[k], l, j));
      return s; }, "the matrix product is pointwise");
  unchanged(a, a0); unchanged(b, b0);
}
template <class T> static void minus(int r, int c) {
  At p = at();
  Arbitrary<T> a(p.e, p.n, r, c), a0 = a;
  auto f = -a;
  for (int rep = 0; rep < 2; rep++) check(f(*p.e, p.x), p.n, r, c, [&](int k, int i, int j) { return -ent(a0.values[k], i, j); }, "the negation is pointwise");
  unchanged(a, a0);
}
template <class T> static void norm(int r, int c) {
  At p = at();
  Arbitrary<T> a(p.e, p.n, r, c), a0 = a;
  auto f = squaredNorm(a);
  for (int rep = 0; rep < 2; rep++)
    check(f(*p.e, p.x), p.n, 1, 1, [&](int k, int, int) { double s = 0; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) s += ent(a0.values[k], i, j) * ent(a0.values[k], i, j); return s; }, "the squared norm is pointwise");
  unchanged(a, a0);
}
template <class T> static void flip(int r, int c) {
  At p = at();
  Arbitrary<T> a(p.e, p.n, r, c), a0 = a;
  auto f = transpose(a);
  for (int rep = 0; rep < 2; rep++) check(f(*p.e, p.x), p.n, c, r, [&](int k, int i, int j) { return ent(a0.values[k], j, i); }, "the transpose is pointwise");
  if constexpr (lf::base::EigenMatrix<T>) {
    auto g = adjoint(a);
    check(g(*p.e, p.x), p.n, c, r, [&](int k, int i, int j) { return conj_(ent(a0.values[k], j, i)); }, "the adjoint is pointwise");
  }
  unchanged(a, a0);
}
template <class T> static void conjugated(int r, int c) {
  At p = at();
  Arbitrary<T> a(p.e, p.n, r, c), a0 = a;
  auto f = conjugate(a);
  for (int rep = 0; rep < 2; rep++) check(f(*p.e, p.x), p.n, r, c, [&](int k, int i, int j) { return conj_(ent(a0.values[k], i, j)); }, "the conjugate is pointwise");
  unchanged(a, a0);
}
constexpr int D = Eigen::Dynamic, RM = Eigen::RowMajor;
template <int R, int K, int O = 0> using M = Eigen::Matrix<double, R, K, O>;
template <int R, int K, int O = 0> using A = Eigen::Array<double, R, K, O>;
template <int R, int K> using MC = Eigen::Matrix<C, R, K>;
using Row3 = Eigen::Matrix<double, 1, 3>;
using ARow3 = Eigen::Array<double, 1, 3>;
LFS_CASE(add_scalar) {
  switch (lfs_choice("types", 5)) {
    case 0: addSub<double, double>(1, 1); break;
    case 1: addSub<C, C>(1, 1); break;
    case 2: addSub<User, User>(1, 1); break;
    case 3: addSub<double, C>(1, 1); break;
    case 4: addSub<C, double>(1, 1); break;
  }
}
LFS_CASE(add_matrix) {
  switch (lfs_choice("types", 18)) {
    case 0: addSub<M<2, 1>, M<2, 1>>(2, 1); break;
    case 1: addSub<M<2, 3>, M<2, 3>>(2, 3); break;
    case 2: addSub<Row3, Row3>(1, 3); break;
    case 3: addSub<M<2, 3>, M<D, D>>(2, 3); break;
    case 4: addSub<M<D, D>, M<2, 3>>(2, 3); break;
    case 5: addSub<M<D, D>, M<D, D>>(2, 3); break;
    case 6: addSub<M<D, 1>, M<2, 1>>(2, 1); break;
    case 7: addSub<M<D, 1>, M<D, 1>>(2, 1); break;
    case 8: addSub<M<2, D>, M<D, 3>>(2, 3); break;
    case 9: addSub<M<2, D>, M<2, 3>>(2, 3); break;
    case 10: addSub<M<2, 3, RM>, M<2, 3, RM>>(2, 3); break;
    case 11: addSub<M<2, 3, RM>, M<2, 3>>(2, 3); break;
    case 12: addSub<M<2, 2>, M<2, 2, RM>>(2, 2); break;
    case 13: addSub<M<D, D, RM>, M<D, D>>(2, 3); break;
    case 14: addSub<M<D, D, RM>, M<2, 3, RM>>(2, 3); break;
    case 15: addSub<MC<2, 2>, MC<2, 2>>(2, 2); break;
    case 16: addSub<M<2, 2>, MC<2, 2>>(2, 2); break;
    case 17: addSub<MC<D, D>, MC<2, 1>>(2, 1); break;
  }
}
LFS_CASE(add_array) {
  switch (lfs_choice("types", 9)) {
    case 0: addSub<A<2, 1>, A<2, 1>>(2, 1); break;
    case 1: addSub<A<2, 3>, A<2, 3>>(2, 3); break;
    case 2: addSub<ARow3, ARow3>(1, 3); break;
    case 3: addSub<A<2, 3>, A<D, D>>(2, 3); break;
    case 4: addSub<A<D, D>, A<2, 3>>(2, 3); break;
    case 5: addSub<A<D, D>, A<D, D>>(2, 3); break;
    case 6: addSub<A<D, 1>, A<2, 1>>(2, 1); break;
    case 7: addSub<A<2, 3, RM>, A<2, 3, RM>>(2, 3); break;
    case 8: addSub<A<2, 2>, A<2, 2, RM>>(2, 2); break;
  }
}
LFS_CASE(mul_scalar) {
  switch (lfs_choice("types", 4)) {
    case 0: entrywise<double, double>(1, 1); break;
    case 1: entrywise<C, C>(1, 1); break;
    case 2: entrywise<User, User>(1, 1); break;
    case 3: scalarBoth<double, C>(1, 1); break;
  }
}
LFS_CASE(scale) {
  switch (lfs_choice("types", 14)) {
    case 0: scalarBoth<double, M<2, 1>>(2, 1); break;
    case 1: scalarBoth<double, M<2, 3>>(2, 3); break;
    case 2: scalarBoth<double, Row3>(1, 3); break;
    case 3: scalarBoth<double, M<D, D>>(2, 3); break;
    case 4: scalarBoth<double, M<D, 1>>(2, 1); break;
    case 5: scalarBoth<double, M<2, 3, RM>>(2, 3); break;
    case 6: scalarBoth<double, M<D, D, RM>>(2, 3); break;
    case 7: scalarBoth<double, A<2, 3>>(2, 3); break;
    case 8: scalarBoth<double, A<D, D>>(2, 3); break;
    case 9: scalarBoth<double, A<2, 2, RM>>(2, 2); break;
    case 10: scalarBoth<C, M<2, 1>>(2, 1); break;
    case 11: scalarBoth<C, M<D, D>>(2, 2); break;
    case 12: scalarBoth<double, MC<2, 1>>(2, 1); break;
    case 13: scalarBoth<double, ARow3>(1, 3); break;
  }
}
LFS_CASE(mul_array) {
  switch (lfs_choice("types", 8)) {
    case 0: entrywise<A<2, 1>, A<2, 1>>(2, 1); break;
    case 1: entrywise<A<2, 3>, A<2, 3>>(2, 3); break;
    case 2: entrywise<A<2, 3>, A<D, D>>(2, 3); break;
    case 3: entrywise<A<D, D>, A<2, 3>>(2, 3); break;
    case 4: entrywise<A<D, D>, A<D, D>>(2, 3); break;
    case 5: entrywise<A<D, 1>, A<2, 1>>(2, 1); break;
    case 6: entrywise<A<2, 3, RM>, A<2, 3, RM>>(2, 3); break;
    case 7: entrywise<A<2, 2>, A<2, 2, RM>>(2, 2); break;
  }
}
LFS_CASE(mul_matrix) {
  switch (lfs_choice("types", 14)) {
    case 0: matrix<M<2, 2>, M<2, 1>>(2, 2, 1); break;
    case 1: matrix<M<2, 3>, M<3, 2>>(2, 3, 2); break;
    case 2: matrix<Row3, M<3, 1>>(1, 3, 1); break;
    case 3: matrix<M<2, 1>, M<1, 2, RM>>(2, 1, 2); break;
    case 4: matrix<M<D, D>, M<D, D>>(2, 3, 2); break;
    case 5: matrix<M<2, 3>, M<D, D>>(2, 3, 2); break;
    case 6: matrix<M<D, D>, M<3, 2>>(2, 3, 2); break;
    case 7: matrix<M<D, D>, M<D, 1>>(2, 3, 1); break;
    case 8: matrix<M<2, D>, M<D, 2>>(2, 3, 2); break;
    case 9: matrix<M<D, 2>, M<2, D>>(2, 2, 2); break;
    case 10: matrix<M<2, 2, RM>, M<2, 2, RM>>(2, 2, 2); break;
    case 11: matrix<M<2, 2>, M<2, 2, RM>>(2, 2, 2); break;
    case 12: matrix<MC<2, 2>, MC<2, 1>>(2, 2, 1); break;
    case 13: matrix<M<2, 2>, MC<2, 1>>(2, 2, 1); break;
  }
}
LFS_CASE(unary) {
  switch (lfs_choice("types", 15)) {
    case 0: minus<double>(1, 1); break;
    case 1: minus<User>(1, 1); break;
    case 2: minus<M<2, 1>>(2, 1); break;
    case 3: minus<M<2, 3>>(2, 3); break;
    case 4: minus<M<D, D>>(2, 3); break;
    case 5: minus<M<2, 3, RM>>(2, 3); break;
    case 6: minus<A<2, 3>>(2, 3); break;
    case 7: minus<A<D, 1>>(2, 1); break;
    case 8: minus<MC<2, 2>>(2, 2); break;
    case 9: minus<A<2, 3, RM>>(2, 3); break;
    case 10: minus<Row3>(1, 3); break;
    case 11: minus<M<2, D>>(2, 3); break;
    case 12: minus<A<2, 1>>(2, 1); break;
    case 13: minus<M<D, D, RM>>(2, 3); break;
    case 14: minus<MC<D, 1>>(2, 1); break;
  }
}
LFS_CASE(norms) {
  switch (lfs_choice("types", 9)) {
    case 0: norm<double>(1, 1); break;
    case 1: norm<M<2, 1>>(2, 1); break;
    case 2: norm<M<3, 1>>(3, 1); break;
    case 3: norm<Row3>(1, 3); break;
    case 4: norm<M<D, 1>>(3, 1); break;
    case 5: norm<M<1, D, RM>>(1, 3); break;
    case 6: norm<M<2, 2>>(2, 2); break;
    case 7: norm<M<2, 3, RM>>(2, 3); break;
    case 8: norm<M<D, D>>(2, 3); break;
  }
}
LFS_CASE(transposes) {
  switch (lfs_choice("types", 12)) {
    case 0: flip<M<2, 1>>(2, 1); break;
    case 1: flip<M<2, 3>>(2, 3); break;
    case 2: flip<Row3>(1, 3); break;
    case 3: flip<M<D, D>>(2, 3); break;
    case 4: flip<M<D, 1>>(2, 1); break;
    case 5: flip<M<2, 3, RM>>(2, 3); break;
    case 6: flip<A<2, 3>>(2, 3); break;
    case 7: flip<A<D, D>>(2, 3); break;
    case 8: flip<MC<2, 2>>(2, 2); break;
    case 9: flip<MC<D, D>>(2, 3); break;
    case 10: flip<M<2, D>>(2, 3); break;
    case 11: flip<A<2, 2, RM>>(2, 2); break;
  }
}
LFS_CASE(conjugates) {
  switch (lfs_choice("types", 8)) {
    case 0: conjugated<double>(1, 1); break;
    case 1: conjugated<C>(1, 1); break;
    case 2: conjugated<MC<2, 2>>(2, 2); break;
    case 3: conjugated<MC<D, D>>(2, 3); break;
    case 4: conjugated<M<2, 3, RM>>(2, 3); break;
    case 5: conjugated<Eigen::Array<C, 2, 1>>(2, 1); break;
    case 6: conjugated<Eigen::Array<C, D, D>>(2, 3); break;
    case 7: conjugated<MC<1, D>>(1, 3); break;
  }
}
// nested expressions own their operands
LFS_CASE(nested) {
  At p = at();
  Arbitrary<double> s(p.e, p.n, 1, 1), t(p.e, p.n, 1, 1);
  Arbitrary<M<2, 1>> u(p.e, p.n, 2, 1), v(p.e, p.n, 2, 1);
  Arbitrary<M<2, 2>> m(p.e, p.n, 2, 2);
  auto make = [&]() {
    auto tmp = s * u - v;
    return (m * tmp + t * v) - (-u);
  };
  auto f = make();
  check(f(*p.e, p.x), p.n, 2, 1, [&](int k, int i, int) {
    double r = t.values[k] * v.values[k](i) + u.values[k](i);
    for (int j = 0; j < 2; j++) r += m.values[k](i, j) * (s.values[k] * u.values[k](j) - v.values[k](j));
    return r; }, "nested expressions are pointwise");
  auto g = squaredNorm(transpose(u) * (m * v)) + s;
  check(g(*p.e, p.x), p.n, 1, 1, [&](int k, int, int) {
    double r = 0;
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) r += u.values[k](i) * m.values[k](i, j) * v.values[k](j);
    return r * r + s.values[k]; }, "nested expressions are pointwise");
}
// constant and global mesh functions
LFS_CASE(constant_global) {
  const int wd = 2 + lfs_choice("dim", 2);
  Topo t = baseTopo(T_TRI);
  Mat q = points(t, wd, 0.05);
  auto mesh = simpleMesh(t, q);
  const int n = 1 + lfs_choice("points", 3);
  const bool edge = lfs_choice("edge", 2);
  const lf::mesh::Entity& e = edge ? *mesh->EntityByIndex(0, 0)->SubEntities(1)[lfs_choice("which", 3)] : *mesh->EntityByIndex(0, 0);
  Mat x(edge ? 1 : 2, n);
  for (int i = 0; i < x.rows(); i++) for (int k = 0; k < n; k++) x(i, k) = lfs_real("x", 0, 1);
  std::vector<int> node;
  for (auto* v : e.SubEntities(edge ? 1 : 2)) node.push_back(mesh->Index(*v));
  auto glob = [&](int k, int d) { return edge ? q(d, node[0]) * (1 - x(0, k)) + q(d, node[1]) * x(0, k) : q(d, node[0]) * (1 - x(0, k) - x(1, k)) + q(d, node[1]) * x(0, k) + q(d, node[2]) * x(1, k); };
  const double c = lfs_real("c", -4, 4), s = lfs_real("s", -4, 4);
  Eigen::Vector2d cv(lfs_real("c", -4, 4), lfs_real("c", -4, 4));
  mfu::MeshFunctionConstant<double> k1(c);
  mfu::MeshFunctionConstant<Eigen::Vector2d> k2(cv);
  mfu::MeshFunctionGlobal g([s](const Eigen::VectorXd& y) { return s * y[0] - y[1] * y[1]; });
  mfu::MeshFunctionGlobal gv([s](const Eigen::VectorXd& y) { return Eigen::Vector2d(s * y[1], y[0]); });
  check(k1(e, x), n, 1, 1, [&](int, int, int) { return c; }, "constant mesh functions");
  check(k2(e, x), n, 2, 1, [&](int, int i, int) { return cv(i); }, "constant mesh functions");
  check(g(e, x), n, 1, 1, [&](int k, int, int) { return s * glob(k, 0) - glob(k, 1) * glob(k, 1); }, "global mesh functions are evaluated at the physical point");
  check(gv(e, x), n, 2, 1, [&](int k, int i, int) { return i == 0 ? s * glob(k, 1) : glob(k, 0); }, "global mesh functions are evaluated at the physical point");
  static_assert(lf::mesh::utils::MeshFunction<decltype(k1 * g)>);
  check((k1 * gv - k2)(e, x), n, 2, 1, [&](int k, int i, int) { return c * (i == 0 ? s * glob(k, 1) : glob(k, 0)) - cv(i); }, "combinations of constant and global mesh functions");
}
