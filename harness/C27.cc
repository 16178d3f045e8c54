// VTK output: the data set assembled for a mesh and the file written from it.
// units: core vtk
// bound: seven mesh families of 1..4 cells (triangles and quadrilaterals, every starting vertex and direction of up to two cells, hence every relative orientation of their edges), vertices within 0.02 of a base shape, in the plane or in space; cells or edges as elements; orders 1..5 and 7 (thorough: 1..10); second-order geometries; all scalar and vector types of data sets on points, cells and edges with arbitrary values, defined on every subset of 4 entities; mesh functions with arbitrary coefficients; files: ASCII and binary, all integer values of one entry per array (binary; values of 1..3 digits in ASCII), fixed floating point values
// outside: conversion of symbolic floating point numbers to text or bytes (only fixed values are followed through the file writer); the operating system's file; meshes of more cells
#include "meshes.h"
#include "geo.h"
#include <lf/io/vtk_writer.h>
#include <lf/mesh/utils/utils.h>
#include <boost/variant.hpp>
#include <lfs_try.h>
#include "vtk_stream.h"
#include <cstring>
using namespace harness;
using lf::io::VtkFile;
using lf::io::VtkWriter;
using lf::mesh::Entity;
static VtkFile got;
static int written = 0;
namespace lf::io {
void WriteToFile(const VtkFile& f, const std::string&) { got = f; written++; }
void WriteToFileReal(const VtkFile& f, const std::string&);
}  // namespace lf::io
static const double TOL = 2e-5;  // single precision
// local coordinates of the lattice points of an element of order p in the order of VTK's Lagrange elements
static void segPoints(std::vector<std::array<double, 2>>& r, double x0, double y0, double x1, double y1, int p) {
  for (int i = 1; i < p; i++) r.push_back({x0 + (x1 - x0) * i / p, y0 + (y1 - y0) * i / p});
}
static std::vector<std::array<double, 2>> lattice(int corners, int p) {
  std::vector<std::array<double, 2>> r;
  if (corners == 2) { r = {{0, 0}, {1, 0}}; segPoints(r, 0, 0, 1, 0, p); }
  else if (corners == 4) {
    r = {{0, 0}, {1, 0}, {1, 1}, {0, 1}};
    segPoints(r, 0, 0, 1, 0, p); segPoints(r, 1, 0, 1, 1, p); segPoints(r, 0, 1, 1, 1, p); segPoints(r, 0, 0, 0, 1, p);
    for (int j = 1; j < p; j++) for (int i = 1; i < p; i++) r.push_back({1.0 * i / p, 1.0 * j / p});
  } else {
    // rings of the triangle, from the outside to the inside
    for (int k = 0; 3 * k <= p; k++) {
      const double a = 1.0 * k / p, b = 1.0 * (p - 2 * k) / p;
      const int q = p - 3 * k;
      if (q == 0) { r.push_back({a, a}); break; }
      r.push_back({a, a}); r.push_back({b, a}); r.push_back({a, b});
      segPoints(r, a, a, b, a, q); segPoints(r, b, a, a, b, q); segPoints(r, a, b, a, a, q);
    }
  }
  return r;
}
static VtkFile::CellType typeOf(int corners, int p) {
  using T = VtkFile::CellType;
  if (p == 1) return corners == 2 ? T::VTK_LINE : corners == 3 ? T::VTK_TRIANGLE : T::VTK_QUAD;
  return corners == 2 ? T::VTK_LAGRANGE_CURVE : corners == 3 ? T::VTK_LAGRANGE_TRIANGLE : T::VTK_LAGRANGE_QUADRILATERAL;
}
// expected position of every point of the data set (columns), also checks the lists of points and cells
static Mat checkGrid(const lf::mesh::Mesh& m, const Mat& pts, int codim, int p, const std::vector<Kind>* kinds, const std::vector<Mat>* nodes) {
  const auto& g = got.unstructured_grid;
  const int n = m.NumEntities(codim), wd = pts.rows(), nn = m.NumEntities(2);
  U total = nn + (p - 1) * m.NumEntities(1);
  if (codim == 0) for (auto* e : m.Entities(0)) total += e->RefEl() == lf::base::RefEl::kTria() ? (p - 1) * (p - 2) / 2 : (p - 1) * (p - 1);
  lfs_assert(g.points.size() == total, "number of points: nodes and additional points of edges and cells");
  lfs_assert((int)g.cells.size() == n && (int)g.cell_types.size() == n, "one element per cell or edge");
  Mat X = Mat::Zero(3, total);
  std::vector<char> seen(total, 0);
  for (int i = 0; i < nn; i++) { seen[i] = 1; for (int d = 0; d < wd; d++) X(d, i) = pts(d, i); }
  for (auto* e : m.Entities(codim)) {
    const U i = m.Index(*e);
    auto nd = e->SubEntities(2 - codim);
    const int k = nd.size();
    lfs_assert(g.cell_types[i] == typeOf(k, p), "type of an element");
    auto loc = lattice(k, p);
    auto& c = g.cells[i];
    lfs_assert(c.size() == loc.size(), "number of points of an element");
    Kind kind = k == 2 ? SEG1 : k == 3 ? TRI1 : QUAD1;
    Mat C(wd, k);
    for (int j = 0; j < k; j++) C.col(j) = pts.col(m.Index(*nd[j]));
    if (kinds && codim == 0) { kind = (*kinds)[i]; C = (*nodes)[i]; }
    for (size_t j = 0; j < loc.size(); j++) {
      lfs_assert(c[j] < total, "an element refers to points of the data set");
      if ((int)j < k) lfs_assert(c[j] == m.Index(*nd[j]), "an element lists the nodes of the cell in their order first");
      else lfs_assert((int)c[j] >= nn, "additional points follow the nodes");
      auto w = shape(kind, loc[j][0], loc[j][1], -1);
      for (int d = 0; d < wd; d++) {
        double v = 0;
        for (size_t q = 0; q < w.size(); q++) v += w[q] * C(d, q);
        if (seen[c[j]]) lfs_near(X(d, c[j]), v, TOL, "a point shared by elements has the position each of them requires");
        else X(d, c[j]) = v;
      }
      seen[c[j]] = 1;
    }
    std::set<U> s(c.begin(), c.end());
    lfs_assert(s.size() == c.size(), "the points of an element are distinct");
  }
  for (U i = 0; i < total; i++) {
    lfs_assert(seen[i], "every point belongs to an element");
    for (int d = 0; d < 3; d++) lfs_near(g.points[i](d), X(d, i), TOL, "position of a point");
  }
  return X;
}
static int anyOrder() {
  if (lfs_thorough()) return 1 + lfs_choice("order", 10);
  static const int o[] = {1, 2, 3, 4, 5, 7};
  return o[lfs_choice("order", 6)];
}
static void grid(int id, bool flip, int maxCells, int wd, int codim) {
  Topo t = baseTopo(id);
  varyCells(t, flip, maxCells);
  const int p = anyOrder();
  Mat pts = points(t, wd, 0.02);
  auto m = simpleMesh(t, pts);
  written = 0;
  { VtkWriter w(m, "f", codim, p); }
  lfs_assert(written == 1, "the file is written when the writer is destroyed");
  lfs_assert(got.point_data.empty() && got.cell_data.empty() && got.field_data.empty(), "no data unless attached");
  lfs_assert(got.format == VtkFile::Format::ASCII, "text format by default");
  checkGrid(*m, pts, codim, p, nullptr, nullptr);
}
LFS_CASE(tri) { grid(T_TRI, true, 1, 2, lfs_choice("codim", 2)); }
LFS_CASE(quad) { grid(T_QUAD, true, 1, 2, lfs_choice("codim", 2)); }
LFS_CASE(tritri) { grid(T_TRITRI, true, 2, 2, 0); }
LFS_CASE(triquad) { grid(T_TRIQUAD, true, 1, 2, lfs_choice("codim", 2)); }
LFS_CASE(triquad_space) { grid(T_TRIQUAD, false, 2, 3, lfs_choice("codim", 2)); }
LFS_CASE(quadquad) { grid(T_QUADQUAD, false, 2, 2, 0); }
LFS_CASE(mixed) { grid(T_MIXED, false, 1, 2, lfs_choice("codim", 2)); }
// second-order cells
static void curved(bool tri) {
  Topo t = baseTopo(tri ? T_TRITRI : T_QUADQUAD);
  const int p = 1 + lfs_choice("order", 5), k = tri ? 6 : 8, wd = 2 + (tri ? lfs_choice("world", 2) : 0);
  Mat pts = points(t, wd, 0);
  if (tri) varyCells(t, false, 1);
  // midpoints, moved
  std::map<Edge, Mat> mid;
  for (auto& e : edgesOf(t.cells)) { Mat x = (pts.col(e.first) + pts.col(e.second)) / 2; for (int d = 0; d < wd; d++) x(d, 0) += lfs_real("mid", -0.03, 0.03); mid[e] = x; }
  std::vector<Kind> kinds;
  std::vector<Mat> nodes;
  lf::mesh::hybrid2d::MeshFactory f(wd, false);
  addPoints(f, pts);
  for (auto& c : t.cells) {
    Mat C(wd, k);
    for (size_t j = 0; j < c.size(); j++) { C.col(j) = pts.col(c[j]); C.col(c.size() + j) = mid[sorted(c[j], c[(j + 1) % c.size()])]; }
    kinds.push_back(tri ? TRI2 : QUAD2);
    nodes.push_back(C);
    if (tri) addCell(f, c, std::make_unique<lf::geometry::TriaO2>(C)); else addCell(f, c, std::make_unique<lf::geometry::QuadO2>(C));
  }
  auto m = f.Build();
  { VtkWriter w(m, "f", 0, p); }
  checkGrid(*m, pts, 0, p, &kinds, &nodes);
}
LFS_CASE(curved_triangles) { curved(true); }
LFS_CASE(curved_quads) { curved(false); }
// ------------------------------------------------------------------------------------------------ data sets
template <class T> struct Part : lf::mesh::utils::MeshDataSet<T> {   // defined on some of the entities
  const lf::mesh::Mesh* m; int codim; std::vector<T> v; std::vector<int> def;
  const T& operator()(const Entity& e) const override { lfs_assert((int)e.Codim() == codim && def[m->Index(e)], "a data set is only evaluated where it is defined"); return v[m->Index(e)]; }
  bool DefinedOn(const Entity& e) const override { return (int)e.Codim() == codim && def[m->Index(e)]; }
};
template <class D> D anyV(int i) {
  if constexpr (std::is_same_v<D, double> || std::is_same_v<D, float>) return (D)lfs_real("v", -10, 10);
  else if constexpr (std::is_same_v<D, unsigned char> || std::is_same_v<D, char> || std::is_same_v<D, int> || std::is_same_v<D, unsigned>) return (D)lfs_int64("v");
  else {
    D r(D::RowsAtCompileTime == Eigen::Dynamic ? 2 + i % 2 : (int)D::RowsAtCompileTime);
    for (int k = 0; k < r.rows(); k++) r(k) = lfs_real("v", -10, 10);
    return r;
  }
}
template <class A, class D> static void sameData(const A& a, const std::vector<D>& want, const char* msg) {
  if constexpr (std::is_arithmetic_v<D>) {
    auto* s = boost::get<VtkFile::ScalarData<D>>(&a);
    lfs_assert(s != nullptr, "type of an attribute set");
    lfs_assert(s->name == "data" && s->lookup_table == "default", "name of an attribute set");
    lfs_assert(s->data.size() == want.size(), "number of values of an attribute set");
    for (size_t i = 0; i < want.size(); i++)
      if constexpr (std::is_floating_point_v<D>) lfs_near(s->data[i], want[i], TOL, msg); else lfs_assert(s->data[i] == want[i], msg);
  } else {
    using T = typename D::Scalar;
    auto* s = boost::get<VtkFile::VectorData<T>>(&a);
    lfs_assert(s != nullptr, "type of an attribute set");
    lfs_assert(s->name == "data", "name of an attribute set");
    lfs_assert(s->data.size() == want.size(), "number of values of an attribute set");
    for (size_t i = 0; i < want.size(); i++) for (int k = 0; k < 3; k++) lfs_near(s->data[i](k), k < want[i].rows() ? want[i](k) : T(0), TOL, msg);
  }
}
template <class D> static void attach(int where) {   // 0: points, 1: cells, 2: edges
  Topo t = baseTopo(where == 1 ? T_TRIQUAD : T_TRI);
  Mat pts = points(t, 2, 0);
  auto m = simpleMesh(t, pts);
  const int codim = where == 0 ? 2 : where == 1 ? 0 : 1, n = m->NumEntities(codim);
  Part<D> ds;
  ds.m = m.get(); ds.codim = codim;
  for (int i = 0; i < n; i++) { ds.v.push_back(anyV<D>(i)); ds.def.push_back(lfs_choice("defined", 2)); }
  D u = anyV<D>(1);
  const bool given = lfs_choice("given", 2);
  {
    VtkWriter w(m, "f", where == 2 ? 1 : 0);
    if (where == 0) { if (given) w.WritePointData("data", ds, u); else w.WritePointData("data", ds); }
    else { if (given) w.WriteCellData("data", ds, u); else w.WriteCellData("data", ds); }
  }
  if (!given) { if constexpr (std::is_arithmetic_v<D>) u = 0; else u.setZero(); }
  std::vector<D> want;
  for (int i = 0; i < n; i++) want.push_back(ds.def[i] ? ds.v[i] : u);
  auto& A = where == 0 ? got.point_data : got.cell_data;
  lfs_assert(A.size() == 1 && (where == 0 ? got.cell_data : got.point_data).empty() && got.field_data.empty(), "one attribute set, where it was attached");
  sameData(A[0], want, where == 0 ? "value of a data set at a node" : "value of a data set at an element");
}
template <class D> static void attachAll() { attach<D>(lfs_choice("where", 3)); }
LFS_CASE(data_scalar) {
  switch (lfs_choice("type", 6)) {
    case 0: return attachAll<unsigned char>();
    case 1: return attachAll<char>();
    case 2: return attachAll<unsigned>();
    case 3: return attachAll<int>();
    case 4: return attachAll<float>();
    default: return attachAll<double>();
  }
}
LFS_CASE(data_vector) {
  switch (lfs_choice("type", 6)) {
    case 0: return attachAll<Eigen::Vector2d>();
    case 1: return attachAll<Eigen::Vector2f>();
    case 2: return attachAll<Eigen::Vector3d>();
    case 3: return attachAll<Eigen::Vector3f>();
    case 4: return attachAll<Eigen::VectorXd>();
    default: return attachAll<Eigen::VectorXf>();
  }
}
template <class T> static void global() {
  std::vector<T> v;
  const int n = lfs_choice("n", 4);
  for (int i = 0; i < n; i++) v.push_back(anyV<T>(i));
  Topo t = baseTopo(T_TRI);
  auto m = simpleMesh(t, points(t, 2, 0));
  { VtkWriter w(m, "f"); w.WriteGlobalData("a", v); w.WriteGlobalData("b", std::vector<int>{3}); }
  lfs_assert(got.field_data.size() == 2, "every global array is listed");
  auto* a = boost::get<VtkFile::FieldDataArray<T>>(&got.field_data[0]);
  lfs_assert(a && a->name == "a" && a->data.size() == v.size(), "name, type and size of a global array");
  for (int i = 0; i < n; i++) if constexpr (std::is_integral_v<T>) lfs_assert(a->data[i] == v[i], "value of a global array"); else lfs_near(a->data[i], v[i], TOL, "value of a global array");
  auto* b = boost::get<VtkFile::FieldDataArray<int>>(&got.field_data[1]);
  lfs_assert(b && b->name == "b" && b->data.size() == 1 && b->data[0] == 3, "second global array");
}
LFS_CASE(global_data) { switch (lfs_choice("type", 3)) { case 0: return global<int>(); case 1: return global<float>(); default: return global<double>(); } }
// several sets: order, names, refusals
LFS_CASE(names) {
  Topo t = baseTopo(T_TRI);
  auto m = simpleMesh(t, points(t, 2, 0));
  double x = lfs_real("x", -1, 1), y = lfs_real("y", -1, 1);
  auto a = lf::mesh::utils::make_CodimMeshDataSet<double>(m, 2, x), b = lf::mesh::utils::make_CodimMeshDataSet<double>(m, 0, y);
  bool dupP, dupC, sp, dupG;
  {
    VtkWriter w(m, "f");
    w.setBinary(true);
    w.WritePointData("one", *a);
    w.WriteCellData("one", *b);
    w.WritePointData("two", *a);
    dupP = lfs_accepts([&] { w.WritePointData("one", *a); });
    dupC = lfs_accepts([&] { w.WriteCellData("one", *b); });
    sp = lfs_accepts([&] { w.WriteCellData("with space", *b); });
    w.WriteGlobalData("g", std::vector<int>{1});
    dupG = lfs_accepts([&] { w.WriteGlobalData("g", std::vector<double>{1}); });
  }
  lfs_assert(!dupP && !dupC && !dupG, "a name is refused if it is already in use");
  lfs_assert(!sp, "names with spaces are refused");
  lfs_assert(got.format == VtkFile::Format::BINARY, "binary format if requested");
  lfs_assert(got.point_data.size() == 2 && got.cell_data.size() == 1 && got.field_data.size() == 1, "refused arrays leave no trace");
  auto* p = boost::get<VtkFile::ScalarData<double>>(&got.point_data[1]);
  auto* c = boost::get<VtkFile::ScalarData<double>>(&got.cell_data[0]);
  lfs_assert(p && c && p->name == "two" && c->name == "one", "attribute sets in the order in which they were added");
  for (double v : p->data) lfs_near(v, x, TOL, "value at a node");
  for (double v : c->data) lfs_near(v, y, TOL, "value at a cell");
}
// ------------------------------------------------------------------------------------------------ mesh functions
template <class D, class F> static D conv(F&& f, const Eigen::Vector2d& x) {   // number(s) of type D from a polynomial
  if constexpr (std::is_arithmetic_v<D>) return (D)f(x, 0);
  else { D r(D::RowsAtCompileTime == Eigen::Dynamic ? 3 : (int)D::RowsAtCompileTime); for (int k = 0; k < r.rows(); k++) r(k) = f(x, k); return r; }
}
template <class D> static void meshFunction(int id) {
  Topo t = baseTopo(id);
  if (id == T_TRIQUAD) varyCells(t, true, 1); else varyCells(t, false, 1);
  const int codim = lfs_choice("codim", 2);
  static const int ord[] = {1, 2, 3, 4, 7};
  const int p = lfs_thorough() ? 1 + lfs_choice("order", 10) : ord[lfs_choice("order", 5)];
  Mat pts = points(t, 2, 0);
  auto m = simpleMesh(t, pts);
  double c[3][4];
  for (auto& r : c) for (double& x : r) x = lfs_real("c", -1, 1);
  auto f = [&](const Eigen::Vector2d& x, int k) { return c[k][0] + c[k][1] * x(0) + c[k][2] * x(1) + c[k][3] * x(0) * x(1); };
  auto mf = lf::mesh::utils::MeshFunctionGlobal([&](const Eigen::Vector2d& x) { return conv<D>(f, x); });
  { VtkWriter w(m, "f", codim, p); w.WritePointData("data", mf); w.WriteCellData("data", mf); }
  Mat X = checkGrid(*m, pts, codim, p, nullptr, nullptr);
  std::vector<D> atP, atC;
  for (int i = 0; i < X.cols(); i++) atP.push_back(conv<D>(f, Eigen::Vector2d(X(0, i), X(1, i))));
  for (U i = 0; i < m->NumEntities(codim); i++) {
    auto nd = m->EntityByIndex(codim, i)->SubEntities(2 - codim);
    Eigen::Vector2d x(0, 0);
    for (auto* n : nd) x += Eigen::Vector2d(pts.col(m->Index(*n))) / (double)nd.size();
    atC.push_back(conv<D>(f, x));
  }
  lfs_assert(got.point_data.size() == 1 && got.cell_data.size() == 1, "one attribute set each");
  sameData(got.point_data[0], atP, "value of a mesh function at a point");
  sameData(got.cell_data[0], atC, "value of a mesh function at the barycentre of an element");
}
LFS_CASE(function_scalar) { int id = lfs_choice("mesh", 2) ? T_TRIQUAD : T_TRITRI; lfs_choice("type", 2) ? meshFunction<float>(id) : meshFunction<double>(id); }
LFS_CASE(function_vector) {
  int id = T_TRIQUAD;
  switch (lfs_choice("type", 4)) {
    case 0: return meshFunction<Eigen::Vector2d>(id);
    case 1: return meshFunction<Eigen::Vector3f>(id);
    case 2: return meshFunction<Eigen::Vector3d>(id);
    default: return meshFunction<Eigen::VectorXd>(id);
  }
}
// values of a mesh function of integer type which depends on the entity
template <class D> static void piecewise() {
  Topo t = baseTopo(T_TRIQUAD);
  auto m = simpleMesh(t, points(t, 2, 0));
  const int codim = lfs_choice("codim", 2), p = 1 + lfs_choice("order", 4);
  std::vector<D> v[3];
  for (int cd = 0; cd < 3; cd++) for (U i = 0; i < m->NumEntities(cd); i++) v[cd].push_back(anyV<D>(i));
  struct F {
    const lf::mesh::Mesh& m; std::vector<D>* v;
    std::vector<D> operator()(const Entity& e, const Mat& x) const { lfs_assert(x.rows() == 2 - (int)e.Codim(), "reference coordinates have the dimension of the entity"); return std::vector<D>(x.cols(), v[e.Codim()][m.Index(e)]); }
  } mf{*m, v};
  { VtkWriter w(m, "f", codim, p); w.WritePointData("data", mf); w.WriteCellData("data", mf); }
  const auto& g = got.unstructured_grid;
  std::vector<D> want(g.points.size());
  for (U i = 0; i < m->NumEntities(2); i++) want[i] = v[2][i];
  for (U i = 0; i < m->NumEntities(codim); i++) {
    auto* e = m->EntityByIndex(codim, i);
    auto ed = e->SubEntities(1 - codim);
    const int k = e->SubEntities(2 - codim).size();
    for (size_t j = k; j < g.cells[i].size(); j++) {
      int q = (j - k) / std::max(1, p - 1);
      want[g.cells[i][j]] = codim == 1 ? v[1][i] : q < k ? v[1][m->Index(*ed[q])] : v[0][i];
    }
  }
  sameData(got.point_data.at(0), want, "value of a piecewise mesh function at a point");
  sameData(got.cell_data.at(0), v[codim], "value of a piecewise mesh function at an element");
}
LFS_CASE(function_integer) {
  switch (lfs_choice("type", 4)) {
    case 0: return piecewise<unsigned char>();
    case 1: return piecewise<char>();
    case 2: return piecewise<unsigned>();
    default: return piecewise<int>();
  }
}
// ------------------------------------------------------------------------------------------------ the file
struct Reader {
  const std::vector<char>& b = std::lfs_buf::content();
  size_t i = 0;
  static bool isWs(char c) { return c == ' ' ? true : c == '\n'; }
  void ws() { while (i < b.size() && isWs(b[i])) i++; }
  std::string word() { ws(); std::string s; while (i < b.size() && !isWs(b[i])) s += b[i++]; return s; }
  std::string line() { std::string s; while (i < b.size() && b[i] != '\n') s += b[i++]; i++; return s; }
  void expect(const char* w) { std::string s = word(); lfs_assert(s == w, "keywords of the file"); }
  long number() {   // digits may be symbolic
    ws();
    bool neg = false;
    if (i < b.size() && (b[i] == '-' || b[i] == '+')) neg = b[i++] == '-';
    unsigned long v = 0;
    size_t i0 = i;
    while (i < b.size() && !isWs(b[i])) { lfs_assert(b[i] >= '0', "digits of a number"); lfs_assert(b[i] <= '9', "digits of a number"); v = 10 * v + (b[i++] - '0'); if (i - i0 > 20) lfs_fail("length of a number"); }
    lfs_assert(i > i0, "a number is expected");
    return (long)(neg ? -v : v);
  }
  void eol() { lfs_assert(i < b.size() && b[i] == '\n', "binary data starts on a new line"); i++; }
  unsigned long big(int n) { unsigned long v = 0; for (int k = 0; k < n; k++) { lfs_assert(i < b.size(), "the file is complete"); v = v << 8 | (unsigned char)b[i++]; } return v; }
  template <class T> T value(bool bin) {
    if constexpr (std::is_floating_point_v<T>) {
      if (!bin) { std::string s = word(); char* e; double d = std::strtod(s.c_str(), &e); lfs_assert(!s.empty() && !*e, "a floating point number is expected"); return (T)d; }
      std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t> u = big(sizeof(T));
      T r; std::memcpy(&r, &u, sizeof(T)); return r;
    } else return bin ? (T)big(sizeof(T)) : (T)number();
  }
  template <class T> void same(T want, bool bin) {
    T v = value<T>(bin);
    if constexpr (std::is_floating_point_v<T>) lfs_near(v, want, bin ? 0 : std::abs(want) * (sizeof(T) == 4 ? 1e-6 : 1e-12), "floating point number in the file");
    else lfs_assert(v == want, "integer in the file");
  }
};
template <class T> const char* vtkName();
template <> const char* vtkName<char>() { return "char"; }
template <> const char* vtkName<unsigned char>() { return "unsigned_char"; }
template <> const char* vtkName<short>() { return "short"; }
template <> const char* vtkName<unsigned short>() { return "unsigned_short"; }
template <> const char* vtkName<int>() { return "int"; }
template <> const char* vtkName<unsigned>() { return "unsigned_int"; }
template <> const char* vtkName<long>() { return "long"; }
template <> const char* vtkName<unsigned long>() { return "unsigned_long"; }
template <> const char* vtkName<float>() { return "float"; }
template <> const char* vtkName<double>() { return "double"; }
template <class T> static std::vector<T> fixedValues(int n) {
  static const double f[] = {1. / 3, -2.5e-7, 123456.789, 0, -1e10, 1, 0.1, 99999.5};
  static const long k[] = {7, -1, 0, 100, -128, 65, 10, 99};
  std::vector<T> v;
  for (int i = 0; i < n; i++) v.push_back(std::is_floating_point_v<T> ? (T)f[i % 8] : (T)k[i % 8]);
  return v;
}
template <class T> static std::vector<T> fileValues(int n, bool bin) {
  auto v = fixedValues<T>(n);
  if constexpr (!std::is_floating_point_v<T>)
    if (n) v[n / 2] = bin ? (T)lfs_int64("v") : (T)lfs_int("v", std::is_signed_v<T> ? -2 : 8, std::is_signed_v<T> ? 1 : 11);
  return v;
}
template <class T> static void scalarFile() {
  const bool bin = lfs_choice("binary", 2), cell = lfs_choice("cell", 2);
  VtkFile f;
  f.header = "a header";
  f.format = bin ? VtkFile::Format::BINARY : VtkFile::Format::ASCII;
  auto px = fixedValues<float>(15);
  for (int i = 0; i < 5; i++) f.unstructured_grid.points.emplace_back(px[3 * i], px[3 * i + 1], px[3 * i + 2]);
  f.unstructured_grid.cells = {{0, 1, 2}, {3, 2, 1, 4}};
  const U node = bin ? (U)lfs_int64("node") : 98 + (U)lfs_int("node", 0, 3);
  f.unstructured_grid.cells[1][2] = node;
  f.unstructured_grid.cell_types = {VtkFile::CellType::VTK_TRIANGLE, VtkFile::CellType::VTK_LAGRANGE_QUADRILATERAL};
  auto v = fileValues<T>(cell ? 2 : 5, bin);
  (cell ? f.cell_data : f.point_data).push_back(VtkFile::ScalarData<T>("some", v));
  lf::io::WriteToFileReal(f, "f");
  lfs_assert(!bin || (std::lfs_ofstream::mode() & std::ios_base::binary), "binary files are opened as such");
  Reader r;
  lfs_assert(r.line() == "# vtk DataFile Version 3.0", "first line");
  lfs_assert(r.line() == "a header", "second line");
  lfs_assert(r.line() == (bin ? "BINARY" : "ASCII"), "third line");
  r.expect("DATASET"); r.expect("UNSTRUCTURED_GRID");
  r.expect("POINTS"); lfs_assert(r.number() == 5, "number of points"); r.expect("float");
  if (bin) r.eol();
  for (float x : px) r.same<float>(x, bin);
  r.expect("CELLS"); lfs_assert(r.number() == 2, "number of cells"); lfs_assert(r.number() == 9, "size of the list of cells");
  if (bin) r.eol();
  for (int x : {3, 0, 1, 2, 4, 3, 2}) r.same<int>(x, bin);
  r.same<unsigned>(node, bin);
  r.same<int>(4, bin);
  r.expect("CELL_TYPES"); lfs_assert(r.number() == 2, "number of cell types");
  if (bin) r.eol();
  r.same<int>(5, bin); r.same<int>(70, bin);
  r.expect("FIELD"); r.expect("FieldData"); lfs_assert(r.number() == 0, "number of global arrays");
  auto attr = [&] {
    r.expect("SCALARS"); r.expect("some"); r.expect(vtkName<T>()); lfs_assert(r.number() == 1, "number of components");
    r.expect("LOOKUP_TABLE"); r.expect("default");
    if (bin) r.eol();
    for (T x : v) r.same<T>(x, bin);
  };
  r.expect("POINT_DATA"); lfs_assert(r.number() == 5, "number of points");
  if (!cell) attr();
  r.expect("CELL_DATA"); lfs_assert(r.number() == 2, "number of cells");
  if (cell) attr();
  r.ws();
  lfs_assert(r.i == r.b.size(), "nothing follows");
}
LFS_CASE(file_scalars) {
  switch (lfs_choice("type", 10)) {
    case 0: return scalarFile<char>();
    case 1: return scalarFile<unsigned char>();
    case 2: return scalarFile<short>();
    case 3: return scalarFile<unsigned short>();
    case 4: return scalarFile<int>();
    case 5: return scalarFile<unsigned>();
    case 6: return scalarFile<long>();
    case 7: return scalarFile<unsigned long>();
    case 8: return scalarFile<float>();
    default: return scalarFile<double>();
  }
}
template <class T> static void vectorFile(int nv, bool bin) {
  VtkFile f;
  f.header = "h";
  f.format = bin ? VtkFile::Format::BINARY : VtkFile::Format::ASCII;
  f.unstructured_grid.points.emplace_back(1, 2, 3);
  f.unstructured_grid.points.emplace_back(1, 2, 4);
  f.unstructured_grid.cells = {{0, 1}};
  f.unstructured_grid.cell_types = {VtkFile::CellType::VTK_LINE};
  auto v = fixedValues<T>(6);
  std::vector<Eigen::Matrix<T, 3, 1>> w{{v[0], v[1], v[2]}, {v[3], v[4], v[5]}};
  f.point_data.push_back(VtkFile::VectorData<T>("vec", w));
  f.point_data.push_back(VtkFile::ScalarData<int>("sc", {1, 2}));
  f.cell_data.push_back(VtkFile::VectorData<T>("cv", {w[1]}));
  auto gi = fileValues<int>(nv, bin);
  auto gf = fixedValues<float>(nv), gd32 = gf;
  auto gd = fixedValues<double>(nv);
  f.field_data.push_back(VtkFile::FieldDataArray<double>("D", gd));
  f.field_data.push_back(VtkFile::FieldDataArray<int>("I", gi));
  f.field_data.push_back(VtkFile::FieldDataArray<float>("F", gf));
  lf::io::WriteToFileReal(f, "f");
  Reader r;
  r.line(); r.line(); r.line(); r.line();
  r.expect("POINTS"); lfs_assert(r.number() == 2, "number of points"); r.expect("float");
  if (bin) r.eol();
  for (float x : {1, 2, 3, 1, 2, 4}) r.same<float>(x, bin);
  r.expect("CELLS"); lfs_assert(r.number() == 1, "number of cells"); lfs_assert(r.number() == 3, "size of the list of cells");
  if (bin) r.eol();
  for (int x : {2, 0, 1}) r.same<int>(x, bin);
  r.expect("CELL_TYPES"); lfs_assert(r.number() == 1, "number of cell types");
  if (bin) r.eol();
  r.same<int>(3, bin);
  r.expect("FIELD"); r.expect("FieldData"); lfs_assert(r.number() == 3, "number of global arrays");
  auto arr = [&](const char* name, auto& a) {
    using D = std::decay_t<decltype(a[0])>;
    r.expect(name); lfs_assert(r.number() == 1, "components of a global array"); lfs_assert(r.number() == nv, "length of a global array"); r.expect(vtkName<D>());
    if (bin) r.eol();
    for (D x : a) r.template same<D>(x, bin);
  };
  arr("D", gd); arr("I", gi); arr("F", gf);
  auto vec = [&](const char* name, int from, int to) {
    r.expect("VECTORS"); r.expect(name); r.expect(vtkName<T>());
    if (bin) r.eol();
    for (int i = from; i < to; i++) for (int k = 0; k < 3; k++) r.template same<T>(w[i](k), bin);
  };
  r.expect("POINT_DATA"); lfs_assert(r.number() == 2, "number of points");
  vec("vec", 0, 2);
  r.expect("SCALARS"); r.expect("sc"); r.expect("int"); lfs_assert(r.number() == 1, "number of components");
  r.expect("LOOKUP_TABLE"); r.expect("default");
  if (bin) r.eol();
  r.same<int>(1, bin); r.same<int>(2, bin);
  r.expect("CELL_DATA"); lfs_assert(r.number() == 1, "number of cells");
  vec("cv", 1, 2);
  r.ws();
  lfs_assert(r.i == r.b.size(), "nothing follows");
}
LFS_CASE(file_vectors) { const bool bin = lfs_choice("binary", 2); const int nv = lfs_choice("n", 4); lfs_choice("type", 2) ? vectorFile<float>(nv, bin) : vectorFile<double>(nv, bin); }
