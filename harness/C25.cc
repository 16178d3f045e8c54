// Structured mesh builders.
// units: core
// bound: 1..3 cells per direction (torus 3..4), arbitrary bounding boxes with corners in [-1,0]x[-1,0] and [0.5,2]x[0.5,2]; empty and inverted boxes
// outside: more cells per direction; torus with fewer than 3 cells per direction (opposite edges would coincide)
#include "meshes.h"
#include <lf/mesh/utils/utils.h>
using namespace harness;
template <class B> static void plane(bool tri, int nmax) {
  const int nx = 1 + lfs_choice("nx", nmax), ny = 1 + lfs_choice("ny", nmax);
  double x0 = lfs_real("x0", -1, 0), y0 = lfs_real("y0", -1, 0), x1 = lfs_real("x1", 0.5, 2), y1 = lfs_real("y1", 0.5, 2);
  B b(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(2));
  b.setNumXCells(nx).setNumYCells(ny);
  if (lfs_choice("vec", 2)) {
    Eigen::Vector2d p(x0, y0), q(x1, y1);
    b.setBottomLeftCorner(p);
    if constexpr (requires { b.setTopRightCorner(q); }) b.setTopRightCorner(q);
    else lfs_fail("the top right corner can be set from a vector");
  } else b.setBottomLeftCorner(x0, y0).setTopRightCorner(x1, y1);
  auto m = b.Build();
  lfs_assert(m != nullptr, "a mesh is built");
  const int N = (nx + 1) * (ny + 1);
  lfs_assert((int)m->NumEntities(2) == N, "number of nodes");
  lfs_assert((int)m->NumEntities(0) == nx * ny * (tri ? 2 : 1), "number of cells");
  lfs_assert((int)m->NumEntities(1) == nx * (ny + 1) + ny * (nx + 1) + (tri ? nx * ny : 0), "number of edges");
  Mat pts(2, N);
  for (int k = 0; k < N; k++) {
    pts(0, k) = x0 + (x1 - x0) * (k % (nx + 1)) / nx;
    pts(1, k) = y0 + (y1 - y0) * (k / (nx + 1)) / ny;
  }
  std::vector<std::vector<U>> cells;
  std::vector<int> area(nx * ny, 0);
  for (auto* e : m->Entities(0)) {
    std::vector<U> c;
    for (auto* n : e->SubEntities(2)) c.push_back(m->Index(*n));
    lfs_assert((int)c.size() == (tri ? 3 : 4), "type of the cells");
    int a = 0, ci = 99, cj = 99, Ci = -1, Cj = -1;
    for (size_t k = 0; k < c.size(); k++) {
      int i = c[k] % (nx + 1), j = c[k] / (nx + 1), i2 = c[(k + 1) % c.size()] % (nx + 1), j2 = c[(k + 1) % c.size()] / (nx + 1);
      a += i * j2 - i2 * j;
      ci = std::min(ci, i); cj = std::min(cj, j); Ci = std::max(Ci, i); Cj = std::max(Cj, j);
    }
    lfs_assert(Ci == ci + 1 && Cj == cj + 1, "a cell lies in one rectangle of the grid");
    lfs_assert(a == (tri ? 1 : 2), "cells are not degenerate and counter-clockwise");
    area[ci + nx * cj] += a;
    cells.push_back(c);
    double v = lf::geometry::Volume(*e->Geometry());
    lfs_near(v, (x1 - x0) / nx * ((y1 - y0) / ny) * (tri ? 0.5 : 1.0), 1e-9, "area of a cell");
  }
  for (int a : area) lfs_assert(a == 2, "every rectangle of the grid is covered");
  if (tri) {
    // the two triangles in a rectangle must not overlap: they share their longest side and lie on different sides
    for (size_t a = 0; a < cells.size(); a++) for (size_t b2 = 0; b2 < a; b2++) { std::vector<U> s = cells[a], t = cells[b2]; std::sort(s.begin(), s.end()); std::sort(t.begin(), t.end()); lfs_assert(s != t, "no triangle occurs twice"); }
    std::map<Edge, int> use;
    for (auto& c : cells) for (int k = 0; k < 3; k++) use[sorted(c[k], c[(k + 1) % 3])]++;
    for (auto& u : use) {
      int i = u.first.first % (nx + 1), j = u.first.first / (nx + 1), i2 = u.first.second % (nx + 1), j2 = u.first.second / (nx + 1);
      bool bd = (i == i2 && (i == 0 || i == nx)) || (j == j2 && (j == 0 || j == ny));
      lfs_assert(u.second == (bd ? 1 : 2), "interior edges are shared by two cells, boundary edges belong to one");
    }
  }
  checkTopology(*m, N, cells, {}, false);
  checkGeometry(*m, pts, true);
}
LFS_CASE(triangles) { plane<lf::mesh::utils::TPTriagMeshBuilder>(true, lfs_thorough() ? 5 : 3); }
LFS_CASE(quads) { plane<lf::mesh::utils::TPQuadMeshBuilder>(false, lfs_thorough() ? 5 : 3); }
template <class B> static void refuse(int wd) {
  B b(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(wd));
  int nx = lfs_choice("nx", 2), ny = lfs_choice("ny", 2);
  double x1 = lfs_real("x1", -1, 1), y1 = lfs_real("y1", -1, 1);
  if (nx && ny && !lfs_choice("which", 2)) x1 = lfs_real("neg", -1, 0);
  else if (nx && ny) y1 = lfs_real("neg", -1, 0);
  b.setNumXCells(nx).setNumYCells(ny).setBottomLeftCorner(0, 0).setTopRightCorner(x1, y1);
  lfs_assert(b.Build() == nullptr, "no mesh without cells or for an empty box");
}
LFS_CASE(empty_triangles) { refuse<lf::mesh::utils::TPTriagMeshBuilder>(2); }
LFS_CASE(empty_quads) { refuse<lf::mesh::utils::TPQuadMeshBuilder>(2); }
LFS_CASE(empty_torus) { refuse<lf::mesh::utils::TorusMeshBuilder>(3); }
LFS_CASE(torus) {
  const int nx = 3 + lfs_choice("nx", 2), ny = 3 + lfs_choice("ny", 2);
  double sx = lfs_real("sx", 1, 2), sy = lfs_real("sy", 3, 4);
  lf::mesh::utils::TorusMeshBuilder b(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(3));
  b.setNumXCells(nx).setNumYCells(ny).setBottomLeftCorner(0, 0).setTopRightCorner(sx, sy);
  auto m = b.Build();
  lfs_assert((int)m->NumEntities(0) == nx * ny && (int)m->NumEntities(1) == 2 * nx * ny && (int)m->NumEntities(2) == nx * ny, "opposite sides are identified: numbers of entities");
  std::vector<std::vector<U>> cells;
  std::map<Edge, int> use;
  for (auto* e : m->Entities(0)) {
    std::vector<U> c;
    for (auto* n : e->SubEntities(2)) c.push_back(m->Index(*n));
    lfs_assert(c.size() == 4, "type of the cells");
    cells.push_back(c);
    for (int k = 0; k < 4; k++) use[sorted(c[k], c[(k + 1) % 4])]++;
  }
  for (auto& u : use) lfs_assert(u.second == 2, "every edge is shared by two cells");
  std::set<std::set<U>> distinct;
  for (auto& c : cells) lfs_assert(distinct.insert(std::set<U>(c.begin(), c.end())).second, "no cell occurs twice");
  Mat pts(3, nx * ny);
  const double PI = 3.14159265358979323846;
  for (int k = 0; k < nx * ny; k++) {
    double th = 2 * PI * (k % nx) / nx, ph = 2 * PI * (k / nx) / ny;
    pts(0, k) = (sy + sx * std::cos(th)) * std::cos(ph) / (2 * PI);
    pts(1, k) = (sy + sx * std::cos(th)) * std::sin(ph) / (2 * PI);
    pts(2, k) = sx * std::sin(th) / (2 * PI);
  }
  checkTopology(*m, nx * ny, cells, {}, false);
  checkGeometry(*m, pts, true);
}
