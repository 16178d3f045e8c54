// Super-entity counts, boundary flags and mesh data sets.
// units: core
// bound: all pairs of a triangle or quadrilateral (fixed nodes, any start vertex) with any triangle or convex quadrilateral on 5 nodes, single cells, closed fans and a 4-cell hybrid mesh with every choice of first vertices, 2..4 triangles and quadrilaterals around a common edge in space (unused nodes, cells that meet in a node); data sets of arbitrary values on every codimension
// outside: larger meshes; value types other than bool, int and double
#include "meshes.h"
#include <lf/mesh/utils/utils.h>
using namespace harness;
using namespace lf::mesh::utils;
static bool has(const lf::mesh::Entity& e, const lf::mesh::Entity& s) {
  if (e.Codim() > s.Codim()) return false;
  for (auto* x : e.SubEntities(s.Codim() - e.Codim())) if (x == &s) return true;
  return false;
}
static void check(const std::shared_ptr<lf::mesh::Mesh>& m) {
  for (U cs = 0; cs < 3; cs++)
    for (U rel = 0; rel <= cs; rel++) {
      auto cnt = CountNumSuperEntities(m, cs, rel);
      for (auto* s : m->Entities(cs)) {
        U n = 0;
        for (auto* e : m->Entities(cs - rel)) n += has(*e, *s);
        lfs_assert(cnt(*s) == n, "number of super-entities");
        lfs_assert(cnt.DefinedOn(*s), "counts are defined on all entities of the codimension");
      }
    }
  std::vector<int> bd[3];
  for (U c = 0; c < 3; c++) bd[c].assign(m->NumEntities(c), 0);
  for (auto* e : m->Entities(1)) {
    int n = 0;
    for (auto* c : m->Entities(0)) n += has(*c, *e);
    if (n == 1) { bd[1][m->Index(*e)] = 1; for (auto* p : e->SubEntities(1)) bd[2][m->Index(*p)] = 1; }
  }
  for (U c = 1; c < 3; c++) {
    auto f = flagEntitiesOnBoundary(m, c);
    for (auto* e : m->Entities(c)) lfs_assert(f(*e) == (bool)bd[c][m->Index(*e)], "boundary flags: edges with one adjacent cell and their end points");
    for (U d = 0; d < 3; d++) if (d != c) for (auto* e : m->Entities(d)) lfs_assert(!f.DefinedOn(*e), "flags are defined for the requested codimension only");
  }
  auto f = flagEntitiesOnBoundary(m);
  for (U c = 0; c < 3; c++) for (auto* e : m->Entities(c)) lfs_assert(f(*e) == (bool)bd[c][m->Index(*e)], "boundary flags for all codimensions; cells are never flagged");
}
static void family(int id, bool flip, int vary) { Topo t = baseTopo(id); varyCells(t, flip, vary); check(simpleMesh(t, points(t, 2, 0))); }
LFS_CASE(single) { family(lfs_choice("quad", 2) ? T_QUAD : T_TRI, true, 9); }
LFS_CASE(fan) { family(T_FAN, false, 9); }
LFS_CASE(mixed) { family(T_MIXED, false, 2); }
static const double P5[5][2] = {{1.0, 0.0}, {0.31, 0.95}, {-0.81, 0.59}, {-0.81, -0.58}, {0.3, -0.95}};
LFS_CASE(pairs) {
  Topo t;
  for (auto& p : P5) t.p.push_back({p[0], p[1]});
  t.cells.push_back(lfs_choice("q0", 2) ? std::vector<U>{0, 1, 2, 3} : std::vector<U>{0, 1, 2});
  if (lfs_choice("q1", 2)) {
    int miss = lfs_choice("miss", 5);
    std::vector<U> c;
    for (int i = 0; i < 5; i++) if (i != miss) c.push_back(i);
    rotateCell(c, lfs_choice("rot", 4));
    t.cells.push_back(c);
  } else {
    int a = lfs_choice("a", 5), b = lfs_choice("b", 5), c = lfs_choice("c", 5);
    lfs_assume(a != b && b != c && a != c);
    t.cells.push_back({(U)a, (U)b, (U)c});
  }
  check(simpleMesh(t, points(t, 2, 0)));
}
// up to four cells that share one edge in space, and cells that share only a node
LFS_CASE(book) {
  Topo t;
  const int n = 2 + lfs_choice("cells", 3);
  t.p = {{0, 0}, {1, 0}};
  Mat p = Mat::Zero(3, 2 + 2 * n);
  p(0, 1) = 1;
  for (int i = 0; i < n; i++) {
    const U a = 2 + 2 * i, b = a + 1;
    for (int d = 0; d < 2; d++) { p(d + 1, a) = p(d + 1, b) = d == i % 2 ? (i < 2 ? 1 : -1) : 0; }
    p(0, b) = 1;
    // a quadrilateral or a triangle; unused nodes stay in the mesh
    std::vector<U> c = lfs_choice("quad", 2) ? std::vector<U>{0, 1, b, a} : std::vector<U>{0, 1, a};
    rotateCell(c, i % 3);
    if (lfs_choice("flip", 2)) std::reverse(c.begin(), c.end());
    t.cells.push_back(c);
  }
  if (lfs_choice("node only", 2)) t.cells.push_back({0, 2, 4});
  check(simpleMesh(t, p));
}
template <class T, class G> static void dataSets(G&& sym, const T& init) {
  Topo t = baseTopo(lfs_choice("mesh", 2) ? T_TRIQUAD : T_TRITRI);
  auto m = simpleMesh(t, points(t, 2, 0));
  auto other = simpleMesh(t, points(t, 2, 0));
  const U c = lfs_choice("codim", 3);
  CodimMeshDataSet<T> a(m, c, init);
  auto b = make_CodimMeshDataSet<T>(m, c);
  auto d = make_AllCodimMeshDataSet<T>(m, init);
  AllCodimMeshDataSet<T> g(m);
  typedef std::conditional_t<std::is_same_v<T, bool>, char, T> S;
  std::vector<S> va, vd[3];
  for (auto* e : m->Entities(c)) { lfs_assert(a(*e) == init, "initial value"); va.push_back(sym()); }
  for (U k = 0; k < 3; k++) for (auto* e : m->Entities(k)) { lfs_assert((*d)(*e) == init, "initial value"); vd[k].push_back(sym()); }
  for (auto* e : m->Entities(c)) { a(*e) = va[m->Index(*e)]; (*b)(*e) = va[m->Index(*e)]; }
  for (U k = 0; k < 3; k++) for (auto* e : m->Entities(k)) { (*d)(*e) = vd[k][m->Index(*e)]; g(*e) = vd[k][m->Index(*e)]; }
  const MeshDataSet<T>&ca = a, &cb = *b, &cd = *d, &cg = g;
  for (U k = 0; k < 3; k++)
    for (auto* e : m->Entities(k)) {
      lfs_assert(ca.DefinedOn(*e) == (k == c) && cb.DefinedOn(*e) == (k == c), "a data set is defined on the entities of its codimension");
      lfs_assert(cd.DefinedOn(*e) && cg.DefinedOn(*e), "a data set for all codimensions is defined everywhere");
      if (k == c) { lfs_assert(ca(*e) == va[m->Index(*e)], "each entity has its own value"); lfs_assert(cb(*e) == va[m->Index(*e)], "each entity has its own value"); }
      lfs_assert(cd(*e) == vd[k][m->Index(*e)], "each entity has its own value");
      lfs_assert(cg(*e) == vd[k][m->Index(*e)], "each entity has its own value");
    }
  for (U k = 0; k < 3; k++) for (auto* e : other->Entities(k)) lfs_assert(!ca.DefinedOn(*e) && !cd.DefinedOn(*e), "a data set is not defined on entities of another mesh");
}
LFS_CASE(data_int) { dataSets<int>([] { return lfs_int("v", -1000, 1000); }, 7); }
LFS_CASE(data_bool) { dataSets<bool>([] { return (char)lfs_int("v", 0, 1); }, true); }
LFS_CASE(data_double) {
  Topo t = baseTopo(T_TRIQUAD);
  auto m = simpleMesh(t, points(t, 2, 0));
  const U c = lfs_choice("codim", 3);
  CodimMeshDataSet<double> a(m, c, lfs_real("init", -2, 2));
  std::vector<double> v;
  for (size_t i = 0; i < m->NumEntities(c); i++) v.push_back(lfs_real("v", -2, 2));
  for (int i = (int)v.size() - 1; i >= 0; i--) a(*m->EntityByIndex(c, i)) = v[i];
  for (auto* e : m->Entities(c)) lfs_near(a(*e), v[m->Index(*e)], 0, "each entity has its own value");
}
