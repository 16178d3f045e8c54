// Reference element topology.
// units: base
// bound: all four reference elements; codimension and index arguments symbolic over their whole valid range
// outside: arguments outside the documented range
#include <lfs.h>
#include <lf/base/base.h>
using lf::base::RefEl;
using lf::base::RefElType;
static RefEl el(int t) { return t == 0 ? RefEl::kPoint() : t == 1 ? RefEl::kSegment() : t == 2 ? RefEl::kTria() : RefEl::kQuad(); }
static const int DIM[] = {0, 1, 2, 2}, NV[] = {1, 2, 3, 4};
static const double COORD[4][8] = {{0}, {0, 1}, {0, 0, 1, 0, 0, 1}, {0, 0, 1, 0, 1, 1, 0, 1}};
static int numSub(int t, int codim) { return codim == 0 ? 1 : t == 1 ? 2 : NV[t]; }
static int subType(int t, int codim) { return codim == 0 ? t : DIM[t] - codim; }
// vertices of sub-entity i of codimension c (independent description)
static int vertexOf(int t, int c, int i, int k) {
  if (c == 0) return k;
  if (c == DIM[t]) return i;
  return (i + k) % NV[t];
}
LFS_CASE(topology) {
  const int t = lfs_choice("type", 4);
  RefEl e = el(t);
  lfs_assert(e.Dimension() == DIM[t], "dimension");
  lfs_assert(e.NumNodes() == NV[t], "number of nodes");
  int c = lfs_int("codim", 0, DIM[t]);
  lfs_assert(e.NumSubEntities(c) == numSub(t, c), "number of sub-entities");
  int i = lfs_int("index", 0, 3);
  lfs_assume(i < numSub(t, c));
  RefEl s = e.SubType(c, i);
  lfs_assert(s == el(subType(t, c)), "type of a sub-entity");
  lfs_assert(s.Dimension() == DIM[t] - c, "dimension of a sub-entity");
  // nested sub-entities
  int rc = lfs_int("relcodim", 0, 2);
  lfs_assume(rc <= DIM[t] - c);
  int st = subType(t, c);
  st = lfs_concrete(st);
  int k = lfs_int("relindex", 0, 3);
  lfs_assume(k < numSub(st, rc));
  unsigned idx = e.SubSubEntity2SubEntity(c, i, rc, k);
  lfs_assert(idx < e.NumSubEntities(c + rc), "nested index is in range");
  lfs_assert(e.SubType(c + rc, idx) == s.SubType(rc, k), "nested type agrees whichever way the hierarchy is walked");
  if (rc == 0) lfs_assert(idx == i, "a sub-entity is its own nested entity");
  if (c == 0) lfs_assert(idx == k, "sub-entities of the cell itself keep their index");
  if (c + rc == DIM[t]) lfs_assert(idx == vertexOf(t, c, i, k), "vertices of a sub-entity: edge i runs from corner i to corner i+1");
}
// walking cell -> edge -> vertex equals walking in one step, for the vertex set
LFS_CASE(transitive) {
  const int t = 2 + lfs_choice("type", 2);
  RefEl e = el(t);
  int i = lfs_int("edge", 0, NV[t] - 1), k = lfs_int("end", 0, 1);
  unsigned v = e.SubSubEntity2SubEntity(1, i, 1, k);
  int j = lfs_int("edge2", 0, NV[t] - 1);
  lfs_assume(j == (k == 0 ? (i + NV[t] - 1) % NV[t] : (i + 1) % NV[t]));
  lfs_assert(e.SubSubEntity2SubEntity(1, j, 1, 1 - k) == v, "adjacent edges share their common corner");
}
template <RefElType T> static void stat(int t) {
  auto& v = RefEl::NodeCoords<T>();
  lfs_assert((int)v.size() == NV[t], "static node coordinates: number");
  for (int i = 0; i < NV[t]; i++)
    for (int d = 0; d < DIM[t]; d++) lfs_near(v[i][d], COORD[t][i * DIM[t] + d], 0, "static node coordinates");
}
LFS_CASE(coordinates) {
  const int t = lfs_choice("type", 4);
  const Eigen::MatrixXd& m = el(t).NodeCoords();
  lfs_assert(m.rows() == DIM[t] && m.cols() == NV[t], "size of the node coordinate matrix");
  for (int i = 0; i < NV[t]; i++)
    for (int d = 0; d < DIM[t]; d++) lfs_near(m(d, i), COORD[t][i * DIM[t] + d], 0, "node coordinates");
  switch (t) {
    case 0: stat<RefElType::kPoint>(0); break;
    case 1: stat<RefElType::kSegment>(1); break;
    case 2: stat<RefElType::kTria>(2); break;
    default: stat<RefElType::kQuad>(3);
  }
}
LFS_CASE(equality) {
  int a = lfs_choice("a", 4), b = lfs_choice("b", 4);
  lfs_assert((el(a) == el(b)) == (a == b), "operator==");
  lfs_assert((el(a) != el(b)) == (a != b), "operator!=");
  lfs_assert((lf::base::RefElType)el(a) == (lf::base::RefElType)(a + 1), "conversion to the type tag");
}
