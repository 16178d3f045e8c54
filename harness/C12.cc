// Assembly is the sum of the active local contributions.
// units: core asm
// bound: meshes of 1..2 cells (triangles and quadrilaterals, every choice of first vertices for two triangles), trial and test spaces with 0..1 dofs per point, 0..2 per edge, 0..1 per cell chosen independently; arbitrary local matrices and vectors (fresh values in [-2,2] for every entry), arbitrary subset of active entities, assembly over cells, edges and points, into empty and into filled targets
// outside: larger meshes and spaces; local matrices larger than needed by more than one row and column
#include "dofs.h"
using namespace harness;
typedef std::map<lf::base::RefEl, lf::base::size_type> Lay;
struct Provider {
  const lf::mesh::Mesh& m; const DofHandler &trial, &test; U codim; int extra;
  std::vector<Mat> mats; std::vector<int> active, calls;
  Provider(const lf::mesh::Mesh& m_, const DofHandler& tr, const DofHandler& te, U c, int extra_, bool vector) : m(m_), trial(tr), test(te), codim(c), extra(extra_) {
    for (auto* e : m.Entities(c)) {
      Mat a(te.NumLocalDofs(*e) + extra, vector ? 1 : tr.NumLocalDofs(*e) + extra);
      for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) a(i, j) = lfs_real("local", -2, 2);
      mats.push_back(a);
      active.push_back(lfs_choice("active", 2));
      calls.push_back(0);
    }
  }
  bool isActive(const lf::mesh::Entity& e) { return active[m.Index(e)]; }
  Mat Eval(const lf::mesh::Entity& e) {
    lfs_assert(e.Codim() == codim, "only entities of the requested codimension are visited");
    lfs_assert(active[m.Index(e)], "inactive entities are not evaluated");
    calls[m.Index(e)]++;
    return mats[m.Index(e)];
  }
};
struct VProvider : Provider {
  using Provider::Provider;
  Eigen::VectorXd Eval(const lf::mesh::Entity& e) { return Provider::Eval(e).col(0); }
};
static lf::assemble::UniformFEDofHandler handler(std::shared_ptr<const lf::mesh::Mesh> m, int code) {
  Lay d;
  d[lf::base::RefEl::kPoint()] = code & 1;
  d[lf::base::RefEl::kSegment()] = (code >> 1) % 3;
  d[lf::base::RefEl::kTria()] = code > 5;
  d[lf::base::RefEl::kQuad()] = code > 5;
  return lf::assemble::UniformFEDofHandler(m, d);
}
static void matrix(int id, bool vary, U codim, int nl) {
  Topo t = baseTopo(id);
  if (vary) varyCells(t, false);
  auto m = simpleMesh(t, points(t, 2, 0));
  int c1 = 1 + lfs_choice("trial", nl), c2 = lfs_choice("test", nl + 1);
  auto trial = handler(m, c1), test = handler(m, c2);
  const bool same = c2 == 0;  // code 0: the same space twice
  const DofHandler& te = same ? trial : test;
  Provider p(*m, trial, te, codim, 0, false);
  const int R = te.NumDofs(), Cn = trial.NumDofs();
  if (R == 0 || Cn == 0) { lfs_assert(true, "nothing to assemble"); return; }
  Mat want = Mat::Zero(R, Cn);
  std::vector<int> calls;
  for (auto* e : m->Entities(codim)) {
    if (!p.active[m->Index(*e)]) continue;
    Idx r = vec(te.GlobalDofIndices(*e)), c = vec(trial.GlobalDofIndices(*e));
    for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < c.size(); j++) want(r[i], c[j]) += p.mats[m->Index(*e)](i, j);
  }
  typedef lf::assemble::COOMatrix<double> COO;
  COO A(1, 1);
  if (same && lfs_choice("short", 2)) A = lf::assemble::AssembleMatrixLocally<COO>(codim, trial, p);
  else A = lf::assemble::AssembleMatrixLocally<COO>(codim, trial, te, p);
  for (size_t i = 0; i < p.calls.size(); i++) lfs_assert(p.calls[i] == p.active[i], "every active entity is visited exactly once");
  Mat D = A.makeDense();
  lfs_assert(D.rows() == R && D.cols() == Cn, "rows belong to the test space, columns to the trial space");
  for (int i = 0; i < R; i++) for (int j = 0; j < Cn; j++) lfs_near(D(i, j), want(i, j), 1e-9, "entry of the assembled matrix");
  // assembling again into the same matrix adds to it
  double v0 = lfs_real("v0", -2, 2);
  A.AddToEntry(R - 1, 0, v0);
  lf::assemble::AssembleMatrixLocally<COO>(codim, trial, te, p, A);
  Mat D2 = A.makeDense();
  for (int i = 0; i < R; i++) for (int j = 0; j < Cn; j++) lfs_near(D2(i, j), 2 * want(i, j) + (i == R - 1 && j == 0 ? v0 : 0.0), 1e-9, "assembly adds to the target matrix");
}
LFS_CASE(matrix_tri) { matrix(T_TRI, true, 0, 6); }
LFS_CASE(matrix_quad) { matrix(T_QUAD, false, 0, 6); }
LFS_CASE(matrix_tritri) { matrix(T_TRITRI, true, 0, 3); }
LFS_CASE(matrix_triquad) { matrix(T_TRIQUAD, false, 0, 3); }
LFS_CASE(edges_tri) { matrix(T_TRI, false, 1, 4); }
LFS_CASE(edges_tritri) { matrix(T_TRITRI, false, 1, 2); }
LFS_CASE(points_tri) { matrix(T_TRI, false, 2, 3); }
static void vector(int id, bool vary, U codim, int nl) {
  Topo t = baseTopo(id);
  if (vary) varyCells(t, false);
  auto m = simpleMesh(t, points(t, 2, 0));
  auto dh = handler(m, 1 + lfs_choice("space", nl));
  VProvider p(*m, dh, dh, codim, lfs_choice("extra", 2), true);
  const int R = dh.NumDofs();
  Eigen::VectorXd want = Eigen::VectorXd::Zero(R);
  for (auto* e : m->Entities(codim)) {
    if (!p.active[m->Index(*e)]) continue;
    Idx r = vec(dh.GlobalDofIndices(*e));
    for (size_t i = 0; i < r.size(); i++) want(r[i]) += p.mats[m->Index(*e)](i, 0);
  }
  Eigen::VectorXd v = lf::assemble::AssembleVectorLocally<Eigen::VectorXd>(codim, dh, p);
  lfs_assert(v.size() == R, "length of the assembled vector");
  for (size_t i = 0; i < p.calls.size(); i++) lfs_assert(p.calls[i] == p.active[i], "every active entity is visited exactly once");
  for (int i = 0; i < R; i++) lfs_near(v(i), want(i), 1e-9, "entry of the assembled vector");
  Eigen::VectorXd w(R), w0(R);
  for (int i = 0; i < R; i++) w(i) = w0(i) = lfs_real("start", -2, 2);
  lf::assemble::AssembleVectorLocally(codim, dh, p, w);
  for (int i = 0; i < R; i++) lfs_near(w(i), w0(i) + want(i), 1e-9, "assembly adds to the target vector");
}
LFS_CASE(vector_tri) { vector(T_TRI, true, 0, 6); }
LFS_CASE(vector_tritri) { vector(T_TRITRI, true, 0, 6); }
LFS_CASE(vector_triquad) { vector(T_TRIQUAD, false, 0, 6); }
LFS_CASE(vector_edges) { vector(T_TRITRI, false, 1, 6); }
LFS_CASE(vector_points) { vector(T_TRITRI, false, 2, 3); }
