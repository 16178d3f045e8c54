// Triplet matrices denote the sum of their entries.
// units: base
// bound: matrices of 1..3 rows and columns, initial size from 1x1 (growing through AddToEntry) up to 3x3, 3 triplets (thorough tier: 4) at all index combinations (duplicates included), any values in [-2,2], any scaling factor, any vector; real and complex scalars; selective deletion by every predicate on index pairs
// outside: more triplets, larger matrices, predicates that depend on state
#include <lfs.h>
#include <lf/assemble/coomatrix.h>
#include <complex>
#include <vector>
using C = std::complex<double>;
using lf::assemble::COOMatrix;
static double sym(const char* n, double*) { return lfs_real(n, -2, 2); }
static C sym(const char* n, C*) { double a = lfs_real(n, -2, 2); return C(a, lfs_real(n, -2, 2)); }
static void near(double a, double b, const char* m) { lfs_near(a, b, 1e-9, m); }
static void near(C a, C b, const char* m) { lfs_near(a.real(), b.real(), 1e-9, m); lfs_near(a.imag(), b.imag(), 1e-9, m); }
static double mul(double a, double b) { return a * b; }
static C mul(C a, C b) { return C(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
template <class S> using V = Eigen::Matrix<S, Eigen::Dynamic, 1>;
template <class S> using M = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
template <class S> static void compare(const COOMatrix<S>& A, const M<S>& R, bool sparse, bool product) {
  const int r = R.rows(), c = R.cols();
  lfs_assert((int)A.rows() == r && (int)A.cols() == c, "size of the matrix: the largest index seen plus one, at least the initial size");
  M<S> D = A.makeDense();
  lfs_assert(D.rows() == r && D.cols() == c, "size of the dense matrix");
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) near(D(i, j), R(i, j), "entry of the dense matrix is the sum of the triplets");
  if (sparse) {
    Eigen::SparseMatrix<S> P = A.makeSparse();
    lfs_assert(P.rows() == r && P.cols() == c, "size of the sparse matrix");
    M<S> Q = M<S>::Zero(r, c);
    for (int k = 0; k < P.outerSize(); k++) for (typename Eigen::SparseMatrix<S>::InnerIterator it(P, k); it; ++it) Q(it.row(), it.col()) += it.value();
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) near(Q(i, j), R(i, j), "entry of the sparse matrix is the sum of the triplets");
  }
  if (product) {
    V<S> x(c), y(r);
    for (int i = 0; i < c; i++) x[i] = sym("x", (S*)0);
    for (int i = 0; i < r; i++) y[i] = sym("y", (S*)0);
    S al = sym("alpha", (S*)0);
    V<S> y0 = y, x0 = x;
    V<S> p = A.MatVecMult(al, x);
    A.MatVecMult(al, x, y);
    lfs_assert(p.size() == r && y.size() == r, "size of the product");
    for (int i = 0; i < r; i++) {
      S s = 0;
      for (int j = 0; j < c; j++) s += mul(R(i, j), mul(al, x0[j]));
      near(p[i], s, "matrix times scaled vector");
      near(y[i], y0[i] + s, "the in-place product is added to the result vector");
    }
    for (int i = 0; i < c; i++) near(x[i], x0[i], "argument vector is unchanged");
  }
}
template <class S> struct Setup {
  int r, c, n; std::vector<int> I, J; std::vector<S> v;
  Setup(int n_) : n(n_) {
    r = lfs_choice("rows", 2); c = lfs_choice("cols", 2);
    for (int k = 0; k < n; k++) { I.push_back(lfs_choice("i", k == 0 ? 3 : 2)); J.push_back(lfs_choice("j", k == 0 ? 3 : 2)); v.push_back(sym("v", (S*)0)); }
    r = r ? 3 : 1; c = c ? 3 : 1;
  }
  M<S> sum(COOMatrix<S>& A) {
    int R = r, Cc = c;
    for (int k = 0; k < n; k++) { A.AddToEntry(I[k], J[k], v[k]); R = std::max(R, I[k] + 1); Cc = std::max(Cc, J[k] + 1); }
    M<S> m = M<S>::Zero(R, Cc);
    for (int k = 0; k < n; k++) m(I[k], J[k]) += v[k];
    return m;
  }
};
template <class S> static void sums(int n, bool sparse, bool product) {
  Setup<S> s(n);
  COOMatrix<S> A(s.r, s.c);
  M<S> R = s.sum(A);
  compare(A, R, sparse, product);
  const COOMatrix<S> B(A);
  A.setZero();
  compare(A, M<S>(M<S>::Zero(R.rows(), R.cols())), sparse, false);
  compare(B, R, false, false);
}
template <class S> static void erase(int n, bool sparse) {
  Setup<S> s(n);
  COOMatrix<S> A(s.r, s.c);
  M<S> R = s.sum(A);
  bool sel[3][3];
  for (auto& row : sel) for (bool& b : row) b = false;
  for (int k = 0; k < n; k++) sel[s.I[k]][s.J[k]] = true;
  for (auto& row : sel) for (bool& b : row) if (b) b = lfs_choice("erase", 2);
  A.setZero([&](lf::assemble::gdof_idx_t i, lf::assemble::gdof_idx_t j) { return sel[i][j]; });
  for (int i = 0; i < R.rows(); i++) for (int j = 0; j < R.cols(); j++) if (sel[i][j]) R(i, j) = S(0);
  compare(A, R, sparse, false);
  // the matrix can still be extended
  S w = sym("w", (S*)0);
  A.AddToEntry(0, 0, w);
  R(0, 0) += w;
  compare(A, R, false, false);
}
LFS_CASE(real_dense) { sums<double>(3, false, false); }
LFS_CASE(real_sparse) { sums<double>(3, true, false); }
LFS_CASE(real_product) { sums<double>(3, false, true); }
LFS_CASE(real_erase) { erase<double>(3, true); }
LFS_CASE(complex_all) { sums<C>(2, true, true); }
LFS_CASE(complex_erase) { erase<C>(2, true); }
LFS_CASE_THOROUGH(real_dense4) { sums<double>(4, true, true); }
LFS_CASE_THOROUGH(real_erase4) { erase<double>(4, true); }
