// Fixing solution components preserves the linear system.
// units: base
// bound: systems of size 1..3 (real and complex), full matrix with arbitrary entries in [-2,2] plus one duplicate triplet at any position, arbitrary right-hand side, every subset of fixed components, arbitrary prescribed values; all three functions
// outside: larger systems; selectors whose answer depends on the history of calls
#include <lfs.h>
#include <lf/assemble/assemble.h>
#include <complex>
#include <vector>
using C = std::complex<double>;
using lf::assemble::COOMatrix;
static double sym(const char* n, double*) { return lfs_real(n, -2, 2); }
static C sym(const char* n, C*) { double a = lfs_real(n, -2, 2); return C(a, lfs_real(n, -2, 2)); }
static void near(double a, double b, const char* m) { lfs_near(a, b, 1e-9, m); }
static void near(C a, C b, const char* m) { lfs_near(a.real(), b.real(), 1e-9, m); lfs_near(a.imag(), b.imag(), 1e-9, m); }
static double mul(double a, double b) { return a * b; }
static C mul(C a, C b) { return C(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
template <class S> using V = Eigen::Matrix<S, Eigen::Dynamic, 1>;
template <class S> using M = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
template <class S> static void run(int N, int variant, bool tridiag) {
  COOMatrix<S> A(N, N);
  M<S> R = M<S>::Zero(N, N);
  V<S> b(N), b0(N), x(N);
  std::vector<S> val(N);
  std::vector<bool> flag(N);
  int first = lfs_choice("order", 2);
  auto add = [&](int i, int j) { S v = sym("a", (S*)0); A.AddToEntry(i, j, v); R(i, j) += v; };
  int di = lfs_choice("di", N), dj = lfs_choice("dj", N);
  if (first) add(di, dj);
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (!tridiag || std::abs(i - j) <= 1) add(i, j);
  if (!first) add(di, dj);
  for (int i = 0; i < N; i++) {
    b[i] = b0[i] = sym("b", (S*)0);
    val[i] = sym("value", (S*)0);
    flag[i] = lfs_choice("fixed", 2);
    // an arbitrary vector that takes the prescribed values
    x[i] = flag[i] ? val[i] : sym("x", (S*)0);
  }
  if (variant == 2) {
    // in any order, each component at most once
    lf::assemble::fixed_components_t<S> fc;
    bool rev = lfs_choice("reverse", 2);
    for (int k = 0; k < N; k++) { int i = rev ? N - 1 - k : k; if (flag[i]) fc.push_back({(lf::assemble::gdof_idx_t)i, val[i]}); }
    lf::assemble::FixSolutionComponentsLse<S>(fc, A, b);
  } else {
    // the value that accompanies an unset flag must not matter
    auto sel = [&](lf::assemble::gdof_idx_t i) { return std::pair<bool, S>(flag[i], val[i]); };
    if (variant == 0) lf::assemble::FixFlaggedSolutionComponents<S>(sel, A, b);
    else lf::assemble::FixFlaggedSolutionCompAlt<S>(sel, A, b);
  }
  lfs_assert((int)A.rows() == N && (int)A.cols() == N && b.size() == N, "size of the system is unchanged");
  M<S> D = A.makeDense();
  for (int i = 0; i < N; i++) {
    if (flag[i]) {
      for (int j = 0; j < N; j++) near(D(i, j), S(i == j ? 1.0 : 0.0), "the equation of a fixed component is that of the identity matrix");
      near(b[i], val[i], "the right-hand side of a fixed component is the prescribed value");
    } else {
      S r = -b[i], r0 = -b0[i];
      for (int j = 0; j < N; j++) { r += mul(D(i, j), x[j]); r0 += mul(R(i, j), x[j]); }
      near(r, r0, "residual of an unflagged equation for any vector with the prescribed components");
      for (int j = 0; j < N; j++) if (!flag[j]) near(D(i, j), R(i, j), "coefficients between free components are unchanged");
      if (variant == 0) for (int j = 0; j < N; j++) if (flag[j]) near(D(i, j), S(0), "columns of fixed components are removed");
    }
  }
}
LFS_CASE(real_flagged) { run<double>(1 + lfs_choice("N", 3), 0, false); }
LFS_CASE(real_alt) { run<double>(1 + lfs_choice("N", 3), 1, false); }
LFS_CASE(real_list) { run<double>(1 + lfs_choice("N", 3), 2, false); }
LFS_CASE(complex_flagged) { run<C>(2, 0, false); }
LFS_CASE(complex_alt) { run<C>(2, 1, false); }
LFS_CASE(complex_list) { run<C>(2, 2, false); }
LFS_CASE_THOROUGH(real4_flagged) { run<double>(4, 0, false); }
LFS_CASE_THOROUGH(real5_flagged) { run<double>(5, 0, true); }
LFS_CASE_THOROUGH(complex3_flagged) { run<C>(3, 0, false); }
