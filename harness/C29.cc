// DPG element matrices, vectors and normals.
// units: core fem dpg
// bound: outer normals of triangles, convex and concave quadrilaterals with either numbering direction (every coordinate +- 0.05); boundary quadrature from any rule with 2 points; diffusion (scalar, symmetric tensor), reaction and convection matrices for all pairs of H1/L2 components of degree 0 to 2 on triangles and parallelograms (one corner fixed, every other coordinate +- 0.05), any constant coefficients; load vectors for affine sources; flux and trace matrices for fluxes of degree 0 to 3 and traces of degree 1 to 2 on pairs of cells (one coordinate +- 0.02); products of several forms; the DPG matrix, vector and error estimate for any coefficients on a fixed triangle, parallelogram and quadrilateral
// outside: curved cells, coefficients for which the quadrature is not exact, cells far from the base shapes, non-symmetric diffusion tensors, complex scalars
#include "loc.h"
#include "loc_comp_dpg.h"
#include "product_fe_space_factory.h"
#include "product_element_matrix_provider_builder.h"
#include "product_element_vector_provider_builder.h"
#include "dpg_element_matrix_provider.h"
#include "dpg_element_vector_provider.h"
using namespace harness;
using namespace projects::dpg;
using lf::mesh::utils::MeshFunctionConstant;
using lf::mesh::utils::MeshFunctionGlobal;
using lf::mesh::Entity;
typedef std::shared_ptr<ProductUniformFESpace<double>> PSpace;
typedef Eigen::Vector2d V2;
static double coef(const char* n) { return lfs_real(n, -2, 2); }
// ---------------------------------------------------------------- normals
static double orient(const Mat& p) {
  double a = 0;
  const int n = p.cols();
  for (int i = 0; i < n; i++) a += p(0, i) * p(1, (i + 1) % n) - p(0, (i + 1) % n) * p(1, i);
  return a > 0 ? 1 : -1;
}
static void normals(int shape, double r) {
  Mat b = shape == 0 ? (Mat(2, 3) << 0, 1, 0.4, 0.1, 0.4, 1.7).finished()
        : shape == 1 ? (Mat(2, 4) << 0, 1, 1.5, 0.4, 0, 0.3, 2, 1.6).finished()
                     : (Mat(2, 4) << 0, 1.2, 0.45, 0.1, 0, 0.1, 0.5, 1.3).finished();  // concave
  const int n = b.cols(), rot = lfs_choice("rot", n), mir = lfs_choice("mirror", 2), rev = lfs_choice("reverse", 2);
  Mat p(2, n);
  for (int i = 0; i < n; i++) for (int d = 0; d < 2; d++) p(d, i) = b(d, ((rev ? n - i : i) + rot) % n) * (mir && d == 0 ? -1 : 1);
  const double o = orient(p);
  for (int i = 0; i < n; i++) for (int d = 0; d < 2; d++) p(d, i) += lfs_real("node", -r, r);
  std::unique_ptr<lf::geometry::Geometry> g;
  if (n == 3) g = std::make_unique<lf::geometry::TriaO1>(p);
  else g = std::make_unique<lf::geometry::QuadO1>(p);
  Mat N = OuterNormals(*g);
  lfs_assert(N.rows() == 2 && N.cols() == n, "one normal per edge");
  for (int i = 0; i < n; i++) {
    const double ex = p(0, (i + 1) % n) - p(0, i), ey = p(1, (i + 1) % n) - p(1, i);
    lfs_near(N(0, i) * N(0, i) + N(1, i) * N(1, i), 1.0, 1e-9, "normals have unit length");
    lfs_near(N(0, i) * ex + N(1, i) * ey, 0.0, 1e-9, "normals are orthogonal to the edges");
    lfs_ge(o * (N(0, i) * ey - N(1, i) * ex), 0.0, "normals point outwards");
  }
}
LFS_CASE(normals_tria) { normals(0, 0.05); }
LFS_CASE(normals_quad) { normals(1, 0.05); }
LFS_CASE(normals_concave) { normals(2, 0.05); }
LFS_CASE(boundary_rule) {
  const lf::base::RefEl re = lfs_choice("quad", 2) ? lf::base::RefEl::kQuad() : lf::base::RefEl::kTria();
  Mat x(1, 2);
  Eigen::VectorXd w(2);
  for (int i = 0; i < 2; i++) { x(0, i) = lfs_real("x", 0, 1); w(i) = lfs_real("w", -1, 1); }
  lf::quad::QuadRule q(lf::base::RefEl::kSegment(), x, w, 1);
  auto r = BoundaryQuadRule(re, q);
  const int n = re.NumNodes();
  lfs_assert((int)r.size() == n, "one rule per edge");
  for (int e = 0; e < n; e++) {
    lfs_assert(r[e].RefEl() == re && r[e].NumPoints() == 2, "a rule on the reference element of the cell");
    const double len = n == 3 && e == 1 ? std::sqrt(2.0) : 1.0;
    for (int i = 0; i < 2; i++) {
      Mat p = edgePoint(re, e, x(0, i));
      for (int d = 0; d < 2; d++) lfs_near(r[e].Points()(d, i), p(d, 0), 1e-12, "quadrature points lie on the edge, in the direction of the cell");
      lfs_near(r[e].Weights()(i), w(i) * len, 1e-12, "weights are scaled by the length of the edge");
    }
  }
}
// ---------------------------------------------------------------- forms on cells
static const char* kMsg[] = {"the diffusion matrix is the diffusion form for all test and trial functions", "the reaction matrix is the reaction form for all test and trial functions", "the convection matrix is the convection form for all test and trial functions", "the load vector is the linear form for all test functions"};
struct Mixed {  // reference integrals of test (rows) and trial (columns)
  int nv, nu;
  Mat vu, gg[4], gv[2], vg[2];
  std::vector<double> v, vx, vy;
};
static Mixed mixed(const Fe& u, const Fe& v) {
  Mixed R;
  Mat x;
  std::vector<double> w;
  rule(u.RefEl(), x, w);
  Mat U = u.EvalReferenceShapeFunctions(x), V = v.EvalReferenceShapeFunctions(x), gU = u.GradientsReferenceShapeFunctions(x), gV = v.GradientsReferenceShapeFunctions(x);
  R.nu = U.rows(); R.nv = V.rows();
  R.vu = Mat::Zero(R.nv, R.nu);
  for (auto& m : R.gg) m = R.vu;
  for (auto& m : R.gv) m = R.vu;
  for (auto& m : R.vg) m = R.vu;
  R.v.assign(R.nv, 0.0); R.vx = R.v; R.vy = R.v;
  for (size_t q = 0; q < w.size(); q++)
    for (int i = 0; i < R.nv; i++) {
      R.v[i] += w[q] * V(i, q);
      R.vx[i] += w[q] * V(i, q) * x(0, q);
      R.vy[i] += w[q] * V(i, q) * x(1, q);
      for (int j = 0; j < R.nu; j++) {
        R.vu(i, j) += w[q] * V(i, q) * U(j, q);
        for (int r = 0; r < 2; r++) {
          R.gv[r](i, j) += w[q] * gV(i, 2 * q + r) * U(j, q);
          R.vg[r](i, j) += w[q] * V(i, q) * gU(j, 2 * q + r);
          for (int s = 0; s < 2; s++) R.gg[2 * r + s](i, j) += w[q] * gV(i, 2 * q + r) * gU(j, 2 * q + s);
        }
      }
    }
  return R;
}
static void same(const Mat& m, int r, int c, const std::function<double(int, int)>& want, const char* msg) {
  lfs_assert(m.rows() == r && m.cols() == c, "size of the element matrix");
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) lfs_near(m(i, j), want(i, j), 1e-8, msg);
}
static PSpace space(const MeshP& m, const std::vector<std::array<int, 2>>& comps) {
  ProductUniformFESpaceFactory<double> f(m);
  for (auto& c : comps) {
    if (c[0] == 0) f.AddH1Component(c[1]);
    else if (c[0] == 1) f.AddL2Component(c[1]);
    else if (c[0] == 2) f.AddFluxComponent(c[1]);
    else f.AddTraceComponent(c[1]);
  }
  return f.Build();
}
static void cell(int shape, int form, int hi) {
  OneCell c = oneCell(shape, 2, 0.05, lfs_choice("mirror", 2));
  const int du = lfs_choice("trial", hi + 1), dv = lfs_choice("test", hi + 1);
  PSpace U = space(c.mesh, {{1, 0}, {du == 0 || dv == 1 ? 1 : 0, du}}), V = space(c.mesh, {{dv == 0 || du == 2 ? 1 : 0, dv}, {1, 1}});
  const Entity& e = *c.mesh->EntityByIndex(0, 0);
  Mixed R = mixed(*U->ShapeFunctionLayout(e.RefEl(), 1), *V->ShapeFunctionLayout(e.RefEl(), 0));
  if (form == 0) {
    const bool tensor = lfs_choice("tensor", 2);
    const double a = coef("a");
    double A[2][2] = {{a, 0}, {0, a}}, K[2][2];
    if (tensor) { A[0][1] = A[1][0] = coef("a"); A[1][1] = coef("a"); }
    pullback(c, A, K);
    auto want = [&](int i, int j) { double s = 0; for (int r = 0; r < 2; r++) for (int t = 0; t < 2; t++) s += K[r][t] * R.gg[2 * r + t](i, j); return s; };
    if (tensor) {
      Eigen::Matrix2d T;
      for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) T(i, j) = A[i][j];
      MeshFunctionConstant<Eigen::Matrix2d> f(T);
      DiffusionElementMatrixProvider<double, decltype(f)> p(U, V, 1, 0, f);
      same(p.Eval(e), R.nv, R.nu, want, kMsg[0]);
    } else {
      MeshFunctionConstant<double> f(a);
      DiffusionElementMatrixProvider<double, decltype(f)> p(U, V, 1, 0, f);
      lfs_assert(p.isActive(e) && p.TrialComponent() == 1 && p.TestComponent() == 0, "components of the provider");
      same(p.Eval(e), R.nv, R.nu, want, kMsg[0]);
      same(p.Eval(e), R.nv, R.nu, want, kMsg[0]);
    }
  } else if (form == 1) {
    const double g = coef("gamma");
    MeshFunctionConstant<double> f(g);
    ReactionElementMatrixProvider<double, decltype(f)> p(U, V, 1, 0, f);
    lfs_assert(p.isActive(e) && p.TrialComponent() == 1 && p.TestComponent() == 0, "components of the provider");
    same(p.Eval(e), R.nv, R.nu, [&](int i, int j) { return g * c.det * R.vu(i, j); }, kMsg[1]);
  } else if (form == 2) {
    V2 b1(coef("b1"), coef("b1")), b2(coef("b2"), coef("b2"));
    MeshFunctionConstant<V2> f1(b1), f2(b2);
    ConvectionElementMatrixProvider<double, decltype(f1), decltype(f2)> p(U, V, 1, 0, f1, f2);
    lfs_assert(p.isActive(e) && p.TrialComponent() == 1 && p.TestComponent() == 0, "components of the provider");
    // grad = J^-T gradhat; |det| J^-1 b = sign * adj(J) b
    const double sd = c.J(0, 0) * c.J(1, 1) - c.J(0, 1) * c.J(1, 0) > 0 ? 1 : -1;
    auto pull = [&](const V2& b, double* o) { o[0] = sd * (c.J(1, 1) * b(0) - c.J(0, 1) * b(1)); o[1] = sd * (c.J(0, 0) * b(1) - c.J(1, 0) * b(0)); };
    double k1[2], k2[2];
    pull(b1, k1);
    pull(b2, k2);
    same(p.Eval(e), R.nv, R.nu, [&](int i, int j) { double s = 0; for (int r = 0; r < 2; r++) s += k1[r] * R.gv[r](i, j) + k2[r] * R.vg[r](i, j); return s; }, kMsg[2]);
  } else {
    const double a = coef("f"), bx = dv ? coef("f") : 0.0, by = dv ? coef("f") : 0.0;
    MeshFunctionGlobal f([&](const V2& x) { return a + bx * x(0) + by * x(1); });
    LoadElementVectorProvider<double, decltype(f)> p(V, 0, f);
    lfs_assert(p.isActive(e) && p.TestComponent() == 0, "component of the provider");
    Eigen::VectorXd l = p.Eval(e);
    lfs_assert(l.size() == R.nv, "size of the load vector");
    for (int i = 0; i < R.nv; i++) {
      const double gx = bx * c.J(0, 0) + by * c.J(1, 0), gy = bx * c.J(0, 1) + by * c.J(1, 1);
      lfs_near(l(i), c.det * ((a + bx * c.p(0, 0) + by * c.p(1, 0)) * R.v[i] + gx * R.vx[i] + gy * R.vy[i]), 1e-8, kMsg[3]);
    }
  }
}
LFS_CASE(diffusion_tria) { cell(0, 0, 2); }
LFS_CASE(diffusion_para) { cell(1, 0, 1); }
LFS_CASE(reaction_tria) { cell(0, 1, 2); }
LFS_CASE(reaction_para) { cell(1, 1, 2); }
LFS_CASE(convection_tria) { cell(0, 2, 2); }
LFS_CASE(convection_para) { cell(1, 2, 1); }
LFS_CASE(load_tria) { cell(0, 3, 2); }
LFS_CASE(load_para) { cell(1, 3, 2); }
LFS_CASE_THOROUGH(diffusion_para2) { cell(1, 0, 2); }
LFS_CASE_THOROUGH(convection_para2) { cell(1, 2, 2); }
LFS_CASE_THOROUGH(reaction_tria3) { cell(0, 1, 3); }
// ---------------------------------------------------------------- forms on the boundary
struct Pair { MeshP mesh; Mat p; };
static Pair pairMesh(int id, int vary, double r) {
  Topo t = baseTopo(id);
  varyCells(t, true, vary);
  Pair q;
  q.p = points(t, 2, 0);
  if (r > 0) q.p(lfs_choice("dir", 2), 1) += lfs_real("node", -r, r);
  q.mesh = simpleMesh(t, q.p);
  return q;
}
static Mat cornersOf(const Pair& q, const Entity& c) {
  auto nd = c.SubEntities(2);
  Mat m(2, nd.size());
  for (size_t i = 0; i < nd.size(); i++) m.col(i) = q.p.col(q.mesh->Index(*nd[i]));
  return m;
}
static void flux(int id, int vary, double r, int lo, int hi) {
  Pair q = pairMesh(id, vary, r);
  const int d = lo + lfs_choice("flux", hi - lo + 1), dv = lfs_choice("test", 3);
  PSpace U = space(q.mesh, {{1, 1}, {2, d}}), V = space(q.mesh, {{1, dv}});
  const double a = coef("alpha");
  MeshFunctionConstant<double> f(a);
  FluxElementMatrixProvider<double, decltype(f)> p(U, V, 1, 0, f);
  PrescribedSignProvider sign(q.mesh);
  const auto& dh = U->LocGlobMap().ComponentDofHandler(1);
  const Fe& fl = *U->ShapeFunctionLayout(lf::base::RefEl::kSegment(), 1);
  const Gauss1& g = gauss6();
  for (auto* c : q.mesh->Entities(0)) {
    const Fe& te = *V->ShapeFunctionLayout(c->RefEl(), 0);
    const Mat cp = cornersOf(q, *c);
    const int n = cp.cols(), nv = te.NumRefShapeFunctions();
    auto gi = dh.GlobalDofIndices(*c);
    Mat m = p.Eval(*c);
    lfs_assert(m.rows() == nv && m.cols() == (int)gi.size() && (int)gi.size() == n * (d + 1), "size of the element matrix");
    for (int e = 0; e < n; e++) {
      const Entity* ed = c->SubEntities(1)[e];
      auto in = dh.GlobalDofIndices(*ed);
      const double ex = cp(0, (e + 1) % n) - cp(0, e), ey = cp(1, (e + 1) % n) - cp(1, e), len = std::sqrt(ex * ex + ey * ey);
      for (int k = 0; k <= d; k++) {
        const unsigned g0 = gi[e * (d + 1) + k];
        int kk = -1;
        for (int l = 0; l <= d; l++) if (in[l] == g0) kk = l;
        lfs_assert(kk >= 0, "the dofs of an edge occur in the cell");
        for (int i = 0; i < nv; i++) {
          double s = 0;
          for (int z = 0; z < g.n; z++) {
            Mat y(1, 1);
            y(0, 0) = g.x[z];
            s += g.w[z] * fl.EvalReferenceShapeFunctions(y)(kk, 0) * te.EvalReferenceShapeFunctions(onCell(*c, e, g.x[z]))(i, 0);
          }
          lfs_near(m(i, e * (d + 1) + k), a * sign.PrescribedSign(*c, *ed) * len * s, 1e-8, "the flux matrix is the flux form, with one function per dof on every edge, for all test functions");
        }
      }
    }
  }
}
LFS_CASE(flux_tritri) { flux(T_TRITRI, 2, 0, 0, 1); }
LFS_CASE(flux_triquad) { flux(T_TRIQUAD, 1, 0.02, 0, 1); }
LFS_CASE(flux_high_tritri) { flux(T_TRITRI, 2, 0, 2, 3); }
LFS_CASE(flux_high_triquad) { flux(T_TRIQUAD, 1, 0.02, 2, 3); }
static void trace(int id, int vary, double r) {
  Pair q = pairMesh(id, vary, r);
  const int d = 1 + lfs_choice("trace", 2), dv = lfs_choice("test", 3);
  PSpace U = space(q.mesh, {{3, d}}), V = space(q.mesh, {{1, 0}, {1, dv}});
  V2 b(coef("beta"), coef("beta"));
  MeshFunctionConstant<V2> f(b);
  TraceElementMatrixProvider<double, decltype(f)> p(U, V, 0, 1, f);
  const Gauss1& g = gauss6();
  for (auto* c : q.mesh->Entities(0)) {
    const Fe &te = *V->ShapeFunctionLayout(c->RefEl(), 1), &tr = *U->ShapeFunctionLayout(c->RefEl(), 0);
    const Mat cp = cornersOf(q, *c);
    const double o = orient(cp);
    const int n = cp.cols(), nv = te.NumRefShapeFunctions(), nu = tr.NumRefShapeFunctions();
    lfs_assert(nu == n * d, "trace functions of a cell");
    std::vector<Mat> I;
    for (int e = 0; e < n; e++) {
      Mat m = Mat::Zero(nv, nu);
      for (int z = 0; z < g.n; z++) {
        Mat y = edgePoint(c->RefEl(), e, g.x[z]);
        m += g.w[z] * te.EvalReferenceShapeFunctions(y) * tr.EvalReferenceShapeFunctions(y).transpose();
      }
      I.push_back(m);
    }
    same(p.Eval(*c), nv, nu, [&](int i, int j) {
      double s = 0;
      for (int e = 0; e < n; e++) s += o * ((cp(1, (e + 1) % n) - cp(1, e)) * b(0) - (cp(0, (e + 1) % n) - cp(0, e)) * b(1)) * I[e](i, j);
      return s;
    }, "the trace matrix is the trace form for all test and trial functions");
  }
}
LFS_CASE(trace_tritri) { trace(T_TRITRI, 1, 0.02); }
LFS_CASE(trace_quad) { trace(T_QUAD, 1, 0.02); }
LFS_CASE(trace_triquad) { trace(T_TRIQUAD, 1, 0); }
// ---------------------------------------------------------------- sums over products
static void product(int id) {
  Pair q = pairMesh(id, 1, 0);
  PSpace U = space(q.mesh, {{1, 1}, {3, 2}, {2, 1}, {0, 1}}), V = space(q.mesh, {{0, 1}, {1, 2}});
  MeshFunctionConstant<double> al(coef("alpha")), ga(coef("gamma")), gb(coef("gamma")), fa(coef("flux"));
  V2 bv(coef("b"), coef("b")), cv(coef("b"), coef("b"));
  MeshFunctionConstant<V2> b1(bv), b2(cv);
  ProductElementMatrixProviderBuilder<double> bld(U, V);
  bld.AddDiffusionElementMatrixProvider(3, 1, al).AddReactionElementMatrixProvider(3, 1, ga).AddConvectionElementMatrixProvider(0, 0, b1, b2);
  bld.AddReactionElementMatrixProvider(3, 0, gb).AddFluxElementMatrixProvider(2, 1, fa).AddTraceElementMatrixProvider(1, 0, b2);
  auto P = bld.Build();
  ProductElementVectorProviderBuilder<double> vb(V);
  vb.AddLoadElementVectorProvider(1, ga);
  vb.AddLoadElementVectorProvider(0, gb);
  vb.AddLoadElementVectorProvider(1, al);
  auto L = vb.Build();
  for (auto* c : q.mesh->Entities(0)) {
    const auto &du = U->LocGlobMap(), &dv = V->LocGlobMap();
    lfs_assert(P->isActive(*c) && L->isActive(*c), "all cells are active");
    const int R = dv.NumLocalDofs(*c), C = du.NumLocalDofs(*c);
    Mat want = Mat::Zero(R, C);
    auto put = [&](int tu, int tv, const Mat& m) {
      int r0 = 0, c0 = 0;
      for (int k = 0; k < tv; k++) r0 += dv.NumLocalDofs(*c, k);
      for (int k = 0; k < tu; k++) c0 += du.NumLocalDofs(*c, k);
      lfs_assert(m.rows() == (int)dv.NumLocalDofs(*c, tv) && m.cols() == (int)du.NumLocalDofs(*c, tu), "size of a block");
      for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) want(r0 + i, c0 + j) += m(i, j);
    };
    put(3, 1, DiffusionElementMatrixProvider<double, decltype(al)>(U, V, 3, 1, al).Eval(*c));
    put(3, 1, ReactionElementMatrixProvider<double, decltype(ga)>(U, V, 3, 1, ga).Eval(*c));
    put(0, 0, ConvectionElementMatrixProvider<double, decltype(b1), decltype(b2)>(U, V, 0, 0, b1, b2).Eval(*c));
    put(3, 0, ReactionElementMatrixProvider<double, decltype(gb)>(U, V, 3, 0, gb).Eval(*c));
    put(2, 1, FluxElementMatrixProvider<double, decltype(fa)>(U, V, 2, 1, fa).Eval(*c));
    put(1, 0, TraceElementMatrixProvider<double, decltype(b2)>(U, V, 1, 0, b2).Eval(*c));
    same(P->Eval(*c), R, C, [&](int i, int j) { return want(i, j); }, "the matrix of a product is the sum of the blocks of its components");
    Eigen::VectorXd w = Eigen::VectorXd::Zero(R), l = L->Eval(*c);
    Eigen::VectorXd l1 = LoadElementVectorProvider<double, decltype(ga)>(V, 1, ga).Eval(*c), l2 = LoadElementVectorProvider<double, decltype(gb)>(V, 0, gb).Eval(*c), l3 = LoadElementVectorProvider<double, decltype(al)>(V, 1, al).Eval(*c);
    const int n0 = dv.NumLocalDofs(*c, 0);
    for (int i = 0; i < l2.size(); i++) w(i) += l2(i);
    for (int i = 0; i < l1.size(); i++) w(n0 + i) += l1(i) + l3(i);
    lfs_assert(l.size() == R, "size of the vector");
    for (int i = 0; i < R; i++) lfs_near(l(i), w(i), 1e-9, "the vector of a product is the sum of the blocks of its components");
  }
}
LFS_CASE(product_triquad) { product(T_TRIQUAD); }
LFS_CASE(product_tritri) { product(T_TRITRI); }
// ---------------------------------------------------------------- DPG
static Mat solve(Mat G, Mat B) {  // elimination for concrete symmetric positive definite G
  const int n = G.rows(), k = B.cols();
  for (int p = 0; p < n; p++)
    for (int i = p + 1; i < n; i++) {
      const double f = G(i, p) / G(p, p);
      for (int j = p; j < n; j++) G(i, j) -= f * G(p, j);
      for (int j = 0; j < k; j++) B(i, j) -= f * B(p, j);
    }
  for (int p = n - 1; p >= 0; p--)
    for (int j = 0; j < k; j++) {
      for (int i = p + 1; i < n; i++) B(p, j) -= G(p, i) * B(i, j);
      B(p, j) /= G(p, p);
    }
  return B;
}
static void dpg(int id) {
  Pair q = pairMesh(id, 1, 0);
  PSpace U = space(q.mesh, {{0, 1}, {2, 0}}), V = space(q.mesh, {{1, 1}, {1, 0}});
  MeshFunctionConstant<double> one(1.0), two(2.0), al(coef("alpha")), ga(coef("gamma")), fl(1.5), f(coef("f"));
  V2 bv(coef("b"), 0.5);
  MeshFunctionConstant<V2> b1(bv), b2(V2(0.25, -1));
  ProductElementMatrixProviderBuilder<double> sb(U, V), gb(V, V);
  sb.AddDiffusionElementMatrixProvider(0, 0, al).AddReactionElementMatrixProvider(0, 1, ga).AddConvectionElementMatrixProvider(0, 0, b1, b2).AddFluxElementMatrixProvider(1, 0, fl);
  gb.AddDiffusionElementMatrixProvider(0, 0, one).AddReactionElementMatrixProvider(0, 0, two).AddReactionElementMatrixProvider(1, 1, one).AddReactionElementMatrixProvider(0, 1, one).AddReactionElementMatrixProvider(1, 0, one);
  auto S = sb.Build(), G = gb.Build();
  ProductElementVectorProviderBuilder<double> vb(V);
  vb.AddLoadElementVectorProvider(0, f);
  vb.AddLoadElementVectorProvider(1, one);
  auto L = vb.Build();
  DpgElementMatrixProvider<double> A(S, G);
  DpgElementVectorProvider<double> F(L, S, G);
  const auto& dh = U->LocGlobMap();
  Eigen::VectorXd sol = coeffs(dh.NumDofs(), 1);
  auto err = ElementErrorEstimators<double>(dh, S, G, L, sol);
  double sum = 0;
  for (auto* c : q.mesh->Entities(0)) {
    lfs_assert(A.isActive(*c) && F.isActive(*c), "all cells are active");
    Mat B = S->Eval(*c), g = G->Eval(*c);
    Eigen::VectorXd l = L->Eval(*c);
    Mat X = solve(g, B), want = B.transpose() * X;
    same(A.Eval(*c), B.cols(), B.cols(), [&](int i, int j) { return want(i, j); }, "the DPG matrix is B^T G^-1 B");
    Eigen::VectorXd w = X.transpose() * l, h = F.Eval(*c);
    lfs_assert(h.size() == B.cols(), "size of the DPG vector");
    for (int i = 0; i < w.size(); i++) lfs_near(h(i), w(i), 1e-8, "the DPG vector is B^T G^-1 l");
    Eigen::VectorXd r = l;
    auto gi = dh.GlobalDofIndices(*c);
    for (int i = 0; i < r.size(); i++) for (int j = 0; j < B.cols(); j++) r(i) -= B(i, j) * sol(gi[j]);
    Mat y = solve(g, Mat(r));
    double s = 0;
    for (int i = 0; i < r.size(); i++) s += r(i) * y(i, 0);
    const double e = err(*c);
    lfs_ge(e, 0, "the error estimate is not negative");
    lfs_near(e * e, s, 1e-6, "the error estimate is the norm of the Riesz representative of the residual");
    sum += e * e;
  }
  const double t = EvalPosteriorError<double>(q.mesh, err);
  lfs_ge(t, 0, "the error estimate is not negative");
  lfs_near(t * t, sum, 1e-6, "the global estimate is the Euclidean norm of the local ones");
}
LFS_CASE(dpg_tri) { dpg(T_TRI); }
LFS_CASE(dpg_quad) { dpg(T_QUAD); }
LFS_CASE(dpg_triquad) { dpg(T_TRIQUAD); }
