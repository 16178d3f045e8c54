// Stokes discretisation.
// units: core fem ipdg
// bound: triangles with every choice of first vertex and direction (every coordinate +- 0.05), any penalty parameter in [0.5,4], both penalty terms, both values of the boundary flags; affine forces; pairs and fans of triangles for normals, tangents, velocities, system matrices and norms; no-flow and in/out-flow systems for any boundary velocity (without net flux) on fixed pairs and fans of triangles; annulus meshes with 3 to 5 angular and 1 to 2 radial cells and any radii and centre
// outside: triangles far from the base shapes, larger meshes, non-affine forces, curved cells
#include "loc.h"
#include <assemble/build_system_matrix.h>
#include <assemble/offset_function.h>
#include <assemble/piecewise_const_element_matrix_provider.h>
#include <assemble/piecewise_const_element_vector_provider.h>
#include <ipdg_stokes/mesh/annulus_triag_mesh_builder.h>
#include <ipdg_stokes/mesh/utils.h>
#include <post_processing/mesh_function_velocity.h>
#include <post_processing/norms.h>
#include <post_processing/solution_to_mesh_data_set.h>
using namespace harness;
using namespace projects::ipdg_stokes;
using lf::mesh::Entity;
typedef Eigen::Vector2d V2;
struct Case { MeshP mesh; Mat p; };
static Case makeMesh(int id, int vary, double r) {
  Topo t = baseTopo(id);
  varyCells(t, true, vary);
  Case c;
  c.p = points(t, 2, r);
  c.mesh = simpleMesh(t, c.p);
  return c;
}
// corners, edge vectors (counterclockwise), doubled area (positive) and curls of the hat functions of a triangle
struct Tri {
  double x[3], y[3], o, area2, ex[3], ey[3], len[3], cx[3], cy[3];
};
static Tri tri(const Case& c, const Entity& e, double sign) {
  Tri t;
  auto nd = e.SubEntities(2);
  for (int i = 0; i < 3; i++) { t.x[i] = c.p(0, c.mesh->Index(*nd[i])); t.y[i] = c.p(1, c.mesh->Index(*nd[i])); }
  t.o = sign;
  const double D = (t.x[1] - t.x[0]) * (t.y[2] - t.y[0]) - (t.x[2] - t.x[0]) * (t.y[1] - t.y[0]);
  t.area2 = t.o * D;
  for (int i = 0; i < 3; i++) {
    const int j = (i + 1) % 3, k = (i + 2) % 3;
    t.ex[i] = t.o * (t.x[j] - t.x[i]);
    t.ey[i] = t.o * (t.y[j] - t.y[i]);
    t.len[i] = std::sqrt(t.ex[i] * t.ex[i] + t.ey[i] * t.ey[i]);
    // grad b_i = (y_j - y_k, x_k - x_j) / D; curl = (d/dy, -d/dx)
    t.cx[i] = (t.x[k] - t.x[j]) / D;
    t.cy[i] = (t.y[k] - t.y[j]) / D;
  }
  return t;
}
static double signOf(const Case& c, const Entity& e) {  // by branching on the (never ambiguous) doubled area
  auto nd = e.SubEntities(2);
  double x[3], y[3];
  for (int i = 0; i < 3; i++) { x[i] = c.p(0, c.mesh->Index(*nd[i])); y[i] = c.p(1, c.mesh->Index(*nd[i])); }
  return (x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0]) > 0 ? 1 : -1;
}
static lf::mesh::utils::AllCodimMeshDataSet<bool> flags(const MeshP& m, int bits) {
  lf::mesh::utils::AllCodimMeshDataSet<bool> b(m, false);
  for (auto* e : m->Entities(1)) b(*e) = (bits >> m->Index(*e)) % 2 == 1;
  return b;
}
static void normals(int id, int vary, double r) {
  Case c = makeMesh(id, vary, r);
  for (auto* e : c.mesh->Entities(0)) {
    Tri t = tri(c, *e, signOf(c, *e));
    Mat n = projects::ipdg_stokes::mesh::computeOutwardNormals(*e), s = projects::ipdg_stokes::mesh::computeTangentials(*e);
    for (int i = 0; i < 3; i++) {
      lfs_near(n(0, i) * n(0, i) + n(1, i) * n(1, i), 1, 1e-9, "normals have unit length");
      lfs_near(n(0, i) * t.ex[i] + n(1, i) * t.ey[i], 0, 1e-9, "normals are orthogonal to the edges");
      lfs_ge(n(0, i) * t.ey[i] - n(1, i) * t.ex[i], 0, "normals point outwards");
      lfs_near(s(0, i), -n(1, i), 1e-12, "tangents are the normals turned by 90 degrees");
      lfs_near(s(1, i), n(0, i), 1e-12, "tangents are the normals turned by 90 degrees");
    }
  }
}
LFS_CASE(normals_tri) { normals(T_TRI, 9, 0.05); }
LFS_CASE(normals_tritri) { normals(T_TRITRI, 2, 0.02); }
static void matrix(int id, int vary, double r) {
  Case c = makeMesh(id, vary, r);
  const double sigma = lfs_real("sigma", 0.5, 4);
  const bool mod = lfs_choice("modified", 2);
  const int bits = id == T_TRI ? lfs_choice("boundary", 8) : lfs_choice("boundary", 2) ? 21 : 10;
  auto b = flags(c.mesh, bits);
  assemble::PiecewiseConstElementMatrixProvider p(sigma, b, mod);
  for (auto* e : c.mesh->Entities(0)) {
    lfs_assert(p.isActive(*e), "all cells are active");
    Tri t = tri(c, *e, signOf(c, *e));
    const Mat tg = projects::ipdg_stokes::mesh::computeTangentials(*e);  // checked by the cases above
    Mat m = p.Eval(*e);
    lfs_assert(m.rows() == 6 && m.cols() == 6, "size of the element matrix");
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) {
        lfs_near(m(i, j), 0, 1e-12, "there is no coupling between coefficients of the stream function");
        lfs_near(m(3 + j, i), t.cx[i] * tg(0, j) + t.cy[i] * tg(1, j), 1e-8, "edge multipliers test the tangential component of the velocity basis");
        lfs_near(m(3 + j, i), m(i, 3 + j), 1e-12, "the element matrix is symmetric");
        if (i != j) lfs_near(m(3 + i, 3 + j), 0, 1e-12, "multipliers of different edges are not coupled");
      }
    for (int i = 0; i < 3; i++) {
      const bool bd = (bits >> c.mesh->Index(*e->SubEntities(1)[i])) % 2;
      lfs_near(m(3 + i, 3 + i) * sigma * (mod ? t.len[i] : 1.0), bd ? -1.0 : -0.5, 1e-9, "the penalty of an edge is split between its cells");
    }
  }
}
LFS_CASE(matrix_tri) { matrix(T_TRI, 9, 0.05); }
LFS_CASE(matrix_tritri) { matrix(T_TRITRI, 2, 0.02); }
static void vector(int id, int vary, double r) {
  Case c = makeMesh(id, vary, r);
  const int bits = id == T_TRI ? lfs_choice("boundary", 8) : 21, degree = 1 + lfs_choice("degree", 3);
  auto b = flags(c.mesh, bits);
  double f[2][3];
  for (auto& q : f) for (double& v : q) v = lfs_real("f", -2, 2);
  lf::mesh::utils::CodimMeshDataSet<V2> g(c.mesh, 1);
  for (auto* e : c.mesh->Entities(1)) g(*e) = V2(lfs_real("g", -2, 2), lfs_real("g", -2, 2));
  auto F = [&](const V2& x) { return V2(f[0][0] + f[0][1] * x(0) + f[0][2] * x(1), f[1][0] + f[1][1] * x(0) + f[1][2] * x(1)); };
  assemble::PiecewiseConstElementVectorProvider p(1.0, F, lf::quad::make_QuadRule(lf::base::RefEl::kTria(), degree), b, g);
  for (auto* e : c.mesh->Entities(0)) {
    lfs_assert(p.isActive(*e), "all cells are active");
    Tri t = tri(c, *e, signOf(c, *e));
    const Mat tg = projects::ipdg_stokes::mesh::computeTangentials(*e);  // checked by the cases above
    Eigen::VectorXd v = p.Eval(*e);
    lfs_assert(v.size() == 6, "size of the element vector");
    const V2 m = F(V2((t.x[0] + t.x[1] + t.x[2]) / 3, (t.y[0] + t.y[1] + t.y[2]) / 3));
    for (int i = 0; i < 3; i++) {
      lfs_near(v(i), 0.5 * t.area2 * (m(0) * t.cx[i] + m(1) * t.cy[i]), 1e-8, "the load is the integral of the force against the velocity basis");
      const Entity& ed = *e->SubEntities(1)[i];
      if ((bits >> c.mesh->Index(ed)) % 2) lfs_near(v(3 + i), g(ed)(0) * tg(0, i) + g(ed)(1) * tg(1, i), 1e-8, "boundary edges carry the tangential component of the boundary velocity");
      else lfs_near(v(3 + i), 0, 1e-12, "inner edges carry no load");
    }
  }
}
LFS_CASE(vector_tri) { vector(T_TRI, 9, 0.05); }
LFS_CASE(vector_tritri) { vector(T_TRITRI, 1, 0.02); }
// ---------------------------------------------------------------- systems
typedef lf::base::RefEl R;
static lf::assemble::UniformFEDofHandler dofs(const MeshP& m) { return lf::assemble::UniformFEDofHandler(m, {{R::kPoint(), 1}, {R::kSegment(), 1}}); }
static void system(int id, bool inout) {
  Case c = makeMesh(id, 1, 0);
  auto dh = dofs(c.mesh);
  const int nv = c.mesh->NumEntities(2), ne = c.mesh->NumEntities(1), N = nv + ne;
  lfs_assert((int)dh.NumDofs() == N, "one dof per node and edge");
  const bool mod = lfs_choice("modified", 2);
  const double sigma = 2, f0 = lfs_real("f", -1, 1), f1 = lfs_real("f", -1, 1);
  std::vector<int> count(ne, 0);
  std::vector<V2> nrm(ne, V2(0, 0));
  for (auto* e : c.mesh->Entities(0)) {
    Tri t = tri(c, *e, signOf(c, *e));
    for (int i = 0; i < 3; i++) { const int k = c.mesh->Index(*e->SubEntities(1)[i]); count[k]++; nrm[k] = V2(t.ey[i], -t.ex[i]); }  // outward, scaled by the length
  }
  std::vector<V2> g(ne, V2(0, 0));
  double net = 0;
  int last = -1;
  for (int k = 0; k < ne; k++) {
    if (count[k] != 1) { g[k] = V2(0.7, -0.3); continue; }
    if (inout) g[k] = V2(lfs_real("g", -1, 1), lfs_real("g", -1, 1));
    else {
      const double s = lfs_real("g", -1, 1);
      g[k] = V2(-nrm[k](1), nrm[k](0)) * s;
    }
    net += g[k].dot(nrm[k]);
    last = k;
  }
  // no net flux over the boundary
  if (inout) g[last] -= nrm[last] * (net / nrm[last].squaredNorm());
  auto G = [&](const Entity& e) { return g[c.mesh->Index(e)]; };
  auto F = [&](const V2&) { return V2(f0, f1); };
  lf::quad::QuadRule q = lf::quad::make_QuadRule(R::kTria(), 1);
  Mat A = Mat::Zero(N, N);
  Eigen::VectorXd b = Eigen::VectorXd::Zero(N);
  std::vector<bool> fixed(N, false);
  for (auto* e : c.mesh->Entities(0)) {
    Tri t = tri(c, *e, signOf(c, *e));
    auto gi = dh.GlobalDofIndices(*e);
    for (int j = 0; j < 3; j++) {
      const int k = c.mesh->Index(*e->SubEntities(1)[j]);
      for (int i = 0; i < 3; i++) {
        const double v = (t.cx[i] * t.ex[j] + t.cy[i] * t.ey[j]) / t.len[j];
        A(gi[3 + j], gi[i]) += v;
        A(gi[i], gi[3 + j]) += v;
      }
      A(gi[3 + j], gi[3 + j]) += -1 / sigma / (mod ? t.len[j] : 1.0) / count[k];
      if (count[k] == 1) {
        b(gi[3 + j]) += (g[k](0) * t.ex[j] + g[k](1) * t.ey[j]) / t.len[j];
        fixed[gi[j]] = fixed[gi[(j + 1) % 3]] = true;
      }
      b(gi[j]) += 0.5 * t.area2 * (f0 * t.cx[j] + f1 * t.cy[j]);
    }
  }
  Eigen::VectorXd off = Eigen::VectorXd::Zero(N);
  Mat S;
  Eigen::VectorXd rhs;
  if (inout) {
    auto r = assemble::buildSystemMatrixInOutFlow(c.mesh, dh, F, G, sigma, q, mod);
    S = std::get<0>(r).makeDense();
    rhs = std::get<1>(r);
    off = std::get<2>(r);
    lfs_assert(off.size() == N, "size of the offset function");
    double sum = 0;
    for (int i = 0; i < nv; i++) if (fixed[i]) sum += off(i); else lfs_near(off(i), 0, 1e-9, "the offset function lives on the boundary");
    lfs_near(sum, 0, 1e-6, "the coefficients of the offset function have mean zero");
    for (auto* e : c.mesh->Entities(0)) {
      Tri t = tri(c, *e, signOf(c, *e));
      auto gi = dh.GlobalDofIndices(*e);
      for (int j = 0; j < 3; j++) {
        const int k = c.mesh->Index(*e->SubEntities(1)[j]);
        if (count[k] != 1) continue;
        double u = 0;
        for (int i = 0; i < 3; i++) u += off(gi[i]) * (t.cx[i] * nrm[k](0) + t.cy[i] * nrm[k](1));
        lfs_near(u, g[k].dot(nrm[k]), 1e-6, "the offset function has the normal component of the boundary velocity");
      }
    }
    for (int k = 0; k < ne; k++) {
      double s = 0;
      for (int i = 0; i < nv; i++) s += A(nv + k, i) * off(i);
      lfs_near(off(nv + k), s, 1e-6, "the edge part of the offset function is its tangential jump");
    }
  } else {
    auto r = assemble::buildSystemMatrixNoFlow(c.mesh, dh, F, G, sigma, q, mod);
    S = std::get<0>(r).makeDense();
    rhs = std::get<1>(r);
  }
  lfs_assert(S.rows() == N && S.cols() == N && rhs.size() == N, "size of the system");
  for (int i = 0; i < N; i++) {
    if (fixed[i]) {
      lfs_assert(S(i, i) != 0, "equation of a boundary node");
      lfs_near(rhs(i), 0, 1e-9, "boundary nodes are set to zero");
      for (int j = 0; j < N; j++) if (j != i) lfs_near(S(i, j), 0, 1e-9, "boundary nodes are set to zero");
      continue;
    }
    double w = b(i);
    for (int j = 0; j < nv; j++) w -= A(i, j) * off(j);
    lfs_near(rhs(i), w, 1e-6, "right hand side of the system");
    for (int j = 0; j < N; j++) if (!fixed[j]) lfs_near(S(i, j), A(i, j), 1e-8, "the system matrix is the sum of the element matrices");
  }
}
LFS_CASE(noflow_tritri) { system(T_TRITRI, false); }
LFS_CASE(noflow_fan) { system(T_FAN, false); }
LFS_CASE(inout_tritri) { system(T_TRITRI, true); }
LFS_CASE(inout_fan) { system(T_FAN, true); }
// ---------------------------------------------------------------- post-processing
static void velocity(int id, int vary, double r) {
  Case c = makeMesh(id, vary, r);
  auto dh = dofs(c.mesh);
  Eigen::VectorXd u = coeffs(dh.NumDofs(), 2);
  auto k = post_processing::extractBasisFunctionCoefficients(c.mesh, dh, u);
  auto v = post_processing::extractVelocity(c.mesh, dh, u);
  for (auto* e : c.mesh->Entities(2)) lfs_near(k(*e), u(dh.InteriorGlobalDofIndices(*e)[0]), 0, "coefficients of the nodes");
  auto s = lagrange(c.mesh, S_O1);
  Eigen::VectorXd w(c.mesh->NumEntities(2));
  for (auto* e : c.mesh->Entities(2)) w(s->LocGlobMap().GlobalDofIndices(*e)[0]) = u(dh.InteriorGlobalDofIndices(*e)[0]);
  post_processing::MeshFunctionVelocity<double, double> mf(s, w);
  for (auto* e : c.mesh->Entities(0)) {
    Tri t = tri(c, *e, signOf(c, *e));
    double x = 0, y = 0;
    auto nd = e->SubEntities(2);
    for (int i = 0; i < 3; i++) { const double q = u(dh.InteriorGlobalDofIndices(*nd[i])[0]); x += q * t.cx[i]; y += q * t.cy[i]; }
    lfs_near(v(*e)(0), x, 1e-8, "the velocity is the curl of the stream function");
    lfs_near(v(*e)(1), y, 1e-8, "the velocity is the curl of the stream function");
    Mat l(2, 2);
    l << 0.2, 0.5, 0.3, 0.1;
    auto z = mf(*e, l);
    lfs_assert(z.size() == 2, "one value per point");
    for (int i = 0; i < 2; i++) { lfs_near(z[i](0), x, 1e-8, "the velocity is the curl of the stream function"); lfs_near(z[i](1), y, 1e-8, "the velocity is the curl of the stream function"); }
  }
}
LFS_CASE(velocity_tri) { velocity(T_TRI, 9, 0.05); }
LFS_CASE(velocity_tritri) { velocity(T_TRITRI, 1, 0.02); }
LFS_CASE(velocity_fan) { velocity(T_FAN, 1, 0); }
// a piecewise affine function, continuous or not
struct Affine {
  const lf::mesh::Mesh* m;
  const double (*a)[3];
  std::vector<double> operator()(const Entity& e, const Mat& l) const {
    Mat x = e.Geometry()->Global(l);
    std::vector<double> r;
    const double* q = a[m->Index(e)];
    for (int i = 0; i < l.cols(); i++) r.push_back(q[0] + q[1] * x(0, i) + q[2] * x(1, i));
    return r;
  }
};
struct AffineGrad {
  const lf::mesh::Mesh* m;
  const double (*a)[3];
  std::vector<V2> operator()(const Entity& e, const Mat& l) const {
    const double* q = a[m->Index(e)];
    return std::vector<V2>(l.cols(), V2(q[1], q[2]));
  }
};
static void norms(int id, int vary) {
  Case c = makeMesh(id, vary, 0);
  double a[3][3];
  const int n = c.mesh->NumEntities(0);
  const bool lin = lfs_choice("affine", 2);
  for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) a[i][k] = k == 0 || lin ? lfs_real("a", -1, 1) : 0.0;
  const int degree = lin ? 2 + lfs_choice("degree", 2) : lfs_choice("degree", 3);
  auto qr = [&](const Entity& e) { return lf::quad::make_QuadRule(e.RefEl(), degree); };
  Affine f{c.mesh.get(), a};
  AffineGrad fg{c.mesh.get(), a};
  const double d = post_processing::DGnorm(c.mesh, f, fg, qr);
  double want = 0, l2 = 0;
  for (auto* e : c.mesh->Entities(0)) {
    Tri t = tri(c, *e, signOf(c, *e));
    const double* q = a[c.mesh->Index(*e)];
    want += 0.5 * t.area2 * (q[1] * q[1] + q[2] * q[2]);
    l2 += 0.5 * t.area2 * (q[1] * q[1] + q[2] * q[2]);
  }
  for (auto* e : c.mesh->Entities(1)) {
    std::vector<int> own;
    for (auto* k : c.mesh->Entities(0)) for (auto* s : k->SubEntities(1)) if (s == e) own.push_back(c.mesh->Index(*k));
    if (own.size() != 2) continue;
    // the mean of the squared jump: Simpson's rule
    auto nd = e->SubEntities(1);
    double j[2];
    for (int z = 0; z < 2; z++) {
      const int i = c.mesh->Index(*nd[z]);
      j[z] = a[own[0]][0] - a[own[1]][0] + (a[own[0]][1] - a[own[1]][1]) * c.p(0, i) + (a[own[0]][2] - a[own[1]][2]) * c.p(1, i);
    }
    want += (j[0] * j[0] + j[0] * j[1] + j[1] * j[1]) / 3;
  }
  lfs_ge(d, 0, "norms are not negative");
  lfs_near(d * d, want, 1e-6, "the DG norm is made of the gradients and the mean squared jumps over inner edges");
  const double s = post_processing::L2norm(c.mesh, fg, qr);
  lfs_ge(s, 0, "norms are not negative");
  lfs_near(s * s, l2, 1e-6, "the L2 norm is the root of the integral of the square");
}
LFS_CASE(norms_tri) { norms(T_TRI, 1); }
LFS_CASE(norms_tritri) { norms(T_TRITRI, 2); }
LFS_CASE(norms_fan) { norms(T_FAN, 1); }
LFS_CASE(annulus) {
  const int na = 3 + lfs_choice("angular", 3), nr = 1 + lfs_choice("radial", 2);
  const double r = lfs_real("inner", 0.5, 1), w = lfs_real("width", 0.5, 1);
  auto f = std::make_unique<lf::mesh::hybrid2d::MeshFactory>(2);
  projects::ipdg_stokes::mesh::AnnulusTriagMeshBuilder b(std::move(f));
  const double cx = lfs_real("center", -2, 2), cy = lfs_real("center", -2, 2);
  b.setInnerRadius(r);
  b.setOuterRadius(r + w);
  b.setCenterPoint(cx, cy);
  b.setNumAngularCells(na);
  b.setNumRadialCells(nr);
  auto m = b.Build();
  lfs_assert((int)m->NumEntities(0) == 2 * na * nr && (int)m->NumEntities(2) == na * (nr + 1) && (int)m->NumEntities(1) == na * (nr + 1) + 2 * na * nr, "numbers of entities of the annulus");
  auto bd = lf::mesh::utils::flagEntitiesOnBoundary(m, 1);
  int nb = 0;
  for (auto* e : m->Entities(1)) if (bd(*e)) nb++;
  lfs_assert(nb == 2 * na, "the annulus has two boundaries");
  for (int i = 0; i < (int)m->NumEntities(2); i++) {
    Mat x = lf::geometry::Corners(*m->EntityByIndex(2, i)->Geometry());
    const double q = r + w * (i / na) / nr;
    lfs_near((x(0, 0) - cx) * (x(0, 0) - cx) + (x(1, 0) - cy) * (x(1, 0) - cy), q * q, 1e-9, "nodes lie on circles between the radii");
  }
  double sum = 0;
  for (auto* e : m->Entities(0)) {
    Mat p = lf::geometry::Corners(*e->Geometry());
    const double d = (p(0, 1) - p(0, 0)) * (p(1, 2) - p(1, 0)) - (p(0, 2) - p(0, 0)) * (p(1, 1) - p(1, 0));
    lfs_ge(d, 1e-3, "triangles are counterclockwise");
    sum += d / 2;
    for (int j = 0; j < 3; j++) {
      Mat x = lf::geometry::Corners(*e->SubEntities(2)[j]->Geometry());
      for (int z = 0; z < 2; z++) lfs_near(x(z, 0), p(z, j), 1e-12, "corners of a cell are its nodes");
    }
  }
  const double R2 = r + w;
  lfs_near(sum, 0.5 * na * std::sin(2 * M_PI / na) * (R2 * R2 - r * r), 1e-9, "the triangles fill the polygonal annulus");
}
