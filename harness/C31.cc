// Strang splitting for the Fisher-KPP equation.
// units: core fem fkpp
// bound: lowest order Lagrangian spaces on meshes of 1 to 4 fixed triangles and parallelograms (4 topologies); arbitrary diffusion coefficient, Robin coefficient and entries of the coupling matrix for the Galerkin matrices; steps of the diffusion part for arbitrary states (within [-1,1]), fixed coefficients and 3 step sizes, with and without Robin and coupling terms; evolutions of 1 to 4 steps with zero growth rate from any state in [0.1,2], of 1 step (2 on a triangle) from any spatially constant state below or above capacity (2 growth rates), and of 1 step from any multiple of a fixed state
// outside: growth over more steps, the example programs around the solver, larger meshes, states that are zero somewhere, non-constant coefficients
#include "loc.h"
#include <fisher_kpp/strangsplitting.h>
using namespace harness;
typedef Eigen::VectorXd Vec;
static MeshP mesh31(int id, Mat& p, std::vector<std::vector<U>>& cells) {
  Topo t;
  if (id == 0) t = baseTopo(T_TRI);
  else if (id == 1) t = baseTopo(T_TRITRI);
  else if (id == 2) t = baseTopo(T_FAN);
  else t = {{{0, 0}, {1, 0.25}, {1.5, 1.25}, {0.5, 1}, {2.25, 0.75}}, {{0, 1, 2, 3}, {1, 4, 2}}};
  cells = t.cells;
  p = points(t, 2, 0);
  return simpleMesh(t, p);
}
// stiffness (coefficient 1), mass and boundary mass matrices by independent formulas
struct Gal { Mat K, M, B; };
static Gal gal(const Mat& p, const std::vector<std::vector<U>>& cells) {
  const int n = p.cols();
  Gal g{Mat::Zero(n, n), Mat::Zero(n, n), Mat::Zero(n, n)};
  std::map<Edge, int> cnt;
  for (auto& c : cells) {
    const int k = c.size(), l = k - 1;
    for (int j = 0; j < k; j++) cnt[sorted(c[j], c[(j + 1) % k])]++;
    const double a = p(0, c[1]) - p(0, c[0]), b = p(1, c[1]) - p(1, c[0]), u = p(0, c[l]) - p(0, c[0]), v = p(1, c[l]) - p(1, c[0]);
    const double D = a * v - b * u, D_ = std::abs(D);
    auto add = [&](double w, const double* f, const double* fx, const double* fy) {
      for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) {
        const double gix = (v * fx[i] - b * fy[i]) / D, giy = (-u * fx[i] + a * fy[i]) / D;
        const double gjx = (v * fx[j] - b * fy[j]) / D, gjy = (-u * fx[j] + a * fy[j]) / D;
        g.K(c[i], c[j]) += w * D_ * (gix * gjx + giy * gjy);
        g.M(c[i], c[j]) += w * D_ * f[i] * f[j];
      }
    };
    if (k == 3) {
      const double q[3][2] = {{0.5, 0}, {0.5, 0.5}, {0, 0.5}};
      for (auto& x : q) {
        const double f[3] = {1 - x[0] - x[1], x[0], x[1]}, fx[3] = {-1, 1, 0}, fy[3] = {-1, 0, 1};
        add(1. / 6, f, fx, fy);
      }
    } else {
      const double s = 0.5 / std::sqrt(3.0);
      for (int m = 0; m < 4; m++) {
        const double x = 0.5 + (m % 2 ? s : -s), y = 0.5 + (m / 2 ? s : -s);
        const double f[4] = {(1 - x) * (1 - y), x * (1 - y), x * y, (1 - x) * y}, fx[4] = {y - 1, 1 - y, y, -y}, fy[4] = {x - 1, -x, x, 1 - x};
        add(0.25, f, fx, fy);
      }
    }
  }
  for (auto& e : cnt) if (e.second == 1) {
    const int i = e.first.first, j = e.first.second;
    const double len = (p.col(i) - p.col(j)).norm();
    g.B(i, i) += len / 3; g.B(j, j) += len / 3; g.B(i, j) += len / 6; g.B(j, i) += len / 6;
  }
  return g;
}
typedef std::shared_ptr<lf::uscalfe::UniformScalarFESpace<double>> FkSpaceP;
static FkSpaceP space31(const MeshP& m) { return std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<double>>(m); }
LFS_CASE(galerkin) {
  Mat p;
  std::vector<std::vector<U>> cells;
  auto m = mesh31(lfs_choice("mesh", 4), p, cells);
  auto fes = space31(m);
  const Gal g = gal(p, cells);
  const int n = p.cols();
  const double c0 = lfs_real("diffusion", 0.25, 2), h0 = lfs_real("robin", -1, 1);
  Mat L = Mat::Zero(n, n);
  const int i = lfs_choice("row", n), j = lfs_choice("col", n);
  L(i, j) = lfs_real("coupling", 2, 4);
  L((i + 1) % n, j) = -1.5;
  auto am = FisherKPP::assembleGalerkinMatrices(fes->LocGlobMap(), [c0](const Eigen::Vector2d&) -> double { return c0; },
                                                [h0](const Eigen::Vector2d&) -> double { return h0; }, L);
  Mat A = am.first, M = am.second;
  for (int r = 0; r < n; r++) for (int s = 0; s < n; s++) {
    lfs_near(A(r, s), c0 * g.K(r, s) + h0 * g.B(r, s) - L(r, s), 1e-10, "Galerkin matrix of diffusion, Robin condition and coupling");
    lfs_near(M(r, s), g.M(r, s), 1e-11, "mass matrix");
  }
}
struct Setup {
  FkSpaceP fes;
  MeshP mesh;
  Mat K, M, L;
  double c, h, T;
  int m, n;
  std::unique_ptr<FisherKPP::StrangSplit> s;
};
// kind: 0 pure diffusion, 1 Robin condition, 2 coupling
static Setup setup(int mesh, int kind, double T, int m, double lambda) {
  Setup s;
  Mat p;
  std::vector<std::vector<U>> cells;
  s.mesh = mesh31(mesh, p, cells);
  s.fes = space31(s.mesh);
  const Gal g = gal(p, cells);
  s.n = p.cols();
  s.L = Mat::Zero(s.n, s.n);
  s.c = 0.75;
  s.h = kind == 1 ? 0.5 : 0;
  if (kind == 2) { s.L(0, 1) = 0.25; s.L(1, s.n - 1) = -0.5; s.L(2, 2) = 0.125; }
  s.K = s.c * g.K + s.h * g.B - s.L;
  s.M = g.M;
  s.T = T; s.m = m;
  const double c = s.c, h = s.h;
  s.s = std::make_unique<FisherKPP::StrangSplit>(s.fes, T, m, lambda, [c](const Eigen::Vector2d&) -> double { return c; }, [h](const Eigen::Vector2d&) -> double { return h; }, s.L);
  return s;
}
// propagator of the second order, stiffly accurate SDIRK method for M u' = -A u
static Mat propagator(const Setup& s, double tau) {
  const double k = 1 - std::sqrt(0.5);
  const Mat Z = tau * s.M.inverse() * s.K, I = Mat::Identity(s.n, s.n);
  const Mat P = (I + k * Z).inverse();
  return P * P * (I + (2 * k - 1) * Z);
}
static Vec state(int n, double lo, double hi) {
  Vec u(n);
  for (int i = 0; i < n; i++) u(i) = lfs_real("state", lo, hi);
  return u;
}
static void same(const Vec& u, const Mat& P, const Vec& v, const char* msg) {
  lfs_assert(u.size() == v.size(), "size of the state");
  for (int i = 0; i < u.size(); i++) {
    double w = 0;
    for (int j = 0; j < v.size(); j++) w += P(i, j) * v(j);
    lfs_near(u(i), w, 1e-9, msg);
  }
}
static double population(const Setup& s, const Vec& u) {
  double r = 0;
  for (int j = 0; j < s.n; j++) r += s.M.col(j).sum() * u(j);
  return r;
}
LFS_CASE(diffusion_step) {
  const double taus[] = {0.125, 0.5, 2};
  const int mesh = lfs_choice("mesh", 4), kind = lfs_choice("kind", 3);
  const double tau = taus[lfs_choice("tau", 3)];
  Setup s = setup(mesh, kind, 3 * tau, 3, 1);
  const Vec u = state(s.n, -1, 1);
  const Vec a = s.s->diffusionEvolutionOperator(true, u), b = s.s->diffusionEvolutionOperator(false, u);
  same(a, propagator(s, tau / 2), u, "first half step of diffusion");
  same(b, propagator(s, tau), u, "full step of diffusion");
  if (kind == 0) {
    lfs_near(population(s, a), population(s, u), 1e-9, "diffusion conserves the population");
    lfs_near(population(s, b), population(s, u), 1e-9, "diffusion conserves the population");
  }
}
LFS_CASE(no_growth) {
  const int mesh = lfs_choice("mesh", 4), kind = lfs_choice("kind", 3), m = 1 + lfs_choice("steps", 4);
  Setup s = setup(mesh, kind, 0.25 * m, m, 0);
  const Vec u = state(s.n, 0.1, 2);
  Vec cap(s.n);
  for (int i = 0; i < s.n; i++) cap(i) = 1 + 0.25 * (i % 3);
  const Vec v = s.s->Evolution(cap, u);
  const Mat H = propagator(s, 0.125), F = propagator(s, 0.25);
  Mat P = H;
  for (int i = 1; i < m; i++) P = F * P;
  same(v, H * P, u, "without growth the evolution diffuses up to the final time");
  if (kind == 0) lfs_near(population(s, v), population(s, u), 1e-8, "without growth the population is conserved");
}
static double logistic(double u, double cap, double x) { return u * cap / (u + (cap - u) * std::exp(-x)); }
LFS_CASE(uniform_state) {
  const int mesh = lfs_choice("mesh", 4), m = mesh == 0 ? 1 + lfs_choice("steps", 2) : 1;
  const double lambda = lfs_choice("lambda", 2) ? 1 : 0.375, T = 0.5 * m, cap = 1.5;
  Setup s = setup(mesh, 0, T, m, lambda);
  const double u0 = lfs_real("state", 0.1, 2);
  const Vec v = s.s->Evolution(Vec::Constant(s.n, cap), Vec::Constant(s.n, u0));
  lfs_assert(v.size() == s.n, "size of the state");
  for (int i = 0; i < s.n; i++) {
    lfs_near(v(i), logistic(u0, cap, lambda * T), 1e-8, "a uniform state grows logistically up to the final time");
    if (u0 <= cap) lfs_ge_tol(cap, v(i), 1e-9, "states below capacity stay below capacity");
    lfs_ge(v(i), 0, "populations are positive");
  }
}
LFS_CASE(composition) {
  const int mesh = lfs_choice("mesh", 4), kind = lfs_choice("kind", 3), m = 1;
  const double lambda = 0.5, tau = 0.25;
  Setup s = setup(mesh, kind, tau * m, m, lambda);
  const double f = lfs_real("scale", 0.5, 1);
  Vec u(s.n), cap(s.n);
  for (int i = 0; i < s.n; i++) { u(i) = (1 + 0.125 * i) * f; cap(i) = 1 + 0.25 * (i % 3); }
  const Vec v = s.s->Evolution(cap, u);
  Vec w = s.s->diffusionEvolutionOperator(true, u);
  for (int k = 1; k <= m; k++) {
    for (int i = 0; i < s.n; i++) w(i) = logistic(w(i), cap(i), lambda * tau);
    w = s.s->diffusionEvolutionOperator(k == m, w);
  }
  for (int i = 0; i < s.n; i++) lfs_near(v(i), w(i), 1e-8, "half a step of diffusion, full steps of growth and diffusion in turn, half a step of diffusion");
}
