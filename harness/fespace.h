// Finite element spaces on small meshes.
#pragma once
#include "fe.h"
#include "meshes.h"
namespace harness {
using Space = lf::fe::ScalarFESpace<double>;
using SpaceP = std::shared_ptr<const Space>;
using MeshP = std::shared_ptr<const lf::mesh::Mesh>;
enum { S_O1, S_O2, S_O3, S_LAGRANGE };
inline std::shared_ptr<lf::uscalfe::UniformScalarFESpace<double>> lagrange(const MeshP& m, int k) {
  if (k == S_O1) return std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<double>>(m);
  if (k == S_O2) return std::make_shared<lf::uscalfe::FeSpaceLagrangeO2<double>>(m);
  return std::make_shared<lf::uscalfe::FeSpaceLagrangeO3<double>>(m);
}
inline Eigen::VectorXd coeffs(int n, double r = 1) {
  Eigen::VectorXd c(n);
  for (int i = 0; i < n; i++) c(i) = lfs_real("coeff", -r, r);
  return c;
}
// local coordinates in the cell of the point with parameter s of its edge i (s measured along the edge entity)
inline Mat onCell(const lf::mesh::Entity& cell, int i, double s) {
  const lf::mesh::Entity* e = cell.SubEntities(1)[i];
  const bool same = e->SubEntities(1)[0] == cell.SubEntities(2)[i];
  return edgePoint(cell.RefEl(), i, same ? s : 1 - s);
}
// value of the function with coefficients c, from the shape functions of the entity only
inline double valueOn(const Space& s, const Eigen::VectorXd& c, const lf::mesh::Entity& e, const Mat& x) {
  Mat v = s.ShapeFunctionLayout(e)->EvalReferenceShapeFunctions(x);
  auto g = s.LocGlobMap().GlobalDofIndices(e);
  lfs_assert((int)g.size() == v.rows() && v.cols() == 1, "one global dof per local shape function");
  double r = 0;
  for (int i = 0; i < v.rows(); i++) r += c(g[i]) * v(i, 0);
  return r;
}
}  // namespace harness
