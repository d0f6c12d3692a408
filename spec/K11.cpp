// K11/K12: center of mass and inertia.
#include "km.h"
#include <Eigen/Dense>
static Transform pose(const KinematicModel& m, size_t id) { Transform t; m.get_link_pose(id, t); return t; }
Vector3 L_com(KinematicModel& m) { return m.get_com(); }
Vector3 R_com(KinematicModel& m) {
  double M = 0, x = 0, y = 0, z = 0;
  for (size_t k = 0; k < m.com_dummy_links_.size(); k++) {
    const LinkSharedPtr& l = m.com_dummy_links_[k];
    double w = l->inertial->mass;
    Transform T = pose(m, l->id);
    M += w; x += w*T.position.x; y += w*T.position.y; z += w*T.position.z;
  }
  return Vector3(x/M, y/M, z/M);
}
Eigen::MatrixXd L_com_jacobian(KinematicModel& m, const std::vector<size_t>& ids, bool wb) { return m.get_com_jacobian(ids, wb); }
Eigen::MatrixXd R_com_jacobian(KinematicModel& m, const std::vector<size_t>& ids, bool wb) {
  size_t n = ids.size() + (wb ? 6 : 0);
  Eigen::MatrixXd S = Eigen::MatrixXd::Zero(3, n);
  double M = 0;
  for (size_t k = 0; k < m.com_dummy_links_.size(); k++) {
    const LinkSharedPtr& l = m.com_dummy_links_[k];
    Eigen::MatrixXd J = m.get_jacobian(l->id, ids, tinyfk::RotationType::IGNORE, wb);
    for (int r = 0; r < 3; r++) for (size_t c = 0; c < n; c++) S(r, c) += l->inertial->mass * J(r, c);
    M += l->inertial->mass;
  }
  for (int r = 0; r < 3; r++) for (size_t c = 0; c < n; c++) S(r, c) = S(r, c) / M;
  return S;
}
// representation invariant (K16): the total mass is the sum over the links with inertial data
double inv_mass(const KinematicModel& m) { double M = 0; for (size_t k = 0; k < m.com_dummy_links_.size(); k++) M += m.com_dummy_links_[k]->inertial->mass; return M; }
