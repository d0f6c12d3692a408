#include "K11.cpp"
Eigen::Matrix3d L_inertia(KinematicModel& m) { return m.get_total_inertia_matrix(); }
Eigen::Matrix3d R_inertia(KinematicModel& m) {
  Vector3 c = m.get_com();
  double S[9]; for (int i = 0; i < 9; i++) S[i] = 0;
  for (size_t k = 0; k < m.com_dummy_links_.size(); k++) {
    const LinkSharedPtr& l = m.com_dummy_links_[k];
    if (l->inertial == nullptr) continue;
    double I[9] = {l->inertial->ixx, l->inertial->ixy, l->inertial->ixz, l->inertial->ixy, l->inertial->iyy, l->inertial->iyz,
                   l->inertial->ixz, l->inertial->iyz, l->inertial->izz};
    Transform T = pose(m, l->id);
    const Rotation& q = T.rotation;
    double R[9] = {1-2*(q.y*q.y+q.z*q.z), 2*(q.x*q.y-q.w*q.z), 2*(q.x*q.z+q.w*q.y),
                   2*(q.x*q.y+q.w*q.z), 1-2*(q.x*q.x+q.z*q.z), 2*(q.y*q.z-q.w*q.x),
                   2*(q.x*q.z-q.w*q.y), 2*(q.y*q.z+q.w*q.x), 1-2*(q.x*q.x+q.y*q.y)};
    double d[3] = {T.position.x - c.x, T.position.y - c.y, T.position.z - c.z};
    double n2 = d[0]*d[0] + d[1]*d[1] + d[2]*d[2];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
      double v = 0;
      for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) v += R[3*i+a]*I[3*a+b]*R[3*j+b];
      S[3*i+j] += v + l->inertial->mass*((i == j ? n2 : 0) - d[i]*d[j]);
    }
  }
  Eigen::Matrix3d M;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M(i, j) = S[3*i+j];
  return M;
}
