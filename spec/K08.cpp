// K08/K09: Jacobian columns. Poses of links are opaque unit poses (K01 gives their meaning).
#include "km.h"
#include <Eigen/Dense>
using tinyfk::RotationType;
static Transform pose(const KinematicModel& m, size_t id) { Transform t; m.get_link_pose(id, t); return t; }
static Vector3 rot(const Rotation& q, const Vector3& v) {
  Vector3 r;
  r.x = (1-2*(q.y*q.y+q.z*q.z))*v.x + 2*(q.x*q.y-q.w*q.z)*v.y + 2*(q.x*q.z+q.w*q.y)*v.z;
  r.y = 2*(q.x*q.y+q.w*q.z)*v.x + (1-2*(q.x*q.x+q.z*q.z))*v.y + 2*(q.y*q.z-q.w*q.x)*v.z;
  r.z = 2*(q.x*q.z-q.w*q.y)*v.x + 2*(q.y*q.z+q.w*q.x)*v.y + (1-2*(q.x*q.x+q.y*q.y))*v.z;
  return r;
}
// rates of roll, pitch, yaw (R = Rz Ry Rx) for world angular velocity w
static Vector3 rpy_rate(const Vector3& e, const Vector3& w) {
  double cy = std::cos(e.z), sy = std::sin(e.z), cp = std::cos(e.y), sp = std::sin(e.y);
  return Vector3((cy*w.x + sy*w.y)/cp, -sy*w.x + cy*w.y, (cy*w.x + sy*w.y)*sp/cp + w.z);
}
// world angular velocity for rates of roll, pitch, yaw
static Vector3 rpy_omega(const Vector3& e, const Vector3& d) {
  double cy = std::cos(e.z), sy = std::sin(e.z), cp = std::cos(e.y), sp = std::sin(e.y);
  return Vector3(cy*cp*d.x - sy*d.y, sy*cp*d.x + cy*d.y, -sp*d.x + d.z);
}
static Rotation quat_rate(const Rotation& q, const Vector3& w) {
  return Rotation(0.5*(w.x*q.w + w.y*q.z - w.z*q.y), 0.5*(w.y*q.w + w.z*q.x - w.x*q.z),
                  0.5*(w.z*q.w + w.x*q.y - w.y*q.x), 0.5*(-w.x*q.x - w.y*q.y - w.z*q.z));
}
static void joint_columns(KinematicModel& m, Eigen::MatrixXd& J, size_t elink, const std::vector<size_t>& ids, int rt) {
  Transform E = pose(m, elink);
  for (size_t i = 0; i < ids.size(); i++) {
    if (!m.rptable_.isRelevant(elink, ids[i])) continue;
    const JointSharedPtr& j = m.joints_[ids[i]];
    Transform C = pose(m, j->getChildLink()->id);
    Vector3 a = rot(C.rotation, j->axis);
    if (j->type == Joint::PRISMATIC) { J(0,i) = a.x; J(1,i) = a.y; J(2,i) = a.z; continue; }
    Vector3 d(E.position.x - C.position.x, E.position.y - C.position.y, E.position.z - C.position.z);
    J(0,i) = a.y*d.z - a.z*d.y; J(1,i) = a.z*d.x - a.x*d.z; J(2,i) = a.x*d.y - a.y*d.x;
    if (rt == 1) { Vector3 r = rpy_rate(E.rotation.getRPY(), a); J(3,i) = r.x; J(4,i) = r.y; J(5,i) = r.z; }
    if (rt == 2) { Rotation r = quat_rate(E.rotation, a); J(3,i) = r.x; J(4,i) = r.y; J(5,i) = r.z; J(6,i) = r.w; }
  }
}
static int rows_of(int rt) { return rt == 0 ? 3 : rt == 1 ? 6 : 7; }

Eigen::MatrixXd L_joint_columns(KinematicModel& m, size_t elink, const std::vector<size_t>& ids, int rt) {
  return m.get_jacobian(elink, ids, (RotationType)rt, false);
}
Eigen::MatrixXd R_joint_columns(KinematicModel& m, size_t elink, const std::vector<size_t>& ids, int rt) {
  Eigen::MatrixXd J = Eigen::MatrixXd::Zero(rows_of(rt), ids.size());
  joint_columns(m, J, elink, ids, rt);
  return J;
}
Eigen::MatrixXd L_default_args(KinematicModel& m, size_t elink, const std::vector<size_t>& ids) { return m.get_jacobian(elink, ids); }
Eigen::MatrixXd R_default_args(KinematicModel& m, size_t elink, const std::vector<size_t>& ids) {
  Eigen::MatrixXd J = Eigen::MatrixXd::Zero(3, ids.size());
  joint_columns(m, J, elink, ids, 0);
  return J;
}
// joint columns do not depend on whether base columns are asked for
double L_columns_with_base(KinematicModel& m, size_t elink, const std::vector<size_t>& ids, int rt, int r, size_t c) {
  vf::assume(c < ids.size()); return m.get_jacobian(elink, ids, (RotationType)rt, true)(r, c); }
double R_columns_with_base(KinematicModel& m, size_t elink, const std::vector<size_t>& ids, int rt, int r, size_t c) {
  vf::assume(c < ids.size());
  Eigen::MatrixXd J = Eigen::MatrixXd::Zero(rows_of(rt), ids.size());
  joint_columns(m, J, elink, ids, rt);
  return J(r, c);
}
Vector3 L_rpy_rates(const Vector3& e, const Vector3& w) { return rpy_omega(e, rpy_rate(e, w)); }
Vector3 R_rpy_rates(const Vector3& e, const Vector3& w) { return w; }
