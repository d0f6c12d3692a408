// K09: shape of the Jacobian and its six base columns.
#include "K08.cpp"
struct Shape { long rows, cols; };
Shape L_shape(KinematicModel& m, size_t elink, const std::vector<size_t>& ids, int rt, bool wb) {
  Eigen::MatrixXd J = m.get_jacobian(elink, ids, (RotationType)rt, wb); Shape s; s.rows = J.rows(); s.cols = J.cols(); return s; }
Shape R_shape(KinematicModel& m, size_t elink, const std::vector<size_t>& ids, int rt, bool wb) {
  Shape s; s.rows = rows_of(rt); s.cols = ids.size() + (wb ? 6 : 0); return s; }
// one column of the Jacobian; rows the representation does not have read as 0
struct Col { double a, b, c, d, e, f, g; };
Col column(const Eigen::MatrixXd& J, int rt, long j) {
  Col c; c.a = J(0, j); c.b = J(1, j); c.c = J(2, j); c.d = c.e = c.f = c.g = 0;
  if (rt > 0) { c.d = J(3, j); c.e = J(4, j); c.f = J(5, j); }
  if (rt > 1) c.g = J(6, j);
  return c;
}
// columns for the base position
Col L_base_position(KinematicModel& m, size_t elink, const std::vector<size_t>& ids, int rt, int k) {
  return column(m.get_jacobian(elink, ids, (RotationType)rt, true), rt, ids.size() + k); }
Col R_base_position(KinematicModel& m, size_t elink, const std::vector<size_t>& ids, int rt, int k) {
  Col c; c.a = k == 0; c.b = k == 1; c.c = k == 2; c.d = c.e = c.f = c.g = 0; return c; }
// columns for the base roll, pitch, yaw. Meaning: the derivative (refuted against it, tolerance 1e-4);
// sufficient: the forward difference quotient of the transform chain with step 1e-7.
// (away from gimbal lock, where roll and yaw are a choice)
bool regular(const Rotation& r) { double s = 2*(r.x*r.z - r.w*r.y); return s < 0.999 && s > -0.999; }
Col L_base_rotation(KinematicModel& m, size_t elink, const std::vector<size_t>& ids, int rt, int k) {
  vf::assume(regular(pose(m, elink).rotation) && regular(pose(m, m.root_link_id_).rotation));
  return column(m.get_jacobian(elink, ids, (RotationType)rt, true), rt, ids.size() + 3 + k); }
Col R_base_rotation(KinematicModel& m, size_t elink, const std::vector<size_t>& ids, int rt, int k) {
  vf::assume(regular(pose(m, elink).rotation) && regular(pose(m, m.root_link_id_).rotation));
  Transform E = pose(m, elink), B = pose(m, m.root_link_id_);
  Vector3 b = B.rotation.getRPY();
  Vector3 u(k == 0 ? 1 : 0, k == 1 ? 1 : 0, k == 2 ? 1 : 0);
  Vector3 w = rpy_omega(b, u);
  Vector3 d(E.position.x - B.position.x, E.position.y - B.position.y, E.position.z - B.position.z);
  Col c; c.d = c.e = c.f = c.g = 0;
  c.a = w.y*d.z - w.z*d.y;
  c.b = w.z*d.x - w.x*d.z;
  c.c = w.x*d.y - w.y*d.x;
  if (rt == 1) { Vector3 v = rpy_rate(E.rotation.getRPY(), w); c.d = v.x; c.e = v.y; c.f = v.z; }
  if (rt == 2) { Rotation q = quat_rate(E.rotation, w); c.d = q.x; c.e = q.y; c.f = q.z; c.g = q.w; }
  return c;
}
Col A_base_rotation(KinematicModel& m, size_t elink, const std::vector<size_t>& ids, int rt, int k) {
  return column(m.get_jacobian(elink, ids, (RotationType)rt, true), rt, ids.size() + 3 + k); }
Col B_base_rotation(KinematicModel& m, size_t elink, const std::vector<size_t>& ids, int rt, int k) {
  Transform E = pose(m, elink), B = pose(m, m.root_link_id_);
  Transform rel = urdf::pose_transform(B.inverse(), E);
  Vector3 b = B.rotation.getRPY();
  const double h = 1e-7;
  Vector3 b2(b.x + (k == 0 ? h : 0), b.y + (k == 1 ? h : 0), b.z + (k == 2 ? h : 0));
  Transform B2 = B;
  B2.rotation.setFromRPY(b2.x, b2.y, b2.z);
  Transform E2 = urdf::pose_transform(B2, rel);
  Col c; c.d = c.e = c.f = c.g = 0;
  c.a = (E2.position.x - E.position.x)/h;
  c.b = (E2.position.y - E.position.y)/h;
  c.c = (E2.position.z - E.position.z)/h;
  if (rt == 1) {
    Vector3 e = E.rotation.getRPY(), e2 = E2.rotation.getRPY();
    c.d = (e2.x - e.x)/h; c.e = (e2.y - e.y)/h; c.f = (e2.z - e.z)/h;
  }
  if (rt == 2) {
    Rotation q = E.rotation, q2 = E2.rotation;
    double s = q2.x*q.x + q2.y*q.y + q2.z*q.z + q2.w*q.w < 0 ? -1 : 1;   // q and -q are the same rotation
    c.d = (s*q2.x - q.x)/h; c.e = (s*q2.y - q.y)/h; c.f = (s*q2.z - q.z)/h; c.g = (s*q2.w - q.w)/h;
  }
  return c;
}
