// K11/K12 from construction on, against the description alone.
#include "world.h"
#include <Eigen/Dense>
static std::vector<std::string> joints(int s) { if (s == 2) return {"ja", "jz"}; return {"j2", "j3", "j4"}; }
static void extra(KinematicModel& m, int x) {
  if (x > 0) m.add_new_link("n", m.get_link_ids({"a"})[0], world::pose("o_n"));
  if (x > 1) m.add_new_link("n2", m.get_link_ids({"n"})[0], world::pose("o_n2"));
}
static Transform com_of(const LinkSharedPtr& l, int c) { return urdf::pose_transform(world::where(l, world::base(c), c), l->inertial->origin); }
static Vector3 com(int s, int c) {
  double M = 0, x = 0, y = 0, z = 0;
  for (const auto& p : world::given(world::shape(s))->links_) {
    if (!p.second->inertial) continue;
    Transform t = com_of(p.second, c); double w = p.second->inertial->mass;
    M += w; x += w*t.position.x; y += w*t.position.y; z += w*t.position.z;
  }
  return Vector3(x/M, y/M, z/M);
}
Vector3 L_world_com(int s, int x) { KinematicModel m(world::shape(s)); extra(m, x); world::configure(m, 0); return m.get_com(); }
Vector3 R_world_com(int s, int x) { return com(s, 0); }
Vector3 L_world_com_changed(int s, int x) { KinematicModel m(world::shape(s)); world::configure(m, 1); m.get_com(); extra(m, x); world::configure(m, 0); return m.get_com(); }
Vector3 R_world_com_changed(int s, int x) { return com(s, 0); }
// the COM Jacobian is the mass-weighted average of the Jacobians of the COM frames
Eigen::MatrixXd L_world_com_jacobian(int s, int x, bool wb) { KinematicModel m(world::shape(s)); extra(m, x); world::configure(m, 0); return m.get_com_jacobian(m.get_joint_ids(joints(s)), wb); }
Eigen::MatrixXd R_world_com_jacobian(int s, int x, bool wb) {
  KinematicModel m(world::shape(s)); world::configure(m, 0);
  std::vector<size_t> ids = m.get_joint_ids(joints(s));
  int n = (int)joints(s).size() + (wb ? 6 : 0);
  Eigen::MatrixXd S = Eigen::MatrixXd::Zero(3, n); double M = 0;
  for (const auto& p : world::given(world::shape(s))->links_) {
    if (!p.second->inertial) continue;
    Eigen::MatrixXd J = m.get_jacobian(m.get_link_ids({p.first + "_com"})[0], ids, RotationType::IGNORE, wb);
    for (int r = 0; r < 3; r++) for (int c = 0; c < n; c++) S(r, c) += p.second->inertial->mass * J(r, c);
    M += p.second->inertial->mass;
  }
  for (int r = 0; r < 3; r++) for (int c = 0; c < n; c++) S(r, c) = S(r, c) / M;
  return S; }
// a column is the velocity of the centre of mass: mass-weighted axis x lever (or axis) over the bodies the joint carries
Vector3 L_world_com_velocity(int s, const std::string& j) {
  KinematicModel m(world::shape(s)); world::configure(m, 0);
  Eigen::MatrixXd J = m.get_com_jacobian(m.get_joint_ids({j}), false); return Vector3(J(0, 0), J(1, 0), J(2, 0)); }
Vector3 R_world_com_velocity(int s, const std::string& j) {
  auto g = world::given(world::shape(s));
  JointSharedPtr o = g->joints_.at(j);
  Transform C = world::where(g->links_.at(o->child_link_name), world::base(0), 0);
  Vector3 a = C.rotation * o->axis, v(0, 0, 0); double M = 0;
  for (const auto& p : g->links_) {
    if (!p.second->inertial) continue;
    double w = p.second->inertial->mass; M += w;
    if (!world::below(p.second, j)) continue;
    Transform t = com_of(p.second, 0);
    Vector3 d(t.position.x - C.position.x, t.position.y - C.position.y, t.position.z - C.position.z);
    if (o->type == Joint::PRISMATIC) { v.x += w*a.x; v.y += w*a.y; v.z += w*a.z; }
    else { v.x += w*(a.y*d.z - a.z*d.y); v.y += w*(a.z*d.x - a.x*d.z); v.z += w*(a.x*d.y - a.y*d.x); }
  }
  return Vector3(v.x/M, v.y/M, v.z/M); }
// total inertia about the centre of mass, in world axes
Eigen::Matrix3d L_world_inertia(int s, int x) { KinematicModel m(world::shape(s)); extra(m, x); world::configure(m, 0); return m.get_total_inertia_matrix(); }
Eigen::Matrix3d R_world_inertia(int s, int x) {
  Vector3 c = com(s, 0);
  double S[9]; for (int i = 0; i < 9; i++) S[i] = 0;
  for (const auto& p : world::given(world::shape(s))->links_) {
    if (!p.second->inertial) continue;
    const urdf::Inertial& n = *p.second->inertial;
    double I[9] = {n.ixx, n.ixy, n.ixz, n.ixy, n.iyy, n.iyz, n.ixz, n.iyz, n.izz};
    Transform T = com_of(p.second, 0);
    const Rotation& q = T.rotation;
    double R[9] = {1-2*(q.y*q.y+q.z*q.z), 2*(q.x*q.y-q.w*q.z), 2*(q.x*q.z+q.w*q.y),
                   2*(q.x*q.y+q.w*q.z), 1-2*(q.x*q.x+q.z*q.z), 2*(q.y*q.z-q.w*q.x),
                   2*(q.x*q.z-q.w*q.y), 2*(q.y*q.z+q.w*q.x), 1-2*(q.x*q.x+q.y*q.y)};
    double d[3] = {T.position.x - c.x, T.position.y - c.y, T.position.z - c.z};
    double n2 = d[0]*d[0] + d[1]*d[1] + d[2]*d[2];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
      double v = 0;
      for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) v += R[3*i+a]*I[3*a+b]*R[3*j+b];
      S[3*i+j] += v + n.mass*((i == j ? n2 : 0) - d[i]*d[j]);
    }
  }
  Eigen::Matrix3d M;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M(i, j) = S[3*i+j];
  return M; }
