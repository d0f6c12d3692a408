// K08/K09 from construction on: joint columns against the description alone.
#include "world.h"
static Vector3 rpy_rate(const Vector3& e, const Vector3& w) {
  double cy = std::cos(e.z), sy = std::sin(e.z), cp = std::cos(e.y), sp = std::sin(e.y);
  return Vector3((cy*w.x + sy*w.y)/cp, -sy*w.x + cy*w.y, (cy*w.x + sy*w.y)*sp/cp + w.z);
}
static Rotation quat_rate(const Rotation& q, const Vector3& w) {
  return Rotation(0.5*(w.x*q.w + w.y*q.z - w.z*q.y), 0.5*(w.y*q.w + w.z*q.x - w.x*q.z),
                  0.5*(w.z*q.w + w.x*q.y - w.y*q.x), 0.5*(-w.x*q.x - w.y*q.y - w.z*q.z));
}
struct Col { double a, b, c, d, e, f, g; };
static Col column(const Eigen::MatrixXd& J, int rt, long j) {
  Col c; c.a = J(0, j); c.b = J(1, j); c.c = J(2, j); c.d = c.e = c.f = c.g = 0;
  if (rt > 0) { c.d = J(3, j); c.e = J(4, j); c.f = J(5, j); }
  if (rt > 1) c.g = J(6, j);
  return c;
}
static Col wanted(int s, const std::string& l, const std::string& jn, int rt, int cfg, const Transform* added) {
  auto g = world::given(world::shape(s));
  JointSharedPtr j = g->joints_.at(jn);
  Col c; c.a = c.b = c.c = c.d = c.e = c.f = c.g = 0;
  if (!world::below(g->links_.at(l), jn)) return c;
  Transform C = world::where(g->links_.at(j->child_link_name), world::base(cfg), cfg), E = world::where(g->links_.at(l), world::base(cfg), cfg);
  if (added != nullptr) E = urdf::pose_transform(E, *added);
  Vector3 a = C.rotation * j->axis;
  if (j->type == Joint::PRISMATIC) { c.a = a.x; c.b = a.y; c.c = a.z; return c; }
  Vector3 d(E.position.x - C.position.x, E.position.y - C.position.y, E.position.z - C.position.z);
  c.a = a.y*d.z - a.z*d.y; c.b = a.z*d.x - a.x*d.z; c.c = a.x*d.y - a.y*d.x;
  if (rt == 1) { Vector3 r = rpy_rate(E.rotation.getRPY(), a); c.d = r.x; c.e = r.y; c.f = r.z; }
  if (rt == 2) { Rotation r = quat_rate(E.rotation, a); c.d = r.x; c.e = r.y; c.f = r.z; c.g = r.w; }
  return c;
}
static size_t find(const std::vector<std::string>& v, const std::string& n) { for (size_t i = 0; i < v.size(); i++) if (v[i] == n) return i; return v.size(); }
static std::vector<std::string> backwards(const std::vector<std::string>& v) { std::vector<std::string> w; for (size_t i = v.size(); i > 0; i--) w.push_back(v[i-1]); return w; }
Col L_world_column(int s, const std::string& l, const std::string& j, int rt, bool wb) {
  KinematicModel m(world::shape(s)); world::configure(m, 0);
  return column(m.get_jacobian(m.get_link_ids({l})[0], m.get_joint_ids({j}), (RotationType)rt, wb), rt, 0); }
Col R_world_column(int s, const std::string& l, const std::string& j, int rt, bool wb) { return wanted(s, l, j, rt, 0, nullptr); }
// among others, in any order
Col L_world_among(int s, const std::string& l, const std::string& j, int rt) {
  KinematicModel m(world::shape(s)); world::configure(m, 0);
  std::vector<std::string> v = backwards(m.get_joint_names());
  return column(m.get_jacobian(m.get_link_ids({l})[0], m.get_joint_ids(v), (RotationType)rt, true), rt, find(v, j)); }
Col R_world_among(int s, const std::string& l, const std::string& j, int rt) { return wanted(s, l, j, rt, 0, nullptr); }
// of a link added by the user
Col L_world_added(int s, const std::string& l, const std::string& j, int rt) {
  KinematicModel m(world::shape(s)); world::configure(m, 0); m.add_new_link("n", m.get_link_ids({l})[0], world::pose("o_n"));
  return column(m.get_jacobian(m.get_link_ids({"n"})[0], m.get_joint_ids({j}), (RotationType)rt, false), rt, 0); }
Col R_world_added(int s, const std::string& l, const std::string& j, int rt) { Transform t = world::pose("o_n"); return wanted(s, l, j, rt, 0, &t); }
// after another configuration
Col L_world_moved(int s, const std::string& l, const std::string& j, int rt) {
  KinematicModel m(world::shape(s)); world::configure(m, 1); m.get_jacobian(m.get_link_ids({l})[0], m.get_joint_ids(m.get_joint_names()), (RotationType)rt, true); world::configure(m, 0);
  return column(m.get_jacobian(m.get_link_ids({l})[0], m.get_joint_ids({j}), (RotationType)rt, false), rt, 0); }
Col R_world_moved(int s, const std::string& l, const std::string& j, int rt) { return wanted(s, l, j, rt, 0, nullptr); }
