// W01: every row of a batch is answered for its own configuration.
#include "wrap.h"
using namespace wrap;
typedef Eigen::MatrixXd M;
static Transform left_base(int d) { return d == 2 ? world::pose("left over base") : Transform(); }
static void fresh(KinematicModel& m, int s, int c, bool wb, int d) { place(m, s, c, wb); if (!wb) m.set_base_pose(left_base(d)); }
// link l at row i of n, after whatever happened before (d)
M L_pose(int s, int i, int n, bool wb, const std::string& l, int rt, int d) {
  Wrapped m(world::shape(s)); disturb(m, s, d);
  return m.solve_forward_kinematics(rows(s, n, wb), m.get_link_ids({l}), jids(m, s), (RotationType)rt, wb, false, false)[0].row(i);
}
M R_pose(int s, int i, int n, bool wb, const std::string& l, int rt, int d) {
  KinematicModel m(world::shape(s)); fresh(m, s, i, wb, d);
  Transform t = world::ask(m, l);
  M v(1, 3 + (rt == 1) * 3 + (rt == 2) * 4);
  v(0, 0) = t.position.x; v(0, 1) = t.position.y; v(0, 2) = t.position.z;
  if (rt == 1) { Vector3 r = t.rotation.getRPY(); v(0, 3) = r.x; v(0, 4) = r.y; v(0, 5) = r.z; }
  if (rt == 2) { v(0, 3) = t.rotation.x; v(0, 4) = t.rotation.y; v(0, 5) = t.rotation.z; v(0, 6) = t.rotation.w; }
  return v;
}
M L_jacobian(int s, int i, int n, bool wb, const std::string& l, int rt, int d) {
  Wrapped m(world::shape(s)); disturb(m, s, d);
  size_t h = 3 + (rt == 1) * 3 + (rt == 2) * 4;
  return m.solve_forward_kinematics(rows(s, n, wb), m.get_link_ids({l}), jids(m, s), (RotationType)rt, wb, true, false)[1].block(i * h, 0, h, joints(s).size() + (wb ? 6 : 0));
}
M R_jacobian(int s, int i, int n, bool wb, const std::string& l, int rt, int d) {
  KinematicModel m(world::shape(s)); fresh(m, s, i, wb, d);
  return m.get_jacobian(m.get_link_ids({l})[0], jids(m, s), (RotationType)rt, wb);
}
M L_com(int s, int i, int n, bool wb, int d) {
  Wrapped m(world::shape(s)); disturb(m, s, d);
  return m.solve_com_forward_kinematics(rows(s, n, wb), jids(m, s), {}, {}, wb, false)[0].row(i);
}
M R_com(int s, int i, int n, bool wb, int d) {
  KinematicModel m(world::shape(s)); fresh(m, s, i, wb, d);
  Vector3 c = m.get_com(); M v(1, 3); v(0, 0) = c.x; v(0, 1) = c.y; v(0, 2) = c.z; return v;
}
M L_com_jacobian(int s, int i, int n, bool wb, int d) {
  Wrapped m(world::shape(s)); disturb(m, s, d);
  return m.solve_com_forward_kinematics(rows(s, n, wb), jids(m, s), {}, {}, wb, true)[1].block(3 * i, 0, 3, joints(s).size() + (wb ? 6 : 0));
}
M R_com_jacobian(int s, int i, int n, bool wb, int d) {
  KinematicModel m(world::shape(s)); fresh(m, s, i, wb, d);
  return m.get_com_jacobian(jids(m, s), wb);
}
Eigen::Matrix3d L_inertia(int s, int d) {
  Wrapped m(world::shape(s)); disturb(m, s, d);
  return m.compute_total_inertia_matrix(row(s, 0, false), jids(m, s));
}
Eigen::Matrix3d R_inertia(int s, int d) {
  KinematicModel m(world::shape(s)); fresh(m, s, 0, false, d);
  return m.get_total_inertia_matrix();
}
double L_sqdist(int s, int i, int n, bool wb, const std::string& a, const std::string& b, int d) {
  Wrapped m(world::shape(s)); disturb(m, s, d);
  return m.compute_inter_link_squared_dists(rows(s, n, wb), m.get_link_ids({a}), m.get_link_ids({b}), jids(m, s), wb, false, false).first(i);
}
double R_sqdist(int s, int i, int n, bool wb, const std::string& a, const std::string& b, int d) {
  KinematicModel m(world::shape(s)); fresh(m, s, i, wb, d);
  Vector3 p = world::ask(m, a).position, q = world::ask(m, b).position;
  return (p.x-q.x)*(p.x-q.x) + (p.y-q.y)*(p.y-q.y) + (p.z-q.z)*(p.z-q.z);
}
// asked to use the cache: still the right answer when nothing older than the row's configuration is in it.
// d = 3: everything was asked before at this very configuration.
static void before(Wrapped& m, int s, bool wb, int d) { if (d == 3) { place(m, s, 0, wb); world::all(m); m.get_com(); } }
M L_cached_pose(int s, bool wb, const std::string& l, int rt, int d) {
  Wrapped m(world::shape(s)); before(m, s, wb, d);
  return m.solve_forward_kinematics(rows(s, 1, wb), m.get_link_ids({l}), jids(m, s), (RotationType)rt, wb, false, true)[0].row(0);
}
M R_cached_pose(int s, bool wb, const std::string& l, int rt, int d) { return R_pose(s, 0, 1, wb, l, rt, 0); }
M L_cached_jacobian(int s, bool wb, const std::string& l, int rt, int d) {
  Wrapped m(world::shape(s)); before(m, s, wb, d);
  return m.solve_forward_kinematics(rows(s, 1, wb), m.get_link_ids({l}), jids(m, s), (RotationType)rt, wb, true, true)[1];
}
M R_cached_jacobian(int s, bool wb, const std::string& l, int rt, int d) { return R_jacobian(s, 0, 1, wb, l, rt, 0); }
double L_cached_sqdist(int s, bool wb, const std::string& a, const std::string& b, int d) {
  Wrapped m(world::shape(s)); before(m, s, wb, d);
  return m.compute_inter_link_squared_dists(rows(s, 1, wb), m.get_link_ids({a}), m.get_link_ids({b}), jids(m, s), wb, false, true).first(0);
}
double R_cached_sqdist(int s, bool wb, const std::string& a, const std::string& b, int d) { return R_sqdist(s, 0, 1, wb, a, b, 0); }
// the batch call leaves the model in the configuration of its last row
Transform L_left(int s, int n, bool wb, const std::string& l) {
  Wrapped m(world::shape(s));
  m.solve_forward_kinematics(rows(s, n, wb), m.get_link_ids({"a"}), jids(m, s), RotationType::RPY, wb, false, false);
  return world::ask(m, l);
}
Transform R_left(int s, int n, bool wb, const std::string& l) { KinematicModel m(world::shape(s)); if (n > 0) place(m, s, n - 1, wb); return world::ask(m, l); }
// base pose vector
Transform L_set_base(int s, const std::string& l) { Wrapped m(world::shape(s)); world::all(m); m.set_base_pose(base(0)); return world::ask(m, l); }
Transform R_set_base(int s, const std::string& l) { KinematicModel m(world::shape(s)); m.set_base_pose(transform(base(0))); return world::ask(m, l); }
std::vector<double> L_get_base(int s) { Wrapped m(world::shape(s)); m.KinematicModel::set_base_pose(world::pose("some base")); return m.get_base_pose(); }
std::vector<double> R_get_base(int s) { Transform t = world::pose("some base"); Vector3 r = t.rotation.getRPY(); return {t.position.x, t.position.y, t.position.z, r.x, r.y, r.z}; }
std::string L_root(int s) { Wrapped m(world::shape(s)); return m.get_root_link_name(); }
std::string R_root(int s) { return world::given(world::shape(s))->root_link_->name; }
Transform L_added(int s, const std::string& p, const std::string& l) {
  Wrapped m(world::shape(s)); world::all(m);
  m.add_new_link("n", m.get_link_ids({p})[0], {vf::any<double>("ax"), vf::any<double>("ay"), vf::any<double>("az")}, {vf::any<double>("ar"), vf::any<double>("ap"), vf::any<double>("aw")});
  return world::ask(m, l);
}
Transform R_added(int s, const std::string& p, const std::string& l) {
  KinematicModel m(world::shape(s)); Transform t;
  t.position = Vector3(vf::any<double>("ax"), vf::any<double>("ay"), vf::any<double>("az"));
  t.rotation.setFromRPY(vf::any<double>("ar"), vf::any<double>("ap"), vf::any<double>("aw"));
  m.add_new_link("n", m.get_link_ids({p})[0], t);
  return world::ask(m, l);
}
