// K05: an answer after a change is the answer of a model that was never asked anything before.
#include "world.h"
static std::vector<std::string> joints(int s) { if (s == 1) return {"j"}; if (s == 2) return {"ja", "jz"}; return {"j2", "j3", "j4"}; }
static std::vector<size_t> ids(const KinematicModel& m, int s) { return m.get_joint_ids(joints(s)); }
static void warm(KinematicModel& m, int s, int w) {
  if (w & 1) world::all(m);
  if (w & 2) { m.get_jacobian(m.get_link_ids({"a"})[0], ids(m, s), RotationType::XYZW, true); m.get_jacobian(m.get_link_ids({"b"})[0], ids(m, s), RotationType::RPY, false); }
  if (w & 4) m.get_com();
  if (w & 8) m.get_com_jacobian(ids(m, s), true);
  if (w & 16) m.get_total_inertia_matrix();
}
static void change(KinematicModel& m, int s, int c) {
  std::vector<std::string> js = joints(s);
  std::vector<size_t> id = ids(m, s);
  if (c == 0) m.set_joint_angles(id, world::angles(1, js));
  if (c == 1) m.set_joint_angles({id[0]}, {world::angle(1, js[0])});
  if (c == 2) m.set_joint_angle(id[js.size() - 1], world::angle(1, js[js.size() - 1]));
  if (c == 3) m.set_base_pose(world::base(1));
  if (c == 4) m.set_init_angles();
  if (c == 5) m.add_new_link("new", m.get_link_ids({"a"})[0], world::pose("o_new"));
  if (c == 6) { std::array<double, 3> p = {vf::any<double>("nx"), vf::any<double>("ny"), vf::any<double>("nz")}, r = {vf::any<double>("nr"), vf::any<double>("np"), vf::any<double>("nw")};
    m.add_new_link("new", m.get_link_ids({"b"})[0], p, r); }
  if (c == 7) { m._set_joint_angles(id, world::angles(1, js)); m.clear_cache(); }
  if (c == 8) { m._set_base_pose(world::base(1)); m.clear_cache(); }
  if (c == 9) { m.set_joint_angle(id[0], world::angle(1, js[0])); world::all(m); m.set_base_pose(world::base(1)); }
  if (c == 10) { m.add_new_link("new", m.get_link_ids({"a"})[0], world::pose("o_new")); world::all(m); m.set_joint_angles(id, world::angles(1, js)); }
  if (c == 11) { m.set_init_angles(); world::all(m); m.set_joint_angle(id[0], world::angle(1, js[0])); }
}
#define L_BODY KinematicModel m(world::shape(s)); world::configure(m, 0); warm(m, s, w); change(m, s, c);
#define R_BODY KinematicModel m(world::shape(s)); world::configure(m, 0); change(m, s, c); m.clear_cache();
std::vector<Transform> L_poses(int s, int w, int c) { L_BODY return world::all(m); }
std::vector<Transform> R_poses(int s, int w, int c) { R_BODY return world::all(m); }
Transform L_partly_warm(int s, const std::string& w, int c, const std::string& n) { KinematicModel m(world::shape(s)); world::configure(m, 0); world::ask(m, w); change(m, s, c); return world::ask(m, n); }
Transform R_partly_warm(int s, const std::string& w, int c, const std::string& n) { R_BODY return world::ask(m, n); }
Eigen::MatrixXd L_jacobian(int s, int w, int c, int rt) { L_BODY return m.get_jacobian(m.get_link_ids({"a"})[0], ids(m, s), (RotationType)rt, true); }
Eigen::MatrixXd R_jacobian(int s, int w, int c, int rt) { R_BODY return m.get_jacobian(m.get_link_ids({"a"})[0], ids(m, s), (RotationType)rt, true); }
Vector3 L_com(int s, int w, int c) { L_BODY return m.get_com(); }
Vector3 R_com(int s, int w, int c) { R_BODY return m.get_com(); }
Eigen::MatrixXd L_com_jacobian(int s, int w, int c) { L_BODY return m.get_com_jacobian(ids(m, s), true); }
Eigen::MatrixXd R_com_jacobian(int s, int w, int c) { R_BODY return m.get_com_jacobian(ids(m, s), true); }
Eigen::Matrix3d L_inertia(int s, int w, int c) { L_BODY return m.get_total_inertia_matrix(); }
Eigen::Matrix3d R_inertia(int s, int w, int c) { R_BODY return m.get_total_inertia_matrix(); }
// the configuration a query sees is the last one given, however it was given
Transform L_latest(int s, int c, const std::string& n) { KinematicModel m(world::shape(s)); world::configure(m, 0); world::all(m); change(m, s, c); return world::ask(m, n); }
Transform R_latest(int s, int c, const std::string& n) {
  std::vector<std::string> js = joints(s);
  Transform b = c == 3 || c == 8 || c == 9 ? world::base(1) : world::base(0);
  if (c == 0 || c == 7 || c == 10) return world::where(world::given(world::shape(s))->links_.at(n), b, 1);
  if (c == 4) return world::where(world::given(world::shape(s))->links_.at(n), b, 2);
  return world::where(world::given(world::shape(s))->links_.at(n), b, 0); }
