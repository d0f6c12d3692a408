// K07: asking does not change the model.
#include "world.h"
static std::vector<std::string> joints(int s) { if (s == 1) return {"j"}; if (s == 2) return {"ja", "jz"}; return {"j2", "j3", "j4"}; }
static std::vector<size_t> ids(const KinematicModel& m, int s) { return m.get_joint_ids(joints(s)); }
static void query(KinematicModel& m, int s, int q) {
  if (q == 0) world::ask(m, "a");
  if (q == 1) world::all(m);
  if (q == 2) m.get_jacobian(m.get_link_ids({"a"})[0], ids(m, s), RotationType::IGNORE, true);
  if (q == 3) m.get_jacobian(m.get_link_ids({"a"})[0], ids(m, s), RotationType::RPY, true);
  if (q == 4) m.get_jacobian(m.get_link_ids({"b"})[0], ids(m, s), RotationType::XYZW, true);
  if (q == 5) m.get_com();
  if (q == 6) m.get_com_jacobian(ids(m, s), true);
  if (q == 7) m.get_com_jacobian(ids(m, s), false);
  if (q == 8) m.get_total_inertia_matrix();
  if (q == 9) { m.get_joint_names(); m.get_link_names(); m.get_joint_angles(ids(m, s)); }
  if (q == 10) m.get_jacobian(m.get_link_ids({"a_com"})[0], ids(m, s), RotationType::XYZW, false);
  if (q == 11) { try { m.get_link_ids({"nowhere"}); } catch (const std::invalid_argument&) {} try { m.get_joint_ids({"nowhere"}); } catch (const std::invalid_argument&) {} }
}
struct Seen {
  std::vector<double> angles; Transform base;
  std::vector<std::string> links, joints, parents; std::vector<size_t> link_ids, joint_ids;
  size_t root; double mass; int dof; std::vector<std::vector<bool>> table;
};
static Seen look(const KinematicModel& m) {
  Seen v;
  v.links = m.get_link_names(); v.joints = m.get_joint_names();
  v.link_ids = m.get_link_ids(v.links); v.joint_ids = m.get_joint_ids(v.joints);
  v.angles = m.get_joint_angles(v.joint_ids); v.base = m.base_pose_; v.root = m.root_link_id_;
  v.mass = m.total_mass_; v.dof = m.num_dof_; v.table = m.rptable_.table_;
  for (const LinkSharedPtr& l : m.links_) { LinkSharedPtr p = l->getParent(); v.parents.push_back(p == nullptr ? std::string() : p->name); }
  return v;
}
Seen L_unchanged(int s, int q) { KinematicModel m(world::shape(s)); world::configure(m, 0); query(m, s, q); return look(m); }
Seen R_unchanged(int s, int q) { KinematicModel m(world::shape(s)); world::configure(m, 0); return look(m); }
std::vector<Transform> L_poses_after(int s, int q) { KinematicModel m(world::shape(s)); world::configure(m, 0); query(m, s, q); return world::all(m); }
std::vector<Transform> R_poses_after(int s, int q) { KinematicModel m(world::shape(s)); world::configure(m, 0); return world::all(m); }
Vector3 L_com_after(int s, int q) { KinematicModel m(world::shape(s)); world::configure(m, 0); query(m, s, q); return m.get_com(); }
Vector3 R_com_after(int s, int q) { KinematicModel m(world::shape(s)); world::configure(m, 0); return m.get_com(); }
Eigen::Matrix3d L_inertia_after(int s, int q) { KinematicModel m(world::shape(s)); world::configure(m, 0); query(m, s, q); return m.get_total_inertia_matrix(); }
Eigen::Matrix3d R_inertia_after(int s, int q) { KinematicModel m(world::shape(s)); world::configure(m, 0); return m.get_total_inertia_matrix(); }
Eigen::MatrixXd L_jacobian_after(int s, int q) { KinematicModel m(world::shape(s)); world::configure(m, 0); query(m, s, q); return m.get_jacobian(m.get_link_ids({"a"})[0], ids(m, s), RotationType::XYZW, true); }
Eigen::MatrixXd R_jacobian_after(int s, int q) { KinematicModel m(world::shape(s)); world::configure(m, 0); return m.get_jacobian(m.get_link_ids({"a"})[0], ids(m, s), RotationType::XYZW, true); }
Eigen::MatrixXd L_com_jacobian_after(int s, int q) { KinematicModel m(world::shape(s)); world::configure(m, 0); query(m, s, q); return m.get_com_jacobian(ids(m, s), true); }
Eigen::MatrixXd R_com_jacobian_after(int s, int q) { KinematicModel m(world::shape(s)); world::configure(m, 0); return m.get_com_jacobian(ids(m, s), true); }
// two models do not share their state
std::vector<Transform> L_two_models(int s) { KinematicModel m(world::shape(s)), o(world::shape(s)); world::configure(m, 0); world::configure(o, 1); world::all(o); o.set_joint_angles(ids(o, s), world::angles(1, joints(s))); return world::all(m); }
std::vector<Transform> R_two_models(int s) { KinematicModel m(world::shape(s)); world::configure(m, 0); return world::all(m); }
