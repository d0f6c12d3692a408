// K16: what the constructor leaves behind, or refuses.
#include "world.h"
static std::string robot(int s) { return s < 8 ? std::string(world::shape(s)) : std::string(); }
static std::vector<std::string> movable(int s) {
  std::vector<std::string> v;
  for (const auto& p : world::given(robot(s))->joints_)
    if (p.second->type == Joint::REVOLUTE || p.second->type == Joint::CONTINUOUS || p.second->type == Joint::PRISMATIC) v.push_back(p.first);
  return v;
}
static bool has(const std::vector<std::string>& v, const std::string& n) { for (const std::string& x : v) if (x == n) return true; return false; }
// refused: empty text, a text that is no robot, a robot with a joint that is not supported
int L_built(int s) { KinematicModel m(robot(s)); return 1; }
int R_built(int s) { if (s > 3) throw 0; return 1; }
// every movable joint is a joint of the model and nothing else is
bool P_joints(int s) {
  KinematicModel m(robot(s)); std::vector<std::string> v = m.get_joint_names(), w = movable(s);
  if (v.size() != w.size()) return false;
  for (const std::string& n : w) if (!has(v, n)) return false;
  return true; }
int L_dof(int s) { KinematicModel m(robot(s)); return m.num_dof_; }
int R_dof(int s) { return (int)movable(s).size(); }
// the id of a joint names that joint, whose child link is the one described
std::string L_joint_child(int s, const std::string& n) { KinematicModel m(robot(s)); return m.joints_[m.get_joint_ids({n})[0]]->getChildLink()->name; }
std::string R_joint_child(int s, const std::string& n) { return world::given(robot(s))->joints_.at(n)->child_link_name; }
std::string L_joint_name(int s, const std::string& n) { KinematicModel m(robot(s)); return m.joints_[m.get_joint_ids({n})[0]]->name; }
std::string R_joint_name(int s, const std::string& n) { return n; }
size_t L_joint_id(int s, const std::string& n) { KinematicModel m(robot(s)); return m.joints_[m.get_joint_ids({n})[0]]->id; }
size_t R_joint_id(int s, const std::string& n) { KinematicModel m(robot(s)); return m.get_joint_ids({n})[0]; }
// every described link is a link of the model
std::string L_link_name(int s, const std::string& n) { KinematicModel m(robot(s)); return m.links_[m.get_link_ids({n})[0]]->name; }
std::string R_link_name(int s, const std::string& n) { return n; }
size_t L_link_id(int s, const std::string& n) { KinematicModel m(robot(s)); return m.links_[m.get_link_ids({n})[0]]->id; }
size_t R_link_id(int s, const std::string& n) { KinematicModel m(robot(s)); return m.get_link_ids({n})[0]; }
size_t L_link_count(int s) { KinematicModel m(robot(s)); return m.get_link_names().size(); }
size_t R_link_count(int s) { size_t n = 0; for (const auto& p : world::given(robot(s))->links_) n += p.second->inertial ? 2 : 1; return n; }
std::string L_root(int s) { KinematicModel m(robot(s)); return m.links_[m.root_link_id_]->name; }
std::string R_root(int s) { return world::given(robot(s))->root_link_->name; }
// the initial configuration
bool P_zero_angles(int s) {
  KinematicModel m(robot(s)); std::vector<double> q = m.get_joint_angles(m.get_joint_ids(movable(s)));
  for (double x : q) if (x != 0) return false;
  return m.joint_angles_.size() == movable(s).size(); }
Transform L_identity_base(int s) { KinematicModel m(robot(s)); return m.base_pose_; }
Transform R_identity_base(int s) { return Transform(); }
Transform L_zero_pose(int s, const std::string& n) { KinematicModel m(robot(s)); return world::ask(m, n); }
Transform R_zero_pose(int s, const std::string& n) { return world::where(world::given(robot(s))->links_.at(n), Transform(), 2); }
// mass
double L_total_mass(int s) { KinematicModel m(robot(s)); return m.total_mass_; }
double R_total_mass(int s) { double t = 0; for (const auto& p : world::given(robot(s))->links_) if (p.second->inertial) t += p.second->inertial->mass; return t; }
bool P_no_inertial(int s, const std::string& n) { KinematicModel m(robot(s)); return (m.links_[m.get_link_ids({n})[0]]->inertial != nullptr) == (world::given(robot(s))->links_.at(n)->inertial != nullptr); }
urdf::Inertial L_inertial(int s, const std::string& n) {
  KinematicModel m(robot(s)); vf::assume(world::given(robot(s))->links_.at(n)->inertial != nullptr); return *m.links_[m.get_link_ids({n})[0]]->inertial; }
urdf::Inertial R_inertial(int s, const std::string& n) { LinkSharedPtr l = world::given(robot(s))->links_.at(n); vf::assume(l->inertial != nullptr); return *l->inertial; }
// one COM frame per link with inertial data, at the inertial origin, with the link's mass and inertia about it
size_t L_com_links(int s) { KinematicModel m(robot(s)); return m.com_dummy_links_.size(); }
size_t R_com_links(int s) { size_t n = 0; for (const auto& p : world::given(robot(s))->links_) if (p.second->inertial) n++; return n; }
urdf::Inertial L_com_inertial(int s, const std::string& n) {
  vf::assume(world::given(robot(s))->links_.at(n)->inertial != nullptr);
  KinematicModel m(robot(s)); size_t id = m.get_link_ids({n + "_com"})[0];
  for (const LinkSharedPtr& l : m.com_dummy_links_) if ((size_t)l->id == id) return *l->inertial;
  throw 0; }
urdf::Inertial R_com_inertial(int s, const std::string& n) {
  LinkSharedPtr l = world::given(robot(s))->links_.at(n); vf::assume(l->inertial != nullptr);
  urdf::Inertial i = *l->inertial; i.origin = Transform(); return i; }
Transform L_com_pose(int s, const std::string& n) {
  vf::assume(world::given(robot(s))->links_.at(n)->inertial != nullptr);
  KinematicModel m(robot(s)); world::configure(m, 0); return world::ask(m, n + "_com"); }
Transform R_com_pose(int s, const std::string& n) {
  LinkSharedPtr l = world::given(robot(s))->links_.at(n); vf::assume(l->inertial != nullptr);
  return urdf::pose_transform(world::where(l, world::base(0), 0), l->inertial->origin); }
// the tree is the described one
std::string L_parent(int s, const std::string& n) { KinematicModel m(robot(s)); LinkSharedPtr p = m.links_[m.get_link_ids({n})[0]]->getParent(); return p == nullptr ? std::string() : p->name; }
std::string R_parent(int s, const std::string& n) { LinkSharedPtr p = world::given(robot(s))->links_.at(n)->getParent(); return p == nullptr ? std::string() : p->name; }
