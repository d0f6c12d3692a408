// K14: user-added links.
#include "world.h"
typedef std::array<double, 3> V3;
static Transform of(const V3& p, const V3& r) { Transform t; t.position = Vector3(p[0], p[1], p[2]); t.rotation.setFromRPY(r[0], r[1], r[2]); return t; }
static size_t at(const KinematicModel& m, const std::string& n) { return m.get_link_ids({n})[0]; }
static void two(KinematicModel& m, const std::string& p, const std::string& q) { m.add_new_link("n", at(m, p), world::pose("o_n")); m.add_new_link("a0", at(m, q), world::pose("o_a0")); }
Transform L_pose(int s, const std::string& p) { KinematicModel m(world::shape(s)); world::configure(m, 0); m.add_new_link("n", at(m, p), world::pose("o_n")); return world::ask(m, "n"); }
Transform R_pose(int s, const std::string& p) { return urdf::pose_transform(world::where(world::given(world::shape(s))->links_.at(p), world::base(0), 0), world::pose("o_n")); }
Transform L_pose_rpy(int s, const std::string& p, const V3& xyz, const V3& rpy) { KinematicModel m(world::shape(s)); world::configure(m, 0); m.add_new_link("n", at(m, p), xyz, rpy); return world::ask(m, "n"); }
Transform R_pose_rpy(int s, const std::string& p, const V3& xyz, const V3& rpy) { return urdf::pose_transform(world::where(world::given(world::shape(s))->links_.at(p), world::base(0), 0), of(xyz, rpy)); }
Transform L_pose_second(int s, const std::string& p, const std::string& q) { KinematicModel m(world::shape(s)); world::configure(m, 0); two(m, p, q); return world::ask(m, "a0"); }
Transform R_pose_second(int s, const std::string& p, const std::string& q) {
  LinkSharedPtr l = world::given(world::shape(s))->links_.at(q == "n" ? p : q);
  Transform t = world::where(l, world::base(0), 0);
  if (q == "n") t = urdf::pose_transform(t, world::pose("o_n"));
  return urdf::pose_transform(t, world::pose("o_a0")); }
Transform L_pose_com(int s, const std::string& p) { KinematicModel m(world::shape(s)); world::configure(m, 0); m.add_new_link("n", at(m, p + "_com"), world::pose("o_n")); return world::ask(m, "n"); }
Transform R_pose_com(int s, const std::string& p) { LinkSharedPtr l = world::given(world::shape(s))->links_.at(p); return urdf::pose_transform(urdf::pose_transform(world::where(l, world::base(0), 0), l->inertial->origin), world::pose("o_n")); }
// it moves with its parent
Transform L_follows(int s, const std::string& p) { KinematicModel m(world::shape(s)); m.add_new_link("n", at(m, p), world::pose("o_n")); world::all(m); world::configure(m, 0); return world::ask(m, "n"); }
Transform R_follows(int s, const std::string& p) { return urdf::pose_transform(world::where(world::given(world::shape(s))->links_.at(p), world::base(0), 0), world::pose("o_n")); }
// the others stay
std::vector<Transform> L_others(int s, const std::string& p, const std::string& q) { KinematicModel m(world::shape(s)); world::configure(m, 0); two(m, p, q); std::vector<Transform> v; for (const auto& n : m.get_link_names()) if (n != "n" && n != "a0") v.push_back(world::ask(m, n)); return v; }
std::vector<Transform> R_others(int s, const std::string& p, const std::string& q) { KinematicModel m(world::shape(s)); world::configure(m, 0); std::vector<Transform> v; for (const auto& n : m.get_link_names()) v.push_back(world::ask(m, n)); return v; }
// book-keeping
std::vector<std::string> L_names(int s, const std::string& p, const std::string& q) { KinematicModel m(world::shape(s)); two(m, p, q); return m.get_link_names(); }
std::vector<std::string> R_names(int s, const std::string& p, const std::string& q) { KinematicModel m(world::shape(s)); std::vector<std::string> v = m.get_link_names(); v.push_back("n"); v.push_back("a0"); return v; }
size_t L_id(int s, const std::string& p, const std::string& n) { KinematicModel m(world::shape(s)); size_t k = m.get_link_names().size(); two(m, p, "n"); return at(m, n); }
size_t R_id(int s, const std::string& p, const std::string& n) { KinematicModel m(world::shape(s)); size_t k = m.get_link_names().size(); return n == "n" ? k : n == "a0" ? k + 1 : at(m, n); }
int L_returned(int s, const std::string& p) { KinematicModel m(world::shape(s)); LinkSharedPtr l = m.add_new_link("n", at(m, p), world::pose("o_n")); return l->id; }
int R_returned(int s, const std::string& p) { KinematicModel m(world::shape(s)); return (int)m.get_link_names().size(); }
bool P_returned_is_it(int s, const std::string& p) { KinematicModel m(world::shape(s)); LinkSharedPtr l = m.add_new_link("n", at(m, p), world::pose("o_n")); return l == m.links_[at(m, "n")] && l->name == "n" && l->getParent() == m.links_[at(m, p)]; }
bool P_unmoved(int s, const std::string& p) {           // joints, angles and base are as they were
  KinematicModel m(world::shape(s)); world::configure(m, 0);
  std::vector<std::string> j = m.get_joint_names(); std::vector<double> q = m.get_joint_angles(m.get_joint_ids(j));
  m.add_new_link("n", at(m, p), world::pose("o_n"));
  std::vector<double> r = m.get_joint_angles(m.get_joint_ids(j));
  for (size_t i = 0; i < q.size(); i++) if (q[i] != r[i]) return false;
  return m.get_joint_names().size() == j.size() && q.size() == r.size(); }
// a name already taken is refused and leaves no trace
struct Seen { std::vector<std::string> names; std::vector<size_t> ids; std::vector<Transform> poses; size_t children; };
static Seen look(const KinematicModel& m, const std::string& p) { Seen v; v.names = m.get_link_names(); v.ids = m.get_link_ids(v.names); v.poses = world::all(m); v.children = m.links_[at(m, p)]->child_links.size(); return v; }
int L_taken(int s, const std::string& p, const std::string& n) { KinematicModel m(world::shape(s)); m.add_new_link(n, at(m, p), world::pose("o_n")); return 1; }
int R_taken(int s, const std::string& p, const std::string& n) { throw 0; }
int L_taken_rpy(int s, const std::string& p, const std::string& n, const V3& xyz, const V3& rpy) { KinematicModel m(world::shape(s)); m.add_new_link(n, at(m, p), xyz, rpy); return 1; }
int R_taken_rpy(int s, const std::string& p, const std::string& n, const V3& xyz, const V3& rpy) { throw 0; }
Seen L_no_trace(int s, const std::string& p, const std::string& n) { KinematicModel m(world::shape(s)); world::configure(m, 0); try { m.add_new_link(n, at(m, p), world::pose("o_n")); } catch (const std::invalid_argument&) {} return look(m, p); }
Seen R_no_trace(int s, const std::string& p, const std::string& n) { KinematicModel m(world::shape(s)); world::configure(m, 0); return look(m, p); }
int L_own_name_twice(int s, const std::string& p) { KinematicModel m(world::shape(s)); m.add_new_link("n", at(m, p), world::pose("o_n")); m.add_new_link("n", at(m, p), world::pose("o_n")); return 1; }
int R_own_name_twice(int s, const std::string& p) { throw 0; }
// it carries no mass
Vector3 L_com(int s, const std::string& p) { KinematicModel m(world::shape(s)); world::configure(m, 0); two(m, p, p); return m.get_com(); }
Vector3 R_com(int s, const std::string& p) { KinematicModel m(world::shape(s)); world::configure(m, 0); return m.get_com(); }
Eigen::Matrix3d L_inertia(int s, const std::string& p) { KinematicModel m(world::shape(s)); world::configure(m, 0); two(m, p, p); return m.get_total_inertia_matrix(); }
Eigen::Matrix3d R_inertia(int s, const std::string& p) { KinematicModel m(world::shape(s)); world::configure(m, 0); return m.get_total_inertia_matrix(); }
double L_mass(int s, const std::string& p) { KinematicModel m(world::shape(s)); two(m, p, p); return m.total_mass_; }
double R_mass(int s, const std::string& p) { KinematicModel m(world::shape(s)); return m.total_mass_; }
