// K13 from construction on.
#include "world.h"
static void extra(KinematicModel& m, int x) {
  if (x > 0) m.add_new_link("n", m.get_link_ids({"a"})[0], world::pose("o_n"));
  if (x > 1) m.add_new_link("0", m.get_link_ids({"n"})[0], world::pose("o_n2"));
}
// the id of the i-th name is i, for links and joints; ids come back in the order asked for, repetitions included
bool P_world_link_roundtrip(int s, int x) {
  KinematicModel m(world::shape(s)); extra(m, x);
  std::vector<std::string> v = m.get_link_names(); std::vector<size_t> id = m.get_link_ids(v);
  if (id.size() != v.size()) return false;
  for (size_t i = 0; i < v.size(); i++) if (id[i] != i || m.links_[i]->name != v[i] || (size_t)m.links_[i]->id != i) return false;
  return true; }
bool P_world_joint_roundtrip(int s, int x) {
  KinematicModel m(world::shape(s)); extra(m, x);
  std::vector<std::string> v = m.get_joint_names(); std::vector<size_t> id = m.get_joint_ids(v);
  if (id.size() != v.size()) return false;
  for (size_t i = 0; i < v.size(); i++) if (id[i] != i || m.joints_[i]->name != v[i] || (size_t)m.joints_[i]->id != i) return false;
  return true; }
bool P_world_order(int s, const std::string& a, const std::string& b) {
  KinematicModel m(world::shape(s)); std::vector<size_t> v = m.get_link_ids({b, a, b});
  return v.size() == 3 && v[0] == v[2] && v[0] == m.get_link_ids({b})[0] && v[1] == m.get_link_ids({a})[0]; }
bool P_world_distinct(int s, const std::string& a, const std::string& b) {
  vf::assume(a != b); KinematicModel m(world::shape(s)); return m.get_link_ids({a})[0] != m.get_link_ids({b})[0]; }
// names that are not there are refused, wherever they stand in the request
int L_world_unknown_link(int s, const std::string& a, int x) { KinematicModel m(world::shape(s)); if (x == 0) m.get_link_ids({"nowhere"}); else if (x == 1) m.get_link_ids({a, "nowhere"}); else if (x == 2) m.get_link_ids({"nowhere", a}); else m.get_link_ids({a, a}); return 1; }
int R_world_unknown_link(int s, const std::string& a, int x) { if (x < 3) throw 0; return 1; }
int L_world_unknown_joint(int s, const std::string& a, int x) { KinematicModel m(world::shape(s)); if (x == 0) m.get_joint_ids({"nowhere"}); else if (x == 1) m.get_joint_ids({a, "nowhere"}); else if (x == 2) m.get_joint_ids({"nowhere", a}); else m.get_joint_ids({a, a}); return 1; }
int R_world_unknown_joint(int s, const std::string& a, int x) { if (x < 3) throw 0; return 1; }
// a fixed joint or a link is not a movable joint
int L_world_not_a_joint(int s, const std::string& n) { KinematicModel m(world::shape(s)); m.get_joint_ids({n}); return 1; }
int R_world_not_a_joint(int s, const std::string& n) { throw 0; }
