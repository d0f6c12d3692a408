// K18: queries stay inside their containers, whatever was added before. A D_ function must reach no
// element, iterator, pointer or matrix index that does not exist.
#include "world.h"
static std::vector<size_t> all_joints(const KinematicModel& m) { return m.get_joint_ids(m.get_joint_names()); }
static void use(KinematicModel& m, const std::string& deep) {
  m.get_link_pose(m.get_link_ids({deep})[0], *std::make_shared<Transform>());
}
void D_built(int s) { KinematicModel m(world::shape(s)); }
void D_pose(int s, const std::string& l) { KinematicModel m(world::shape(s)); world::configure(m, 0); world::ask(m, l); }
void D_poses(int s) { KinematicModel m(world::shape(s)); world::configure(m, 0); world::all(m); world::all(m); }
void D_jacobian(int s, const std::string& l, int rt) { KinematicModel m(world::shape(s)); world::configure(m, 0); m.get_jacobian(m.get_link_ids({l})[0], all_joints(m), (RotationType)rt, true); }
void D_no_columns(int s, const std::string& l, int rt) { KinematicModel m(world::shape(s)); world::configure(m, 0); m.get_jacobian(m.get_link_ids({l})[0], {}, (RotationType)rt, false); }
void D_com(int s) { KinematicModel m(world::shape(s)); world::configure(m, 0); m.get_com(); m.get_com_jacobian(all_joints(m), true); m.get_total_inertia_matrix(); }
void D_getters(int s) { KinematicModel m(world::shape(s)); m.get_joint_angles(all_joints(m)); m.get_joint_position_limits({}); m.get_link_names(); m.get_joint_names(); m.set_init_angles(); m.get_joint_angles(all_joints(m)); }
void D_limits(int s) { KinematicModel m(world::shape(s)); m.get_joint_velocity_limits(all_joints(m)); m.get_joint_effort_limits(all_joints(m)); }
// chains made longer than any the model was built for
static void extend(KinematicModel& m, const std::string& p, int n) {
  const char* names[6] = {"n0", "n1", "n2", "n3", "n4", "n5"};
  size_t parent = m.get_link_ids({p})[0];
  for (int i = 0; i < n; i++) { m.add_new_link(names[i], parent, {0.1, 0.2, 0.3}, {0.1, 0.2, 0.3}); parent = m.get_link_ids({names[i]})[0]; }
}
static std::string last(int n) { const char* names[6] = {"n0", "n1", "n2", "n3", "n4", "n5"}; return names[n - 1]; }
void D_added(int s, const std::string& p, int n) { KinematicModel m(world::shape(s)); extend(m, p, n); world::configure(m, 0); world::ask(m, last(n)); }
void D_added_between(int s, const std::string& p, int n) { KinematicModel m(world::shape(s)); world::configure(m, 0); world::all(m); extend(m, p, n); world::ask(m, last(n)); world::all(m); m.set_init_angles(); world::all(m); }
void D_added_jacobian(int s, const std::string& p, int n) { KinematicModel m(world::shape(s)); extend(m, p, n); world::configure(m, 0); m.get_jacobian(m.get_link_ids({last(n)})[0], all_joints(m), RotationType::RPY, true); }
void D_added_com(int s, const std::string& p, int n) { KinematicModel m(world::shape(s)); extend(m, p, n); m.get_com(); m.get_com_jacobian(all_joints(m), false); m.get_total_inertia_matrix(); }
void D_refused(int s, const std::string& l) { KinematicModel m(world::shape(s)); try { m.add_new_link(l, 0, Transform()); } catch (const std::invalid_argument&) {} world::all(m); }
void D_two_models(int s) { KinematicModel m(world::shape(s)), o(world::shape(s)); extend(m, "a", 2); world::all(o); world::all(m); }
// too few angles are refused before anything is read
void D_few_angles(int s, int n) { KinematicModel m(world::shape(s)); m.set_joint_angles(all_joints(m), std::vector<double>(n)); }
