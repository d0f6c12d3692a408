// K10: a joint is relevant to a link exactly when it lies between that link and the root.
#include "world.h"
static bool tells(const KinematicModel& m, const std::string& l, const std::string& j) { return m.rptable_.isRelevant(m.get_link_ids({l})[0], m.get_joint_ids({j})[0]); }
bool L_described(int s, const std::string& l, const std::string& j) { KinematicModel m(world::shape(s)); return tells(m, l, j); }
bool R_described(int s, const std::string& l, const std::string& j) { return world::below(world::given(world::shape(s))->links_.at(l), j); }
// the links added later follow their parent; the others are as they were
bool L_added(int s, const std::string& p, const std::string& j) { KinematicModel m(world::shape(s)); m.add_new_link("n", m.get_link_ids({p})[0], world::pose("o_n")); return tells(m, "n", j); }
bool R_added(int s, const std::string& p, const std::string& j) { return world::below(world::given(world::shape(s))->links_.at(p), j); }
bool L_added_twice(int s, const std::string& p, const std::string& j) {
  KinematicModel m(world::shape(s)); m.add_new_link("n", m.get_link_ids({p})[0], world::pose("o_n")); m.add_new_link("o", m.get_link_ids({"n"})[0], {0, 0, 1}, {0, 0, 0}); return tells(m, "o", j); }
bool R_added_twice(int s, const std::string& p, const std::string& j) { return world::below(world::given(world::shape(s))->links_.at(p), j); }
bool L_others(int s, const std::string& p, const std::string& l, const std::string& j) { KinematicModel m(world::shape(s)); m.add_new_link("n", m.get_link_ids({p})[0], world::pose("o_n")); return tells(m, l, j); }
bool R_others(int s, const std::string& p, const std::string& l, const std::string& j) { return world::below(world::given(world::shape(s))->links_.at(l), j); }
bool L_com_frame(int s, const std::string& l, const std::string& j) { KinematicModel m(world::shape(s)); return tells(m, l + "_com", j); }
bool R_com_frame(int s, const std::string& l, const std::string& j) { return world::below(world::given(world::shape(s))->links_.at(l), j); }
// a column of an irrelevant joint is zero; a moving joint's column does not depend on the other columns asked for
bool P_zero_column(int s, const std::string& l, const std::string& j, int rt) {
  vf::assume(!world::below(world::given(world::shape(s))->links_.at(l), j));
  KinematicModel m(world::shape(s)); world::configure(m, 0);
  Eigen::MatrixXd J = m.get_jacobian(m.get_link_ids({l})[0], m.get_joint_ids({j}), (RotationType)rt, false);
  for (int i = 0; i < J.rows(); i++) if (J(i, 0) != 0) return false;
  return J.cols() == 1; }
