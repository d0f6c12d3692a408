#include "km.h"
#include <limits>
typedef std::pair<double,double> B;
std::vector<B> L_position(const KinematicModel& m, const std::vector<size_t>& ids) { return m.get_joint_position_limits(ids); }
std::vector<B> R_position(const KinematicModel& m, const std::vector<size_t>& ids) {
  const double inf = std::numeric_limits<double>::infinity();
  std::vector<B> out;
  for (size_t i = 0; i < ids.size(); i++) {
    const JointSharedPtr& j = m.joints_[ids[i]];
    vf::assume(j->type == Joint::CONTINUOUS || j->limits != nullptr);
    if (j->type == Joint::CONTINUOUS) out.push_back(B(-inf, inf)); else out.push_back(B(j->limits->lower, j->limits->upper));
  }
  return out;
}
std::vector<double> L_velocity(const KinematicModel& m, const std::vector<size_t>& ids) { return m.get_joint_velocity_limits(ids); }
std::vector<double> R_velocity(const KinematicModel& m, const std::vector<size_t>& ids) {
  std::vector<double> out;
  for (size_t i = 0; i < ids.size(); i++) {
    const JointSharedPtr& j = m.joints_[ids[i]];
    if (j->limits == nullptr) out.push_back(std::numeric_limits<double>::infinity()); else out.push_back(j->limits->velocity);
  }
  return out;
}
std::vector<double> L_effort(const KinematicModel& m, const std::vector<size_t>& ids) { return m.get_joint_effort_limits(ids); }
std::vector<double> R_effort(const KinematicModel& m, const std::vector<size_t>& ids) {
  std::vector<double> out;
  for (size_t i = 0; i < ids.size(); i++) {
    const JointSharedPtr& j = m.joints_[ids[i]];
    if (j->limits == nullptr) out.push_back(std::numeric_limits<double>::infinity()); else out.push_back(j->limits->effort);
  }
  return out;
}
