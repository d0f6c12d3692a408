// K13/K15/K17: names, limits, angles.
#include "km.h"
#include <limits>
std::vector<size_t> L_joint_ids(const KinematicModel& m, const std::vector<std::string>& names) { return m.get_joint_ids(names); }
std::vector<size_t> R_joint_ids(const KinematicModel& m, const std::vector<std::string>& names) {
  std::vector<size_t> out;
  for (size_t i = 0; i < names.size(); i++) {
    if (m.joint_ids_.count(names[i]) == 0) throw std::invalid_argument("");
    out.push_back(m.joint_ids_.at(names[i]));
  }
  return out;
}
std::vector<size_t> L_link_ids(const KinematicModel& m, const std::vector<std::string>& names) { return m.get_link_ids(names); }
std::vector<size_t> R_link_ids(const KinematicModel& m, const std::vector<std::string>& names) {
  std::vector<size_t> out;
  for (size_t i = 0; i < names.size(); i++) {
    if (m.link_ids_.count(names[i]) == 0) throw std::invalid_argument("");
    out.push_back(m.link_ids_.at(names[i]));
  }
  return out;
}
std::vector<std::string> L_joint_names(const KinematicModel& m) { return m.get_joint_names(); }
std::vector<std::string> R_joint_names(const KinematicModel& m) {
  std::vector<std::string> out(m.joints_.size());
  for (size_t i = 0; i < m.joints_.size(); i++) out[i] = m.joints_[i]->name;
  return out;
}
std::vector<std::string> L_link_names(const KinematicModel& m) { return m.get_link_names(); }
std::vector<std::string> R_link_names(const KinematicModel& m) {
  std::vector<std::string> out(m.links_.size());
  for (size_t i = 0; i < m.links_.size(); i++) out[i] = m.links_[i]->name;
  return out;
}
