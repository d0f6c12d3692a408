#include "km.h"
std::vector<double> L_get(const KinematicModel& m, const std::vector<size_t>& ids) { return m.get_joint_angles(ids); }
std::vector<double> R_get(const KinematicModel& m, const std::vector<size_t>& ids) {
  std::vector<double> out; for (size_t k = 0; k < ids.size(); k++) out.push_back(m.joint_angles_[ids[k]]); return out; }
// one joint
double L_set_one(KinematicModel& m, size_t id, double a, size_t j) { m.set_joint_angle(id, a); return m.joint_angles_[j]; }
double R_set_one(KinematicModel& m, size_t id, double a, size_t j) { return j == id ? a : m.joint_angles_[j]; }
// one, two, three joints at once; when an id repeats the last value counts
double L_set_many1(KinematicModel& m, size_t i, double a, size_t j) { m.set_joint_angles({i}, {a}); return m.joint_angles_[j]; }
double R_set_many1(KinematicModel& m, size_t i, double a, size_t j) { return j == i ? a : m.joint_angles_[j]; }
double L_set_many2(KinematicModel& m, size_t i, size_t k, double a, double b, size_t j) { m.set_joint_angles({i, k}, {a, b}); return m.joint_angles_[j]; }
double R_set_many2(KinematicModel& m, size_t i, size_t k, double a, double b, size_t j) { return j == k ? b : j == i ? a : m.joint_angles_[j]; }
double L_set_many3(KinematicModel& m, size_t i, size_t k, size_t l, double a, double b, double c, size_t j) { m.set_joint_angles({i, k, l}, {a, b, c}); return m.joint_angles_[j]; }
double R_set_many3(KinematicModel& m, size_t i, size_t k, size_t l, double a, double b, double c, size_t j) { return j == l ? c : j == k ? b : j == i ? a : m.joint_angles_[j]; }
double L_set_none(KinematicModel& m, size_t j) { m.set_joint_angles({}, {}); return m.joint_angles_[j]; }
double R_set_none(KinematicModel& m, size_t j) { return m.joint_angles_[j]; }
double L_set_raw2(KinematicModel& m, size_t i, size_t k, double a, double b, size_t j) { m._set_joint_angles({i, k}, {a, b}); return m.joint_angles_[j]; }
double R_set_raw2(KinematicModel& m, size_t i, size_t k, double a, double b, size_t j) { return j == k ? b : j == i ? a : m.joint_angles_[j]; }
// all of them, any number of joints; too few angles are rejected before anything is stored
std::vector<double> L_set_all(KinematicModel& m, const std::vector<size_t>& ids, const std::vector<double>& q) {
  m.set_joint_angles(ids, q); return m.joint_angles_; }
std::vector<double> R_set_all(KinematicModel& m, const std::vector<size_t>& ids, const std::vector<double>& q) {
  if (q.size() < ids.size()) throw std::invalid_argument("");
  std::vector<double> a = m.joint_angles_; for (size_t i = 0; i < ids.size(); i++) a[ids[i]] = q[i]; return a; }
std::vector<double> L_rejected_unchanged(KinematicModel& m, const std::vector<size_t>& ids, const std::vector<double>& q) {
  try { m.set_joint_angles(ids, q); } catch (const std::exception&) { return m.joint_angles_; } return std::vector<double>(); }
std::vector<double> R_rejected_unchanged(KinematicModel& m, const std::vector<size_t>& ids, const std::vector<double>& q) {
  if (q.size() < ids.size()) return m.joint_angles_; return std::vector<double>(); }
Transform L_base(KinematicModel& m, const Transform& p) { m.set_base_pose(p); return m.base_pose_; }
Transform R_base(KinematicModel& m, const Transform& p) { return p; }
Transform L_base_raw(KinematicModel& m, const Transform& p) { m._set_base_pose(p); return m.base_pose_; }
Transform R_base_raw(KinematicModel& m, const Transform& p) { return p; }
std::vector<double> L_base_keeps_angles(KinematicModel& m, const Transform& p) { m.set_base_pose(p); return m.joint_angles_; }
std::vector<double> R_base_keeps_angles(KinematicModel& m, const Transform& p) { return m.joint_angles_; }
Transform L_angles_keep_base(KinematicModel& m, size_t i, double a) { m.set_joint_angles({i}, {a}); m.set_joint_angle(i, a); m.set_init_angles(); return m.base_pose_; }
Transform R_angles_keep_base(KinematicModel& m, size_t i, double a) { return m.base_pose_; }
std::vector<double> L_init(KinematicModel& m) { m.set_init_angles(); return m.joint_angles_; }
std::vector<double> R_init(KinematicModel& m) { std::vector<double> a; for (size_t i = 0; i < m.joint_angles_.size(); i++) a.push_back(0.0); return a; }
