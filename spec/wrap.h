// The binding class, on the robots of world.h.
#pragma once
#include "src/wrapper.cpp"
#include "world.h"
typedef KinematicsModelPyWrapper Wrapped;
namespace wrap {
inline std::vector<std::string> joints(int s) { if (s == 1) return {"j"}; if (s == 2) return {"ja", "jz"}; if (s == 3) return {"j2", "j3", "j4"}; return {}; }
inline std::vector<std::string> tips(int s) { if (s == 1) return {"a", "b"}; if (s == 2) return {"b", "a"}; return {"a", "e", "c"}; }
// the j-th of nl links asked for: 1 one link, 2 two different ones, 3 the second one twice and the first, 4 the first one twice
inline size_t pick(int nl, int j) { return nl < 3 ? j : nl == 3 ? (j < 2 ? 1 : 0) : 0; }
inline size_t count(int nl) { return nl < 4 ? nl : 2; }
// x y z roll pitch yaw of row c
inline std::vector<double> base(int c) {
  if (c == 0) return {vf::any<double>("bx"), vf::any<double>("by"), vf::any<double>("bz"), vf::any<double>("br"), vf::any<double>("bp"), vf::any<double>("bw")};
  if (c == 1) return {vf::any<double>("cx"), vf::any<double>("cy"), vf::any<double>("cz"), vf::any<double>("cr"), vf::any<double>("cp"), vf::any<double>("cw")};
  return {vf::any<double>("dx"), vf::any<double>("dy"), vf::any<double>("dz"), vf::any<double>("dr"), vf::any<double>("dp"), vf::any<double>("dw")};
}
inline Transform transform(const std::vector<double>& b) {
  Transform t; t.position = Vector3(b[0], b[1], b[2]); t.rotation.setFromRPY(b[3], b[4], b[5]); return t;
}
inline std::vector<double> row(int s, int c, bool wb) {
  std::vector<double> q = world::angles(c, joints(s));
  if (wb) { std::vector<double> b = base(c); for (size_t k = 0; k < 6; k++) q.push_back(b[k]); }
  return q;
}
inline std::vector<std::vector<double>> rows(int s, int n, bool wb) {
  std::vector<std::vector<double>> v;
  for (int i = 0; i < n; i++) v.push_back(row(s, i, wb));
  return v;
}
inline std::vector<size_t> jids(const KinematicModel& m, int s) { return m.get_joint_ids(joints(s)); }
// a model put directly into the configuration of row c
inline void place(KinematicModel& m, int s, int c, bool wb) {
  m.set_joint_angles(jids(m, s), world::angles(c, joints(s)));
  if (wb) m.set_base_pose(transform(base(c)));
}
// what another call may have left behind
inline void disturb(Wrapped& m, int s, int d) {
  if (d == 0) return;
  m.set_joint_angles(jids(m, s), std::vector<double>(joints(s).size(), vf::any<double>("left over")));
  if (d == 2) m.KinematicModel::set_base_pose(world::pose("left over base"));
  world::all(m); m.get_com();
}
}
