// W02: where each pose and Jacobian of a batch stands in the answer.
#include "wrap.h"
using namespace wrap;
typedef Eigen::MatrixXd M;
static size_t dim(int rt) { return rt == 1 ? 6 : rt == 2 ? 7 : 3; }
static std::vector<size_t> some(const KinematicModel& m, int s, int nl) { std::vector<std::string> v; for (size_t k = 0; k < count(nl); k++) v.push_back(tips(s)[pick(nl, k)]); return m.get_link_ids(v); }
static M vec(const Transform& t, int rt) {
  M v(1, dim(rt));
  v(0, 0) = t.position.x; v(0, 1) = t.position.y; v(0, 2) = t.position.z;
  if (rt == 1) { Vector3 r = t.rotation.getRPY(); v(0, 3) = r.x; v(0, 4) = r.y; v(0, 5) = r.z; }
  if (rt == 2) { v(0, 3) = t.rotation.x; v(0, 4) = t.rotation.y; v(0, 5) = t.rotation.z; v(0, 6) = t.rotation.w; }
  return v;
}
M L_pose_row(int s, int n, int nl, int i, int j, int rt, bool wb) {
  Wrapped m(world::shape(s));
  return m.solve_forward_kinematics(rows(s, n, wb), some(m, s, nl), jids(m, s), (RotationType)rt, wb, false, false)[0].row(i * count(nl) + j);
}
M R_pose_row(int s, int n, int nl, int i, int j, int rt, bool wb) {
  KinematicModel m(world::shape(s)); place(m, s, i, wb);
  return vec(world::ask(m, tips(s)[pick(nl, j)]), rt);
}
M L_jacobian_block(int s, int n, int nl, int i, int j, int rt, bool wb) {
  Wrapped m(world::shape(s));
  return m.solve_forward_kinematics(rows(s, n, wb), some(m, s, nl), jids(m, s), (RotationType)rt, wb, true, false)[1].block((i * count(nl) + j) * dim(rt), 0, dim(rt), joints(s).size() + (wb ? 6 : 0));
}
M R_jacobian_block(int s, int n, int nl, int i, int j, int rt, bool wb) {
  KinematicModel m(world::shape(s)); place(m, s, i, wb);
  return m.get_jacobian(m.get_link_ids({tips(s)[pick(nl, j)]})[0], jids(m, s), (RotationType)rt, wb);
}
std::vector<size_t> L_sizes(int s, int n, int nl, int rt, bool wb, bool wj) {
  Wrapped m(world::shape(s));
  auto r = m.solve_forward_kinematics(rows(s, n, wb), some(m, s, nl), jids(m, s), (RotationType)rt, wb, wj, false);
  return {(size_t)r[0].rows(), (size_t)r[0].cols(), (size_t)r[1].rows(), (size_t)r[1].cols()};
}
std::vector<size_t> R_sizes(int s, int n, int nl, int rt, bool wb, bool wj) { return {n * count(nl), dim(rt), n * count(nl) * dim(rt), joints(s).size() + (wb ? 6 : 0)}; }
M L_no_jacobian(int s, int n, int nl, int rt, bool wb) {
  Wrapped m(world::shape(s));
  return m.solve_forward_kinematics(rows(s, n, wb), some(m, s, nl), jids(m, s), (RotationType)rt, wb, false, false)[1];
}
M R_no_jacobian(int s, int n, int nl, int rt, bool wb) { return M::Zero(n * count(nl) * dim(rt), joints(s).size() + (wb ? 6 : 0)); }
// the order of the given joints decides the columns, the order of the given links the rows
M L_joint_order(int s, int rt, bool wb) {
  Wrapped m(world::shape(s)); std::vector<std::string> js = joints(s);
  std::vector<std::string> rev; for (size_t k = js.size(); k > 0; k--) rev.push_back(js[k - 1]);
  std::vector<double> q = world::angles(0, rev);
  if (wb) for (int k = 0; k < 6; k++) q.push_back(base(0)[k]);
  return m.solve_forward_kinematics({q}, m.get_link_ids({"a"}), m.get_joint_ids(rev), (RotationType)rt, wb, true, false)[1];
}
M R_joint_order(int s, int rt, bool wb) {
  KinematicModel m(world::shape(s)); place(m, s, 0, wb); std::vector<std::string> js = joints(s);
  std::vector<std::string> rev; for (size_t k = js.size(); k > 0; k--) rev.push_back(js[k - 1]);
  return m.get_jacobian(m.get_link_ids({"a"})[0], m.get_joint_ids(rev), (RotationType)rt, wb);
}
