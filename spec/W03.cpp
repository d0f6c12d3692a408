// W03: center of mass with vertical forces at links.
#include "wrap.h"
using namespace wrap;
typedef Eigen::MatrixXd M;
static double force(int k) { return k == 0 ? vf::any<double>("force0") : k == 1 ? vf::any<double>("force1") : vf::any<double>("force2"); }
static std::vector<double> forces(int nf) { std::vector<double> f; for (size_t k = 0; k < count(nf); k++) f.push_back(force(k)); return f; }
static std::vector<size_t> at(const KinematicModel& m, int s, int nf) { std::vector<std::string> v; for (size_t k = 0; k < count(nf); k++) v.push_back(tips(s)[pick(nf, k)]); return m.get_link_ids(v); }
static double total(int s) { double t = 0; for (const auto& p : world::given(world::shape(s))->links_) if (p.second->inertial) t += p.second->inertial->mass; return t; }
M L_com(int s, int n, int i, int nf, bool wb) {
  Wrapped m(world::shape(s));
  return m.solve_com_forward_kinematics(rows(s, n, wb), jids(m, s), at(m, s, nf), forces(nf), wb, false)[0].row(i);
}
M R_com(int s, int n, int i, int nf, bool wb) {
  KinematicModel m(world::shape(s)); place(m, s, i, wb);
  Vector3 c = m.get_com(); double x = c.x, y = c.y, z = c.z, d = 1;
  for (size_t k = 0; k < count(nf); k++) {
    Vector3 p = world::ask(m, tips(s)[pick(nf, k)]).position; double f = force(k)/total(s);
    x += f*p.x; y += f*p.y; z += f*p.z; d += f;
  }
  M v(1, 3); v(0, 0) = x/d; v(0, 1) = y/d; v(0, 2) = z/d; return v;
}
M L_jacobian(int s, int n, int i, int nf, bool wb) {
  Wrapped m(world::shape(s));
  return m.solve_com_forward_kinematics(rows(s, n, wb), jids(m, s), at(m, s, nf), forces(nf), wb, true)[1].block(3 * i, 0, 3, joints(s).size() + (wb ? 6 : 0));
}
M R_jacobian(int s, int n, int i, int nf, bool wb) {
  KinematicModel m(world::shape(s)); place(m, s, i, wb);
  M J = m.get_com_jacobian(jids(m, s), wb); double d = 1;
  for (size_t k = 0; k < count(nf); k++) {
    double f = force(k)/total(s);
    M K = m.get_jacobian(m.get_link_ids({tips(s)[pick(nf, k)]})[0], jids(m, s), RotationType::IGNORE, wb);
    for (int a = 0; a < 3; a++) for (int b = 0; b < (int)joints(s).size() + (wb ? 6 : 0); b++) J(a, b) += f*K(a, b);
    d += f;
  }
  for (int a = 0; a < 3; a++) for (int b = 0; b < (int)joints(s).size() + (wb ? 6 : 0); b++) J(a, b) = J(a, b)/d;
  return J;
}
// asking for the Jacobian does not change the center
M L_same_center(int s, int n, int nf, bool wb) { Wrapped m(world::shape(s)); return m.solve_com_forward_kinematics(rows(s, n, wb), jids(m, s), at(m, s, nf), forces(nf), wb, true)[0]; }
M R_same_center(int s, int n, int nf, bool wb) { Wrapped m(world::shape(s)); return m.solve_com_forward_kinematics(rows(s, n, wb), jids(m, s), at(m, s, nf), forces(nf), wb, false)[0]; }
std::vector<size_t> L_sizes(int s, int n, int nf, bool wb, bool wj) {
  Wrapped m(world::shape(s));
  auto r = m.solve_com_forward_kinematics(rows(s, n, wb), jids(m, s), at(m, s, nf), forces(nf), wb, wj);
  return {(size_t)r[0].rows(), (size_t)r[0].cols(), (size_t)r[1].rows(), (size_t)r[1].cols()};
}
std::vector<size_t> R_sizes(int s, int n, int nf, bool wb, bool wj) { return {(size_t)n, 3, 3*(size_t)n, joints(s).size() + (wb ? 6 : 0)}; }
