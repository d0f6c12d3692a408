// W04: squared distances between links, and their gradients.
#include "wrap.h"
using namespace wrap;
typedef Eigen::MatrixXd M;
// pairs: two different ones; then the same pair again, and a link with itself
static std::string first(int s, int k) { return tips(s)[k == 2 ? 0 : k == 3 ? 1 : k]; }
static std::string second(int s, int k) { return k == 0 || k == 2 || k == 3 ? tips(s)[1] : s == 2 ? std::string("c") : std::string("b"); }
static std::vector<size_t> list(const KinematicModel& m, int s, int np, bool snd) { std::vector<std::string> v; for (int k = 0; k < np; k++) v.push_back(snd ? second(s, k) : first(s, k)); return m.get_link_ids(v); }
static Vector3 diff(const KinematicModel& m, int s, int j) {
  Vector3 p = world::ask(m, first(s, j)).position, q = world::ask(m, second(s, j)).position;
  return Vector3(p.x - q.x, p.y - q.y, p.z - q.z);
}
double L_sqdist(int s, int n, int np, int i, int j, bool wb, bool wg) {
  Wrapped m(world::shape(s));
  return m.compute_inter_link_squared_dists(rows(s, n, wb), list(m, s, np, false), list(m, s, np, true), jids(m, s), wb, wg, false).first(i * np + j);
}
double R_sqdist(int s, int n, int np, int i, int j, bool wb, bool wg) {
  KinematicModel m(world::shape(s)); place(m, s, i, wb);
  Vector3 d = diff(m, s, j); return d.x*d.x + d.y*d.y + d.z*d.z;
}
double L_gradient(int s, int n, int np, int i, int j, bool wb, int k) {
  Wrapped m(world::shape(s));
  return m.compute_inter_link_squared_dists(rows(s, n, wb), list(m, s, np, false), list(m, s, np, true), jids(m, s), wb, true, false).second(i * np + j, k);
}
double R_gradient(int s, int n, int np, int i, int j, bool wb, int k) {
  KinematicModel m(world::shape(s)); place(m, s, i, wb);
  Vector3 d = diff(m, s, j);
  M A = m.get_jacobian(m.get_link_ids({first(s, j)})[0], jids(m, s), RotationType::IGNORE, wb);
  M B = m.get_jacobian(m.get_link_ids({second(s, j)})[0], jids(m, s), RotationType::IGNORE, wb);
  return 2*(d.x*(A(0, k) - B(0, k)) + d.y*(A(1, k) - B(1, k)) + d.z*(A(2, k) - B(2, k)));
}
std::vector<size_t> L_sizes(int s, int n, int np, bool wb) {
  Wrapped m(world::shape(s));
  auto r = m.compute_inter_link_squared_dists(rows(s, n, wb), list(m, s, np, false), list(m, s, np, true), jids(m, s), wb, true, false);
  return {(size_t)r.first.size(), (size_t)r.second.rows(), (size_t)r.second.cols()};
}
std::vector<size_t> R_sizes(int s, int n, int np, bool wb) { return {(size_t)n * np, (size_t)n * np, joints(s).size() + (wb ? 6 : 0)}; }
