// W05: rows and lists of the wrong length are refused, and nothing is read out of range.
#include "wrap.h"
using namespace wrap;
// n rows, row r with k numbers, the others with as many as are needed
static std::vector<std::vector<double>> ragged(int s, int n, int r, int k, bool wb) {
  std::vector<std::vector<double>> v;
  for (int i = 0; i < n; i++) v.push_back(std::vector<double>(i == r ? k : joints(s).size() + (wb ? 6 : 0), vf::any<double>("angle")));
  return v;
}
static bool fits(int s, int k, bool wb) { return wb ? (size_t)k == joints(s).size() + 6 : (size_t)k >= joints(s).size(); }
static int refuse() { throw std::invalid_argument(""); }
int L_fk(int s, int n, int r, int k, bool wb, bool wj) { Wrapped m(world::shape(s)); m.solve_forward_kinematics(ragged(s, n, r, k, wb), m.get_link_ids({"a"}), jids(m, s), RotationType::RPY, wb, wj, false); return 1; }
int R_fk(int s, int n, int r, int k, bool wb, bool wj) { return r >= n || fits(s, k, wb) ? 1 : refuse(); }
int L_com(int s, int n, int r, int k, bool wb, bool wj) { Wrapped m(world::shape(s)); m.solve_com_forward_kinematics(ragged(s, n, r, k, wb), jids(m, s), {}, {}, wb, wj); return 1; }
int R_com(int s, int n, int r, int k, bool wb, bool wj) { return r >= n || fits(s, k, wb) ? 1 : refuse(); }
int L_sqdists(int s, int n, int r, int k, bool wb, bool wj) { Wrapped m(world::shape(s)); m.compute_inter_link_squared_dists(ragged(s, n, r, k, wb), m.get_link_ids({"a"}), m.get_link_ids({"b"}), jids(m, s), wb, wj, false); return 1; }
int R_sqdists(int s, int n, int r, int k, bool wb, bool wj) { return r >= n || fits(s, k, wb) ? 1 : refuse(); }
int L_inertia(int s, int k) { Wrapped m(world::shape(s)); m.compute_total_inertia_matrix(std::vector<double>(k, vf::any<double>("angle")), jids(m, s)); return 1; }
int R_inertia(int s, int k) { return (size_t)k >= joints(s).size() ? 1 : refuse(); }
int L_angles(int s, int k) { Wrapped m(world::shape(s)); m.set_joint_angles(jids(m, s), std::vector<double>(k, vf::any<double>("angle"))); return 1; }
int R_angles(int s, int k) { return (size_t)k >= joints(s).size() ? 1 : refuse(); }
int L_base(int s, int k) { Wrapped m(world::shape(s)); m.set_base_pose(std::vector<double>(k, vf::any<double>("angle"))); return 1; }
int R_base(int s, int k) { return k == 6 ? 1 : refuse(); }
int L_forces(int s, int n, int a, int b, bool wb, bool wj) { Wrapped m(world::shape(s)); m.solve_com_forward_kinematics(rows(s, n, wb), jids(m, s), std::vector<size_t>(a, m.get_link_ids({"a"})[0]), std::vector<double>(b, vf::any<double>("force")), wb, wj); return 1; }
int R_forces(int s, int n, int a, int b, bool wb, bool wj) { return a == b ? 1 : refuse(); }
int L_pairs(int s, int n, int a, int b, bool wb, bool wj) { Wrapped m(world::shape(s)); m.compute_inter_link_squared_dists(rows(s, n, wb), std::vector<size_t>(a, m.get_link_ids({"a"})[0]), std::vector<size_t>(b, m.get_link_ids({"b"})[0]), jids(m, s), wb, wj, false); return 1; }
int R_pairs(int s, int n, int a, int b, bool wb, bool wj) { return a == b ? 1 : refuse(); }
