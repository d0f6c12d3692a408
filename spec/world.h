// Robots given to the constructor in place of a parsed description: the tree shape, the joint types
// and which links have inertial data are enumerated, everything numeric is symbolic.
#pragma once
#include "km.h"
#include <cstring>
using tinyfk::RotationType;
namespace world {
inline Transform pose(const char* n) { Transform p = vf::any<Transform>(n); vf::unit(p.rotation); return p; }
inline Vector3 axis(const char* n) { Vector3 v = vf::any<Vector3>(n); vf::unit(v); return v; }
struct W {
  urdf::ModelInterfaceSharedPtr m;
  W() : m(std::make_shared<urdf::ModelInterface>()) {}
  LinkSharedPtr link(const char* name) {
    LinkSharedPtr l = std::make_shared<Link>();
    l->name = name;
    m->links_.insert(std::make_pair(std::string(name), l));
    return l;
  }
  LinkSharedPtr heavy(const char* name, const char* o, const char* mass, const char* a, const char* b, const char* c, const char* d, const char* e, const char* f) {
    LinkSharedPtr l = link(name);
    l->inertial = std::make_shared<urdf::Inertial>();
    l->inertial->origin = pose(o); l->inertial->mass = vf::any<double>(mass);
    l->inertial->ixx = vf::any<double>(a); l->inertial->ixy = vf::any<double>(b); l->inertial->ixz = vf::any<double>(c);
    l->inertial->iyy = vf::any<double>(d); l->inertial->iyz = vf::any<double>(e); l->inertial->izz = vf::any<double>(f);
    return l;
  }
  void joint(const char* name, int type, const LinkSharedPtr& p, const LinkSharedPtr& c, const char* o, const char* ax) {
    JointSharedPtr j = std::make_shared<Joint>();
    j->name = name;
    if (type == 1) j->type = Joint::REVOLUTE; else if (type == 2) j->type = Joint::CONTINUOUS; else if (type == 3) j->type = Joint::PRISMATIC;
    else if (type == 4) j->type = Joint::FLOATING; else if (type == 5) j->type = Joint::PLANAR; else if (type == 6) j->type = Joint::FIXED;
    else j->type = Joint::UNKNOWN;
    j->parent_link_name = p->name; j->child_link_name = c->name;
    j->parent_to_joint_origin_transform = pose(o);
    j->axis = axis(ax);
    m->joints_.insert(std::make_pair(std::string(name), j));
    c->setParent(p); c->parent_joint = j;
    p->child_joints.push_back(j); p->child_links.push_back(c);
  }
};
#define HEAVY(w, n) w.heavy(n, "io_" n, "mass_" n, "ixx_" n, "ixy_" n, "ixz_" n, "iyy_" n, "iyz_" n, "izz_" n)
#define JOINT(w, n, t, p, c) w.joint(n, t, p, c, "o_" n, "ax_" n)
// ids follow the names' order, which is not the order of the chain
inline urdf::ModelInterfaceSharedPtr given(const std::string& x) {
  W w;
  if (x == "root") { LinkSharedPtr a = w.link("a"); w.m->root_link_ = a; return w.m; }
  if (x == "pair") {                                  // one joint, no inertial data
    LinkSharedPtr b = w.link("b"), a = w.link("a");
    JOINT(w, "j", 1, b, a); w.m->root_link_ = b; return w.m;
  }
  if (x == "chain") {                                 // c -> a -> d -> b
    LinkSharedPtr c = w.link("c"), a = HEAVY(w, "a"), d = w.link("d"), b = HEAVY(w, "b");
    JOINT(w, "jz", 1, c, a); JOINT(w, "jf", 6, a, d); JOINT(w, "ja", 3, d, b); w.m->root_link_ = c; return w.m;
  }
  if (x == "branch") {                                // b -> (c -> a, d -> e)
    LinkSharedPtr b = HEAVY(w, "b"), c = w.link("c"), a = HEAVY(w, "a"), d = w.link("d"), e = w.link("e");
    JOINT(w, "j4", 2, b, c); JOINT(w, "j2", 3, c, a); JOINT(w, "j3", 1, b, d); JOINT(w, "j1", 6, d, e); w.m->root_link_ = b; return w.m;
  }
  if (x == "floating") {
    LinkSharedPtr b = w.link("b"), a = w.link("a");
    JOINT(w, "j", 4, b, a); w.m->root_link_ = b; return w.m;
  }
  if (x == "planar") {
    LinkSharedPtr b = w.link("b"), a = w.link("a"), c = w.link("c");
    JOINT(w, "j", 5, b, a); JOINT(w, "k", 1, a, c); w.m->root_link_ = b; return w.m;
  }
  if (x == "untyped") {
    LinkSharedPtr b = w.link("b"), a = w.link("a"), c = w.link("c");
    JOINT(w, "k", 1, b, c); JOINT(w, "j", 0, c, a); w.m->root_link_ = b; return w.m;
  }
  return urdf::ModelInterfaceSharedPtr();             // not a robot
}

inline const char* shape(int s) { return s == 0 ? "root" : s == 1 ? "pair" : s == 2 ? "chain" : s == 3 ? "branch" : s == 4 ? "floating" : s == 5 ? "planar" : s == 6 ? "untyped" : "not a robot"; }
// ---- configurations
inline double angle(int c, const std::string& n) {
  if (c == 2) return 0;
  if (n == "j") return c == 0 ? vf::any<double>("q_j") : vf::any<double>("p_j");
  if (n == "ja") return c == 0 ? vf::any<double>("q_ja") : vf::any<double>("p_ja");
  if (n == "jz") return c == 0 ? vf::any<double>("q_jz") : vf::any<double>("p_jz");
  if (n == "j2") return c == 0 ? vf::any<double>("q_j2") : vf::any<double>("p_j2");
  if (n == "j3") return c == 0 ? vf::any<double>("q_j3") : vf::any<double>("p_j3");
  if (n == "j4") return c == 0 ? vf::any<double>("q_j4") : vf::any<double>("p_j4");
  return 0;
}
inline Transform base(int c) { return c == 0 ? pose("base") : pose("base2"); }
inline std::vector<double> angles(int c, const std::vector<std::string>& names) {
  std::vector<double> q;
  for (const std::string& n : names) q.push_back(angle(c, n));
  return q;
}
inline void configure(KinematicModel& m, int c) {
  std::vector<std::string> names = m.get_joint_names();
  m.set_joint_angles(m.get_joint_ids(names), angles(c, names));
  m.set_base_pose(base(c));
}
// ---- answers by definition, from the description alone
inline Transform motion(const JointSharedPtr& j, double q) {
  Transform t;
  if (j->type == Joint::PRISMATIC) { t.position = Vector3(j->axis.x*q, j->axis.y*q, j->axis.z*q); return t; }
  if (j->type == Joint::FIXED) return t;
  double s = std::sin(0.5*q), c = std::cos(0.5*q);
  t.rotation = Rotation(j->axis.x*s, j->axis.y*s, j->axis.z*s, c);
  return t;
}
inline Transform where(const LinkSharedPtr& l, const Transform& b, int c) {
  if (l->parent_joint == nullptr) return b;
  Transform p = where(l->getParent(), b, c);
  if (l->parent_joint->type == Joint::FIXED) return urdf::pose_transform(p, l->parent_joint->parent_to_joint_origin_transform);
  return urdf::pose_transform(p, urdf::pose_transform(l->parent_joint->parent_to_joint_origin_transform, motion(l->parent_joint, angle(c, l->parent_joint->name))));
}
inline bool below(LinkSharedPtr l, const std::string& joint) {
  while (l->parent_joint != nullptr) { if (l->parent_joint->name == joint) return true; l = l->getParent(); }
  return false;
}
inline Transform ask(const KinematicModel& m, const std::string& n) { Transform t; m.get_link_pose(m.get_link_ids({n})[0], t); return t; }
inline std::vector<Transform> all(const KinematicModel& m) {
  std::vector<Transform> v;
  for (size_t k = 0; k < m.get_link_names().size(); k++) { Transform t; m.get_link_pose(k, t); v.push_back(t); }
  return v;
}
}
