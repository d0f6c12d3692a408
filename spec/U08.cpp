// U08: a model that is exported and read back is the same model.
#include "link.h"
using namespace xml;
namespace vf { TiXmlElement* robot(); std::string printed(TiXmlDocument*); }
namespace urdf { TiXmlDocument* exportURDF(ModelInterfaceSharedPtr&); TiXmlDocument* exportURDF(const ModelInterface&); }
static ModelInterfaceSharedPtr once() { ModelInterfaceSharedPtr m = parseURDF(vf::any<std::string>("text")); vf::assume(m != nullptr); return m; }
static ModelInterfaceSharedPtr again() {
  ModelInterfaceSharedPtr m = once();
  ModelInterfaceSharedPtr n = parseURDF(vf::printed(exportURDF(*m)));
  if (!n) throw 1;
  return n;
}
static ModelInterfaceSharedPtr shared() {
  ModelInterfaceSharedPtr m = once();
  ModelInterfaceSharedPtr n = parseURDF(vf::printed(exportURDF(m)));
  if (!n) throw 1;
  return n;
}
// a rotation is written as roll, pitch and yaw; what those describe is decided by K03
static Rotation read_back(Rotation q) { double r, p, y; q.getRPY(r, p, y); Rotation k; k.setFromRPY(r, p, y); return k; }
static void put(std::vector<double>& v, Vector3 p, Rotation q) { v.push_back(p.x); v.push_back(p.y); v.push_back(p.z); v.push_back(q.x); v.push_back(q.y); v.push_back(q.z); v.push_back(q.w); }
static void put(std::vector<double>& v, const Pose& p, bool r) { put(v, p.position, r ? read_back(p.rotation) : p.rotation); }

static std::vector<size_t> size(ModelInterfaceSharedPtr m) { return {m->links_.size(), m->joints_.size(), m->materials_.size()}; }
std::vector<size_t> L_size() { return size(again()); }
std::vector<size_t> R_size() { return size(once()); }
std::vector<size_t> L_shared() { return size(shared()); }
std::vector<size_t> R_shared() { return size(once()); }
static std::string names(ModelInterfaceSharedPtr m, int k) { return k == 0 ? m->name_ : m->root_link_->name; }
std::string L_names(int k) { return names(again(), k); }
std::string R_names(int k) { return names(once(), k); }

// ---- joints
static JointSharedPtr joint(ModelInterfaceSharedPtr m, std::string n) { JointSharedPtr j = m->joints_.find(n)->second; return j; }
static std::string jtext(JointSharedPtr j, int k) { return k == 0 ? j->name : k == 1 ? j->parent_link_name : k == 2 ? j->child_link_name : j->mimic ? j->mimic->joint_name : std::string(); }
std::string L_jtext(std::string n, int k) { return jtext(joint(again(), n), k); }
std::string R_jtext(std::string n, int k) { return jtext(joint(once(), n), k); }
static std::vector<int> jparts(JointSharedPtr j) {
  return {j->type, j->limits != nullptr, j->safety != nullptr, j->calibration != nullptr, j->mimic != nullptr, j->dynamics != nullptr,
          j->calibration && j->calibration->rising, j->calibration && j->calibration->falling};
}
std::vector<int> L_jparts(std::string n) { return jparts(joint(again(), n)); }
std::vector<int> R_jparts(std::string n) { return jparts(joint(once(), n)); }
static std::vector<double> place(JointSharedPtr j, bool r) {
  std::vector<double> v; put(v, j->parent_to_joint_origin_transform, r);
  if (j->type != Joint::FLOATING && j->type != Joint::FIXED) { v.push_back(j->axis.x); v.push_back(j->axis.y); v.push_back(j->axis.z); }
  return v;
}
std::vector<double> L_place(std::string n) { return place(joint(again(), n), false); }
std::vector<double> R_place(std::string n) { return place(joint(once(), n), true); }
static std::vector<double> jnumbers(JointSharedPtr j) {
  std::vector<double> v;
  if (j->limits) { v.push_back(j->limits->lower); v.push_back(j->limits->upper); v.push_back(j->limits->effort); v.push_back(j->limits->velocity); }
  if (j->safety) { v.push_back(j->safety->soft_lower_limit); v.push_back(j->safety->soft_upper_limit); v.push_back(j->safety->k_position); v.push_back(j->safety->k_velocity); }
  if (j->calibration && j->calibration->rising) v.push_back(*j->calibration->rising);
  if (j->calibration && j->calibration->falling) v.push_back(*j->calibration->falling);
  if (j->mimic) { v.push_back(j->mimic->multiplier); v.push_back(j->mimic->offset); }
  if (j->dynamics) { v.push_back(j->dynamics->damping); v.push_back(j->dynamics->friction); }
  return v;
}
std::vector<double> L_jnumbers(std::string n) { return jnumbers(joint(again(), n)); }
std::vector<double> R_jnumbers(std::string n) { return jnumbers(joint(once(), n)); }

// ---- links
static LinkSharedPtr link(ModelInterfaceSharedPtr m, std::string n) { LinkSharedPtr l = m->links_.find(n)->second; return l; }
static std::vector<double> body(LinkSharedPtr l, bool r) {
  std::vector<double> v;
  if (!l->inertial) return v;
  const Inertial& i = *l->inertial;
  put(v, i.origin, r);
  v.push_back(i.mass); v.push_back(i.ixx); v.push_back(i.ixy); v.push_back(i.ixz); v.push_back(i.iyy); v.push_back(i.iyz); v.push_back(i.izz);
  return v;
}
std::vector<double> L_body(std::string n) { return body(link(again(), n), false); }
std::vector<double> R_body(std::string n) { return body(link(once(), n), true); }
static std::vector<size_t> counts(LinkSharedPtr l) { return {l->visual_array.size(), l->collision_array.size()}; }
std::vector<size_t> L_counts(std::string n) { return counts(link(again(), n)); }
std::vector<size_t> R_counts(std::string n) { return counts(link(once(), n)); }
static Pose origin(LinkSharedPtr l, int w, int i) { return w == 0 ? l->visual_array[i]->origin : l->collision_array[i]->origin; }
static GeometrySharedPtr geometry(LinkSharedPtr l, int w, int i) { return w == 0 ? l->visual_array[i]->geometry : l->collision_array[i]->geometry; }
static std::vector<double> form(LinkSharedPtr l, int w, int i, bool r) {
  GeometrySharedPtr g = geometry(l, w, i);
  std::vector<double> v; v.push_back(g->type);
  put(v, origin(l, w, i), r);
  if (g->type == Geometry::SPHERE) { v.push_back(std::static_pointer_cast<Sphere>(g)->radius); return v; }
  if (g->type == Geometry::CYLINDER) { CylinderSharedPtr c = std::static_pointer_cast<Cylinder>(g); v.push_back(c->radius); v.push_back(c->length); return v; }
  Vector3 s; if (g->type == Geometry::BOX) s = std::static_pointer_cast<Box>(g)->dim; else s = std::static_pointer_cast<Mesh>(g)->scale;
  v.push_back(s.x); v.push_back(s.y); v.push_back(s.z);
  return v;
}
std::vector<double> L_form(std::string n, int w, int i) { return form(link(again(), n), w, i, false); }
std::vector<double> R_form(std::string n, int w, int i) { return form(link(once(), n), w, i, true); }
static std::string look(const Material& m) { return m.name + "/" + m.texture_filename; }
static std::string part(LinkSharedPtr l, int w, int i, int k) {
  if (k == 0) return w == 0 ? l->visual_array[i]->name : l->collision_array[i]->name;
  if (k == 1) { GeometrySharedPtr g = geometry(l, w, i); if (g->type != Geometry::MESH) return ""; return std::static_pointer_cast<Mesh>(g)->filename; }
  if (w == 1) return "";
  if (k == 2) return l->visual_array[i]->material_name;
  return l->visual_array[i]->material ? look(*l->visual_array[i]->material) : std::string("none");
}
std::string L_part(std::string n, int w, int i, int k) { return part(link(again(), n), w, i, k); }
std::string R_part(std::string n, int w, int i, int k) { return part(link(once(), n), w, i, k); }
static std::vector<float> shade_of(MaterialSharedPtr m) { std::vector<float> v; if (m) { v.push_back(m->color.r); v.push_back(m->color.g); v.push_back(m->color.b); v.push_back(m->color.a); } return v; }
std::vector<float> L_shade(std::string n, int i) { return shade_of(link(again(), n)->visual_array[i]->material); }
std::vector<float> R_shade(std::string n, int i) { return shade_of(link(once(), n)->visual_array[i]->material); }

// ---- robot-level materials
std::string L_look(std::string n) { return look(*again()->getMaterial(n)); }
std::string R_look(std::string n) { return look(*once()->getMaterial(n)); }
std::vector<float> L_tone(std::string n) { return shade_of(again()->getMaterial(n)); }
std::vector<float> R_tone(std::string n) { return shade_of(once()->getMaterial(n)); }
