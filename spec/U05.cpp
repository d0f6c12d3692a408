// U05, U06: descriptions with enumerated link and joint names; everything else about them is unknown.
#include "joint.h"
#include "link.h"
using namespace xml;
namespace vf { TiXmlElement* robot(); bool malformed(); }   // the parsed document: its root element, and whether the text is no XML
static ModelInterfaceSharedPtr parse() { return parseURDF(vf::any<std::string>("text")); }
static std::string text(TiXmlElement* e, const char* a) { return has(e, a) ? std::string(e->Attribute(a)) : std::string(); }
static std::string end(TiXmlElement* j, const char* which) { TiXmlElement* l = child(j, which); return l ? text(l, "link") : std::string(); }
static int many(TiXmlElement* r, const char* tag, const std::string& name) {
  int k = 0;
  for (TiXmlElement* e = r->FirstChildElement(tag); e; e = e->NextSiblingElement(tag)) if (text(e, "name") == name) k++;
  return k;
}
static bool unique(TiXmlElement* r, const char* tag) {
  for (TiXmlElement* e = r->FirstChildElement(tag); e; e = e->NextSiblingElement(tag)) if (many(r, tag, text(e, "name")) > 1) return false;
  return true;
}
static TiXmlElement* above(TiXmlElement* r, const std::string& l) {   // the joint whose child is l
  for (TiXmlElement* j = r->FirstChildElement("joint"); j; j = j->NextSiblingElement("joint")) if (end(j, "child") == l) return j;
  return nullptr;
}
static bool tree(TiXmlElement* r) {
  int links = 0, joints = 0, roots = 0;
  for (TiXmlElement* j = r->FirstChildElement("joint"); j; j = j->NextSiblingElement("joint")) {
    joints++;
    if (end(j, "parent").empty() || end(j, "child").empty() || !many(r, "link", end(j, "parent")) || !many(r, "link", end(j, "child"))) return false;
    for (TiXmlElement* k = j->NextSiblingElement("joint"); k; k = k->NextSiblingElement("joint")) if (end(k, "child") == end(j, "child")) return false;
  }
  for (TiXmlElement* l = r->FirstChildElement("link"); l; l = l->NextSiblingElement("link")) links++;
  for (TiXmlElement* l = r->FirstChildElement("link"); l; l = l->NextSiblingElement("link")) {
    std::string at = text(l, "name");
    if (!above(r, at)) roots++;
    int steps = 0;
    for (TiXmlElement* j = above(r, at); j; j = above(r, at)) { at = end(j, "parent"); if (++steps > links) return false; }
  }
  return roots == 1;
}
static bool valid(TiXmlElement* r) {
  if (!r || r->ValueStr() != "robot" || !has(r, "name")) return false;
  if (has(r, "version") && text(r, "version") != "1.0") return false;
  if (!unique(r, "material") || !unique(r, "link") || !unique(r, "joint") || !r->FirstChildElement("link")) return false;
  for (TiXmlElement* j = r->FirstChildElement("joint"); j; j = j->NextSiblingElement("joint")) if (!joint_ok(j)) return false;
  return tree(r);
}
bool L_valid() { return parse() != nullptr; }
bool R_valid() { return !vf::malformed() && valid(vf::robot()); }
// U01: the same, of descriptions with an arbitrary joint
bool L_model() { return parse() != nullptr; }
bool R_model() { return !vf::malformed() && valid(vf::robot()); }
// ---- U06: the relations of an accepted model
static ModelInterfaceSharedPtr model() { ModelInterfaceSharedPtr m = parse(); if (!m) throw 1; return m; }
static TiXmlElement* given() { if (vf::malformed() || !valid(vf::robot())) throw 1; return vf::robot(); }
static TiXmlElement* of(TiXmlElement* r, const char* tag, int k) {
  TiXmlElement* e = r->FirstChildElement(tag);
  for (int i = 0; i < k; i++) e = e->NextSiblingElement(tag);
  return e;
}
static LinkSharedPtr link(const ModelInterfaceSharedPtr& m, int k) { LinkSharedPtr l; m->getLink(text(of(vf::robot(), "link", k), "name"), l); return l; }
std::string L_root() { return model()->root_link_->name; }
std::string R_root() {
  TiXmlElement* r = given();
  for (TiXmlElement* l = r->FirstChildElement("link"); l; l = l->NextSiblingElement("link")) if (!above(r, text(l, "name"))) return text(l, "name");
  throw 2;
}
std::string L_parent(int k) { LinkSharedPtr l = link(model(), k); return l->getParent() ? l->getParent()->name : std::string("-"); }
std::string R_parent(int k) { TiXmlElement* r = given(); TiXmlElement* j = above(r, text(of(r, "link", k), "name")); return j ? end(j, "parent") : std::string("-"); }
std::string L_parent_joint(int k) { LinkSharedPtr l = link(model(), k); return l->parent_joint ? l->parent_joint->name : std::string("-"); }
std::string R_parent_joint(int k) { TiXmlElement* r = given(); TiXmlElement* j = above(r, text(of(r, "link", k), "name")); return j ? text(j, "name") : std::string("-"); }
// the pointers are those of the model's own links and joints, and each appears once
bool P_children(int k) {
  ModelInterfaceSharedPtr m = parse();
  if (!m) return true;
  TiXmlElement* r = vf::robot(); LinkSharedPtr l = link(m, k); int n = 0;
  for (TiXmlElement* j = r->FirstChildElement("joint"); j; j = j->NextSiblingElement("joint")) {
    if (end(j, "parent") != l->name) continue;
    n++;
    int a = 0, b = 0;
    for (size_t i = 0; i < l->child_joints.size(); i++) if (l->child_joints[i] == m->joints_[text(j, "name")]) a++;
    for (size_t i = 0; i < l->child_links.size(); i++) if (l->child_links[i] == m->links_[end(j, "child")]) b++;
    if (a != 1 || b != 1) return false;
  }
  return (int)l->child_joints.size() == n && (int)l->child_links.size() == n;
}
bool P_pointers(int k) {
  ModelInterfaceSharedPtr m = parse();
  if (!m) return true;
  LinkSharedPtr l = link(m, k); TiXmlElement* j = above(vf::robot(), l->name);
  if (!j) return m->root_link_ == l && !l->getParent() && !l->parent_joint;
  return l->getParent() == m->links_[end(j, "parent")] && l->parent_joint == m->joints_[text(j, "name")] && m->root_link_ != l;
}
int L_size(int k) { ModelInterfaceSharedPtr m = model(); return k == 0 ? (int)m->links_.size() : k == 1 ? (int)m->joints_.size() : (int)m->materials_.size(); }
int R_size(int k) { TiXmlElement* r = given(); const char* t = k == 0 ? "link" : k == 1 ? "joint" : "material"; int n = 0;
  for (TiXmlElement* e = r->FirstChildElement(t); e; e = e->NextSiblingElement(t)) n++; return n; }
