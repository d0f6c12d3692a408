// U09 over whole descriptions: robot-level materials, visuals naming them, inline definitions.
#include "link.h"
using namespace xml;
namespace vf { TiXmlElement* robot(); bool malformed(); }
static ModelInterfaceSharedPtr model() { ModelInterfaceSharedPtr m = parseURDF(vf::any<std::string>("text")); if (!m) throw 1; return m; }
static TiXmlElement* robot() { if (vf::malformed()) throw 1; return vf::robot(); }
static std::string text(TiXmlElement* e, const char* a) { return has(e, a) ? std::string(e->Attribute(a)) : std::string(); }
static std::string named(TiXmlElement* v) { TiXmlElement* m = child(v, "material"); return m ? text(m, "name") : std::string(); }
static TiXmlElement* link_at(TiXmlElement* r, int l) { TiXmlElement* e = child(r, "link"); for (int i = 0; i < l; i++) e = e->NextSiblingElement("link"); return e; }
static TiXmlElement* visual_at(TiXmlElement* r, int l, int v) { TiXmlElement* e = child(link_at(r, l), "visual"); for (int i = 0; i < v; i++) e = e->NextSiblingElement("visual"); return e; }
// where the material called n is defined for visual v: at robot level, else by the first visual so far that defines it
static TiXmlElement* global(TiXmlElement* r, const std::string& n) {
  for (TiXmlElement* m = child(r, "material"); m; m = m->NextSiblingElement("material")) if (text(m, "name") == n) return m;
  return nullptr;
}
static TiXmlElement* shared(TiXmlElement* r, const std::string& n) {   // the definition available under the name in the end
  if (TiXmlElement* m = global(r, n)) return m;
  for (TiXmlElement* l = child(r, "link"); l; l = l->NextSiblingElement("link"))
    for (TiXmlElement* v = child(l, "visual"); v; v = v->NextSiblingElement("visual"))
      if (named(v) == n && material_ok(child(v, "material"))) return child(v, "material");
  return nullptr;
}
static TiXmlElement* shared_before(TiXmlElement* r, const std::string& n, TiXmlElement* upto) {
  if (TiXmlElement* m = global(r, n)) return m;
  for (TiXmlElement* l = child(r, "link"); l; l = l->NextSiblingElement("link"))
    for (TiXmlElement* v = child(l, "visual"); v; v = v->NextSiblingElement("visual")) {
      if (v == upto) return nullptr;
      if (named(v) == n && material_ok(child(v, "material"))) return child(v, "material");
    }
  return nullptr;
}
static TiXmlElement* resolved(TiXmlElement* r, int l, int k) {
  TiXmlElement* v = visual_at(r, l, k);
  if (named(v).empty()) return nullptr;
  if (TiXmlElement* m = shared_before(r, named(v), v)) return m;
  return material_ok(child(v, "material")) ? child(v, "material") : nullptr;
}
static VisualSharedPtr visual(int l, int k) { TiXmlElement* e = link_at(vf::robot(), l); LinkSharedPtr p; model()->getLink(text(e, "name"), p); return p->visual_array[k]; }
bool L_has(int l, int k) { return visual(l, k)->material != nullptr; }
bool R_has(int l, int k) { return resolved(robot(), l, k) != nullptr; }
float L_color(int l, int k, int i) { VisualSharedPtr v = visual(l, k); return v->material ? of(v->material->color, i) : -1; }
float R_color(int l, int k, int i) { TiXmlElement* m = resolved(robot(), l, k); return m ? shade(m, i) : -1; }
std::string L_name_of(int l, int k) { VisualSharedPtr v = visual(l, k); return v->material ? v->material->name + "/" + v->material->texture_filename : std::string("none"); }
std::string R_name_of(int l, int k) { TiXmlElement* m = resolved(robot(), l, k); return m ? text(m, "name") + "/" + texture(m) : std::string("none"); }
// the material later visuals and the model itself see under a name
static MaterialSharedPtr material(int n) { return model()->getMaterial(n == 0 ? "x" : n == 1 ? "y" : "z"); }
static TiXmlElement* defined(int n) { return shared(robot(), n == 0 ? "x" : n == 1 ? "y" : "z"); }
bool L_available(int n) { return material(n) != nullptr; }
bool R_available(int n) { return defined(n) != nullptr; }
float L_available_color(int n, int i) { MaterialSharedPtr m = material(n); return m ? of(m->color, i) : -1; }
float R_available_color(int n, int i) { TiXmlElement* m = defined(n); return m ? shade(m, i) : -1; }
// the link's own visual is its first one
bool P_first_visual(int l) {
  ModelInterfaceSharedPtr m = parseURDF(vf::any<std::string>("text"));
  if (!m) return true;
  LinkSharedPtr p; m->getLink(text(link_at(vf::robot(), l), "name"), p);
  return p->visual == p->visual_array[0];
}
