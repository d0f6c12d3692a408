// U03: every attribute of an accepted link element ends up in its field, absent ones as the documented defaults.
#include "link.h"
using namespace xml;
static Link read(TiXmlElement* e) { Link l; if (!parseLink(l, e)) throw 1; return l; }
static void check(TiXmlElement* e) { if (!link_ok(e)) throw 1; }
std::string L_name(TiXmlElement* e) { return read(e).name; }
std::string R_name(TiXmlElement* e) { check(e); return e->Attribute("name"); }
// ---- inertial
bool L_heavy(TiXmlElement* e) { return read(e).inertial != nullptr; }
bool R_heavy(TiXmlElement* e) { check(e); return child(e, "inertial") != nullptr; }
double L_inertial(TiXmlElement* e, int k) {
  Link l = read(e); if (!l.inertial) return 0;
  const Inertial& i = *l.inertial;
  return k < 7 ? of(i.origin, k) : k == 7 ? i.mass : k == 8 ? i.ixx : k == 9 ? i.ixy : k == 10 ? i.ixz : k == 11 ? i.iyy : k == 12 ? i.iyz : i.izz;
}
double R_inertial(TiXmlElement* e, int k) {
  check(e); TiXmlElement* i = child(e, "inertial"); if (!i) return 0;
  if (k < 7) return of(pose(i), k);
  if (k == 7) return number(child(i, "mass"), "value", 0);
  return number(child(i, "inertia"), k == 8 ? "ixx" : k == 9 ? "ixy" : k == 10 ? "ixz" : k == 11 ? "iyy" : k == 12 ? "iyz" : "izz", 0);
}
// ---- visuals (w = 0) and collisions (w = 1), all of them and in order
static const char* what(int w) { return w == 0 ? "visual" : "collision"; }
std::vector<size_t> L_counts(TiXmlElement* e) { Link l = read(e); return {l.visual_array.size(), l.collision_array.size()}; }
std::vector<size_t> R_counts(TiXmlElement* e) {
  check(e); size_t n = 0, m = 0;
  for (TiXmlElement* v = child(e, "visual"); v; v = v->NextSiblingElement("visual")) n++;
  for (TiXmlElement* v = child(e, "collision"); v; v = v->NextSiblingElement("collision")) m++;
  return {n, m};
}
// the first is also reachable directly
bool P_first(TiXmlElement* e) {
  Link l; if (!parseLink(l, e)) return true;
  return (l.visual_array.empty() ? l.visual == nullptr : l.visual == l.visual_array[0]) && (l.collision_array.empty() ? l.collision == nullptr : l.collision == l.collision_array[0]);
}
double L_origin(TiXmlElement* e, int w, int n, int i) { Link l = read(e); return of(w == 0 ? l.visual_array[n]->origin : l.collision_array[n]->origin, i); }
double R_origin(TiXmlElement* e, int w, int n, int i) { check(e); return of(pose(nth(e, what(w), n)), i); }
std::string L_part_name(TiXmlElement* e, int w, int n) { Link l = read(e); return w == 0 ? l.visual_array[n]->name : l.collision_array[n]->name; }
std::string R_part_name(TiXmlElement* e, int w, int n) { check(e); TiXmlElement* v = nth(e, what(w), n); return has(v, "name") ? std::string(v->Attribute("name")) : std::string(); }
static GeometrySharedPtr geometry(TiXmlElement* e, int w, int n) { Link l = read(e); return w == 0 ? l.visual_array[n]->geometry : l.collision_array[n]->geometry; }
int L_shape(TiXmlElement* e, int w, int n) { return geometry(e, w, n)->type; }
int R_shape(TiXmlElement* e, int w, int n) { check(e); return xml::shape(nth(e, what(w), n)); }
double L_size(TiXmlElement* e, int w, int n, int i) {
  GeometrySharedPtr g = geometry(e, w, n);
  if (g->type == Geometry::SPHERE) return i == 0 ? std::static_pointer_cast<Sphere>(g)->radius : 0;
  if (g->type == Geometry::CYLINDER) { CylinderSharedPtr c = std::static_pointer_cast<Cylinder>(g); return i == 0 ? c->radius : i == 1 ? c->length : 0; }
  Vector3 v; if (g->type == Geometry::BOX) v = std::static_pointer_cast<Box>(g)->dim; else v = std::static_pointer_cast<Mesh>(g)->scale;
  return i == 0 ? v.x : i == 1 ? v.y : v.z;
}
double R_size(TiXmlElement* e, int w, int n, int i) {
  check(e); int k = xml::shape(nth(e, what(w), n)); TiXmlElement* s = child(nth(e, what(w), n), "geometry")->FirstChildElement();
  if (k == 0) return i == 0 ? number(s, "radius", 0) : 0;
  if (k == 2) return i == 0 ? number(s, "radius", 0) : i == 1 ? number(s, "length", 0) : 0;
  if (k == 3 && !has(s, "scale")) return 1;
  Vector3 v = vector(s, k == 1 ? "size" : "scale"); return i == 0 ? v.x : i == 1 ? v.y : v.z;
}
std::string L_file(TiXmlElement* e, int w, int n) { GeometrySharedPtr g = geometry(e, w, n); if (g->type != Geometry::MESH) return ""; return std::static_pointer_cast<Mesh>(g)->filename; }
std::string R_file(TiXmlElement* e, int w, int n) { check(e); if (xml::shape(nth(e, what(w), n)) != 3) return ""; return child(nth(e, what(w), n), "geometry")->FirstChildElement()->Attribute("filename"); }
