// What a link element says.
#pragma once
#include "xml.h"
namespace xml {
inline bool inertial_ok(TiXmlElement* i) {
  TiXmlElement* m = child(i, "mass"); TiXmlElement* t = child(i, "inertia");
  return pose_ok(i) && m && numeric_and_given(m, "value") && t && numeric_and_given(t, "ixx") && numeric_and_given(t, "ixy") && numeric_and_given(t, "ixz")
      && numeric_and_given(t, "iyy") && numeric_and_given(t, "iyz") && numeric_and_given(t, "izz");
}
inline int shape(TiXmlElement* e) {              // of a visual or collision: the first element inside its geometry
  TiXmlElement* g = child(e, "geometry");
  if (!g || !g->FirstChildElement()) return -1;
  std::string t = g->FirstChildElement()->ValueStr();
  return t == "sphere" ? 0 : t == "box" ? 1 : t == "cylinder" ? 2 : t == "mesh" ? 3 : -1;
}
inline bool geometry_ok(TiXmlElement* e) {
  int k = shape(e);
  if (k < 0) return false;
  TiXmlElement* s = child(e, "geometry")->FirstChildElement();
  if (k == 0) return numeric_and_given(s, "radius");
  if (k == 1) return has(s, "size") && vectorial(s, "size");
  if (k == 2) return numeric_and_given(s, "length") && numeric_and_given(s, "radius");
  return has(s, "filename") && vectorial_if_given(s, "scale");
}
inline bool visual_ok(TiXmlElement* v) { return pose_ok(v) && geometry_ok(v) && (!child(v, "material") || has(child(v, "material"), "name")); }
inline bool collision_ok(TiXmlElement* v) { return pose_ok(v) && geometry_ok(v); }
inline bool link_ok(TiXmlElement* e) {
  if (!has(e, "name")) return false;
  if (child(e, "inertial") && !inertial_ok(child(e, "inertial"))) return false;
  for (TiXmlElement* v = child(e, "visual"); v; v = v->NextSiblingElement("visual")) if (!visual_ok(v)) return false;
  for (TiXmlElement* v = child(e, "collision"); v; v = v->NextSiblingElement("collision")) if (!collision_ok(v)) return false;
  return true;
}
inline TiXmlElement* nth(TiXmlElement* e, const char* n, int k) {
  TiXmlElement* v = child(e, n);
  for (int i = 0; i < k; i++) v = v->NextSiblingElement(n);
  return v;
}
// ---- materials
inline bool colored(TiXmlElement* m) {
  TiXmlElement* c = child(m, "color");
  if (!c || !has(c, "rgba")) return false;
  try { Color k; return k.init(c->Attribute("rgba")); } catch (ParseError&) { return false; }
}
inline bool textured(TiXmlElement* m) { return child(m, "texture") && has(child(m, "texture"), "filename"); }
inline bool material_ok(TiXmlElement* m) { return has(m, "name") && (colored(m) || textured(m)); }
inline float of(const Color& c, int i) { return i == 0 ? c.r : i == 1 ? c.g : i == 2 ? c.b : c.a; }
inline float shade(TiXmlElement* m, int i) {
  Color c; if (colored(m)) c.init(child(m, "color")->Attribute("rgba"));
  else return i == 3 ? 1 : 0;
  return of(c, i);
}
inline std::string texture(TiXmlElement* m) { return textured(m) ? std::string(child(m, "texture")->Attribute("filename")) : std::string(); }
}
