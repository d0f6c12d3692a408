// Reading a description: what an element says, through the document interface alone.
#pragma once
#include "vf.h"
#include "urdf_parser/urdf_parser.h"
#include <tinyxml.h>
#include <cstring>
namespace urdf {
bool parseMaterial(Material&, TiXmlElement*, bool);
bool parseLink(Link&, TiXmlElement*);
bool parseJoint(Joint&, TiXmlElement*);
bool parseInertial(Inertial&, TiXmlElement*);
GeometrySharedPtr parseGeometry(TiXmlElement*);
}
namespace xml {
using namespace urdf;
inline bool has(TiXmlElement* e, const char* a) { return e->Attribute(a) != nullptr; }
inline bool numeric(TiXmlElement* e, const char* a) {
  try { strToDouble(e->Attribute(a)); } catch (std::runtime_error&) { return false; }
  return true;
}
inline bool numeric_if_given(TiXmlElement* e, const char* a) { return !has(e, a) || numeric(e, a); }
inline bool numeric_and_given(TiXmlElement* e, const char* a) { return has(e, a) && numeric(e, a); }
inline double number(TiXmlElement* e, const char* a, double otherwise) { return has(e, a) ? strToDouble(e->Attribute(a)) : otherwise; }
inline bool vectorial(TiXmlElement* e, const char* a) {
  try { Vector3 v; v.init(e->Attribute(a)); } catch (ParseError&) { return false; }
  return true;
}
inline bool vectorial_if_given(TiXmlElement* e, const char* a) { return !has(e, a) || vectorial(e, a); }
inline Vector3 vector(TiXmlElement* e, const char* a) { Vector3 v; v.init(e->Attribute(a)); return v; }
inline TiXmlElement* child(TiXmlElement* e, const char* n) { return e->FirstChildElement(n); }
// origin
inline bool pose_ok(TiXmlElement* e) {
  TiXmlElement* o = child(e, "origin");
  return !o || (vectorial_if_given(o, "xyz") && vectorial_if_given(o, "rpy"));
}
inline Pose pose(TiXmlElement* e) {
  Pose p; TiXmlElement* o = child(e, "origin");
  if (o && has(o, "xyz")) p.position = vector(o, "xyz");
  if (o && has(o, "rpy")) { Vector3 r = vector(o, "rpy"); p.rotation.setFromRPY(r.x, r.y, r.z); }
  return p;
}
inline double of(const Pose& p, int i) {
  return i == 0 ? p.position.x : i == 1 ? p.position.y : i == 2 ? p.position.z : i == 3 ? p.rotation.x : i == 4 ? p.rotation.y : i == 5 ? p.rotation.z : p.rotation.w;
}
}
