// U02: every attribute of an accepted joint element ends up in its field, absent ones as the documented defaults.
#include "joint.h"
using namespace xml;
static Joint read(TiXmlElement* e) { Joint j; j.axis = Vector3(1, 2, 3); if (!parseJoint(j, e)) throw 1; return j; }
static void check(TiXmlElement* e) { if (!joint_ok(e)) throw 1; }
std::string L_text(TiXmlElement* e, int k) {
  Joint j = read(e);
  return k == 0 ? j.name : k == 1 ? j.parent_link_name : k == 2 ? j.child_link_name : j.mimic ? j.mimic->joint_name : std::string();
}
static std::string link_of(TiXmlElement* e, const char* n) { return child(e, n) && has(child(e, n), "link") ? std::string(child(e, n)->Attribute("link")) : std::string(); }
std::string R_text(TiXmlElement* e, int k) {
  check(e);
  return k == 0 ? std::string(e->Attribute("name")) : k == 1 ? link_of(e, "parent") : k == 2 ? link_of(e, "child") : child(e, "mimic") ? std::string(child(e, "mimic")->Attribute("joint")) : std::string();
}
int L_type(TiXmlElement* e) { return read(e).type; }
int R_type(TiXmlElement* e) { check(e); return type(e); }
double L_origin(TiXmlElement* e, int i) { return of(read(e).parent_to_joint_origin_transform, i); }
double R_origin(TiXmlElement* e, int i) { check(e); return of(pose(e), i); }
// the axis as given, the x axis by default; joints without an axis have none
double L_axis(TiXmlElement* e, int i) { Joint j = read(e); if (j.type == Joint::FLOATING || j.type == Joint::FIXED) return 0; return i == 0 ? j.axis.x : i == 1 ? j.axis.y : j.axis.z; }
double R_axis(TiXmlElement* e, int i) {
  check(e); int t = type(e); if (t == 4 || t == 6) return 0;
  TiXmlElement* a = child(e, "axis");
  if (!a || !has(a, "xyz")) return i == 0 ? 1 : 0;
  Vector3 v = vector(a, "xyz"); return i == 0 ? v.x : i == 1 ? v.y : v.z;
}
// which optional parts there are
bool L_part(TiXmlElement* e, int k) {
  Joint j = read(e);
  return k == 0 ? j.limits != nullptr : k == 1 ? j.safety != nullptr : k == 2 ? j.calibration != nullptr : k == 3 ? j.mimic != nullptr : k == 4 ? j.dynamics != nullptr
       : k == 5 ? j.calibration && j.calibration->rising : j.calibration && j.calibration->falling;
}
bool R_part(TiXmlElement* e, int k) {
  check(e);
  TiXmlElement* c = child(e, "calibration");
  return k == 0 ? child(e, "limit") != nullptr : k == 1 ? child(e, "safety_controller") != nullptr : k == 2 ? c != nullptr : k == 3 ? child(e, "mimic") != nullptr : k == 4 ? child(e, "dynamics") != nullptr
       : k == 5 ? c && has(c, "rising") : c && has(c, "falling");
}
double L_number(TiXmlElement* e, int k) {
  Joint j = read(e);
  if (k < 4) { if (!j.limits) return 0; return k == 0 ? j.limits->lower : k == 1 ? j.limits->upper : k == 2 ? j.limits->effort : j.limits->velocity; }
  if (k < 8) { if (!j.safety) return 0; return k == 4 ? j.safety->soft_lower_limit : k == 5 ? j.safety->soft_upper_limit : k == 6 ? j.safety->k_position : j.safety->k_velocity; }
  if (k < 10) { if (!j.calibration) return 0; DoubleSharedPtr p = k == 8 ? j.calibration->rising : j.calibration->falling; return p ? *p : 0; }
  if (k < 12) { if (!j.mimic) return 0; return k == 10 ? j.mimic->multiplier : j.mimic->offset; }
  if (!j.dynamics) return 0; return k == 12 ? j.dynamics->damping : j.dynamics->friction;
}
static double in(TiXmlElement* e, const char* part, const char* a, double otherwise) { return child(e, part) ? number(child(e, part), a, otherwise) : 0; }
double R_number(TiXmlElement* e, int k) {
  check(e);
  if (k == 0) return in(e, "limit", "lower", 0); if (k == 1) return in(e, "limit", "upper", 0);
  if (k == 2) return in(e, "limit", "effort", 0); if (k == 3) return in(e, "limit", "velocity", 0);
  if (k == 4) return in(e, "safety_controller", "soft_lower_limit", 0); if (k == 5) return in(e, "safety_controller", "soft_upper_limit", 0);
  if (k == 6) return in(e, "safety_controller", "k_position", 0); if (k == 7) return in(e, "safety_controller", "k_velocity", 0);
  if (k == 8) return in(e, "calibration", "rising", 0); if (k == 9) return in(e, "calibration", "falling", 0);
  if (k == 10) return in(e, "mimic", "multiplier", 1); if (k == 11) return in(e, "mimic", "offset", 0);
  if (k == 12) return in(e, "dynamics", "damping", 0); return in(e, "dynamics", "friction", 0);
}
