// What a joint element says.
#pragma once
#include "xml.h"
namespace xml {
inline int type(TiXmlElement* e) {
  std::string t = e->Attribute("type");
  if (t == "revolute") return 1; if (t == "continuous") return 2; if (t == "prismatic") return 3;
  if (t == "floating") return 4; if (t == "planar") return 5; if (t == "fixed") return 6;
  return 0;
}
inline bool limit_ok(TiXmlElement* l) { return numeric_if_given(l, "lower") && numeric_if_given(l, "upper") && numeric_and_given(l, "effort") && numeric_and_given(l, "velocity"); }
inline bool safety_ok(TiXmlElement* l) { return numeric_if_given(l, "soft_lower_limit") && numeric_if_given(l, "soft_upper_limit") && numeric_if_given(l, "k_position") && numeric_and_given(l, "k_velocity"); }
inline bool calibration_ok(TiXmlElement* l) { return numeric_if_given(l, "rising") && numeric_if_given(l, "falling"); }
inline bool mimic_ok(TiXmlElement* l) { return has(l, "joint") && numeric_if_given(l, "multiplier") && numeric_if_given(l, "offset"); }
inline bool dynamics_ok(TiXmlElement* l) { return numeric_if_given(l, "damping") && numeric_if_given(l, "friction") && (has(l, "damping") || has(l, "friction")); }
inline bool part_ok(TiXmlElement* e, const char* n, bool (*ok)(TiXmlElement*)) { return !child(e, n) || ok(child(e, n)); }
inline bool joint_ok(TiXmlElement* e) {
  if (!has(e, "name") || !has(e, "type")) return false;
  int t = type(e);
  if (t == 0 || !pose_ok(e)) return false;
  if (t != 4 && t != 6 && child(e, "axis") && !vectorial_if_given(child(e, "axis"), "xyz")) return false;
  if ((t == 1 || t == 3) && !child(e, "limit")) return false;
  if (child(e, "limit") && !limit_ok(child(e, "limit"))) return false;
  if (child(e, "safety_controller") && !safety_ok(child(e, "safety_controller"))) return false;
  if (child(e, "calibration") && !calibration_ok(child(e, "calibration"))) return false;
  if (child(e, "mimic") && !mimic_ok(child(e, "mimic"))) return false;
  if (child(e, "dynamics") && !dynamics_ok(child(e, "dynamics"))) return false;
  return true;
}
}
