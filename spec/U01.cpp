// U01: a joint element that lacks something required or carries something unreadable is rejected.
#include "joint.h"
using namespace xml;
bool L_accepted(TiXmlElement* e) { Joint j; return parseJoint(j, e); }
bool R_accepted(TiXmlElement* e) { return joint_ok(e); }
