// U04: a link element that lacks something required or carries something unreadable is reported.
#include "link.h"
using namespace xml;
bool L_accepted(TiXmlElement* e) { Link l; return parseLink(l, e); }
bool R_accepted(TiXmlElement* e) { return link_ok(e); }
