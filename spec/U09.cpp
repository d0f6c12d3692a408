// U09: materials: what an element says about one, and when there is one.
#include "link.h"
using namespace xml;
bool L_accepted(TiXmlElement* m, bool name_only) { Material k; return parseMaterial(k, m, name_only); }
bool R_accepted(TiXmlElement* m, bool name_only) { return material_ok(m); }
static Material read(TiXmlElement* m) { Material k; if (!parseMaterial(k, m, false)) throw 1; return k; }
float L_shade(TiXmlElement* m, int i) { return of(read(m).color, i); }
float R_shade(TiXmlElement* m, int i) { if (!material_ok(m)) throw 1; return shade(m, i); }
std::string L_texture(TiXmlElement* m) { return read(m).texture_filename; }
std::string R_texture(TiXmlElement* m) { if (!material_ok(m)) throw 1; return texture(m); }
std::string L_name(TiXmlElement* m) { return read(m).name; }
std::string R_name(TiXmlElement* m) { if (!material_ok(m)) throw 1; return m->Attribute("name"); }
// of a visual
static VisualSharedPtr visual(TiXmlElement* e, int n) { Link l; if (!parseLink(l, e)) throw 1; return l.visual_array[n]; }
static TiXmlElement* in(TiXmlElement* e, int n) { if (!link_ok(e)) throw 1; return child(nth(e, "visual", n), "material"); }
std::string L_visual_material_name(TiXmlElement* e, int n) { return visual(e, n)->material_name; }
std::string R_visual_material_name(TiXmlElement* e, int n) { TiXmlElement* m = in(e, n); return m ? std::string(m->Attribute("name")) : std::string(); }
bool L_visual_material(TiXmlElement* e, int n) { return visual(e, n)->material != nullptr; }
bool R_visual_material(TiXmlElement* e, int n) { TiXmlElement* m = in(e, n); return m && material_ok(m); }
float L_visual_shade(TiXmlElement* e, int n, int i) { VisualSharedPtr v = visual(e, n); return v->material ? of(v->material->color, i) : 0; }
float R_visual_shade(TiXmlElement* e, int n, int i) { TiXmlElement* m = in(e, n); return m && material_ok(m) ? shade(m, i) : 0; }
std::string L_visual_texture(TiXmlElement* e, int n) { VisualSharedPtr v = visual(e, n); return v->material ? v->material->name + v->material->texture_filename : std::string(); }
std::string R_visual_texture(TiXmlElement* e, int n) { TiXmlElement* m = in(e, n); return m && material_ok(m) ? std::string(m->Attribute("name")) + texture(m) : std::string(); }
