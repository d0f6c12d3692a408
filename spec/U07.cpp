// U07: numbers in texts.  What a text reads as in the classic locale is a given function of the text.
#include "xml.h"
using namespace urdf;
namespace vf {
bool is_number(const std::string& text);      // the whole text is one number in the classic locale
double value(const std::string& text);        // that number
std::string shown(double);                    // the number in the classic locale with digits enough to read it back
}
double L_number(const char* t) { return strToDouble(t); }
double R_number(const char* t) { std::string s(t); if (!vf::is_number(s)) throw std::runtime_error(""); return vf::value(s); }
// words between spaces
static std::vector<std::string> words(const std::string& t) {
  std::vector<std::string> w; std::string now;
  for (size_t i = 0; i < t.length(); i++) {
    if (t[i] == ' ') { if (!now.empty()) w.push_back(now); now = std::string(); }
    else now += t[i];
  }
  if (!now.empty()) w.push_back(now);
  return w;
}
static double at(const Vector3& v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
double L_vector(const std::string& t, int i) { Vector3 v; v.init(t); return at(v, i); }
double R_vector(const std::string& t, int i) {
  std::vector<std::string> w = words(t);
  for (size_t k = 0; k < w.size(); k++) if (!vf::is_number(w[k])) throw ParseError("");
  if (w.size() != 3) throw ParseError("");
  return vf::value(w[i]);
}
static float at(const Color& c, int i) { return i == 0 ? c.r : i == 1 ? c.g : i == 2 ? c.b : c.a; }
static bool unit_range(double d) { return d >= 0 && d <= 1; }
static void check(const std::vector<std::string>& w) { for (size_t k = 0; k < w.size(); k++) if (!vf::is_number(w[k]) || !unit_range(vf::value(w[k]))) throw ParseError(""); }
bool L_color_ok(const std::string& t) { Color c; return c.init(t); }
bool R_color_ok(const std::string& t) { std::vector<std::string> w = words(t); check(w); return w.size() == 4; }
float L_color(const std::string& t, int i) { Color c; c.init(t); return at(c, i); }
float R_color(const std::string& t, int i) { std::vector<std::string> w = words(t); check(w); return w.size() == 4 ? (float)vf::value(w[i]) : i == 3 ? 1.0f : 0.0f; }
// ---- writing
std::string L_written(double d) { return urdf_export_helpers::values2str(d); }
std::string R_written(double d) { return vf::shown(d); }
std::string L_written_list(int n, const double* d) { return urdf_export_helpers::values2str(n, d); }
std::string R_written_list(int n, const double* d) { std::string t; for (int i = 0; i < n; i++) { if (i) t += " "; t += vf::shown(d[i]); } return t; }
std::string L_written_vector(Vector3 v) { return urdf_export_helpers::values2str(v); }
std::string R_written_vector(Vector3 v) { return vf::shown(v.x) + " " + vf::shown(v.y) + " " + vf::shown(v.z); }
std::string L_written_rotation(Rotation q) { return urdf_export_helpers::values2str(q); }
std::string R_written_rotation(Rotation q) { double r, p, y; q.getRPY(r, p, y); return vf::shown(r) + " " + vf::shown(p) + " " + vf::shown(y); }
std::string L_written_color(Color c) { return urdf_export_helpers::values2str(c); }
std::string R_written_color(Color c) { return vf::shown(c.r) + " " + vf::shown(c.g) + " " + vf::shown(c.b) + " " + vf::shown(c.a); }
