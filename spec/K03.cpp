// K03: roll-pitch-yaw and quaternion conversions.
#include "urdf_model/pose.h"
#include "vf.h"
using urdf::Rotation; using urdf::Vector3;
struct M3 { double a00,a01,a02,a10,a11,a12,a20,a21,a22; };

static M3 of_quat(const Rotation& q) {
  M3 m;
  double x=q.x, y=q.y, z=q.z, w=q.w;
  m.a00 = w*w+x*x-y*y-z*z; m.a01 = 2*(x*y-w*z); m.a02 = 2*(x*z+w*y);
  m.a10 = 2*(x*y+w*z); m.a11 = w*w-x*x+y*y-z*z; m.a12 = 2*(y*z-w*x);
  m.a20 = 2*(x*z-w*y); m.a21 = 2*(y*z+w*x); m.a22 = w*w-x*x-y*y+z*z;
  return m;
}
// Rz(yaw) Ry(pitch) Rx(roll)
static M3 of_cs(double cr, double sr, double cp, double sp, double cy, double sy) {
  M3 m;
  m.a00 = cy*cp; m.a01 = cy*sp*sr - sy*cr; m.a02 = cy*sp*cr + sy*sr;
  m.a10 = sy*cp; m.a11 = sy*sp*sr + cy*cr; m.a12 = sy*sp*cr - cy*sr;
  m.a20 = -sp;   m.a21 = cp*sr;            m.a22 = cp*cr;
  return m;
}
static M3 of_rpy(double r, double p, double y) {
  return of_cs(std::cos(r), std::sin(r), std::cos(p), std::sin(p), std::cos(y), std::sin(y));
}
static M3 of_half(double r, double p, double y) {
  // full-angle sines and cosines written with the half angles
  double a=std::sin(r/2), b=std::cos(r/2), c=std::sin(p/2), d=std::cos(p/2), e=std::sin(y/2), f=std::cos(y/2);
  return of_cs(b*b-a*a, 2*a*b, d*d-c*c, 2*c*d, f*f-e*e, 2*e*f);
}
static double norm2(const Rotation& q) { return q.x*q.x + q.y*q.y + q.z*q.z + q.w*q.w; }

M3 L_set_rpy(double r, double p, double y) { Rotation q; q.setFromRPY(r, p, y); return of_quat(q); }
M3 R_set_rpy(double r, double p, double y) { return of_half(r, p, y); }
double L_set_rpy_unit(double r, double p, double y) { Rotation q; q.setFromRPY(r, p, y); return norm2(q); }
double R_set_rpy_unit(double r, double p, double y) { return 1; }

// away from gimbal lock: exact
M3 L_get_rpy(const Rotation& q) {
  vf::unit(q);
  double s = 2*(q.w*q.y - q.x*q.z); vf::assume(s < 0.9999); vf::assume(s > -0.9999);
  double r, p, y; q.getRPY(r, p, y); return of_rpy(r, p, y);
}
M3 R_get_rpy(const Rotation& q) { vf::unit(q); return of_quat(q); }
M3 L_get_rpy_vec(const Rotation& q) {
  vf::unit(q);
  double s = 2*(q.w*q.y - q.x*q.z); vf::assume(s < 0.9999); vf::assume(s > -0.9999);
  Vector3 v = q.getRPY(); return of_rpy(v.x, v.y, v.z);
}
M3 R_get_rpy_vec(const Rotation& q) { vf::unit(q); return of_quat(q); }
// exactly at pitch +90 / -90 degrees: every such unit quaternion is (-+c, d, c, +-d)/sqrt(2) with c^2+d^2=1
struct U2 { double x, w; };
static Rotation at_gimbal(const U2& u, double sgn) {
  double h = std::sqrt(0.5); return Rotation(-sgn*h*u.x, h*u.w*sgn, h*u.x, h*u.w);
}
#define GIMBAL(NAME, SGN) \
M3 L_gimbal_##NAME(const U2& u) { vf::unit(u); double r,p,y; at_gimbal(u, SGN).getRPY(r,p,y); return of_rpy(r,p,y); } \
M3 R_gimbal_##NAME(const U2& u) { vf::unit(u); return of_quat(at_gimbal(u, SGN)); } \
M3 L_gimbal_vec_##NAME(const U2& u) { vf::unit(u); Vector3 v = at_gimbal(u, SGN).getRPY(); return of_rpy(v.x,v.y,v.z); } \
M3 R_gimbal_vec_##NAME(const U2& u) { vf::unit(u); return of_quat(at_gimbal(u, SGN)); }
GIMBAL(up, 1)
GIMBAL(down, -1)
// around gimbal lock the angles describe the rotation up to the width of the switching zone.
// Proof: equality with the reference formula; refutation: directed interpretation, tolerance 0.02.
static Vector3 ref_rpy(const Rotation& q) {
  double s = 2*(q.w*q.y - q.x*q.z);
  if (s >= 0.99999) return Vector3(0, 1.57079632679489661923, 2*std::atan2(-q.x, q.y));
  if (s <= -0.99999) return Vector3(0, -1.57079632679489661923, 2*std::atan2(q.x, -q.y));
  return Vector3(std::atan2(2*(q.w*q.x + q.y*q.z), q.w*q.w - q.x*q.x - q.y*q.y + q.z*q.z), std::asin(s),
                 std::atan2(2*(q.w*q.z + q.x*q.y), q.w*q.w + q.x*q.x - q.y*q.y - q.z*q.z));
}
M3 L_near_gimbal(const Rotation& q) { vf::unit(q); double r,p,y; q.getRPY(r,p,y); return of_rpy(r,p,y); }
M3 R_near_gimbal(const Rotation& q) { vf::unit(q); return of_quat(q); }
Vector3 A_near_gimbal(const Rotation& q) { vf::unit(q); double r,p,y; q.getRPY(r,p,y); return Vector3(r,p,y); }
Vector3 B_near_gimbal(const Rotation& q) { vf::unit(q); return ref_rpy(q); }
M3 L_near_gimbal_vec(const Rotation& q) { vf::unit(q); Vector3 v = q.getRPY(); return of_rpy(v.x,v.y,v.z); }
M3 R_near_gimbal_vec(const Rotation& q) { vf::unit(q); return of_quat(q); }
Vector3 A_near_gimbal_vec(const Rotation& q) { vf::unit(q); return q.getRPY(); }
Vector3 B_near_gimbal_vec(const Rotation& q) { vf::unit(q); return ref_rpy(q); }
// reading both ways gives the same angles
Vector3 L_two_readings(const Rotation& q) { vf::unit(q); double r,p,y; q.getRPY(r,p,y); return Vector3(r,p,y); }
Vector3 R_two_readings(const Rotation& q) { vf::unit(q); return q.getRPY(); }

Rotation L_set_quat(double x, double y, double z, double w) { Rotation q; q.setFromQuaternion(x,y,z,w); return q; }
Rotation R_set_quat(double x, double y, double z, double w) {
  double n = x*x + y*y + z*z + w*w;
  if (n == 0) return Rotation(0,0,0,1);
  double s = std::sqrt(n);
  return Rotation(x/s, y/s, z/s, w/s);
}
Rotation L_zero_quat() { Rotation q; q.setFromQuaternion(0,0,0,0); return q; }
Rotation R_zero_quat() { return Rotation(0,0,0,1); }
Rotation L_normalize(Rotation q) { q.normalize(); return q; }
Rotation R_normalize(Rotation q) { return R_set_quat(q.x, q.y, q.z, q.w); }
Rotation L_get_quat(const Rotation& q) { Rotation o; q.getQuaternion(o.x, o.y, o.z, o.w); return o; }
Rotation R_get_quat(const Rotation& q) { return q; }
Rotation L_default_rot() { return Rotation(); }
Rotation R_default_rot() { return Rotation(0,0,0,1); }
