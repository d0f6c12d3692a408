// K04: joint motion.
#include "urdf_model/joint.h"
#include "vf.h"
using namespace urdf;
// rotation matrix by angle a about unit axis n (Rodrigues), with half-angle sine and cosine
struct M34 { double r[9]; double px, py, pz; };
static M34 of_pose(const Pose& P) {
  M34 m; const Rotation& q = P.rotation;
  double x=q.x, y=q.y, z=q.z, w=q.w;
  m.r[0]=w*w+x*x-y*y-z*z; m.r[1]=2*(x*y-w*z); m.r[2]=2*(x*z+w*y);
  m.r[3]=2*(x*y+w*z); m.r[4]=w*w-x*x+y*y-z*z; m.r[5]=2*(y*z-w*x);
  m.r[6]=2*(x*z-w*y); m.r[7]=2*(y*z+w*x); m.r[8]=w*w-x*x-y*y+z*z;
  m.px=P.position.x; m.py=P.position.y; m.pz=P.position.z;
  return m;
}
static M34 rodrigues(const Vector3& n, double a) {
  double h=std::sin(a/2), k=std::cos(a/2); double s=2*h*k, c=k*k-h*h, t=2*h*h;
  M34 m;
  m.r[0]=c+t*n.x*n.x; m.r[1]=t*n.x*n.y-s*n.z; m.r[2]=t*n.x*n.z+s*n.y;
  m.r[3]=t*n.x*n.y+s*n.z; m.r[4]=c+t*n.y*n.y; m.r[5]=t*n.y*n.z-s*n.x;
  m.r[6]=t*n.x*n.z-s*n.y; m.r[7]=t*n.y*n.z+s*n.x; m.r[8]=c+t*n.z*n.z;
  m.px=m.py=m.pz=0;
  return m;
}
static M34 ident() { M34 m; for (int i=0;i<9;i++) m.r[i]=0; m.r[0]=m.r[4]=m.r[8]=1; m.px=m.py=m.pz=0; return m; }

M34 L_motion(Joint& j, double a) { vf::unit(j.axis); return of_pose(j.transform(a)); }
M34 R_motion(Joint& j, double a) {
  vf::unit(j.axis);
  switch (j.type) {
    case Joint::REVOLUTE: case Joint::CONTINUOUS: return rodrigues(j.axis, a);
    case Joint::PRISMATIC: { M34 m = ident(); m.px = a*j.axis.x; m.py = a*j.axis.y; m.pz = a*j.axis.z; return m; }
    case Joint::FIXED: return ident();
    default: throw std::runtime_error("unsupported");
  }
}
Rotation L_quat_derivative(Joint& j, double a) { return j.joint_quaternion_derivative(a); }
Rotation R_quat_derivative(Joint& j, double a) {
  double k = 0.5*std::cos(a/2), h = -0.5*std::sin(a/2);
  return Rotation(k*j.axis.x, k*j.axis.y, k*j.axis.z, h);
}
double L_unit_rotation(Joint& j, double a) { vf::unit(j.axis); Rotation q = j.transform(a).rotation; return q.x*q.x+q.y*q.y+q.z*q.z+q.w*q.w; }
double R_unit_rotation(Joint& j, double a) {
  vf::assume(j.type==Joint::REVOLUTE||j.type==Joint::CONTINUOUS||j.type==Joint::PRISMATIC||j.type==Joint::FIXED); return 1; }
Joint L_unchanged(Joint& j, double a) { j.transform(a); return j; }
Joint R_unchanged(Joint& j, double a) { vf::assume(j.type==Joint::REVOLUTE||j.type==Joint::CONTINUOUS||j.type==Joint::PRISMATIC||j.type==Joint::FIXED); return j; }
