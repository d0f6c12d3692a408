// K02: rigid transform algebra. L_x is repo code, R_x what it has to equal.
#include "urdf_model/pose.h"
#include "urdf_parser/urdf_parser.h"
#include "vf.h"
using urdf::Pose; using urdf::Rotation; using urdf::Vector3;

static Rotation mulq(const Rotation& a, const Rotation& b) {
  Rotation c;
  c.w = a.w*b.w - a.x*b.x - a.y*b.y - a.z*b.z;
  c.x = a.w*b.x + a.x*b.w + a.y*b.z - a.z*b.y;
  c.y = a.w*b.y - a.x*b.z + a.y*b.w + a.z*b.x;
  c.z = a.w*b.z + a.x*b.y - a.y*b.x + a.z*b.w;
  return c;
}
// rotation of v by unit q through the rotation matrix
static Vector3 rotv(const Rotation& q, const Vector3& v) {
  Vector3 r;
  r.x = (1-2*(q.y*q.y+q.z*q.z))*v.x + 2*(q.x*q.y-q.w*q.z)*v.y + 2*(q.x*q.z+q.w*q.y)*v.z;
  r.y = 2*(q.x*q.y+q.w*q.z)*v.x + (1-2*(q.x*q.x+q.z*q.z))*v.y + 2*(q.y*q.z-q.w*q.x)*v.z;
  r.z = 2*(q.x*q.z-q.w*q.y)*v.x + 2*(q.y*q.z+q.w*q.x)*v.y + (1-2*(q.x*q.x+q.y*q.y))*v.z;
  return r;
}

Rotation L_rot_mul(const Rotation& a, const Rotation& b) { return a * b; }
Rotation R_rot_mul(const Rotation& a, const Rotation& b) { return mulq(a, b); }
Vector3 L_rot_vec(const Rotation& q, const Vector3& v) { vf::unit(q); return q * v; }
Vector3 R_rot_vec(const Rotation& q, const Vector3& v) { vf::unit(q); return rotv(q, v); }
Rotation L_rot_inv(const Rotation& q) { vf::unit(q); return q.GetInverse(); }
Rotation R_rot_inv(const Rotation& q) { vf::unit(q); Rotation c; c.x=-q.x; c.y=-q.y; c.z=-q.z; c.w=q.w; return c; }
Rotation L_rot_inverse(const Rotation& q) { vf::unit(q); return q.inverse(); }
Rotation R_rot_inverse(const Rotation& q) { vf::unit(q); Rotation c; c.x=-q.x; c.y=-q.y; c.z=-q.z; c.w=q.w; return c; }
Rotation L_rot_inverse_inplace(Rotation q) { vf::unit(q); q.inverse_inplace(); return q; }
Rotation R_rot_inverse_inplace(Rotation q) { vf::unit(q); Rotation c; c.x=-q.x; c.y=-q.y; c.z=-q.z; c.w=q.w; return c; }
Rotation L_rot_cancel_right(const Rotation& q) { vf::unit(q); return q * q.inverse(); }
Rotation R_rot_cancel_right(const Rotation& q) { vf::unit(q); Rotation c; c.x=c.y=c.z=0; c.w=1; return c; }
Rotation L_rot_cancel_left(const Rotation& q) { vf::unit(q); return q.inverse() * q; }
Rotation R_rot_cancel_left(const Rotation& q) { vf::unit(q); Rotation c; c.x=c.y=c.z=0; c.w=1; return c; }

Pose L_pose_compose(const Pose& A, const Pose& B) { vf::unit(A.rotation); vf::unit(B.rotation); return urdf::pose_transform(A, B); }
Pose R_pose_compose(const Pose& A, const Pose& B) {
  vf::unit(A.rotation); vf::unit(B.rotation);
  Pose C; C.rotation = mulq(A.rotation, B.rotation);
  Vector3 p = rotv(A.rotation, B.position);
  C.position.x = p.x + A.position.x; C.position.y = p.y + A.position.y; C.position.z = p.z + A.position.z;
  return C;
}
Pose L_pose_inverse(const Pose& A) { vf::unit(A.rotation); return A.inverse(); }
Pose R_pose_inverse(const Pose& A) {
  vf::unit(A.rotation);
  Pose C; C.rotation.x = -A.rotation.x; C.rotation.y = -A.rotation.y; C.rotation.z = -A.rotation.z; C.rotation.w = A.rotation.w;
  Vector3 p = rotv(C.rotation, A.position);
  C.position.x = -p.x; C.position.y = -p.y; C.position.z = -p.z;
  return C;
}
Pose L_pose_inverse_inplace(Pose A) { vf::unit(A.rotation); A.inverse_inplace(); return A; }
Pose R_pose_inverse_inplace(Pose A) { return R_pose_inverse(A); }
Pose L_pose_cancel_left(const Pose& A) { vf::unit(A.rotation); return urdf::pose_transform(A.inverse(), A); }
Pose R_pose_cancel_left(const Pose& A) { vf::unit(A.rotation); Pose C; C.position.x=C.position.y=C.position.z=0; C.rotation.x=C.rotation.y=C.rotation.z=0; C.rotation.w=1; return C; }
Pose L_pose_cancel_right(const Pose& A) { vf::unit(A.rotation); return urdf::pose_transform(A, A.inverse()); }
Pose R_pose_cancel_right(const Pose& A) { return R_pose_cancel_left(A); }
Pose L_pose_assoc(const Pose& A, const Pose& B, const Pose& C) {
  vf::unit(A.rotation); vf::unit(B.rotation); vf::unit(C.rotation);
  return urdf::pose_transform(urdf::pose_transform(A, B), C);
}
Pose R_pose_assoc(const Pose& A, const Pose& B, const Pose& C) {
  vf::unit(A.rotation); vf::unit(B.rotation); vf::unit(C.rotation);
  return urdf::pose_transform(A, urdf::pose_transform(B, C));
}
// in-place composition with an aliased output
Pose L_pose_default() { return Pose(); }
Pose R_pose_default() { Pose C; C.position.x=C.position.y=C.position.z=0; C.rotation.x=C.rotation.y=C.rotation.z=0; C.rotation.w=1; return C; }
Pose L_pose_clear(Pose A) { A.clear(); return A; }
Pose R_pose_clear(Pose A) { return R_pose_default(); }

Vector3 L_vec_add(const Vector3& a, const Vector3& b) { return a + b; }
Vector3 R_vec_add(const Vector3& a, const Vector3& b) { Vector3 c; c.x=a.x+b.x; c.y=a.y+b.y; c.z=a.z+b.z; return c; }
Vector3 L_vec_sub(const Vector3& a, const Vector3& b) { return a - b; }
Vector3 R_vec_sub(const Vector3& a, const Vector3& b) { Vector3 c; c.x=a.x-b.x; c.y=a.y-b.y; c.z=a.z-b.z; return c; }
Vector3 L_vec_div(const Vector3& a, double s) { vf::assume(s != 0); return a / s; }
Vector3 R_vec_div(const Vector3& a, double s) { vf::assume(s != 0); Vector3 c; c.x=a.x/s; c.y=a.y/s; c.z=a.z/s; return c; }
Vector3 L_vec_neg(Vector3 a) { a.inverse_inplace(); return a; }
Vector3 R_vec_neg(Vector3 a) { Vector3 c; c.x=-a.x; c.y=-a.y; c.z=-a.z; return c; }
Vector3 L_vec_cross(const Vector3& a, const Vector3& b) { Vector3 c; urdf::cross_product(a, b, c); return c; }
Vector3 R_vec_cross(const Vector3& a, const Vector3& b) {
  Vector3 c; c.x = a.y*b.z - a.z*b.y; c.y = a.z*b.x - a.x*b.z; c.z = a.x*b.y - a.y*b.x; return c; }
double L_vec_index(Vector3 a, unsigned long i) { return a[i]; }
double R_vec_index(Vector3 a, unsigned long i) {
  switch (i) { case 0: return a.x; case 1: return a.y; case 2: return a.z; default: throw std::out_of_range("index"); } }
