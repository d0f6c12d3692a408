#pragma once
#include "tinyfk.hpp"
#include "vf.h"
using tinyfk::KinematicModel; using tinyfk::Transform; using tinyfk::Vector3; using tinyfk::Rotation;
using urdf::Link; using urdf::Joint; using urdf::LinkSharedPtr; using urdf::JointSharedPtr;
// what a joint contributes: its fixed origin, then its motion
inline Transform joint_part(const KinematicModel& m, const JointSharedPtr& j) {
  if (j->type == Joint::FIXED) return j->parent_to_joint_origin_transform;
  return urdf::pose_transform(j->parent_to_joint_origin_transform, j->transform(m.joint_angles_[j->id]));
}
