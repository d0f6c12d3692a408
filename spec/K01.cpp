// K01: link pose along a chain. The tree shape (chain length, order of ids) and which links are
// already cached are enumerated; joint types, origins, axes, angles, base and cached poses are symbolic.
#include "km.h"
// pose by definition; poses already in the cache are trusted (that they stay right is `coherent`)
static Transform ref(const KinematicModel& m, const LinkSharedPtr& l) {
  LinkSharedPtr p = l->getParent();
  if (p == nullptr) return m.base_pose_;
  const Transform* c = m.transform_cache_.get_cache(l->id);
  if (c != nullptr) return *c;
  return urdf::pose_transform(ref(m, p), joint_part(m, l->parent_joint));
}
Transform L_pose(const KinematicModel& m, size_t id, int shape, int cached) { Transform t; m.get_link_pose(id, t); return t; }
Transform R_pose(const KinematicModel& m, size_t id, int shape, int cached) { return ref(m, m.links_[id]); }
// whatever is in the cache afterwards is right
Transform L_coherent(const KinematicModel& m, size_t id, size_t j, int shape, int cached) {
  Transform t; m.get_link_pose(id, t);
  const Transform* c = m.transform_cache_.get_cache(j);
  vf::assume(c != nullptr);
  return *c;
}
Transform R_coherent(const KinematicModel& m, size_t id, size_t j, int shape, int cached) { return ref(m, m.links_[j]); }
// asking again, and asking for another link in between, gives the same answer
Transform L_again(const KinematicModel& m, size_t id, size_t j, int shape, int cached) { Transform t; m.get_link_pose(j, t); m.get_link_pose(id, t); return t; }
Transform R_again(const KinematicModel& m, size_t id, size_t j, int shape, int cached) { return ref(m, m.links_[id]); }
// the caller's variable does not influence the answer
Transform L_out_ignored(const KinematicModel& m, size_t id, Transform t, int shape, int cached) { m.get_link_pose(id, t); return t; }
Transform R_out_ignored(const KinematicModel& m, size_t id, Transform t, int shape, int cached) { return ref(m, m.links_[id]); }
