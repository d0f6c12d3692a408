// K01 from construction on: every link of the enumerated robots, after any one earlier query.
#include "world.h"
Transform L_world_pose(int s, const std::string& link, const std::string& before) {
  KinematicModel m(world::shape(s)); world::configure(m, 0); world::ask(m, before); return world::ask(m, link); }
Transform R_world_pose(int s, const std::string& link, const std::string& before) {
  return world::where(world::given(world::shape(s))->links_.at(link), world::base(0), 0); }
// with every link asked before, in id order
Transform L_world_warm(int s, const std::string& link) { KinematicModel m(world::shape(s)); world::configure(m, 0); world::all(m); return world::ask(m, link); }
Transform R_world_warm(int s, const std::string& link) { return world::where(world::given(world::shape(s))->links_.at(link), world::base(0), 0); }
