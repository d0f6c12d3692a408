From 312c6b1e960ca6558f1a87290aa421da70597aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:14 +0000
Subject: [PATCH 01/26] fix: base columns of the quaternion Jacobian compare
 rotations of the same sign

---
 src/kinematics.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/kinematics.cpp b/src/kinematics.cpp
index d837d2d..222d6c5 100644
--- a/src/kinematics.cpp
+++ b/src/kinematics.cpp
@@ -224,10 +224,15 @@ KinematicModel::get_jacobian(size_t elink_id,
         jacobian(5, idx_col) = erpy_diff.z / eps;
       }
       if (rot_type == RotationType::XYZW) {
-        jacobian(3, idx_col) = (pose_out.rotation.x - erot.x) / eps;
-        jacobian(4, idx_col) = (pose_out.rotation.y - erot.y) / eps;
-        jacobian(5, idx_col) = (pose_out.rotation.z - erot.z) / eps;
-        jacobian(6, idx_col) = (pose_out.rotation.w - erot.w) / eps;
+        // q and -q are the same rotation: take the one close to erot
+        const double inner =
+            pose_out.rotation.x * erot.x + pose_out.rotation.y * erot.y +
+            pose_out.rotation.z * erot.z + pose_out.rotation.w * erot.w;
+        const double sign = inner < 0 ? -1.0 : 1.0;
+        jacobian(3, idx_col) = (sign * pose_out.rotation.x - erot.x) / eps;
+        jacobian(4, idx_col) = (sign * pose_out.rotation.y - erot.y) / eps;
+        jacobian(5, idx_col) = (sign * pose_out.rotation.z - erot.z) / eps;
+        jacobian(6, idx_col) = (sign * pose_out.rotation.w - erot.w) / eps;
       }
     }
   }
-- 
2.43.0


From 2cc3b347d201de435bc78277c70b46c09e17f2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:34 +0000
Subject: [PATCH 02/26] fix: velocity and effort limits of a joint without a
 limit element are infinite

---
 src/tinyfk.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 313ca8c..f000d8f 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -184,7 +184,9 @@ std::vector<double> KinematicModel::get_joint_velocity_limits(
   std::vector<double> limits(n_joint);
   for (size_t i = 0; i < n_joint; i++) {
     const auto &joint = joints_[joint_ids[i]];
-    limits[i] = joint->limits->velocity;
+    // a continuous joint may come without limits
+    limits[i] = joint->limits ? joint->limits->velocity
+                              : std::numeric_limits<double>::infinity();
   }
   return limits;
 }
@@ -195,7 +197,9 @@ std::vector<double> KinematicModel::get_joint_effort_limits(
   std::vector<double> limits(n_joint);
   for (size_t i = 0; i < n_joint; i++) {
     const auto &joint = joints_[joint_ids[i]];
-    limits[i] = joint->limits->effort;
+    // a continuous joint may come without limits
+    limits[i] = joint->limits ? joint->limits->effort
+                              : std::numeric_limits<double>::infinity();
   }
   return limits;
 }
-- 
2.43.0


From 79ad1d2d8daf984ceb275f38bcf044c0df572723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:34 +0000
Subject: [PATCH 03/26] fix: set_joint_angle discards the cached poses

---
 include/tinyfk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tinyfk.hpp b/include/tinyfk.hpp
index e71910f..fdc3491 100644
--- a/include/tinyfk.hpp
+++ b/include/tinyfk.hpp
@@ -145,6 +145,7 @@ public: // functions
 
   void set_joint_angle(size_t joint_id, double angle) {
     joint_angles_[joint_id] = angle;
+    transform_cache_.clear();
   }
 
   urdf::LinkSharedPtr add_new_link(const std::string &link_name,
-- 
2.43.0


From dd93a34105f24fe755beab68274ee0edfc23528d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:34 +0000
Subject: [PATCH 04/26] fix: the transform stack grows with the links added at
 run time

---
 src/tinyfk.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index f000d8f..73b0132 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -255,6 +255,7 @@ urdf::LinkSharedPtr KinematicModel::add_new_link(const std::string &link_name,
   links_.push_back(new_link);
   links_[parent_id]->child_links.push_back(new_link);
   transform_cache_.extend();
+  transform_stack_ = SizedStack<LinkIdAndTransform>(links_.size());
 
   this->update_rptable(); // set _rptable
 
-- 
2.43.0


From 56b398a055e4e6625c3b29dd768a7cee345faeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:34 +0000
Subject: [PATCH 05/26] fix: a urdf that cannot be parsed is reported instead
 of dereferencing null

---
 src/tinyfk.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 73b0132..3907638 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -19,6 +19,9 @@ KinematicModel::KinematicModel(const std::string &xml_string) {
   }
   urdf::ModelInterfaceSharedPtr robot_urdf_interface =
       urdf::parseURDF(xml_string);
+  if (robot_urdf_interface == nullptr) {
+    throw std::runtime_error("failed to parse the urdf");
+  }
 
   // numbering link id
   std::vector<urdf::LinkSharedPtr> links;
-- 
2.43.0


From 0aed38ea5d02e9fd2d8e8849f3a310abcd204ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:49 +0000
Subject: [PATCH 06/26] fix: the center-of-mass frame of a link keeps the
 inertial rotation and leaves the link's inertial untouched

---
 src/tinyfk.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 3907638..a5e893d 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -98,15 +98,12 @@ KinematicModel::KinematicModel(const std::string &xml_string) {
         continue;
       }
       const auto com_dummy_link_name = link->name + "_com";
-      Transform new_link_pose;
-      new_link_pose.position.x = link->inertial->origin.position.x;
-      new_link_pose.position.y = link->inertial->origin.position.y;
-      new_link_pose.position.z = link->inertial->origin.position.z;
-      const auto new_link =
-          this->add_new_link(com_dummy_link_name, link->id, new_link_pose);
+      // the inertia tensor is expressed in the frame of the inertial origin
+      const auto new_link = this->add_new_link(com_dummy_link_name, link->id,
+                                               link->inertial->origin);
       // set new link's inertial as the same as the parent
       // except its origin is zero
-      new_link->inertial = link->inertial;
+      new_link->inertial = std::make_shared<urdf::Inertial>(*link->inertial);
       new_link->inertial->origin = Transform();
       com_dummy_links.push_back(new_link);
     }
-- 
2.43.0


From 8ccf52f515a0088359b70c4aaf7ae13815eb9368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:27 +0000
Subject: [PATCH 07/26] fix: too few joint angles are rejected instead of read
 out of range

---
 src/tinyfk.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index a5e893d..e2fced3 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -122,6 +122,9 @@ void KinematicModel::set_joint_angles(const std::vector<size_t> &joint_ids,
 void KinematicModel::_set_joint_angles(
     const std::vector<size_t> &joint_ids,
     const std::vector<double> &joint_angles) {
+  if (joint_angles.size() < joint_ids.size()) {
+    throw std::invalid_argument("fewer joint angles than joints");
+  }
   for (size_t i = 0; i < joint_ids.size(); i++) {
     joint_angles_[joint_ids[i]] = joint_angles[i];
   }
-- 
2.43.0


From 17c6c3e3f18cc7da614d255693b7f32e73abbd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:33 +0000
Subject: [PATCH 08/26] fix: the relevance table is built for a robot without
 inertial data too

---
 src/tinyfk.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index e2fced3..a840a4b 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -87,6 +87,7 @@ KinematicModel::KinematicModel(const std::string &xml_string) {
   num_dof_ = num_dof;
   total_mass_ = total_mass;
   joint_angles_ = joint_angles;
+  this->update_rptable();
 
   // add COM of each link as new link
   {
-- 
2.43.0


From a6f2856bc36e7631b9962ec99d6ddc3b6359e009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:13 +0000
Subject: [PATCH 09/26] fix: solve_com_forward_kinematics answers each row for
 its own angles

Without a base nothing cleared the pose cache between rows, so every row
repeated the poses of the first (or of whatever was asked before).
---
 src/wrapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index 663678d..d001694 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -140,6 +140,7 @@ public:
         auto xyzrpy_begin = std::prev(qs[i].end(), 6);
         set_base_pose(xyzrpy_begin);
       }
+      this->clear_cache();
 
       const auto com = this->get_com();
       coms(0, i) = com.x;
-- 
2.43.0


From 1c3f74f0765dacada69b5f1e328e7ea25b253f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:13 +0000
Subject: [PATCH 10/26] fix: compute_total_inertia_matrix uses the given
 angles, not cached poses

---
 src/wrapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index d001694..e4891f1 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -184,6 +184,7 @@ public:
                                const std::vector<size_t> &joint_ids) {
     // should we take vector of q as input...?
     this->_set_joint_angles(joint_ids, q);
+    this->clear_cache();
     return this->get_total_inertia_matrix();
   }
 
-- 
2.43.0


From 0e75b00183e4b85a67c39036b060608ee91dbc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:17 +0000
Subject: [PATCH 11/26] fix: batch queries reject rows and lists of the wrong
 length

Only the first row of solve_forward_kinematics was checked (and an empty
sequence read row 0); short rows, force lists and link lists of the other
queries were read past their end.
---
 src/wrapper.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index e4891f1..424ec2d 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -71,11 +71,7 @@ public:
     auto n_joints = joint_ids.size();
     auto n_dof = (with_base ? n_joints + 6 : n_joints);
 
-    if (with_base && (n_joints != joint_angles_sequence[0].size() - 6)) {
-      throw std::invalid_argument(
-          "dof mismatch!! Probably you forget base's (x, y, theta)");
-      // TODO this check try to prevent the potentionally buggy procedure below
-    }
+    check_dof(joint_angles_sequence, n_dof, with_base);
 
     Eigen::MatrixXd P = Eigen::MatrixXd::Zero(n_pose_dim, n_wp * n_link);
     Eigen::MatrixXd J =
@@ -132,6 +128,11 @@ public:
     const size_t n_wp = qs.size();
     const size_t n_dof = joint_ids.size() + with_base * 6;
 
+    check_dof(qs, n_dof, with_base);
+    if (forces.size() != action_link_ids.size()) {
+      throw std::invalid_argument("one force per action link is required");
+    }
+
     Eigen::MatrixXd coms = Eigen::MatrixXd::Zero(3, n_wp);
     Eigen::MatrixXd J = Eigen::MatrixXd::Zero(3 * n_wp, n_dof);
     for (size_t i = 0; i < n_wp; ++i) {
@@ -199,6 +200,11 @@ public:
     const size_t n_joint = joint_ids.size() + with_base * 6;
     const size_t n_check = link_ids1.size();
 
+    check_dof(qs, n_joint, with_base);
+    if (link_ids2.size() != n_check) {
+      throw std::invalid_argument("link lists must have the same length");
+    }
+
     Eigen::VectorXd sqdists = Eigen::VectorXd::Zero(n_check * n_wp);
     Eigen::MatrixXd grads = with_grads
                                 ? Eigen::MatrixXd::Zero(n_check * n_wp, n_joint)
@@ -243,6 +249,17 @@ public:
                     std::array<double, 3> rotation) {
     KinematicModel::add_new_link(link_name, parent_id, position, rotation);
   }
+
+private:
+  static void check_dof(const std::vector<std::vector<double>> &qs,
+                        size_t n_dof, bool with_base) {
+    for (const auto &q : qs) {
+      if (with_base ? q.size() != n_dof : q.size() < n_dof) {
+        throw std::invalid_argument(
+            "dof mismatch!! Probably you forget base's (x, y, theta)");
+      }
+    }
+  }
 };
 
 PYBIND11_MODULE(_tinyfk, m) {
-- 
2.43.0


From 0dcebdf17e8aa322fa1ab94361522156e62e3552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 12/26] fix: an axis element without xyz is the default axis,
 not a zero vector

---
 urdf_parser/src/joint.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/urdf_parser/src/joint.cpp b/urdf_parser/src/joint.cpp
index 82b43da..6f228dd 100644
--- a/urdf_parser/src/joint.cpp
+++ b/urdf_parser/src/joint.cpp
@@ -441,6 +441,8 @@ bool parseJoint(Joint &joint, TiXmlElement* config)
           return false;
         }
       }
+      else
+        joint.axis = Vector3(1.0, 0.0, 0.0);
     }
   }
 
-- 
2.43.0


From 396e40ec8c6286801a58cc909171fb097b4144c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 13/26] fix: a color of other than four components is not a
 color

---
 urdf_parser/src/link.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/urdf_parser/src/link.cpp b/urdf_parser/src/link.cpp
index 009a7e0..27aff59 100644
--- a/urdf_parser/src/link.cpp
+++ b/urdf_parser/src/link.cpp
@@ -85,8 +85,7 @@ bool parseMaterial(Material &material, TiXmlElement *config, bool only_name_is_o
     if (c->Attribute("rgba")) {
 
       try {
-        material.color.init(c->Attribute("rgba"));
-        has_rgb = true;
+        has_rgb = material.color.init(c->Attribute("rgba"));
       }
       catch (ParseError &e) {  
         material.color.clear();
-- 
2.43.0


From 4753cffc5081bf512af84c95f0fa9935eb545d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 14/26] fix: descriptions whose joints do not form one tree are
 rejected

---
 urdf_parser/include/urdf_model/model.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/urdf_parser/include/urdf_model/model.h b/urdf_parser/include/urdf_model/model.h
index 8b7ced8..98fb3eb 100644
--- a/urdf_parser/include/urdf_model/model.h
+++ b/urdf_parser/include/urdf_model/model.h
@@ -137,6 +137,11 @@ public:
           throw ParseError("parent link [" + parent_link_name + "] of joint [" + joint->first + "] not found.  This is not valid according to the URDF spec. Every link you refer to from a joint needs to be explicitly defined in the robot description. To fix this problem you can either remove this joint [" + joint->first + "] from your urdf file, or add \"<link name=\"" + parent_link_name + "\" />\" to your urdf file.");
         }
         
+        if (child_link->parent_joint)
+        {
+          throw ParseError("link [" + child_link_name + "] is the child of more than one joint");
+        }
+
         //set parent link for child link
         child_link->setParent(parent_link);
 
@@ -181,6 +186,21 @@ public:
     {
       throw ParseError("No root link found. The robot xml is not a valid tree.");
     }
+
+    // every link must be below the root link
+    std::vector<LinkSharedPtr> reached(1, this->root_link_);
+    for (std::size_t i = 0; i < reached.size(); i++)
+    {
+      const LinkSharedPtr link = reached[i];
+      for (std::size_t c = 0; c < link->child_links.size(); c++)
+      {
+        reached.push_back(link->child_links[c]);
+      }
+    }
+    if (reached.size() != this->links_.size())
+    {
+      throw ParseError("Some links are not connected to the root link [" + this->root_link_->name + "]. The robot xml is not a valid tree.");
+    }
   }
   
   
-- 
2.43.0


From 77b10e6feb979e5fbdb6ad883c9a69c4294f1515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 15/26] fix: a version number that does not fit is not version
 1.0

---
 urdf_parser/include/urdf_parser/urdf_parser.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/urdf_parser/include/urdf_parser/urdf_parser.h b/urdf_parser/include/urdf_parser/urdf_parser.h
index 247f207..59e62a5 100644
--- a/urdf_parser/include/urdf_parser/urdf_parser.h
+++ b/urdf_parser/include/urdf_parser/urdf_parser.h
@@ -37,6 +37,9 @@
 #ifndef URDF_PARSER_URDF_PARSER_H
 #define URDF_PARSER_URDF_PARSER_H
 
+#include <cstdint>
+#include <cstdlib>
+#include <limits>
 #include <stdexcept>
 #include <string>
 #include <vector>
@@ -127,6 +130,10 @@ private:
     {
       throw std::runtime_error("Version number must be positive");
     }
+    if (static_cast<unsigned long>(value) > std::numeric_limits<uint32_t>::max())
+    {
+      throw std::runtime_error("Version number is too large");
+    }
 
     return value;
   }
-- 
2.43.0


From 32e190aed1037c4e87af4b8a37d39bb0dbf052f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 16/26] fix: exported numbers are locale independent and read
 back unchanged

---
 urdf_parser/src/pose.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/urdf_parser/src/pose.cpp b/urdf_parser/src/pose.cpp
index 2b5961f..a7353fe 100644
--- a/urdf_parser/src/pose.cpp
+++ b/urdf_parser/src/pose.cpp
@@ -37,6 +37,8 @@
 
 #include <urdf_model/pose.h>
 #include <fstream>
+#include <limits>
+#include <locale>
 #include <sstream>
 #include <algorithm>
 //#include <console_bridge/console.h>
@@ -48,6 +50,8 @@ namespace urdf_export_helpers {
 std::string values2str(unsigned int count, const double *values, double (*conv)(double))
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
+    ss.precision(std::numeric_limits<double>::max_digits10);
     for (unsigned int i = 0 ; i < count ; i++)
     {
         if (i > 0)
-- 
2.43.0


From ff22da51c6b888cdfef196e552565299c818d44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 17/26] fix: exporting a joint writes its origin whatever its
 type

---
 urdf_parser/src/joint.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/urdf_parser/src/joint.cpp b/urdf_parser/src/joint.cpp
index 6f228dd..3d52fc9 100644
--- a/urdf_parser/src/joint.cpp
+++ b/urdf_parser/src/joint.cpp
@@ -604,7 +604,9 @@ bool exportJoint(Joint &joint, TiXmlElement* xml)
   else if (joint.type == urdf::Joint::FIXED)
     joint_xml->SetAttribute("type", "fixed");
   else
+  {
     //CONSOLE_BRIDGE_logError("ERROR:  Joint [%s] type [%d] is not a defined type.\n",joint.name.c_str(), joint.type);
+  }
 
   // origin
   exportPose(joint.parent_to_joint_origin_transform, joint_xml);
-- 
2.43.0


From 7a866b9d0b03316280b2f903d3335625ddc65a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 18/26] fix: exporting a visual or collision writes its name

---
 urdf_parser/src/link.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/urdf_parser/src/link.cpp b/urdf_parser/src/link.cpp
index 27aff59..6718d97 100644
--- a/urdf_parser/src/link.cpp
+++ b/urdf_parser/src/link.cpp
@@ -614,6 +614,8 @@ bool exportVisual(Visual &vis, TiXmlElement *xml)
   //   <material name="Grey"/>
   // </visual>
   TiXmlElement * visual_xml = new TiXmlElement("visual");
+  if (!vis.name.empty())
+    visual_xml->SetAttribute("name", vis.name);
 
   exportPose(vis.origin, visual_xml);
 
@@ -637,6 +639,8 @@ bool exportCollision(Collision &col, TiXmlElement* xml)
   //   <material name="Grey"/>
   // </collision>
   TiXmlElement * collision_xml = new TiXmlElement("collision");
+  if (!col.name.empty())
+    collision_xml->SetAttribute("name", col.name);
 
   exportPose(col.origin, collision_xml);
 
-- 
2.43.0


From 5fa4e08f1e15133d8f2f98301a263a48cfdaab1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 19/26] fix: exporting a visual keeps the name of a material
 defined nowhere

---
 urdf_parser/src/link.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/urdf_parser/src/link.cpp b/urdf_parser/src/link.cpp
index 6718d97..4fec567 100644
--- a/urdf_parser/src/link.cpp
+++ b/urdf_parser/src/link.cpp
@@ -623,6 +623,13 @@ bool exportVisual(Visual &vis, TiXmlElement *xml)
 
   if (vis.material)
     exportMaterial(*vis.material, visual_xml);
+  else if (!vis.material_name.empty())
+  {
+    // a material that is only named, not defined
+    TiXmlElement *material_xml = new TiXmlElement("material");
+    material_xml->SetAttribute("name", vis.material_name);
+    visual_xml->LinkEndChild(material_xml);
+  }
 
   xml->LinkEndChild(visual_xml);
 
-- 
2.43.0


From cadff40d2de96221d5a7744ac38fb00291f3bfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 20/26] fix: export keeps empty calibrations, mimics and mesh
 filenames

---
 urdf_parser/src/joint.cpp | 30 ++++++++++++------------------
 urdf_parser/src/link.cpp  |  3 +--
 2 files changed, 13 insertions(+), 20 deletions(-)

diff --git a/urdf_parser/src/joint.cpp b/urdf_parser/src/joint.cpp
index 3d52fc9..bc62ad7 100644
--- a/urdf_parser/src/joint.cpp
+++ b/urdf_parser/src/joint.cpp
@@ -561,29 +561,23 @@ bool exportJointSafety(JointSafety &js, TiXmlElement* xml)
 
 bool exportJointCalibration(JointCalibration &jc, TiXmlElement* xml)
 {
-  if (jc.falling || jc.rising)
-  {
-    TiXmlElement *calibration_xml = new TiXmlElement("calibration");
-    if (jc.falling)
-      calibration_xml->SetAttribute("falling", urdf_export_helpers::values2str(*jc.falling) );
-    if (jc.rising)
-      calibration_xml->SetAttribute("rising", urdf_export_helpers::values2str(*jc.rising) );
-    //calibration_xml->SetAttribute("reference_position", urdf_export_helpers::values2str(jc.reference_position) );
-    xml->LinkEndChild(calibration_xml);
-  }
+  TiXmlElement *calibration_xml = new TiXmlElement("calibration");
+  if (jc.falling)
+    calibration_xml->SetAttribute("falling", urdf_export_helpers::values2str(*jc.falling) );
+  if (jc.rising)
+    calibration_xml->SetAttribute("rising", urdf_export_helpers::values2str(*jc.rising) );
+  //calibration_xml->SetAttribute("reference_position", urdf_export_helpers::values2str(jc.reference_position) );
+  xml->LinkEndChild(calibration_xml);
   return true;
 }
 
 bool exportJointMimic(JointMimic &jm, TiXmlElement* xml)
 {
-  if (!jm.joint_name.empty())
-  {
-    TiXmlElement *mimic_xml = new TiXmlElement("mimic");
-    mimic_xml->SetAttribute("offset", urdf_export_helpers::values2str(jm.offset) );
-    mimic_xml->SetAttribute("multiplier", urdf_export_helpers::values2str(jm.multiplier) );
-    mimic_xml->SetAttribute("joint", jm.joint_name );
-    xml->LinkEndChild(mimic_xml);
-  }
+  TiXmlElement *mimic_xml = new TiXmlElement("mimic");
+  mimic_xml->SetAttribute("offset", urdf_export_helpers::values2str(jm.offset) );
+  mimic_xml->SetAttribute("multiplier", urdf_export_helpers::values2str(jm.multiplier) );
+  mimic_xml->SetAttribute("joint", jm.joint_name );
+  xml->LinkEndChild(mimic_xml);
   return true;
 }
 
diff --git a/urdf_parser/src/link.cpp b/urdf_parser/src/link.cpp
index 4fec567..6767073 100644
--- a/urdf_parser/src/link.cpp
+++ b/urdf_parser/src/link.cpp
@@ -536,8 +536,7 @@ bool exportMesh(Mesh &m, TiXmlElement *xml)
 {
   // e.g. add <mesh filename="my_file" scale="1 1 1"/>
   TiXmlElement *mesh_xml = new TiXmlElement("mesh");
-  if (!m.filename.empty())
-    mesh_xml->SetAttribute("filename", m.filename);
+  mesh_xml->SetAttribute("filename", m.filename);
   mesh_xml->SetAttribute("scale", urdf_export_helpers::values2str(m.scale));
   xml->LinkEndChild(mesh_xml);
   return true;
-- 
2.43.0


From acc222665a4a8d01bb2f6d4a7372a2592932c96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:20 +0000
Subject: [PATCH 21/26] fix: solve_com_fk with a planar base returns the
 columns of x, y and yaw only

---
 python/tinyfk/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index 40376b7..780dd9c 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -193,6 +193,11 @@ class KinematicModel:
         P, J = self._robot.solve_com_forward_kinematics(
             qs, joint_ids, action_link_ids, action_forces, with_base, with_jacobian
         )
+        if base_type == BaseType.PLANER:
+            extrac_indices = np.hstack(
+                (np.arange(n_joint), np.array([n_joint, n_joint + 1, n_joint + 5]))
+            )
+            J = J[:, extrac_indices]
         return P, J
 
     def compute_total_inertia_matrix(self, q: np.ndarray, joint_ids: List[int]) -> np.ndarray:
-- 
2.43.0


From acabf047c16fec75137c2eb89925a9dce910b623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:20 +0000
Subject: [PATCH 22/26] fix: a restored model can be pickled again, and only
 what succeeded is replayed

---
 python/tinyfk/__init__.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index 780dd9c..75fbea7 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -77,9 +77,6 @@ class KinematicModel:
     def set_q(
         self, joint_ids: List[int], q: np.ndarray, base_type: BaseType = BaseType.FIXED
     ) -> None:
-        args = [joint_ids, q, base_type]
-        self._set_joint_angles_history.append(args)
-
         if base_type == BaseType.PLANER:
             assert len(q) == len(joint_ids) + 3, "{} != {}".format(len(q), len(joint_ids) + 3)
             joint_angles, base_xytheta = q[:-3], q[-3:]
@@ -95,6 +92,10 @@ class KinematicModel:
             assert len(q) == len(joint_ids), "{} != {}".format(len(q), len(joint_ids))
             self._robot.set_joint_angles(joint_ids, q)
 
+        # recorded by value, and only if it succeeded
+        args = [joint_ids, q, base_type]
+        self._set_joint_angles_history.append(copy.deepcopy(args))
+
     def _modify_input_with_3dof_base(self, n_joint, joint_angles_sequence):
         n_seq, n_dof = joint_angles_sequence.shape
         joint_angles_sequence_modified = np.zeros((n_seq, n_dof + 3))
@@ -228,13 +229,14 @@ class KinematicModel:
     def add_new_link(
         self, link_name: str, parent_id: int, position: np.ndarray, rpy: Optional[np.ndarray] = None
     ):
-        args = [link_name, parent_id, position, rpy]
-        self._add_new_link_history.append(args)
-
         if rpy is None:
             rpy = np.zeros(3)
         self._robot.add_new_link(link_name, parent_id, position, rpy)
 
+        # recorded by value, and only if it succeeded
+        args = [link_name, parent_id, position, rpy]
+        self._add_new_link_history.append(copy.deepcopy(args))
+
     def compute_inter_link_sqdists(
         self,
         qs: Union[List[np.ndarray], np.ndarray],
@@ -286,10 +288,14 @@ class KinematicModel:
         self.__dict__.update(state)
         self._robot = _tinyfk.RobotModel(self._xml_text)
 
-        for arg in copy.deepcopy(self._add_new_link_history):
+        # replaying records the operations again, for the next pickling
+        add_new_link_history = self._add_new_link_history
+        set_joint_angles_history = self._set_joint_angles_history
+        self._add_new_link_history = []
+        self._set_joint_angles_history = []
+
+        for arg in add_new_link_history:
             self.add_new_link(*arg)
 
-        for arg in copy.deepcopy(self._set_joint_angles_history):
+        for arg in set_joint_angles_history:
             self.set_q(*arg)
-        self._add_new_link_history = []
-        self._set_joint_angles_history = []
-- 
2.43.0


From df701a2cabd2c1de48f04b8d4ac47e16ad0c0314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:03 +0000
Subject: [PATCH 23/26] fix: a multibyte character cut off by the end of the
 text does not carry the parser past it

---
 urdf_parser/tinyxml/tinyxml.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/urdf_parser/tinyxml/tinyxml.h b/urdf_parser/tinyxml/tinyxml.h
index 23694c6..94389f1 100644
--- a/urdf_parser/tinyxml/tinyxml.h
+++ b/urdf_parser/tinyxml/tinyxml.h
@@ -350,9 +350,12 @@ protected:
 		{
 			//strncpy( _value, p, *length );	// lots of compilers don't like this function (unsafe),
 												// and the null terminator isn't needed
+			int n = 0;
 			for( int i=0; p[i] && i<*length; ++i ) {
 				_value[i] = p[i];
+				++n;
 			}
+			*length = n;	// less if the text ends within the character
 			return p + (*length);
 		}
 		else
-- 
2.43.0


From 8ffdd887499d8a374b3437aecdff97433903ea41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:03 +0000
Subject: [PATCH 24/26] fix: locating an error after a truncated UTF-8
 character comes to an end

---
 urdf_parser/tinyxml/tinyxmlparser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/urdf_parser/tinyxml/tinyxmlparser.cpp b/urdf_parser/tinyxml/tinyxmlparser.cpp
index 81b7eae..f7358b0 100644
--- a/urdf_parser/tinyxml/tinyxmlparser.cpp
+++ b/urdf_parser/tinyxml/tinyxmlparser.cpp
@@ -274,6 +274,8 @@ void TiXmlParsingData::Stamp( const char* now, TiXmlEncoding encoding )
 						else
 							{ p +=3; ++col; }	// A normal character.
 					}
+					else
+						{ ++p; ++col; }		// Cut off by the end of the text.
 				}
 				else
 				{
-- 
2.43.0


From fc4091b2f1fa498319e9ed8b2e573bf461138ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:03 +0000
Subject: [PATCH 25/26] fix: streaming an element with an embedded null in its
 text comes to an end

---
 urdf_parser/tinyxml/tinyxmlparser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/urdf_parser/tinyxml/tinyxmlparser.cpp b/urdf_parser/tinyxml/tinyxmlparser.cpp
index f7358b0..acdc4ad 100644
--- a/urdf_parser/tinyxml/tinyxmlparser.cpp
+++ b/urdf_parser/tinyxml/tinyxmlparser.cpp
@@ -944,6 +944,15 @@ void TiXmlElement::StreamIn (std::istream * in, TIXML_STRING * tag)
 		{
 			StreamWhiteSpace( in, tag );
 
+			// Nothing consumes an embedded null.
+			if ( in->good() && in->peek() == 0 )
+			{
+				TiXmlDocument* document = GetDocument();
+				if ( document )
+					document->SetError( TIXML_ERROR_EMBEDDED_NULL, 0, 0, TIXML_ENCODING_UNKNOWN );
+				return;
+			}
+
 			// Do we have text?
 			if ( in->good() && in->peek() != '<' ) 
 			{
-- 
2.43.0


From 1857eb6b51e5803b27cbfc6714e6734194dc8725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:03 +0000
Subject: [PATCH 26/26] fix: text that only begins like a character reference
 is escaped

---
 urdf_parser/tinyxml/tinyxml.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/urdf_parser/tinyxml/tinyxml.cpp b/urdf_parser/tinyxml/tinyxml.cpp
index 9c161df..891ce63 100644
--- a/urdf_parser/tinyxml/tinyxml.cpp
+++ b/urdf_parser/tinyxml/tinyxml.cpp
@@ -49,6 +49,15 @@ FILE* TiXmlFOpen( const char* filename, const char* mode )
 	#endif
 }
 
+// Whether the "&#x" at i begins a complete hexadecimal character reference.
+static bool IsHexReference( const TIXML_STRING& str, size_t i )
+{
+	size_t k = i + 3;
+	while ( k < str.length() && isxdigit( (unsigned char) str[k] ) )
+		++k;
+	return k > i + 3 && k < str.length() && str[k] == ';';
+}
+
 void TiXmlBase::EncodeString( const TIXML_STRING& str, TIXML_STRING* outString )
 {
 	int i=0;
@@ -60,7 +69,8 @@ void TiXmlBase::EncodeString( const TIXML_STRING& str, TIXML_STRING* outString )
 		if (    c == '&' 
 		     && i < ( (int)str.length() - 2 )
 			 && str[i+1] == '#'
-			 && str[i+2] == 'x' )
+			 && str[i+2] == 'x'
+			 && IsHexReference( str, i ) )
 		{
 			// Hexadecimal character reference.
 			// Pass through unchanged.
-- 
2.43.0

