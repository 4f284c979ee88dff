From a9a7e541305f6ad6b7d3baa7737f9c4ace6f2c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:20 +0000
Subject: [PATCH 01/23] fix: KinematicModel throws on a description the parser
 refuses

It dereferenced the null model returned by parseURDF.
---
 src/tinyfk.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 313ca8c..a6e51b2 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -19,6 +19,9 @@ KinematicModel::KinematicModel(const std::string &xml_string) {
   }
   urdf::ModelInterfaceSharedPtr robot_urdf_interface =
       urdf::parseURDF(xml_string);
+  if (robot_urdf_interface == nullptr) {
+    throw std::runtime_error("failed to parse the urdf");
+  }
 
   // numbering link id
   std::vector<urdf::LinkSharedPtr> links;
-- 
2.43.0


From b65916cffc9f83103088920792b8946f461fc4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:25 +0000
Subject: [PATCH 02/23] fix: build the relevance table even if no link has an
 inertial

get_jacobian indexed an empty table for such a robot.
---
 src/tinyfk.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index a6e51b2..d50c0d7 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -87,6 +87,7 @@ KinematicModel::KinematicModel(const std::string &xml_string) {
   num_dof_ = num_dof;
   total_mass_ = total_mass;
   joint_angles_ = joint_angles;
+  this->update_rptable(); // add_new_link is not called if no link has inertial
 
   // add COM of each link as new link
   {
-- 
2.43.0


From 3b6b5e297c0cbd2a6ee19c4c25966e47dda32c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 03/23] fix: grow the transform stack with every link added at
 run time

A chain of added links deeper than the original link count overflowed it.
---
 include/data_structure.hpp | 1 +
 src/tinyfk.cpp             | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/data_structure.hpp b/include/data_structure.hpp
index 69bb83a..3e5c088 100644
--- a/include/data_structure.hpp
+++ b/include/data_structure.hpp
@@ -46,6 +46,7 @@ public:
   inline size_t size() const { return current_idx_; }
   inline bool empty() const { return current_idx_ == 0; }
   inline void reset() { current_idx_ = 0; }
+  void extend() { data_.push_back(ElementT()); }
   inline void push(const ElementT &elem) {
     data_[current_idx_] = elem;
     current_idx_++;
diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index d50c0d7..dc87358 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -255,6 +255,7 @@ urdf::LinkSharedPtr KinematicModel::add_new_link(const std::string &link_name,
   links_.push_back(new_link);
   links_[parent_id]->child_links.push_back(new_link);
   transform_cache_.extend();
+  transform_stack_.extend();
 
   this->update_rptable(); // set _rptable
 
-- 
2.43.0


From a742b6545293d28a84406ca5cc22b8e0ecc50bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 04/23] fix: honour the orientation of an inertial origin

The inertia tensor is expressed in the inertial frame, but its rotation
was dropped, so the total inertia matrix was wrong for rpy != 0.
---
 src/tinyfk.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index dc87358..04fab0e 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -99,10 +99,7 @@ KinematicModel::KinematicModel(const std::string &xml_string) {
         continue;
       }
       const auto com_dummy_link_name = link->name + "_com";
-      Transform new_link_pose;
-      new_link_pose.position.x = link->inertial->origin.position.x;
-      new_link_pose.position.y = link->inertial->origin.position.y;
-      new_link_pose.position.z = link->inertial->origin.position.z;
+      const Transform new_link_pose = link->inertial->origin;
       const auto new_link =
           this->add_new_link(com_dummy_link_name, link->id, new_link_pose);
       // set new link's inertial as the same as the parent
-- 
2.43.0


From ac5f38d3589d03c5c6bce828eb177600c65a816f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 05/23] fix: velocity and effort limits of a joint without
 <limit>

A continuous joint may omit <limit>; the query dereferenced null.
---
 src/tinyfk.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 04fab0e..40f8820 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -185,7 +185,8 @@ std::vector<double> KinematicModel::get_joint_velocity_limits(
   std::vector<double> limits(n_joint);
   for (size_t i = 0; i < n_joint; i++) {
     const auto &joint = joints_[joint_ids[i]];
-    limits[i] = joint->limits->velocity;
+    limits[i] = joint->limits ? joint->limits->velocity
+                              : std::numeric_limits<double>::infinity();
   }
   return limits;
 }
@@ -196,7 +197,8 @@ std::vector<double> KinematicModel::get_joint_effort_limits(
   std::vector<double> limits(n_joint);
   for (size_t i = 0; i < n_joint; i++) {
     const auto &joint = joints_[joint_ids[i]];
-    limits[i] = joint->limits->effort;
+    limits[i] = joint->limits ? joint->limits->effort
+                              : std::numeric_limits<double>::infinity();
   }
   return limits;
 }
-- 
2.43.0


From 0150def17426fb4bea6d49a598b67d2f362fed35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:21 +0000
Subject: [PATCH 06/23] fix: base jacobian across the angle wrap and the
 quaternion sign

The finite difference saw a full turn (rpy) or a sign flip (xyzw) and
returned entries of the order of 1e7.
---
 src/kinematics.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/kinematics.cpp b/src/kinematics.cpp
index d837d2d..64c8f09 100644
--- a/src/kinematics.cpp
+++ b/src/kinematics.cpp
@@ -218,16 +218,25 @@ KinematicModel::get_jacobian(size_t elink_id,
       jacobian(2, idx_col) = pos_diff.z / eps;
       if (rot_type == RotationType::RPY) {
         auto erpy_tweaked = pose_out.rotation.getRPY();
-        const auto erpy_diff = erpy_tweaked - erpy;
+        auto erpy_diff = erpy_tweaked - erpy;
+        // roll and yaw jump by a full turn at +-pi
+        erpy_diff.x = std::remainder(erpy_diff.x, 2 * M_PI);
+        erpy_diff.z = std::remainder(erpy_diff.z, 2 * M_PI);
         jacobian(3, idx_col) = erpy_diff.x / eps;
         jacobian(4, idx_col) = erpy_diff.y / eps;
         jacobian(5, idx_col) = erpy_diff.z / eps;
       }
       if (rot_type == RotationType::XYZW) {
-        jacobian(3, idx_col) = (pose_out.rotation.x - erot.x) / eps;
-        jacobian(4, idx_col) = (pose_out.rotation.y - erot.y) / eps;
-        jacobian(5, idx_col) = (pose_out.rotation.z - erot.z) / eps;
-        jacobian(6, idx_col) = (pose_out.rotation.w - erot.w) / eps;
+        const Rotation &orot = pose_out.rotation;
+        // q and -q are the same rotation: compare with the closer one
+        const double sign = (orot.x * erot.x + orot.y * erot.y +
+                             orot.z * erot.z + orot.w * erot.w) < 0
+                                ? -1.0
+                                : 1.0;
+        jacobian(3, idx_col) = (sign * orot.x - erot.x) / eps;
+        jacobian(4, idx_col) = (sign * orot.y - erot.y) / eps;
+        jacobian(5, idx_col) = (sign * orot.z - erot.z) / eps;
+        jacobian(6, idx_col) = (sign * orot.w - erot.w) / eps;
       }
     }
   }
-- 
2.43.0


From 11bf5ae373fd8e3b04ef969aaeb24f5ea4e15e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 07/23] fix: export the origin of every joint

With the log call commented out, the dangling else swallowed exportPose,
so exported joints of a known type had no origin.
---
 urdf_parser/src/joint.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/urdf_parser/src/joint.cpp b/urdf_parser/src/joint.cpp
index 82b43da..cad11d1 100644
--- a/urdf_parser/src/joint.cpp
+++ b/urdf_parser/src/joint.cpp
@@ -602,7 +602,9 @@ bool exportJoint(Joint &joint, TiXmlElement* xml)
   else if (joint.type == urdf::Joint::FIXED)
     joint_xml->SetAttribute("type", "fixed");
   else
+  {
     //CONSOLE_BRIDGE_logError("ERROR:  Joint [%s] type [%d] is not a defined type.\n",joint.name.c_str(), joint.type);
+  }
 
   // origin
   exportPose(joint.parent_to_joint_origin_transform, joint_xml);
-- 
2.43.0


From 8b3db417008137233056887ff537cad6e49d0428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:24 +0000
Subject: [PATCH 08/23] fix: write numbers in the classic locale

values2str used the global locale, so an exported description could not
be read back (decimal comma, digit grouping).
---
 urdf_parser/src/pose.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/urdf_parser/src/pose.cpp b/urdf_parser/src/pose.cpp
index 2b5961f..01b3dbc 100644
--- a/urdf_parser/src/pose.cpp
+++ b/urdf_parser/src/pose.cpp
@@ -37,6 +37,7 @@
 
 #include <urdf_model/pose.h>
 #include <fstream>
+#include <locale>
 #include <sstream>
 #include <algorithm>
 //#include <console_bridge/console.h>
@@ -48,6 +49,7 @@ namespace urdf_export_helpers {
 std::string values2str(unsigned int count, const double *values, double (*conv)(double))
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
     for (unsigned int i = 0 ; i < count ; i++)
     {
         if (i > 0)
-- 
2.43.0


From 75fd3b15c90ba172bdb6d22963bc299fd8cfda93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:02 +0000
Subject: [PATCH 09/23] fix: refuse a description whose links do not form a
 tree

A link with two parents was silently reattached, and a loop beside the
root was accepted and made pose queries run forever.
---
 urdf_parser/include/urdf_model/model.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/urdf_parser/include/urdf_model/model.h b/urdf_parser/include/urdf_model/model.h
index 8b7ced8..6b22be7 100644
--- a/urdf_parser/include/urdf_model/model.h
+++ b/urdf_parser/include/urdf_model/model.h
@@ -39,6 +39,7 @@
 
 #include <string>
 #include <map>
+#include <vector>
 #include <urdf_model/link.h>
 #include <urdf_model/types.h>
 #include <urdf_exception/exception.h>
@@ -137,6 +138,11 @@ public:
           throw ParseError("parent link [" + parent_link_name + "] of joint [" + joint->first + "] not found.  This is not valid according to the URDF spec. Every link you refer to from a joint needs to be explicitly defined in the robot description. To fix this problem you can either remove this joint [" + joint->first + "] from your urdf file, or add \"<link name=\"" + parent_link_name + "\" />\" to your urdf file.");
         }
         
+        if (parent_link_tree.find(child_link->name) != parent_link_tree.end())
+        {
+          throw ParseError("link [" + child_link->name + "] has more than one parent joint");
+        }
+
         //set parent link for child link
         child_link->setParent(parent_link);
 
@@ -181,6 +187,18 @@ public:
     {
       throw ParseError("No root link found. The robot xml is not a valid tree.");
     }
+
+    // links that are not below the root form a loop
+    std::vector<LinkSharedPtr> reached(1, this->root_link_);
+    for (std::size_t i = 0; i < reached.size(); i++)
+    {
+      const LinkSharedPtr link = reached[i];
+      reached.insert(reached.end(), link->child_links.begin(), link->child_links.end());
+    }
+    if (reached.size() != this->links_.size())
+    {
+      throw ParseError("Some links are not connected to the root link [" + this->root_link_->name + "]. The robot xml is not a valid tree.");
+    }
   }
   
   
-- 
2.43.0


From 57efb9fd0dfa83dee4e3d7138f444fff0fdf1908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 10/23] fix: XML error location no longer loops on a truncated
 character

TiXmlParsingData::Stamp did not advance over an EF byte within two bytes
of the end of the text (CVE-2021-42260).
---
 urdf_parser/tinyxml/tinyxmlparser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/urdf_parser/tinyxml/tinyxmlparser.cpp b/urdf_parser/tinyxml/tinyxmlparser.cpp
index 81b7eae..055c0f7 100644
--- a/urdf_parser/tinyxml/tinyxmlparser.cpp
+++ b/urdf_parser/tinyxml/tinyxmlparser.cpp
@@ -274,6 +274,12 @@ void TiXmlParsingData::Stamp( const char* now, TiXmlEncoding encoding )
 						else
 							{ p +=3; ++col; }	// A normal character.
 					}
+					else
+					{
+						// A character truncated by the end of the text.
+						++p;
+						++col;
+					}
 				}
 				else
 				{
-- 
2.43.0


From 6f66f489238d0730f4467e332b8c345d7368b766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:53 +0000
Subject: [PATCH 11/23] fix: XML reader stays inside a text ending within a
 character

GetChar skipped the terminating null after a truncated UTF-8 sequence.
---
 urdf_parser/tinyxml/tinyxml.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/urdf_parser/tinyxml/tinyxml.h b/urdf_parser/tinyxml/tinyxml.h
index 23694c6..22e7813 100644
--- a/urdf_parser/tinyxml/tinyxml.h
+++ b/urdf_parser/tinyxml/tinyxml.h
@@ -350,10 +350,12 @@ protected:
 		{
 			//strncpy( _value, p, *length );	// lots of compilers don't like this function (unsafe),
 												// and the null terminator isn't needed
-			for( int i=0; p[i] && i<*length; ++i ) {
+			int i=0;
+			for( ; i<*length && p[i]; ++i ) {
 				_value[i] = p[i];
 			}
-			return p + (*length);
+			*length = i;	// shorter if the text ends within the character
+			return p + i;
 		}
 		else
 		{
-- 
2.43.0


From 2f5a05a5419cca7da974883b0f39f163cc47eeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:54 +0000
Subject: [PATCH 12/23] fix: limit the nesting depth of XML elements

Deeply nested text exhausted the stack of the recursive parser.
---
 urdf_parser/tinyxml/tinyxmlparser.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/urdf_parser/tinyxml/tinyxmlparser.cpp b/urdf_parser/tinyxml/tinyxmlparser.cpp
index 055c0f7..7127d46 100644
--- a/urdf_parser/tinyxml/tinyxmlparser.cpp
+++ b/urdf_parser/tinyxml/tinyxmlparser.cpp
@@ -176,12 +176,17 @@ class TiXmlParsingData
 
 	const TiXmlCursor& Cursor() const	{ return cursor; }
 
+	// Elements are parsed, printed and destroyed recursively.
+	enum { MAX_DEPTH = 500 };
+	int				depth;
+
   private:
 	// Only used by the document!
 	TiXmlParsingData( const char* start, int _tabsize, int row, int col )
 	{
 		assert( start );
 		stamp = start;
+		depth = 0;
 		tabsize = _tabsize;
 		cursor.row = row;
 		cursor.col = col;
@@ -1112,7 +1117,14 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 			// Read the value -- which can include other
 			// elements -- read the end tag, and return.
 			++p;
+			if ( data && data->depth >= TiXmlParsingData::MAX_DEPTH )
+			{
+				if ( document ) document->SetError( TIXML_ERROR_PARSING_ELEMENT, p, data, encoding );
+				return 0;
+			}
+			if ( data ) ++data->depth;
 			p = ReadValue( p, data, encoding );		// Note this is an Element method, and will set the error if one happens.
+			if ( data ) --data->depth;
 			if ( !p || !*p ) {
 				// We were looking for the end tag, but found nothing.
 				// Fix for [ 1663758 ] Failure to report error on bad XML
-- 
2.43.0


From b2d9f8acbe1e858577a4e5d38d3d7686382ea70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:12 +0000
Subject: [PATCH 13/23] fix: release long chains of links without recursion

Destroying a model with a chain of some ten thousand links could exhaust
the stack.
---
 urdf_parser/include/urdf_model/link.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/urdf_parser/include/urdf_model/link.h b/urdf_parser/include/urdf_model/link.h
index 18f2a3d..ea75c64 100644
--- a/urdf_parser/include/urdf_model/link.h
+++ b/urdf_parser/include/urdf_model/link.h
@@ -190,6 +190,23 @@ class Link
 public:
   Link() { this->clear(); };
 
+  ~Link()
+  {
+    // release the links below one by one: recursion overflows on long chains
+    std::vector<LinkSharedPtr> links;
+    links.swap(child_links);
+    while (!links.empty())
+    {
+      const LinkSharedPtr link = links.back();
+      links.pop_back();
+      if (link.use_count() == 1)
+      {
+        links.insert(links.end(), link->child_links.begin(), link->child_links.end());
+        link->child_links.clear();
+      }
+    }
+  }
+
   std::string name;
 
   unsigned int id;
-- 
2.43.0


From 3b6615c73eff0d3ae59e3a66825a4d117fdfa375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:27 +0000
Subject: [PATCH 14/23] fix: solve_com_forward_kinematics no longer answers
 from a stale cache

With a fixed base, every row repeated the first one.
---
 src/wrapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index 663678d..d001694 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -140,6 +140,7 @@ public:
         auto xyzrpy_begin = std::prev(qs[i].end(), 6);
         set_base_pose(xyzrpy_begin);
       }
+      this->clear_cache();
 
       const auto com = this->get_com();
       coms(0, i) = com.x;
-- 
2.43.0


From 203f35e405d6b17ee30c1b97633f31e3a9a3fef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:27 +0000
Subject: [PATCH 15/23] fix: compute_total_inertia_matrix uses the
 configuration it is given

It did not invalidate the cache, and read past a q that is too short.
---
 src/wrapper.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index d001694..8a2efcf 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -183,7 +183,10 @@ public:
   compute_total_inertia_matrix(const std::vector<double> &q,
                                const std::vector<size_t> &joint_ids) {
     // should we take vector of q as input...?
-    this->_set_joint_angles(joint_ids, q);
+    if (q.size() != joint_ids.size()) {
+      throw std::invalid_argument("q must have as many elements as joint_ids");
+    }
+    this->set_joint_angles(joint_ids, q);
     return this->get_total_inertia_matrix();
   }
 
-- 
2.43.0


From a7f7dd342ea826f057d5a7997043fa29f863c687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:27 +0000
Subject: [PATCH 16/23] fix: batch solvers check the size of every
 configuration

Only the first row was checked (and only with a base; reading it was out
of bounds for an empty batch), so short rows were read past their end.
---
 src/wrapper.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index 8a2efcf..a109e89 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -19,6 +19,17 @@ using namespace tinyfk;
 
 class KinematicsModelPyWrapper : public KinematicModel {
 
+private:
+  static void check_dof(const std::vector<std::vector<double>> &qs,
+                        size_t n_dof) {
+    for (const auto &q : qs) {
+      if (q.size() != n_dof) {
+        throw std::invalid_argument(
+            "dof mismatch!! Probably you forget base's (x, y, theta)");
+      }
+    }
+  }
+
 public:
   using KinematicModel::KinematicModel;
 
@@ -71,11 +82,7 @@ public:
     auto n_joints = joint_ids.size();
     auto n_dof = (with_base ? n_joints + 6 : n_joints);
 
-    if (with_base && (n_joints != joint_angles_sequence[0].size() - 6)) {
-      throw std::invalid_argument(
-          "dof mismatch!! Probably you forget base's (x, y, theta)");
-      // TODO this check try to prevent the potentionally buggy procedure below
-    }
+    check_dof(joint_angles_sequence, n_dof);
 
     Eigen::MatrixXd P = Eigen::MatrixXd::Zero(n_pose_dim, n_wp * n_link);
     Eigen::MatrixXd J =
@@ -131,6 +138,10 @@ public:
                                bool with_base, bool with_jacobian) {
     const size_t n_wp = qs.size();
     const size_t n_dof = joint_ids.size() + with_base * 6;
+    check_dof(qs, n_dof);
+    if (forces.size() != action_link_ids.size()) {
+      throw std::invalid_argument("one force per action link is required");
+    }
 
     Eigen::MatrixXd coms = Eigen::MatrixXd::Zero(3, n_wp);
     Eigen::MatrixXd J = Eigen::MatrixXd::Zero(3 * n_wp, n_dof);
@@ -200,6 +211,7 @@ public:
     const size_t n_wp = qs.size();
     const size_t n_joint = joint_ids.size() + with_base * 6;
     const size_t n_check = link_ids1.size();
+    check_dof(qs, n_joint);
 
     Eigen::VectorXd sqdists = Eigen::VectorXd::Zero(n_check * n_wp);
     Eigen::MatrixXd grads = with_grads
-- 
2.43.0


From 46eaaf31cabf6a059d1a170b098ec11dfc783882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 17/23] fix: solve_com_fk reduces the planar Jacobian and takes
 a single vector

Like solve_fk: n + 3 columns for a planar base, and a one-dimensional
array is one configuration.
---
 python/tinyfk/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index 40376b7..0533845 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -170,8 +170,8 @@ class KinematicModel:
 
         if not isinstance(qs, np.ndarray):
             qs = np.array(qs)
-            if qs.ndim == 1:
-                qs = np.expand_dims(qs, axis=0)
+        if qs.ndim == 1:
+            qs = np.expand_dims(qs, axis=0)
         assert isinstance(qs, np.ndarray)
         n_seq, n_dof = qs.shape
 
@@ -193,6 +193,11 @@ class KinematicModel:
         P, J = self._robot.solve_com_forward_kinematics(
             qs, joint_ids, action_link_ids, action_forces, with_base, with_jacobian
         )
+        if base_type == BaseType.PLANER:
+            extrac_indices = np.hstack(
+                (np.arange(n_joint), np.array([n_joint, n_joint + 1, n_joint + 5]))
+            )
+            J = J[:, extrac_indices]
         return P, J
 
     def compute_total_inertia_matrix(self, q: np.ndarray, joint_ids: List[int]) -> np.ndarray:
-- 
2.43.0


From bb75e4d1c2489d54545f0716188e0c386221b900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 18/23] fix: an interrupted or failed sample download is
 retried

The directory was created first and its existence taken as success, so
after a failure the files stayed missing or truncated for good.
---
 python/tinyfk/__init__.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index 0533845..2812611 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -1,5 +1,6 @@
 import copy
 import os
+import warnings
 from enum import Enum
 from pathlib import Path
 from typing import Any, List, Optional, Tuple, Union
@@ -10,12 +11,29 @@ import numpy as np
 from . import _tinyfk  # type: ignore
 
 _cache_dir = Path("~/.tinyfk").expanduser()
-if not _cache_dir.exists():
-    _cache_dir.mkdir()
-    addr_pr2 = "https://raw.githubusercontent.com/HiroIshida/tinyfk/master/data/pr2.urdf"
-    addr_fetch = "https://raw.githubusercontent.com/HiroIshida/tinyfk/master/data/fetch.urdf"
-    urlretrieve(addr_pr2, os.path.join(_cache_dir, "pr2.urdf"))
-    urlretrieve(addr_fetch, os.path.join(_cache_dir, "fetch.urdf"))
+_data_addr = "https://raw.githubusercontent.com/HiroIshida/tinyfk/master/data/"
+
+
+def _download(name: str) -> None:
+    # the file appears under its name only when it is complete
+    path = os.path.join(_cache_dir, name)
+    if os.path.exists(path):
+        return
+    part = "{}.{}.part".format(path, os.getpid())
+    try:
+        _cache_dir.mkdir(exist_ok=True)
+        urlretrieve(_data_addr + name, part)
+        os.replace(part, path)
+    except OSError as e:
+        # retried by the next import
+        warnings.warn("failed to download {}: {}".format(name, e))
+    finally:
+        if os.path.exists(part):
+            os.remove(part)
+
+
+_download("pr2.urdf")
+_download("fetch.urdf")
 
 
 def pr2_urdfpath():
-- 
2.43.0


From 016c4505c503b4968dfb51ecc4672f023f3843b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 19/23] fix: pickle and copy the current state of a model

The replayed histories were lost after one generation, shared between
shallow copies, aliased the caller's arrays, contained refused additions
and missed the configuration left by the batch solvers.
---
 python/tinyfk/__init__.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index 2812611..20a10a5 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -58,9 +58,8 @@ class RotationType(Enum):
 
 # higher layer wrap
 class KinematicModel:
-    # these histories will be used in de-pickling
+    # this history will be used in de-pickling
     _add_new_link_history: List[Any] = []
-    _set_joint_angles_history: List[Any] = []
 
     def __init__(self, urdfpath=None, xml_text=None):
         assert (urdfpath is None) ^ (xml_text is None)
@@ -71,7 +70,6 @@ class KinematicModel:
         self._robot = _tinyfk.RobotModel(xml_text)
 
         self._add_new_link_history = []
-        self._set_joint_angles_history = []
 
     @property
     def root_link_name(self) -> str:
@@ -95,9 +93,6 @@ class KinematicModel:
     def set_q(
         self, joint_ids: List[int], q: np.ndarray, base_type: BaseType = BaseType.FIXED
     ) -> None:
-        args = [joint_ids, q, base_type]
-        self._set_joint_angles_history.append(args)
-
         if base_type == BaseType.PLANER:
             assert len(q) == len(joint_ids) + 3, "{} != {}".format(len(q), len(joint_ids) + 3)
             joint_angles, base_xytheta = q[:-3], q[-3:]
@@ -246,12 +241,11 @@ class KinematicModel:
     def add_new_link(
         self, link_name: str, parent_id: int, position: np.ndarray, rpy: Optional[np.ndarray] = None
     ):
-        args = [link_name, parent_id, position, rpy]
-        self._add_new_link_history.append(args)
-
         if rpy is None:
             rpy = np.zeros(3)
         self._robot.add_new_link(link_name, parent_id, position, rpy)
+        args = [link_name, parent_id, np.array(position), np.array(rpy)]
+        self._add_new_link_history.append(args)
 
     def compute_inter_link_sqdists(
         self,
@@ -298,16 +292,21 @@ class KinematicModel:
     def __getstate__(self):  # pickling
         state = self.__dict__.copy()
         state["_robot"] = None
+        state["_add_new_link_history"] = copy.deepcopy(self._add_new_link_history)
+        joint_ids = self.get_joint_ids(self.get_joint_names())
+        state["_q"] = self.get_q(joint_ids, BaseType.FLOATING)
         return state
 
     def __setstate__(self, state):  # unpickling
+        state = dict(state)
+        q = state.pop("_q")
         self.__dict__.update(state)
         self._robot = _tinyfk.RobotModel(self._xml_text)
 
-        for arg in copy.deepcopy(self._add_new_link_history):
+        history = self._add_new_link_history
+        self._add_new_link_history = []
+        for arg in history:
             self.add_new_link(*arg)
 
-        for arg in copy.deepcopy(self._set_joint_angles_history):
-            self.set_q(*arg)
-        self._add_new_link_history = []
-        self._set_joint_angles_history = []
+        joint_ids = self.get_joint_ids(self.get_joint_names())
+        self.set_q(joint_ids, q, BaseType.FLOATING)
-- 
2.43.0


From e7219a9d690276f9d00db74164e657de30c6a662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:12 +0000
Subject: [PATCH 20/23] fix: export visual and collision names and undeclared
 material references

---
 urdf_parser/src/link.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/urdf_parser/src/link.cpp b/urdf_parser/src/link.cpp
index 009a7e0..8fa72a0 100644
--- a/urdf_parser/src/link.cpp
+++ b/urdf_parser/src/link.cpp
@@ -615,6 +615,8 @@ bool exportVisual(Visual &vis, TiXmlElement *xml)
   //   <material name="Grey"/>
   // </visual>
   TiXmlElement * visual_xml = new TiXmlElement("visual");
+  if (!vis.name.empty())
+    visual_xml->SetAttribute("name", vis.name);
 
   exportPose(vis.origin, visual_xml);
 
@@ -622,6 +624,12 @@ bool exportVisual(Visual &vis, TiXmlElement *xml)
 
   if (vis.material)
     exportMaterial(*vis.material, visual_xml);
+  else if (!vis.material_name.empty())
+  {
+    TiXmlElement *material_xml = new TiXmlElement("material");
+    material_xml->SetAttribute("name", vis.material_name);
+    visual_xml->LinkEndChild(material_xml);
+  }
 
   xml->LinkEndChild(visual_xml);
 
@@ -638,6 +646,8 @@ bool exportCollision(Collision &col, TiXmlElement* xml)
   //   <material name="Grey"/>
   // </collision>
   TiXmlElement * collision_xml = new TiXmlElement("collision");
+  if (!col.name.empty())
+    collision_xml->SetAttribute("name", col.name);
 
   exportPose(col.origin, collision_xml);
 
-- 
2.43.0


From c5e3c0ad893f7182cbdf7bd9c3904f795c820840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 21/23] fix: keep links added to a copy of a model out of the
 other's relevance table

---
 src/tinyfk.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 40f8820..e88c6ff 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -269,18 +269,16 @@ void KinematicModel::update_rptable() {
   int n_dof = joint_ids_.size();
   auto rptable = RelevancePredicateTable(n_link, n_dof);
 
-  for (urdf::JointSharedPtr joint : joints_) {
-    int joint_id = joint_ids_.at(joint->name);
-    urdf::LinkSharedPtr clink = joint->getChildLink();
-    std::stack<urdf::LinkSharedPtr> link_stack;
-    link_stack.push(clink);
-    while (!link_stack.empty()) {
-      auto here_link = link_stack.top();
-      link_stack.pop();
-      rptable.table_[here_link->id][joint_id] = true;
-      for (auto &link : here_link->child_links) {
-        link_stack.push(link);
+  // NOTE: go from each link up to the root. child_links must not be used here,
+  // because it is shared with copies of this model and may have their links
+  for (const urdf::LinkSharedPtr &link : links_) {
+    urdf::LinkSharedPtr here_link = link;
+    while (here_link != nullptr && here_link->parent_joint != nullptr) {
+      const urdf::JointSharedPtr &joint = here_link->parent_joint;
+      if (joint->type != urdf::Joint::FIXED) {
+        rptable.table_[link->id][joint->id] = true;
       }
+      here_link = here_link->getParent();
     }
   }
   rptable_ = rptable;
-- 
2.43.0


From fbc6eb489a53a48755ec1d0a4af8f8ad018cf928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:30 +0000
Subject: [PATCH 22/23] fix: saving an XML document to a full disk reported
 success

TiXmlDocument::SaveFile only looked at the error flag of the stream, which
is not set before the buffered text is written.
---
 urdf_parser/tinyxml/tinyxml.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/urdf_parser/tinyxml/tinyxml.cpp b/urdf_parser/tinyxml/tinyxml.cpp
index 9c161df..ea9f29a 100644
--- a/urdf_parser/tinyxml/tinyxml.cpp
+++ b/urdf_parser/tinyxml/tinyxml.cpp
@@ -1108,7 +1108,8 @@ bool TiXmlDocument::SaveFile( FILE* fp ) const
 		fputc( TIXML_UTF_LEAD_2, fp );
 	}
 	Print( fp, 0 );
-	return (ferror(fp) == 0);
+	// what is still buffered has to reach the file, too
+	return (fflush(fp) == 0) && (ferror(fp) == 0);
 }
 
 
-- 
2.43.0


From 7c75edd03be99c6bbcaa9e1d29c9d2c6aa7cbd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:30 +0000
Subject: [PATCH 23/23] fix: loading an XML document from a folder ended in
 std::bad_alloc

The size of a folder is reported as LONG_MAX; the buffer of one byte more
overflowed, and the open file was never closed.
---
 urdf_parser/tinyxml/tinyxml.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/urdf_parser/tinyxml/tinyxml.cpp b/urdf_parser/tinyxml/tinyxml.cpp
index ea9f29a..c6a1b79 100644
--- a/urdf_parser/tinyxml/tinyxml.cpp
+++ b/urdf_parser/tinyxml/tinyxml.cpp
@@ -23,6 +23,7 @@ distribution.
 */
 
 #include <ctype.h>
+#include <limits.h>
 
 #ifdef TIXML_USE_STL
 #include <sstream>
@@ -1029,6 +1030,13 @@ bool TiXmlDocument::LoadFile( FILE* file, TiXmlEncoding encoding )
 	}
 	*/
 
+	// A folder can be opened, but has no size and cannot be read.
+	if ( length == LONG_MAX )
+	{
+		SetError( TIXML_ERROR_OPENING_FILE, 0, 0, TIXML_ENCODING_UNKNOWN );
+		return false;
+	}
+
 	char* buf = new char[ length+1 ];
 	buf[0] = 0;
 
-- 
2.43.0

