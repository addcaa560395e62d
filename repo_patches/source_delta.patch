From e9117777f3787a3c61de9ec6c2a97c94aa6c50db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 01/52] fix: transmission line serves stale structure
 coordinates after an edit

The class was considered updated when either the alignment or the structure
points were updated, so editing line structures after a query kept returning
the old points.
---
 src/transmissionline/transmission_line.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 9bda5d8..b57febe 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -619,7 +619,7 @@ void TransmissionLine::DeleteInvalidLineStructures() {
 
 bool TransmissionLine::IsUpdated() const {
   return (is_updated_points_xyz_alignment_ == true)
-      || (is_updated_points_xyz_structures_ == true);
+      && (is_updated_points_xyz_structures_ == true);
 }
 
 bool TransmissionLine::IsValidLineCableIndex(const int& index) const {
-- 
2.43.0


From 27a53ed04cdb023a3b7b46f15b92e08de33cbfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 02/52] fix: copy of an updated transmission line has no xyz
 points

The update flags were copied but the cached points were not.
---
 src/transmissionline/transmission_line.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index b57febe..8946fca 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -16,10 +16,9 @@ TransmissionLine::TransmissionLine(const TransmissionLine& that) {
 TransmissionLine& TransmissionLine::operator=(const TransmissionLine& that) {
   // transfers members as-is
   this->alignment_ = that.alignment_;
-  this->is_updated_points_xyz_alignment_ =
-      that.is_updated_points_xyz_alignment_;
-  this->is_updated_points_xyz_structures_ =
-      that.is_updated_points_xyz_structures_;
+  // the cached xyz points are not copied, so an update is required
+  this->is_updated_points_xyz_alignment_ = false;
+  this->is_updated_points_xyz_structures_ = false;
   this->line_cables_ = that.line_cables_;
   this->line_structures_ = that.line_structures_;
   this->origin_ = that.origin_;
-- 
2.43.0


From d77efcfa13bc6e0f124c9d6ca6626ee240a233b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 03/52] fix: modified line structure can be moved off the
 alignment

The first and last structures could be moved up to one station unit outside of
the alignment.
---
 src/transmissionline/transmission_line.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 8946fca..45b37d9 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -307,6 +307,11 @@ bool TransmissionLine::ModifyLineStructure(const int& index,
     return false;
   }
 
+  // checks if station is on the alignment
+  if (alignment_.IsValidStation(structure.station()) == false) {
+    return false;
+  }
+
   // gets station from back structure
   double station_back = alignment_.points()->front().station - 1;
   const LineStructure* structure_back = nullptr;
-- 
2.43.0


From ad98399cbd697f236c376906892ad94b31b9a8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 04/52] fix: line cables are not sorted by starting structure
 and attachment

---
 src/transmissionline/transmission_line.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 45b37d9..3aaeadb 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -97,8 +97,9 @@ int TransmissionLine::AddLineCable(const LineCable& line_cable) {
     const int index_attachment_list = connection_list.index_attachment;
 
     // checks if list connection indexes are larger than new connection indexes
-    if ((index_structure <= index_structure_list)
-         && (index_attachment < index_attachment_list)) {
+    if ((index_structure < index_structure_list)
+         || ((index_structure == index_structure_list)
+             && (index_attachment < index_attachment_list))) {
       // position is found
       break;
     }
-- 
2.43.0


From fa3982fc54ad7aa858097114f38d8b0446f825bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:48 +0000
Subject: [PATCH 05/52] fix: line cable connections with invalid hardware are
 accepted as valid

Terminal connections without dead-end hardware and interior connections without
suspension hardware only produced a message, so line cables were kept on the
transmission line after a terminating connection was removed, and the result of
the connection validation was ignored by the line cable validation.
---
 src/transmissionline/line_cable.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/transmissionline/line_cable.cc b/src/transmissionline/line_cable.cc
index f971f74..74edd00 100644
--- a/src/transmissionline/line_cable.cc
+++ b/src/transmissionline/line_cable.cc
@@ -4,6 +4,7 @@
 #include "models/transmissionline/line_cable.h"
 
 #include <cmath>
+#include <vector>
 
 #include "models/transmissionline/cable_unit_load_solver.h"
 #include "models/transmissionline/catenary_solver.h"
@@ -235,7 +236,9 @@ bool LineCable::Validate(const bool& is_included_warnings,
   }
 
   // validates connections
-  ValidateConnections(is_included_warnings, messages);
+  if (ValidateConnections(is_included_warnings, messages) == false) {
+    is_valid = false;
+  }
 
   // returns validation status
   return is_valid;
@@ -267,6 +270,7 @@ bool LineCable::ValidateConnections(const bool& /*is_included_warnings*/,
           || (connection == &connections_.back())) {
         // checks for dead-end hardware at start and end connections
         if (hardware->type != Hardware::HardwareType::kDeadEnd) {
+          is_valid = false;
           message.description = "Terminal line cable connection does not have "
                                 "dead-end type hardware";
           if (messages != nullptr) {
@@ -276,6 +280,7 @@ bool LineCable::ValidateConnections(const bool& /*is_included_warnings*/,
       } else {
         // checks for suspension hardware at all middle connections
         if (hardware->type != Hardware::HardwareType::kSuspension) {
+          is_valid = false;
           message.description = "Interior line cable connection does not have "
                                 "suspension type hardware";
           if (messages != nullptr) {
-- 
2.43.0


From 9713466755481a47cc5be9ad998202c0bc35ab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:02 +0000
Subject: [PATCH 06/52] fix: crash when line cable is connected to attachment
 without hardware

---
 src/transmissionline/line_cable.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/transmissionline/line_cable.cc b/src/transmissionline/line_cable.cc
index 74edd00..99a5c19 100644
--- a/src/transmissionline/line_cable.cc
+++ b/src/transmissionline/line_cable.cc
@@ -264,8 +264,22 @@ bool LineCable::ValidateConnections(const bool& /*is_included_warnings*/,
          iter++) {
       const LineCableConnection* connection = &(*iter);
       const LineStructure* structure = connection->line_structure;
-      const Hardware* hardware =
-          structure->hardwares()->at(connection->index_attachment);
+      const std::vector<const Hardware*>* hardwares = structure->hardwares();
+
+      // checks that attachment exists and has hardware
+      const int kSizeHardwares = hardwares->size();
+      if ((connection->index_attachment < 0)
+          || (kSizeHardwares <= connection->index_attachment)
+          || (hardwares->at(connection->index_attachment) == nullptr)) {
+        is_valid = false;
+        message.description = "Line cable connection does not have hardware";
+        if (messages != nullptr) {
+          messages->push_back(message);
+        }
+        continue;
+      }
+
+      const Hardware* hardware = hardwares->at(connection->index_attachment);
       if ((connection == &connections_.front())
           || (connection == &connections_.back())) {
         // checks for dead-end hardware at start and end connections
-- 
2.43.0


From 9b06c163b790ad1b5e5da9ae64e6911008d5d432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:02 +0000
Subject: [PATCH 07/52] fix: undefined behavior when alignment does not have
 any points

---
 src/transmissionline/alignment.cc         | 5 +++++
 src/transmissionline/transmission_line.cc | 6 +-----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/transmissionline/alignment.cc b/src/transmissionline/alignment.cc
index a712692..b9bd894 100644
--- a/src/transmissionline/alignment.cc
+++ b/src/transmissionline/alignment.cc
@@ -122,6 +122,11 @@ int Alignment::IndexSegment(const double& station) const {
 }
 
 bool Alignment::IsValidStation(const double& station) const {
+  // checks if alignment has any points
+  if (points_.empty() == true) {
+    return false;
+  }
+
   // gets the first and last alignment points
   const AlignmentPoint& point_front = points_.front();
   const AlignmentPoint& point_back = points_.back();
diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 3aaeadb..1208a9e 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -602,15 +602,11 @@ void TransmissionLine::DeleteInvalidLineCables() {
 }
 
 void TransmissionLine::DeleteInvalidLineStructures() {
-  const double station_min = alignment_.points()->front().station;
-  const double station_max = alignment_.points()->back().station;
-
   // clears line structures outside of alignment
   auto iter = line_structures_.cbegin();
   while (iter != line_structures_.cend()) {
     const LineStructure& line_structure = *iter;
-    const double station = line_structure.station();
-    if ((station < station_min) || (station_max < station)) {
+    if (alignment_.IsValidStation(line_structure.station()) == false) {
       // clears any references to the structure and deletes
       const int index = std::distance(line_structures_.cbegin(), iter);
       DeleteConnectionsFromStructure(index);
-- 
2.43.0


From a7cae71e588f8cea9fd2a9afce7359d33755abfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:02 +0000
Subject: [PATCH 08/52] fix: exception when line structure is on an alignment
 with a single point

---
 src/transmissionline/transmission_line.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 1208a9e..a11fa84 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -641,19 +641,18 @@ Point3d<double> TransmissionLine::PointXyzAlignmentFromStation(
     return Point3d<double>();
   }
 
-  // gets the back and ahead xyz points
+  // gets the back xyz and alignment points
   const Point3d<double>& point_xyz_back =
       points_xyz_alignment_.at(index_segment);
-  const Point3d<double>& point_xyz_ahead =
-      points_xyz_alignment_.at(index_segment + 1);
-
-  // gets back and ahead alignment points
   const AlignmentPoint& point_align_back =
       *std::next(alignment_.points()->cbegin(), index_segment);
   if (station == point_align_back.station) {
     return point_xyz_back;
   }
 
+  // gets the ahead xyz and alignment points
+  const Point3d<double>& point_xyz_ahead =
+      points_xyz_alignment_.at(index_segment + 1);
   const AlignmentPoint& point_align_ahead =
       *std::next(alignment_.points()->cbegin(), index_segment + 1);
   if (station == point_align_ahead.station) {
@@ -800,6 +799,11 @@ Vector2d TransmissionLine::VectorXyAlignmentStructure(const int& index) const {
   const std::list<AlignmentPoint>* points = alignment_.points();
   const int index_segment = alignment_.IndexSegment(line_structure.station());
 
+  // checks if alignment only has a single point, and has no segments
+  if (points->size() == 1) {
+    return Vector2d(1, 0);
+  }
+
   // checks if line structure station matches first or last alignment point
   // these are the only points where there isn't two alignment vectors to
   // average
-- 
2.43.0


From 99451fb4b4b87bf9d1ab5e7519ae8dbe31cea18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:02 +0000
Subject: [PATCH 09/52] fix: undefined behavior when searching for connections
 of an invalid structure

---
 src/transmissionline/transmission_line.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index a11fa84..f5001e0 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -202,6 +202,11 @@ bool TransmissionLine::DeleteLineStructure(const int& index) {
 
 bool TransmissionLine::HasConnection(const int& index_structure,
                                      const int& index_attachment) const {
+  // checks index
+  if (IsValidLineStructureIndex(index_structure) == false) {
+    return false;
+  }
+
   // gets line structure
   auto iter_structure = std::next(line_structures_.cbegin(), index_structure);
   const LineStructure* line_structure = &(*iter_structure);
-- 
2.43.0


From 757d44b2deafd8c1f3ca90bb5d609650a9afd3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:20 +0000
Subject: [PATCH 10/52] fix: hardware swing of suspension attachments depends
 on line orientation

---
 .../cable_position_locator.cc                 | 42 ++++++++++++-------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/transmissionline/cable_position_locator.cc b/src/transmissionline/cable_position_locator.cc
index 55d387b..ffc2fa2 100644
--- a/src/transmissionline/cable_position_locator.cc
+++ b/src/transmissionline/cable_position_locator.cc
@@ -321,7 +321,8 @@ bool CablePositionLocator::InitializePointsHardware() const {
     const Point3d<double>& point_ahead = points_structure_[index + 1];
 
     // creates unit vectors from current point to back and ahead points
-    // adds the unit vectors together to get the bisect orientation
+    // subtracts the unit vectors to get the path orientation, which is always
+    // perpendicular to the bisect, even if there is no line angle
     Vector2d vector_back;
     vector_back.set_x(point_back.x - point_current.x);
     vector_back.set_y(point_back.y - point_current.y);
@@ -332,18 +333,18 @@ bool CablePositionLocator::InitializePointsHardware() const {
     vector_ahead.set_y(point_ahead.y - point_current.y);
     vector_ahead.Scale(1 / vector_ahead.Magnitude());
 
-    Vector2d vector_combined;
-    vector_combined.set_x(vector_back.x() + vector_ahead.x());
-    vector_combined.set_y(vector_back.y() + vector_ahead.y());
+    Vector2d vector_path;
+    vector_path.set_x(vector_ahead.x() - vector_back.x());
+    vector_path.set_y(vector_ahead.y() - vector_back.y());
 
     // gets the hardware assembly at the connection
     const Hardware* hardware = hardwares_[index];
 
     // creates the starting spherical coordinate that is oriented in the
-    // vertical plane
+    // vertical plane, with the x-axis angle to the left of the path
     SphericalPoint3d<double> point;
     point.radius = hardware->length;
-    point.angle_x = vector_combined.Angle();
+    point.angle_x = vector_path.Angle() + 90;
     point.angle_z = 180;
 
     points_hardware_[index] = point;
@@ -498,15 +499,16 @@ double CablePositionLocator::UpdatePointsHardware() const {
     vector_ahead.Scale(1 / vector_ahead.Magnitude());
     const double angle_ahead = vector_ahead.Angle();
 
-    const double angle_catenaries = std::abs(angle_ahead - angle_back);
-
+    // solves for the angle between the catenaries (on the left side)
     // determines the direction of the line angle
-    AxisDirectionType direction_line_angle;
-    vector_back.Rotate(180);
-    const double angle_diff_xy = std::abs(angle_ahead - angle_back);
-    if (angle_diff_xy <= 180) {
-      direction_line_angle = AxisDirectionType::kPositive;
-    } else {
+    double angle_catenaries = angle_back - angle_ahead;
+    if (angle_catenaries < 0) {
+      angle_catenaries += 360;
+    }
+
+    AxisDirectionType direction_line_angle = AxisDirectionType::kPositive;
+    if (180 < angle_catenaries) {
+      angle_catenaries = 360 - angle_catenaries;
       direction_line_angle = AxisDirectionType::kNegative;
     }
 
@@ -515,13 +517,21 @@ double CablePositionLocator::UpdatePointsHardware() const {
 
     // updates the equilibrium solver
     solver_equilibrium.set_angle_catenaries(angle_catenaries);
-    solver_equilibrium.set_angle_hardware(point_hardware.angle_z);
+    if (direction_line_angle == AxisDirectionType::kPositive) {
+      solver_equilibrium.set_angle_hardware(point_hardware.angle_z);
+    } else {
+      solver_equilibrium.set_angle_hardware(360 - point_hardware.angle_z);
+    }
     solver_equilibrium.set_catenary_back(&catenary_back);
     solver_equilibrium.set_catenary_ahead(&catenary_ahead);
     solver_equilibrium.set_direction_catenaries(direction_line_angle);
 
-    // updates the hardware point z-axis angle
+    // updates the hardware point z-axis angle, which is relative to the left
+    // side of the path
     point_hardware.angle_z = solver_equilibrium.AngleEquilibrium();
+    if (direction_line_angle == AxisDirectionType::kNegative) {
+      point_hardware.angle_z = 360 - point_hardware.angle_z;
+    }
 
     // updates the max tension imbalance
     const double tension_imbalance = solver_equilibrium.TensionImbalance();
-- 
2.43.0


From e15fd3e6232bb3df2c8567be34e50de03a996772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 11/52] fix: undefined behavior in cable position locator for
 invalid cable/span index or line

---
 src/transmissionline/cable_position_locator.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/transmissionline/cable_position_locator.cc b/src/transmissionline/cable_position_locator.cc
index ffc2fa2..2047cef 100644
--- a/src/transmissionline/cable_position_locator.cc
+++ b/src/transmissionline/cable_position_locator.cc
@@ -33,7 +33,7 @@ std::list<Point3d<double>> CablePositionLocator::PointsCable(
   }
 
   // determines if span index is valid
-  if ((index_span < 0) || (size_connections_ - 1 < index_span)) {
+  if ((index_span < 0) || (size_connections_ - 1 <= index_span)) {
     return points;
   }
 
@@ -174,6 +174,11 @@ bool CablePositionLocator::Validate(const bool& is_included_warnings,
     }
   }
 
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
+  }
+
   // validates update process
   if (Update() == false) {
     is_valid = false;
@@ -236,11 +241,6 @@ const Vector3d* CablePositionLocator::weight_unit() const {
 bool CablePositionLocator::InitializeConnectionData() const {
   // gets the line cable
   const std::list<LineCable>* line_cables = line_->line_cables();
-  const int kSizeLineCables = line_cables->size();
-  if ((index_cable_ < 0) || (kSizeLineCables <= index_cable_)) {
-    return false;
-  }
-
   const LineCable& line_cable = *std::next(line_cables->cbegin(), index_cable_);
 
   // adds data for every connection
@@ -282,6 +282,11 @@ bool CablePositionLocator::InitializeConnectionData() const {
 bool CablePositionLocator::InitializeContainers() const {
   // gets the line cable
   const std::list<LineCable>* line_cables = line_->line_cables();
+  const int kSizeLineCables = line_cables->size();
+  if ((index_cable_ < 0) || (kSizeLineCables <= index_cable_)) {
+    return false;
+  }
+
   const LineCable& line_cable = *std::next(line_cables->cbegin(), index_cable_);
 
   // caches the number of connections
-- 
2.43.0


From 16c0626d0ce652c5c56ce0fcf6bc2867221ec6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:23 +0000
Subject: [PATCH 12/52] fix: crash when validating attachment equilibrium
 solver without catenaries

---
 src/transmissionline/cable_attachment_equilibrium_solver.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/cable_attachment_equilibrium_solver.cc b/src/transmissionline/cable_attachment_equilibrium_solver.cc
index 73296df..ac528e5 100644
--- a/src/transmissionline/cable_attachment_equilibrium_solver.cc
+++ b/src/transmissionline/cable_attachment_equilibrium_solver.cc
@@ -98,6 +98,11 @@ bool CableAttachmentEquilibriumSolver::Validate(
     }
   }
 
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
+  }
+
   // validates update process
   if (Update() == false) {
     is_valid = false;
-- 
2.43.0


From 48ac045e505e66e0438201ffef316ed77d3548a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:00 +0000
Subject: [PATCH 13/52] fix: catenary solver misses attainable targets and
 reports unattainable ones on the second query

---
 .../models/transmissionline/catenary_solver.h |  22 ++
 src/transmissionline/catenary_solver.cc       | 290 +++++-------------
 2 files changed, 104 insertions(+), 208 deletions(-)

diff --git a/include/models/transmissionline/catenary_solver.h b/include/models/transmissionline/catenary_solver.h
index 8b77147..0417226 100644
--- a/include/models/transmissionline/catenary_solver.h
+++ b/include/models/transmissionline/catenary_solver.h
@@ -117,6 +117,10 @@ class CatenarySolver {
   const Vector3d weight_unit() const;
 
  private:
+  /// \brief Gets the lowest acceptable horizontal tension for the catenary.
+  /// \return The lowest acceptable horizontal tension for the catenary.
+  double HorizontalTensionMinimum() const;
+
   /// \brief Determines if class is updated.
   /// \return A boolean indicating if class is updated.
   bool IsUpdated() const;
@@ -131,6 +135,16 @@ class CatenarySolver {
   /// \return A boolean indicating the success status of the update.
   bool SolveHorizontalTensionFromLength() const;
 
+  /// \brief Solves and updates catenary horizontal tension by iterating until
+  ///   the target value is matched.
+  /// \param[in] tension_minimum
+  ///   The minimum horizontal tension.
+  /// \param[in] tension_maximum
+  ///   The maximum horizontal tension. If there is no maximum, set to -999999.
+  /// \return A boolean indicating the success status of the update.
+  bool SolveHorizontalTensionFromRange(const double& tension_minimum,
+                                       const double& tension_maximum) const;
+
   /// \brief Solves and updates catenary horizontal tension by converting from
   ///   sag at a specific position on the catenary.
   /// \return A boolean indicating the success status of the update.
@@ -163,6 +177,14 @@ class CatenarySolver {
   double UpdateCatenarySag(const double& tension_horizontal,
                            const double& position_fraction) const;
 
+  /// \brief Updates catenary horizontal tension and calculates the new result
+  ///   for the target type.
+  /// \param[in] tension_horizontal
+  ///   The new horizontal tension for the catenary.
+  /// \return The result correlating to the new horizontal tension of the
+  ///   catenary.
+  double UpdateCatenaryTarget(const double& tension_horizontal) const;
+
   /// \brief Updates catenary horizontal tension and calculates new tension at
   ///   the specified position.
   /// \param[in] tension_horizontal
diff --git a/src/transmissionline/catenary_solver.cc b/src/transmissionline/catenary_solver.cc
index 1270204..83c21ff 100644
--- a/src/transmissionline/catenary_solver.cc
+++ b/src/transmissionline/catenary_solver.cc
@@ -191,6 +191,11 @@ const Vector3d CatenarySolver::weight_unit() const {
   return catenary_.weight_unit();
 }
 
+double CatenarySolver::HorizontalTensionMinimum() const {
+  return Catenary2d::ConstantMinimum(catenary_.spacing_endpoints().Magnitude())
+         * catenary_.weight_unit().Magnitude();
+}
+
 bool CatenarySolver::IsUpdated() const {
   return is_updated_ == true;
 }
@@ -207,82 +212,88 @@ bool CatenarySolver::SolveHorizontalTensionFromConstant() const {
 /// This is done iteratively by adjusting the horizontal tension until the
 /// length is matched.
 bool CatenarySolver::SolveHorizontalTensionFromLength() const {
+  // checks if target length is less than straight line distance
+  if (value_target_ <= catenary_.spacing_endpoints().Magnitude()) {
+    return false;
+  }
+
+  return SolveHorizontalTensionFromRange(HorizontalTensionMinimum(), -999999);
+}
+
+/// The range is narrowed by alternating between linear interpolation, which
+/// converges quickly, and bisection, which always converges.
+bool CatenarySolver::SolveHorizontalTensionFromRange(
+    const double& tension_minimum,
+    const double& tension_maximum) const {
   // x = tension-horizontal
-  // y = length
+  // y = target type result
 
   // initializes target
-  double target_solution = value_target_;
+  const double target_solution = value_target_;
 
   // declares and initializes left point
-  // lowest acceptable value for catenary
   Point2d<double> point_left;
-  point_left.x = Catenary2d::ConstantMinimum(
-      catenary_.spacing_endpoints().Magnitude())
-      * catenary_.weight_unit().Magnitude();
-  point_left.y = UpdateCatenaryLength(point_left.x);
+  point_left.x = tension_minimum;
+  point_left.y = UpdateCatenaryTarget(point_left.x);
 
-  // checks if target length is less than straight line distance
-  if (target_solution <= catenary_.spacing_endpoints().Magnitude()) {
-    return false;
+  // declares and initializes right point
+  // if there isn't a maximum, results decrease when tension increases, so the
+  // tension is increased until the target is in between the points
+  Point2d<double> point_right;
+  if (tension_maximum != -999999) {
+    point_right.x = tension_maximum;
+    point_right.y = UpdateCatenaryTarget(point_right.x);
+  } else {
+    point_right.x = point_left.x * 1.10;
+    point_right.y = UpdateCatenaryTarget(point_right.x);
+    for (int i = 0; (i < 50) && (target_solution < point_right.y); i++) {
+      point_right.x = point_right.x * 2;
+      point_right.y = UpdateCatenaryTarget(point_right.x);
+    }
   }
 
-  // checks if target length is greater than lowest acceptable catenary value
-  if (point_left.y < target_solution) {
+  // checks if target is in between the left and right points
+  const bool is_increasing = point_left.y < point_right.y;
+  if ((is_increasing == true) && ((target_solution < point_left.y)
+                                  || (point_right.y < target_solution))) {
+    return false;
+  } else if ((is_increasing == false) && ((point_left.y < target_solution)
+                                  || (target_solution < point_right.y))) {
     return false;
   }
 
-  // declares and initializes right point to 10,000 H/w
-  Point2d<double> point_right;
-  point_right.x = point_left.x * 1.10;
-  point_right.y = UpdateCatenaryLength(point_right.x);
-
-  // declares and initializes current point
-  Point2d<double> point_current;
-
   // iterates
-  unsigned int iter = 0;
-  const int iter_max = 100;
-  while (0.01 < std::abs(point_left.x - point_right.x) && (iter <= iter_max)) {
-    // gets current point x value using left and right points
-    // calculates tangent line between points, extrapolates using line
-    double slope_line = (point_right.y - point_left.y)
-                        / (point_right.x - point_left.x);
-
-    point_current.x = point_left.x
-                      + ((target_solution - point_left.y) / slope_line);
-
-    // gets current point y value
-    point_current.y = UpdateCatenaryLength(point_current.x);
+  const double precision = 0.0001;
+  int iter = 0;
+  const int iter_max = 200;
+  while ((precision < point_right.x - point_left.x) && (iter < iter_max)) {
+    // gets current point
+    Point2d<double> point_current;
+    point_current.x = (point_left.x + point_right.x) / 2;
+    if ((iter % 2 == 0) && (point_left.y != point_right.y)) {
+      point_current.x = point_left.x
+                        + ((target_solution - point_left.y)
+                           * (point_right.x - point_left.x)
+                           / (point_right.y - point_left.y));
+    }
+    point_current.y = UpdateCatenaryTarget(point_current.x);
 
     // updates either left or right point based on current point
-    if (point_current.x < point_left.x) {
-      point_right.x = point_left.x;
-      point_right.y = point_left.y;
-      point_left.x = point_current.x;
-      point_left.y = point_current.y;
-
-    } else if ((point_left.x < point_current.x)
-        && (point_current.x < point_right.x)) {
-      if (point_current.y < target_solution) {
-        point_right.x = point_current.x;
-        point_right.y = point_current.y;
-      } else if (target_solution < point_current.y) {
-        point_left.x = point_current.x;
-        point_left.y = point_current.y;
-      }
-
-    } else if (point_right.x < point_current.x) {
-      point_left.x = point_right.x;
-      point_left.y = point_right.y;
-      point_right.x = point_current.x;
-      point_right.y = point_current.y;
+    if (point_current.y == target_solution) {
+      point_left = point_current;
+      point_right = point_current;
+    } else if ((point_current.y < target_solution) == is_increasing) {
+      point_left = point_current;
+    } else {
+      point_right = point_current;
     }
+
     iter++;
   }
 
   // returns success status
   if (iter < iter_max) {
-    catenary_.set_tension_horizontal(point_current.x);
+    catenary_.set_tension_horizontal((point_left.x + point_right.x) / 2);
     return true;
   } else {
     catenary_.set_tension_horizontal(-999999);
@@ -293,164 +304,15 @@ bool CatenarySolver::SolveHorizontalTensionFromLength() const {
 /// This is done iteratively by adjusting the horizontal tension until the
 /// sag is matched.
 bool CatenarySolver::SolveHorizontalTensionFromSag() const {
-  // x = tension-horizontal
-  // y = sag
-
-  // initializes target
-  double target_solution = value_target_;
-
-  // declares and initializes left point
-  // lowest acceptable value for catenary
-  Point2d<double> point_left;
-  point_left.x = Catenary2d::ConstantMinimum(
-      catenary_.spacing_endpoints().Magnitude())
-      * catenary_.weight_unit().Magnitude();
-  point_left.y = UpdateCatenarySag(point_left.x, position_target_);
-
-  // target sag is greater than lowest acceptable catenary value
-  if (point_left.y < target_solution) {
-    return false;
-  }
-
-  // declares and initializes right point to 10,000 H/w
-  Point2d<double> point_right;
-  point_right.x = point_left.x * 1.10;
-  point_right.y = UpdateCatenarySag(point_right.x, position_target_);
-
-  // declares and initializes current point
-  Point2d<double> point_current;
-
-  // iterates
-  unsigned int iter = 0;
-  const int iter_max = 100;
-  while (0.01 < std::abs(point_left.x - point_right.x) && (iter <= iter_max)) {
-    // gets current point x value using left and right points
-    // calculates tangent line between points, extrapolates using line
-    double slope_line = (point_right.y - point_left.y)
-                        / (point_right.x - point_left.x);
-
-    point_current.x = point_left.x
-                      + ((target_solution - point_left.y) / slope_line);
-
-    // gets current point y value
-    point_current.y = UpdateCatenarySag(point_current.x, position_target_);
-
-    // updates either left or right point based on current point
-    if (point_current.x < point_left.x) {
-      point_right.x = point_left.x;
-      point_right.y = point_left.y;
-      point_left.x = point_current.x;
-      point_left.y = point_current.y;
-
-    } else if ((point_left.x < point_current.x)
-        && (point_current.x < point_right.x)) {
-      if (point_current.y < target_solution) {
-        point_right.x = point_current.x;
-        point_right.y = point_current.y;
-      } else if (target_solution < point_current.y) {
-        point_left.x = point_current.x;
-        point_left.y = point_current.y;
-      }
-
-    } else if (point_right.x < point_current.x) {
-      point_left.x = point_right.x;
-      point_left.y = point_right.y;
-      point_right.x = point_current.x;
-      point_right.y = point_current.y;
-    }
-    iter++;
-  }
-
-  // returns success status
-  if (iter < iter_max) {
-    catenary_.set_tension_horizontal(point_current.x);
-    return true;
-  } else {
-    catenary_.set_tension_horizontal(-999999);
-    return false;
-  }
+  return SolveHorizontalTensionFromRange(HorizontalTensionMinimum(), -999999);
 }
 
 /// This is done iteratively by adjusting the horizontal tension until the
 /// support tension is matched.
 bool CatenarySolver::SolveHorizontalTensionFromTension() const {
-  // x = tension-horizontal
-  // y = tension-support
-
-  // initializes target
-  double target_solution = value_target_;
-
-  // declares and initializes left point
-  // lowest acceptable value for catenary
-  Point2d<double> point_left;
-  point_left.x = Catenary2d::ConstantMinimum(
-      catenary_.spacing_endpoints().Magnitude())
-      * catenary_.weight_unit().Magnitude();
-  point_left.y = UpdateCatenaryTension(point_left.x, position_target_);
-
-  // target is less than lowest acceptable catenary value
-  if (target_solution < point_left.y) {
-    return false;
-  }
-
-  // declares and initializes right point
-  // highest value (horizontal tension cannot exceed support tension)
-  Point2d<double> point_right;
-  point_right.x = value_target_;
-  point_right.y = UpdateCatenaryTension(point_right.x, position_target_);
-
-  // declares and initializes current point
-  Point2d<double> point_current;
-
-  // iterates
-  unsigned int iter = 0;
-  const int iter_max = 100;
-  while (0.01 < std::abs(point_left.x - point_right.x) && (iter <= iter_max)) {
-    // gets current point x value using left and right points
-    // calculates tangent line between points, extrapolates using line
-    double slope_line = (point_right.y - point_left.y)
-                        / (point_right.x - point_left.x);
-
-    point_current.x = point_left.x
-                      + ((target_solution - point_left.y) / slope_line);
-
-    // gets current point y value
-    point_current.y = UpdateCatenaryTension(point_current.x, position_target_);
-
-    // updates either left or right point based on current point
-    if (point_current.x < point_left.x) {
-      point_right.x = point_left.x;
-      point_right.y = point_left.y;
-      point_left.x = point_current.x;
-      point_left.y = point_current.y;
-
-    } else if ((point_left.x < point_current.x)
-        && (point_current.x < point_right.x)) {
-      if (point_current.y < target_solution) {
-        point_right.x = point_current.x;
-        point_right.y = point_current.y;
-      } else if (target_solution < point_current.y) {
-        point_left.x = point_current.x;
-        point_left.y = point_current.y;
-      }
-
-    } else if (point_right.x < point_current.x) {
-      point_left.x = point_right.x;
-      point_left.y = point_right.y;
-      point_right.x = point_current.x;
-      point_right.y = point_current.y;
-    }
-    iter++;
-  }
-
-  // returns success status
-  if (iter < iter_max) {
-    catenary_.set_tension_horizontal(point_current.x);
-    return true;
-  } else {
-    catenary_.set_tension_horizontal(-999999);
-    return false;
-  }
+  // horizontal tension cannot exceed support tension
+  return SolveHorizontalTensionFromRange(HorizontalTensionMinimum(),
+                                         value_target_);
 }
 
 bool CatenarySolver::Update() const {
@@ -485,6 +347,7 @@ bool CatenarySolver::Update() const {
 
   // validates catenary to make sure that H/w is valid
   if (catenary_.Validate(false, nullptr) == false) {
+    is_updated_ = false;
     return false;
   }
 
@@ -515,6 +378,17 @@ double CatenarySolver::UpdateCatenarySag(
   }
 }
 
+double CatenarySolver::UpdateCatenaryTarget(
+    const double& tension_horizontal) const {
+  if (type_target_ == CatenarySolver::TargetType::kLength) {
+    return UpdateCatenaryLength(tension_horizontal);
+  } else if (type_target_ == CatenarySolver::TargetType::kSag) {
+    return UpdateCatenarySag(tension_horizontal, position_target_);
+  } else {
+    return UpdateCatenaryTension(tension_horizontal, position_target_);
+  }
+}
+
 double CatenarySolver::UpdateCatenaryTension(
     const double& tension_horizontal,
     const double& position_fraction) const {
-- 
2.43.0


From 605f305b4de0c4f96d43cb80166257fa7e376e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:24 +0000
Subject: [PATCH 14/52] fix: cable position is not solved when tension along
 the cable path is unbalanced

---
 .../transmissionline/cable_position_locator.h |  2 +-
 .../cable_position_locator.cc                 | 28 +++++++++++--------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/include/models/transmissionline/cable_position_locator.h b/include/models/transmissionline/cable_position_locator.h
index 18e00bb..536bf71 100644
--- a/include/models/transmissionline/cable_position_locator.h
+++ b/include/models/transmissionline/cable_position_locator.h
@@ -150,7 +150,7 @@ class CablePositionLocator {
   bool UpdatePointsCable() const;
 
   /// \brief Updates the hardware points.
-  /// \return The maximum imbalance tension.
+  /// \return The maximum change in hardware angle.
   double UpdatePointsHardware() const;
 
   /// \var direction_wind_
diff --git a/src/transmissionline/cable_position_locator.cc b/src/transmissionline/cable_position_locator.cc
index 2047cef..8000acd 100644
--- a/src/transmissionline/cable_position_locator.cc
+++ b/src/transmissionline/cable_position_locator.cc
@@ -367,14 +367,17 @@ bool CablePositionLocator::SolveCablePosition() const {
   InitializePointsHardware();
   UpdatePointsCable();
 
-  // iterates until the tension imbalance is within range
-  double tension_imbalance = -999999;
+  // iterates until the hardware is in equilibrium, which is when the angles
+  // stop changing
+  // tension along the cable path may remain unbalanced, since hardware can't
+  // rotate in that direction
+  double angle_change = 999999;
   int iter = 0;
-  const double precision = 5;
-  while ((precision <= std::abs(tension_imbalance)) && (iter < 100)) {
+  const double precision = 0.01;
+  while ((precision <= angle_change) && (iter < 100)) {
     // updates hardware points
-    // does a force balance at all points and gets the max tension imbalance
-    tension_imbalance = UpdatePointsHardware();
+    // does a force balance at all points and gets the max angle change
+    angle_change = UpdatePointsHardware();
 
     // updates the cable attachment points
     UpdatePointsCable();
@@ -443,7 +446,7 @@ bool CablePositionLocator::UpdatePointsCable() const {
 }
 
 double CablePositionLocator::UpdatePointsHardware() const {
-  double tension_imbalance_max = 0;
+  double angle_change_max = 0;
 
   Catenary3d catenary_back;
   catenary_back.set_direction_transverse(direction_wind_);
@@ -533,17 +536,18 @@ double CablePositionLocator::UpdatePointsHardware() const {
 
     // updates the hardware point z-axis angle, which is relative to the left
     // side of the path
+    const double angle_z = point_hardware.angle_z;
     point_hardware.angle_z = solver_equilibrium.AngleEquilibrium();
     if (direction_line_angle == AxisDirectionType::kNegative) {
       point_hardware.angle_z = 360 - point_hardware.angle_z;
     }
 
-    // updates the max tension imbalance
-    const double tension_imbalance = solver_equilibrium.TensionImbalance();
-    if (tension_imbalance_max < tension_imbalance) {
-      tension_imbalance_max = tension_imbalance;
+    // updates the max angle change
+    const double angle_change = std::abs(point_hardware.angle_z - angle_z);
+    if (angle_change_max < angle_change) {
+      angle_change_max = angle_change;
     }
   }
 
-  return tension_imbalance_max;
+  return angle_change_max;
 }
-- 
2.43.0


From 8d0794b4a171adf5914bdcdf8cb3ea840d8a9a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:52 +0000
Subject: [PATCH 15/52] fix: copying a polynomial shares and frees its cached
 derivative

---
 include/models/base/polynomial.h | 11 +++++++++++
 src/base/polynomial.cc           | 24 ++++++++++++++++++++++--
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/include/models/base/polynomial.h b/include/models/base/polynomial.h
index e98feae..20f7be4 100644
--- a/include/models/base/polynomial.h
+++ b/include/models/base/polynomial.h
@@ -27,9 +27,20 @@ class Polynomial {
   ///   A list of coefficients.
   explicit Polynomial(const std::vector<double>* coefficients);
 
+  /// \brief Copy constructor.
+  /// \param[in] polynomial
+  ///   The polynomial to copy.
+  Polynomial(const Polynomial& polynomial);
+
   /// \brief Destructor.
   ~Polynomial();
 
+  /// \brief Assignment operator.
+  /// \param[in] polynomial
+  ///   The polynomial to assign.
+  /// \return A reference to the object.
+  Polynomial& operator=(const Polynomial& polynomial);
+
   /// \brief Gets the derivative of the polynomial.
   /// \return A polynomial with derivative coefficients.
   Polynomial Derivative() const;
diff --git a/src/base/polynomial.cc b/src/base/polynomial.cc
index 45aecaa..34c26d1 100644
--- a/src/base/polynomial.cc
+++ b/src/base/polynomial.cc
@@ -8,6 +8,7 @@
 #include "models/base/point.h"
 
 Polynomial::Polynomial() {
+  coefficients_ = nullptr;
   derivative_ = nullptr;
   is_updated_derivative_ = false;
 }
@@ -18,10 +19,27 @@ Polynomial::Polynomial(const std::vector<double>* coefficients) {
   is_updated_derivative_ = false;
 }
 
+/// The cached derivative is owned by the polynomial, so it is not copied.
+Polynomial::Polynomial(const Polynomial& polynomial) {
+  coefficients_ = polynomial.coefficients_;
+  derivative_ = nullptr;
+  is_updated_derivative_ = false;
+}
+
 Polynomial::~Polynomial() {
   delete derivative_;
 }
 
+/// The cached derivative is owned by the polynomial, so it is not copied.
+Polynomial& Polynomial::operator=(const Polynomial& polynomial) {
+  if (this != &polynomial) {
+    coefficients_ = polynomial.coefficients_;
+    is_updated_derivative_ = false;
+  }
+
+  return *this;
+}
+
 Polynomial Polynomial::Derivative() const {
   Polynomial derivative;
 
@@ -71,8 +89,10 @@ bool Polynomial::Validate(const bool& /*is_included_warnings*/,
   // validates update process
   is_valid = Update();
   if (is_valid == false) {
-    message.description = "Error solving derivative coefficients";
-    messages->push_back(message);
+    if (messages != nullptr) {
+      message.description = "Error solving derivative coefficients";
+      messages->push_back(message);
+    }
   }
 
   return is_valid;
-- 
2.43.0


From 5207069cdb3c3ccac05b68bf58a46b9a205c22d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:41 +0000
Subject: [PATCH 16/52] fix: polynomial reports an x value when the solution is
 not reached

---
 include/models/base/polynomial.h | 2 +-
 src/base/polynomial.cc           | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/models/base/polynomial.h b/include/models/base/polynomial.h
index 20f7be4..c11e9ed 100644
--- a/include/models/base/polynomial.h
+++ b/include/models/base/polynomial.h
@@ -73,7 +73,7 @@ class Polynomial {
   ///   must equal the target y value.
   /// \param[in] x_guess
   ///   An x value that is the starting guess for the iterative solution.
-  /// \return The x value.
+  /// \return The x value. If a solution is not reached, -999999 is returned.
   double X(const double& y, const int& decimal_precision_y,
            const double& x_guess) const;
 
diff --git a/src/base/polynomial.cc b/src/base/polynomial.cc
index 34c26d1..95e7245 100644
--- a/src/base/polynomial.cc
+++ b/src/base/polynomial.cc
@@ -138,7 +138,12 @@ double Polynomial::X(const double& y, const int& decimal_precision_y,
     iter++;
   }
 
-  return point_function.x;
+  // checks if a solution was reached
+  if (std::abs(point_function.y) <= precision_y) {
+    return point_function.x;
+  } else {
+    return -999999;
+  }
 }
 
 double Polynomial::Y(const double& x) const {
-- 
2.43.0


From 6f23d20bcb4dca8cf778574797a2f0d2c8f38060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:58 +0000
Subject: [PATCH 17/52] fix: component stretch load is stale after state
 polynomial type changes

---
 src/sagtension/cable_component_elongation_model.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index ab4ff25..5543cdf 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -218,6 +218,8 @@ void CableComponentElongationModel::set_component_cable(
 void CableComponentElongationModel::set_state(const CableState* state) {
   state_ = state;
 
+  // the stretch load is solved on the polynomial type of the state
+  is_updated_stretch_ = false;
   is_updated_state_ = false;
 }
 
-- 
2.43.0


From a5f17e41dc57776adc41bcbfa164583e464ecdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:02 +0000
Subject: [PATCH 18/52] fix: component strain ignores polynomial load scaling

---
 src/sagtension/cable_component_elongation_model.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index 5543cdf..b39ba36 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -522,9 +522,12 @@ double CableComponentElongationModel::StrainPolynomial(
     const Polynomial& polynomial,
     const double& strain_thermal,
     const double& load) const {
+  // applies scaling to convert load to polynomial load
+  const double load_polynomial = load / *component_->scale_polynomial_y();
+
   // gets strain from polynomial
   const double strain_polynomial = polynomial.X(
-      load,  // target value
+      load_polynomial,  // target value
       2,     // precision
       0.1);  // initial guess
 
-- 
2.43.0


From 684f96f6786eaa4f9952bc25c3b24a11391916f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:39 +0000
Subject: [PATCH 19/52] fix: infinite component strain when it does not have a
 compression modulus

---
 src/sagtension/cable_component_elongation_model.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index b39ba36..c548012 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -468,10 +468,15 @@ double CableComponentElongationModel::Strain(
   // selects region based on load value
   if (load < point_unloaded.y) {
     // compressed region
-    strain = StrainLinearExtension(
-        point_unloaded,
-        *component_->modulus_compression_elastic_area(),
-        load);
+    if (*component_->modulus_compression_elastic_area() == 0) {
+      // component has no compressive ability
+      strain = point_unloaded.x;
+    } else {
+      strain = StrainLinearExtension(
+          point_unloaded,
+          *component_->modulus_compression_elastic_area(),
+          load);
+    }
   } else if ((point_unloaded.y <= load)
       && (load <= point_polynomial_start.y)) {
     // stretched region
-- 
2.43.0


From dbf66101b417911e1d586fbd020a857f4bb65791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:02 +0000
Subject: [PATCH 20/52] fix: polynomial shape validation only checks the
 polynomial origin

---
 .../cable_component_elongation_model.cc          | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index c548012..a3ae3f0 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -880,12 +880,14 @@ bool CableComponentElongationModel::ValidatePolynomialShape(
 
   // searches creep polynomial for validation errors
   strain_polynomial_min = StrainPolynomial(polynomial_creep_, 0, 0);
-  strain_polynomial_max = *component_->load_limit_polynomial(
-      SagTensionCableComponent::PolynomialType::kCreep);
+  strain_polynomial_max = StrainPolynomial(
+      polynomial_creep_, 0,
+      *component_->load_limit_polynomial(
+          SagTensionCableComponent::PolynomialType::kCreep));
 
   for (int iter = 0; iter < 50; iter++) {
     // calculates evenly spaced strain values from minimum to maximum values
-    const double strain = strain_polynomial_min + ((iter / 50)
+    const double strain = strain_polynomial_min + ((iter / 50.0)
                           * (strain_polynomial_max - strain_polynomial_min));
 
     // calculates slope at strain point
@@ -918,12 +920,14 @@ bool CableComponentElongationModel::ValidatePolynomialShape(
 
   // searches load-strain polynomial for validation errors
   strain_polynomial_min = StrainPolynomial(polynomial_loadstrain_, 0, 0);
-  strain_polynomial_max = *component_->load_limit_polynomial(
-      SagTensionCableComponent::PolynomialType::kLoadStrain);
+  strain_polynomial_max = StrainPolynomial(
+      polynomial_loadstrain_, 0,
+      *component_->load_limit_polynomial(
+          SagTensionCableComponent::PolynomialType::kLoadStrain));
 
   for (int iter = 0; iter < 50; iter++) {
     // calculates evenly spaced strain values from minimum to maximum values
-    const double strain = strain_polynomial_min + ((iter / 50)
+    const double strain = strain_polynomial_min + ((iter / 50.0)
                           * (strain_polynomial_max - strain_polynomial_min));
 
     // calculates slope at strain point
-- 
2.43.0


From 8eb194cba273402ed30f80815e77c46334d2dfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:04 +0000
Subject: [PATCH 21/52] fix: cable strain in compression is always that of the
 first region point

---
 src/sagtension/cable_elongation_model.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index de4ba5d..f8652e8 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -282,6 +282,11 @@ double CableElongationModel::StrainCombined(
   // x = strain
   // y = load
 
+  // checks if any components are enabled
+  if (points_regions_.empty() == true) {
+    return -999999;
+  }
+
   // determines which region the target load is in, and sets left and right
   // points
   const Point2d<double>& point_regions_min = *points_regions_.cbegin();
@@ -293,9 +298,12 @@ double CableElongationModel::StrainCombined(
   if (load <= point_regions_min.y) {
     // determines if core and/or shell can be compressed
     bool is_compressible_core =
-        cable_->component_core()->modulus_compression_elastic_area() == 0;
+        (cable_->IsEnabled(SagTensionCable::ComponentType::kCore) == true)
+        && (*cable_->component_core()->modulus_compression_elastic_area() != 0);
     bool is_compressible_shell =
-        cable_->component_shell()->modulus_compression_elastic_area() == 0;
+        (cable_->IsEnabled(SagTensionCable::ComponentType::kShell) == true)
+        && (*cable_->component_shell()->modulus_compression_elastic_area()
+            != 0);
 
     if ((is_compressible_core == false) && (is_compressible_shell == false)) {
       // cable has no compressive ability, returns minimum value
@@ -320,8 +328,8 @@ double CableElongationModel::StrainCombined(
   // load is between the points in the sorted collection
   } else {
     // searches for boundary region points
-    for (auto iter = points_regions_.cbegin(); iter != points_regions_.cend();
-         iter++) {
+    for (auto iter = points_regions_.cbegin();
+         iter != points_regions_.cend() - 1; iter++) {
       point_left = *iter;
       point_right = *(iter + 1);
 
-- 
2.43.0


From d3663ad63a327eba077eef932e7784231015d6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:08 +0000
Subject: [PATCH 22/52] fix: validating cable elongation model changes the
 component stretch

---
 src/sagtension/cable_elongation_model.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index f8652e8..ff93740 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -619,7 +619,7 @@ bool CableElongationModel::ValidateComponentsStrainUnloaded(
 
   // determines if this check is necessary, both core and shell must be enabled
   if ((cable_->IsEnabled(SagTensionCable::ComponentType::kCore) == false)
-      || (cable_->IsEnabled(SagTensionCable::ComponentType::kCore) == false)) {
+      || (cable_->IsEnabled(SagTensionCable::ComponentType::kShell) == false)) {
     return is_valid;
   }
 
@@ -665,10 +665,10 @@ bool CableElongationModel::ValidateComponentsStrainUnloaded(
 
   // restores component states
   model_core_.set_state(&state_);
-  model_core_.set_state_stretch(&state_stretch_);
+  model_core_.set_state_stretch(&state_stretch_core_);
 
   model_shell_.set_state(&state_);
-  model_shell_.set_state_stretch(&state_stretch_);
+  model_shell_.set_state_stretch(&state_stretch_shell_);
 
   return is_valid;
 }
-- 
2.43.0


From 575aa6fff57031c3af962b87b27449446ed0c7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:22 +0000
Subject: [PATCH 23/52] fix: copied cable elongation model references states of
 its source

---
 .../sagtension/cable_elongation_model.h       | 11 +++++++
 src/sagtension/cable_elongation_model.cc      | 29 +++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/include/models/sagtension/cable_elongation_model.h b/include/models/sagtension/cable_elongation_model.h
index 364af76..ec4c188 100644
--- a/include/models/sagtension/cable_elongation_model.h
+++ b/include/models/sagtension/cable_elongation_model.h
@@ -73,9 +73,20 @@ class CableElongationModel {
   /// \brief Default constructor.
   CableElongationModel();
 
+  /// \brief Copy constructor.
+  /// \param[in] model
+  ///   The model to copy.
+  CableElongationModel(const CableElongationModel& model);
+
   /// \brief Destructor.
   ~CableElongationModel();
 
+  /// \brief Assignment operator.
+  /// \param[in] model
+  ///   The model to assign.
+  /// \return A reference to the object.
+  CableElongationModel& operator=(const CableElongationModel& model);
+
   /// \brief Gets the load.
   /// \param[in] type_component
   ///   The model component type.
diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index ff93740..22d5ace 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -31,9 +31,38 @@ CableElongationModel::CableElongationModel() {
   is_updated_stretch_ = false;
 }
 
+/// The component models reference the states of the model that owns them, so
+/// they are updated instead of copying the references.
+CableElongationModel::CableElongationModel(const CableElongationModel& model) {
+  cable_ = model.cable_;
+  model_core_ = model.model_core_;
+  model_shell_ = model.model_shell_;
+  state_ = model.state_;
+  state_stretch_ = model.state_stretch_;
+
+  is_updated_state_ = false;
+  is_updated_stretch_ = false;
+}
+
 CableElongationModel::~CableElongationModel() {
 }
 
+/// The component models reference the states of the model that owns them, so
+/// they are updated instead of copying the references.
+CableElongationModel& CableElongationModel::operator=(
+    const CableElongationModel& model) {
+  cable_ = model.cable_;
+  model_core_ = model.model_core_;
+  model_shell_ = model.model_shell_;
+  state_ = model.state_;
+  state_stretch_ = model.state_stretch_;
+
+  is_updated_state_ = false;
+  is_updated_stretch_ = false;
+
+  return *this;
+}
+
 double CableElongationModel::Load(
     const CableElongationModel::ComponentType& type_component,
     const double& strain) const {
-- 
2.43.0


From 56bf5688fad99717fc3881f4471330cbb8bcc264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:43 +0000
Subject: [PATCH 24/52] fix: uninitialized enabled status of sag-tension cable
 component

---
 src/sagtension/sag_tension_cable.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sagtension/sag_tension_cable.cc b/src/sagtension/sag_tension_cable.cc
index cbb84b0..92e3fe6 100644
--- a/src/sagtension/sag_tension_cable.cc
+++ b/src/sagtension/sag_tension_cable.cc
@@ -5,6 +5,7 @@
 
 SagTensionCableComponent::SagTensionCableComponent() {
   component_base_ = nullptr;
+  is_enabled_ = false;
 }
 
 SagTensionCableComponent::~SagTensionCableComponent() {
-- 
2.43.0


From 6edc1919bd1f9261e35c3df9672c8ecdd5a8f199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:56 +0000
Subject: [PATCH 25/52] fix: validation ignores invalid cable component and
 stretch state

---
 src/sagtension/cable_state.cc       | 4 +++-
 src/sagtension/sag_tension_cable.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sagtension/cable_state.cc b/src/sagtension/cable_state.cc
index 5d274b3..faad420 100644
--- a/src/sagtension/cable_state.cc
+++ b/src/sagtension/cable_state.cc
@@ -54,7 +54,9 @@ bool CableStretchState::Validate(const bool& is_included_warnings,
   message.title = "CABLE STRETCH STATE";
 
   // validates parent struct
-  CableState::Validate(is_included_warnings, messages);
+  if (CableState::Validate(is_included_warnings, messages) == false) {
+    is_valid = false;
+  }
 
   // validates load
   if (load < 0) {
diff --git a/src/sagtension/sag_tension_cable.cc b/src/sagtension/sag_tension_cable.cc
index 92e3fe6..2a84474 100644
--- a/src/sagtension/sag_tension_cable.cc
+++ b/src/sagtension/sag_tension_cable.cc
@@ -32,7 +32,9 @@ bool SagTensionCableComponent::Validate(
     }
     return is_valid;
   } else {
-    component_base_->Validate(is_included_warnings, messages);
+    if (component_base_->Validate(is_included_warnings, messages) == false) {
+      is_valid = false;
+    }
   }
 
   // validates coefficient-expansion-thermal-linear
-- 
2.43.0


From 2d767b9b34c994ab8a0df5c475c9d76f77dfb43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:43 +0000
Subject: [PATCH 26/52] fix: crash when validating incomplete cable strainer or
 catenary unloader

---
 src/sagtension/cable_strainer.cc          | 18 ++++++++++++++++++
 src/sagtension/catenary_cable_unloader.cc |  9 +++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/sagtension/cable_strainer.cc b/src/sagtension/cable_strainer.cc
index e00f55b..18309c9 100644
--- a/src/sagtension/cable_strainer.cc
+++ b/src/sagtension/cable_strainer.cc
@@ -75,6 +75,24 @@ bool CableStrainer::Validate(const bool& is_included_warnings,
     }
   }
 
+  // validates model-start
+  if (model_elongation_start_ == nullptr) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid start cable model";
+      messages->push_back(message);
+    }
+  }
+
+  // validates model-finish
+  if (model_elongation_finish_ == nullptr) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid finish cable model";
+      messages->push_back(message);
+    }
+  }
+
   // returns if errors are present
   if (is_valid == false) {
     return is_valid;
diff --git a/src/sagtension/catenary_cable_unloader.cc b/src/sagtension/catenary_cable_unloader.cc
index 4a5b564..ae7142f 100644
--- a/src/sagtension/catenary_cable_unloader.cc
+++ b/src/sagtension/catenary_cable_unloader.cc
@@ -60,8 +60,13 @@ const CableElongationModel* CatenaryCableUnloader::model_unloaded() const {
 void CatenaryCableUnloader::set_catenary(const Catenary3d* catenary) {
   catenary_ = catenary;
 
-  strainer_.set_length_start(catenary_->Length());
-  strainer_.set_load_start(catenary_->TensionAverage());
+  if (catenary_ == nullptr) {
+    strainer_.set_length_start(-999999);
+    strainer_.set_load_start(-999999);
+  } else {
+    strainer_.set_length_start(catenary_->Length());
+    strainer_.set_load_start(catenary_->TensionAverage());
+  }
 }
 
 void CatenaryCableUnloader::set_model_reference(
-- 
2.43.0


From a485ebd0c71624ecd3387a20e864cd362ed420cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:44 +0000
Subject: [PATCH 27/52] fix: reloaded catenary loses transverse direction and
 accepts a mismatched length

---
 src/sagtension/catenary_cable_reloader.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/catenary_cable_reloader.cc b/src/sagtension/catenary_cable_reloader.cc
index f90455f..8292064 100644
--- a/src/sagtension/catenary_cable_reloader.cc
+++ b/src/sagtension/catenary_cable_reloader.cc
@@ -195,6 +195,8 @@ const Vector3d* CatenaryCableReloader::weight_unit_reloaded() const {
 
 bool CatenaryCableReloader::InitializeReloadedCatenary() const {
   catenary_reloaded_ = Catenary3d();
+  catenary_reloaded_.set_direction_transverse(
+      catenary_->direction_transverse());
   catenary_reloaded_.set_spacing_endpoints(catenary_->spacing_endpoints());
   catenary_reloaded_.set_tension_horizontal(catenary_->tension_horizontal());
   catenary_reloaded_.set_weight_unit(*weight_unit_reloaded_);
@@ -317,7 +319,7 @@ bool CatenaryCableReloader::SolveReloadedCatenaryTension() const {
   // returns success status
   if (iter < iter_max) {
     // does one last sanity check to see if lengths match
-    return point_current.y < 0.1;
+    return std::abs(point_current.y) < 0.1;
   } else {
     return false;
   }
-- 
2.43.0


From fa3a7f1fd9a498397c71a4fbd423ee036f3835aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:47 +0000
Subject: [PATCH 28/52] fix: copied line cable loader references the cable of
 its source

---
 .../sagtension/line_cable_loader_base.h       | 11 +++++++++
 src/sagtension/line_cable_loader_base.cc      | 23 +++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/include/models/sagtension/line_cable_loader_base.h b/include/models/sagtension/line_cable_loader_base.h
index fb03abc..a97f74c 100644
--- a/include/models/sagtension/line_cable_loader_base.h
+++ b/include/models/sagtension/line_cable_loader_base.h
@@ -35,9 +35,20 @@ class LineCableLoaderBase {
   /// \brief Default constructor.
   LineCableLoaderBase();
 
+  /// \brief Copy constructor.
+  /// \param[in] loader
+  ///   The loader to copy.
+  LineCableLoaderBase(const LineCableLoaderBase& loader);
+
   /// \brief Destructor.
   ~LineCableLoaderBase();
 
+  /// \brief Assignment operator.
+  /// \param[in] loader
+  ///   The loader to assign.
+  /// \return A reference to the object.
+  LineCableLoaderBase& operator=(const LineCableLoaderBase& loader);
+
   /// \brief Gets the stretch state for the creep condition.
   /// \return The stretch state for the creep condition.
   CableStretchState StretchStateCreep() const;
diff --git a/src/sagtension/line_cable_loader_base.cc b/src/sagtension/line_cable_loader_base.cc
index 27b718e..b4b059d 100644
--- a/src/sagtension/line_cable_loader_base.cc
+++ b/src/sagtension/line_cable_loader_base.cc
@@ -15,9 +15,32 @@ LineCableLoaderBase::LineCableLoaderBase() {
   is_updated_stretch_ = false;
 }
 
+/// The cable models reference the sag-tension cable of the loader that owns
+/// them, so they are updated instead of copied.
+LineCableLoaderBase::LineCableLoaderBase(const LineCableLoaderBase& loader) {
+  cable_sagtension_ = loader.cable_sagtension_;
+  line_cable_ = loader.line_cable_;
+
+  is_updated_catenary_constraint_ = false;
+  is_updated_stretch_ = false;
+}
+
 LineCableLoaderBase::~LineCableLoaderBase() {
 }
 
+/// The cable models reference the sag-tension cable of the loader that owns
+/// them, so they are updated instead of copied.
+LineCableLoaderBase& LineCableLoaderBase::operator=(
+    const LineCableLoaderBase& loader) {
+  cable_sagtension_ = loader.cable_sagtension_;
+  line_cable_ = loader.line_cable_;
+
+  is_updated_catenary_constraint_ = false;
+  is_updated_stretch_ = false;
+
+  return *this;
+}
+
 CableStretchState LineCableLoaderBase::StretchStateCreep() const {
   // updates class if necessary
   if ((IsUpdated() == false) && (Update() == false)) {
-- 
2.43.0


From fbe3c1919a45bd662501993b1e47c777e9d63be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:49 +0000
Subject: [PATCH 29/52] fix: crash when validating line cable reloader without
 weathercase

---
 src/sagtension/line_cable_loader_base.cc | 5 ++++-
 src/sagtension/line_cable_reloader.cc    | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/line_cable_loader_base.cc b/src/sagtension/line_cable_loader_base.cc
index b4b059d..475b4fd 100644
--- a/src/sagtension/line_cable_loader_base.cc
+++ b/src/sagtension/line_cable_loader_base.cc
@@ -216,7 +216,10 @@ bool LineCableLoaderBase::Update() const {
     return false;
   }
 
-  InitializeLineCableModels();
+  is_updated_catenary_constraint_ = InitializeLineCableModels();
+  if (is_updated_catenary_constraint_ == false) {
+    return false;
+  }
 
   is_updated_catenary_constraint_ = UpdateConstraintCableModel();
   if (is_updated_catenary_constraint_ == false) {
diff --git a/src/sagtension/line_cable_reloader.cc b/src/sagtension/line_cable_reloader.cc
index 3ca7d06..5bff899 100644
--- a/src/sagtension/line_cable_reloader.cc
+++ b/src/sagtension/line_cable_reloader.cc
@@ -201,6 +201,11 @@ bool LineCableReloader::Update() const {
 }
 
 bool LineCableReloader::UpdateReloadedCableModel() const {
+  // checks if weathercase is defined
+  if (weathercase_reloaded_ == nullptr) {
+    return false;
+  }
+
   // builds cable states based on reloaded weathercase and stretch
   CableState state;
   state.temperature = weathercase_reloaded_->temperature_cable;
-- 
2.43.0


From 82a83407bf3e2e3f2aa1875bccc6dfc02538cd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:50 +0000
Subject: [PATCH 30/52] fix: crash when validating line cable sagger without
 design constraints

---
 src/sagtension/line_cable_sagger.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/sagtension/line_cable_sagger.cc b/src/sagtension/line_cable_sagger.cc
index 3d721ec..68150b9 100644
--- a/src/sagtension/line_cable_sagger.cc
+++ b/src/sagtension/line_cable_sagger.cc
@@ -96,11 +96,20 @@ bool LineCableSagger::Validate(const bool& is_included_warnings,
   message.title = "LINE CABLE SAGGER";
 
   // validates constraints-design
-  for (auto iter = constraints_design_->cbegin();
-       iter != constraints_design_->cend(); iter++) {
-    const CableConstraint& constraint = *iter;
-    if (constraint.Validate(is_included_warnings, messages) == false) {
-      is_valid = false;
+  if ((constraints_design_ == nullptr)
+      || (constraints_design_->empty() == true)) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid design constraints";
+      messages->push_back(message);
+    }
+  } else {
+    for (auto iter = constraints_design_->cbegin();
+         iter != constraints_design_->cend(); iter++) {
+      const CableConstraint& constraint = *iter;
+      if (constraint.Validate(is_included_warnings, messages) == false) {
+        is_valid = false;
+      }
     }
   }
 
-- 
2.43.0


From e53a65354faaf302759b645103c97f792f3b4c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:52 +0000
Subject: [PATCH 31/52] fix: sagged line cable keeps old limit for length and
 sag constraints

---
 src/sagtension/line_cable_sagger.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sagtension/line_cable_sagger.cc b/src/sagtension/line_cable_sagger.cc
index 68150b9..3a328fa 100644
--- a/src/sagtension/line_cable_sagger.cc
+++ b/src/sagtension/line_cable_sagger.cc
@@ -286,6 +286,12 @@ bool LineCableSagger::UpdateLineCableConstraintLimit() const {
   } else if (constraint.type_limit
       == CableConstraint::LimitType::kSupportTension) {
     constraint.limit = catenary.TensionMax();
+  } else if (constraint.type_limit
+      == CableConstraint::LimitType::kLength) {
+    constraint.limit = catenary.Length();
+  } else if (constraint.type_limit
+      == CableConstraint::LimitType::kSag) {
+    constraint.limit = catenary.Sag();
   }
   line_cable_->set_constraint(constraint);
 
-- 
2.43.0


From 3041aebb1356705eeb61da7bbbc45be597b5cb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:10 +0000
Subject: [PATCH 32/52] fix: stretch beyond the polynomial limit is placed on
 the invalid range of the polynomial

---
 src/sagtension/cable_component_elongation_model.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index a3ae3f0..ada870a 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -369,9 +369,19 @@ void CableComponentElongationModel::PointsRegions(
 
   // solves for the polynomial start point
   Point2d<double> point_polynomial_start;
+  // the polynomial isn't valid beyond the limit, so the start point is
+  // extrapolated if the component has been stretched beyond it
   point_polynomial_start.y = load_stretch;
-  point_polynomial_start.x = StrainPolynomial(polynomial, strain_thermal,
-                                              point_polynomial_start.y);
+  if (load_stretch <= load_limit_polynomial) {
+    point_polynomial_start.x = StrainPolynomial(polynomial, strain_thermal,
+                                                point_polynomial_start.y);
+  } else {
+    const double& modulus_extrapolate = (&polynomial == &polynomial_creep_)
+        ? modulus_extrapolate_creep_ : modulus_extrapolate_loadstrain_;
+    point_polynomial_start.x = StrainLinearExtension(point_polynomial_end,
+                                                     modulus_extrapolate,
+                                                     point_polynomial_start.y);
+  }
 
   // solves for unloaded point
   Point2d<double> point_unloaded;
-- 
2.43.0


From d97c080c76fe3edc22af651ed62bb7ed4454afc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:17 +0000
Subject: [PATCH 33/52] fix: compressed cable component is stretched by a
 negative load

---
 src/sagtension/cable_elongation_model.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index 22d5ace..aede1de 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -514,15 +514,19 @@ bool CableElongationModel::UpdateComponentsStretch() const {
   Point2d<double> point_stretch;
   point_stretch.y = state_stretch_.load;
   point_stretch.x = StrainCombined(point_stretch.y);
+  if (point_stretch.x == -999999) {
+    return false;
+  }
 
   // updates component stretch loads
+  // a component that is compressed isn't stretched
   if (cable_->IsEnabled(SagTensionCable::ComponentType::kCore) == true) {
-    state_stretch_core_.load = LoadCore(point_stretch.x);
+    state_stretch_core_.load = std::max(0.0, LoadCore(point_stretch.x));
     model_core_.set_state_stretch(&state_stretch_core_);
   }
 
   if (cable_->IsEnabled(SagTensionCable::ComponentType::kShell) == true) {
-    state_stretch_shell_.load = LoadShell(point_stretch.x);
+    state_stretch_shell_.load = std::max(0.0, LoadShell(point_stretch.x));
     model_shell_.set_state_stretch(&state_stretch_shell_);
   }
 
-- 
2.43.0


From fa75412cd542be76f640fe8baa5f2f071af4eea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:51 +0000
Subject: [PATCH 34/52] fix: component stretch is not solved when transferred
 to the other polynomial

---
 .../cable_component_elongation_model.cc         | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index ada870a..d53c728 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -771,6 +771,11 @@ bool CableComponentElongationModel::UpdateStretch() const {
   unsigned int iter = 0;
   const int iter_max = 100;
 
+  // number of iterations that an end of the bracket has not moved, which halves
+  // its y value so that the solution doesn't stall
+  int iter_fixed_left = 0;
+  int iter_fixed_right = 0;
+
   while ((0.01 < std::abs(point_current.y - target_solution))
          && (iter <= iter_max)) {
     // gets current point x value using left and right points
@@ -802,9 +807,21 @@ bool CableComponentElongationModel::UpdateStretch() const {
       if (point_current.y < target_solution) {
         point_right.x = point_current.x;
         point_right.y = point_current.y;
+
+        iter_fixed_left++;
+        iter_fixed_right = 0;
+        if (1 < iter_fixed_left) {
+          point_left.y = point_left.y / 2;
+        }
       } else if (target_solution < point_current.y) {
         point_left.x = point_current.x;
         point_left.y = point_current.y;
+
+        iter_fixed_right++;
+        iter_fixed_left = 0;
+        if (1 < iter_fixed_right) {
+          point_right.y = point_right.y / 2;
+        }
       }
 
     } else if (point_right.x < point_current.x) {
-- 
2.43.0


From 5f5b16f2a9dc68b3d4c77d7d96368af50377e4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:38 +0000
Subject: [PATCH 35/52] fix: cable strain at zero load ignores a component
 stretched beyond its polynomial limit

---
 src/sagtension/cable_elongation_model.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index aede1de..f174169 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -316,6 +316,8 @@ double CableElongationModel::StrainCombined(
     return -999999;
   }
 
+  const double precision = 1 / std::pow(10, precision_decimal_load);
+
   // determines which region the target load is in, and sets left and right
   // points
   const Point2d<double>& point_regions_min = *points_regions_.cbegin();
@@ -335,8 +337,14 @@ double CableElongationModel::StrainCombined(
             != 0);
 
     if ((is_compressible_core == false) && (is_compressible_shell == false)) {
-      // cable has no compressive ability, returns minimum value
-      return point_regions_min.x;
+      // cable has no compressive ability, returns maximum value that is unloaded
+      auto iter = points_regions_.cbegin();
+      while (((iter + 1) != points_regions_.cend())
+             && ((iter + 1)->y <= point_regions_min.y + precision)) {
+        iter++;
+      }
+
+      return iter->x;
     } else {
       // cable has compressive ability, can extrapolate into compression region
       point_right.x = point_regions_min.x;
@@ -374,7 +382,6 @@ double CableElongationModel::StrainCombined(
   // declares iteration variables
   // iterates until current point load matches target load
   int iter = 1;
-  double precision = 1 / std::pow(10, precision_decimal_load);
   double slope_line =-999999;
 
   while ((precision < std::abs(point_current.y - load)) && (iter < 100)) {
-- 
2.43.0


From 7c52bd9104ef67133086f3eaa7b564631ff857cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:40 +0000
Subject: [PATCH 36/52] fix: catenary reloader does not accept an exact
 solution

---
 src/sagtension/catenary_cable_reloader.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sagtension/catenary_cable_reloader.cc b/src/sagtension/catenary_cable_reloader.cc
index 8292064..6433922 100644
--- a/src/sagtension/catenary_cable_reloader.cc
+++ b/src/sagtension/catenary_cable_reloader.cc
@@ -303,6 +303,9 @@ bool CatenaryCableReloader::SolveReloadedCatenaryTension() const {
       } else if (target_solution < point_current.y) {
         point_left.x = point_current.x;
         point_left.y = point_current.y;
+      } else {
+        // exact solution
+        break;
       }
 
     // current point is right of left/right points
-- 
2.43.0


From 714992b599093e23da4298b0e08b6c9d2bb1f695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:03 +0000
Subject: [PATCH 37/52] fix: clipping and sag corrections of spans that are not
 along the x axis

---
 src/sagging/cable_sag_position_corrector.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sagging/cable_sag_position_corrector.cc b/src/sagging/cable_sag_position_corrector.cc
index 3c1894e..161ec4e 100644
--- a/src/sagging/cable_sag_position_corrector.cc
+++ b/src/sagging/cable_sag_position_corrector.cc
@@ -268,9 +268,12 @@ bool CableSagPositionCorrector::UpdateClippedState() const {
     const Point3d<double>& point_back = (*points_attachment_)[i];
     const Point3d<double>& point_ahead = (*points_attachment_)[i + 1];
 
+    // the horizontal spacing is along the span, regardless of how the span is
+    // oriented in the xy plane
     Vector3d spacing_endpoints;
-    spacing_endpoints.set_x(point_ahead.x - point_back.x);
-    spacing_endpoints.set_y(point_ahead.y - point_back.y);
+    spacing_endpoints.set_x(std::hypot(point_ahead.x - point_back.x,
+                                       point_ahead.y - point_back.y));
+    spacing_endpoints.set_y(0);
     spacing_endpoints.set_z(point_ahead.z - point_back.z);
 
     // updates catenary for span
-- 
2.43.0


From de448557d98e981fb0f4fff3231d88f7d4c72f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:05 +0000
Subject: [PATCH 38/52] fix: crash when validating incomplete sag position
 corrector

---
 src/sagging/cable_sag_position_corrector.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sagging/cable_sag_position_corrector.cc b/src/sagging/cable_sag_position_corrector.cc
index 161ec4e..41f67ab 100644
--- a/src/sagging/cable_sag_position_corrector.cc
+++ b/src/sagging/cable_sag_position_corrector.cc
@@ -135,9 +135,18 @@ bool CableSagPositionCorrector::Validate(
   } else {
     if (points_attachment_->size() <= 1) {
       is_valid = false;
+      if (messages != nullptr) {
+        message.description = "Invalid attachment point count";
+        messages->push_back(message);
+      }
     }
   }
 
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
+  }
+
   // validates update process
   if (Update() == false) {
     is_valid = false;
-- 
2.43.0


From 78282ecfb4e8119f5d98a62db45b251156319f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:06 +0000
Subject: [PATCH 39/52] fix: stopwatch sagger without units is reported valid

---
 src/sagging/stopwatch_sagger.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sagging/stopwatch_sagger.cc b/src/sagging/stopwatch_sagger.cc
index 5db62e6..c907d93 100644
--- a/src/sagging/stopwatch_sagger.cc
+++ b/src/sagging/stopwatch_sagger.cc
@@ -39,6 +39,15 @@ bool StopwatchSagger::Validate(const bool& is_included_warnings,
     is_valid = false;
   }
 
+  // validates units
+  if (units_ == units::UnitSystem::kNull) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid units";
+      messages->push_back(message);
+    }
+  }
+
   return is_valid;
 }
 
-- 
2.43.0


From fbe42d2119955014813cfeb5a263f5e75cc08ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:53 +0000
Subject: [PATCH 40/52] fix: transit below the high end point of a descending
 span is invalid

---
 src/sagging/transit_sagger.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sagging/transit_sagger.cc b/src/sagging/transit_sagger.cc
index 620ce87..5ea232b 100644
--- a/src/sagging/transit_sagger.cc
+++ b/src/sagging/transit_sagger.cc
@@ -3,6 +3,7 @@
 
 #include "models/sagging/transit_sagger.h"
 
+#include <algorithm>
 #include <vector>
 
 #include "models/base/helper.h"
@@ -122,8 +123,10 @@ bool TransitSagger::Validate(const bool& is_included_warnings,
   }
 
   // validates point-transit-z
+  // the transit must be below the highest end point of the catenary
   if ((point_transit_.z == -999999)
-      || (catenary_.spacing_endpoints().z() < point_transit_.z)) {
+      || (std::max(0.0, catenary_.spacing_endpoints().z())
+          < point_transit_.z)) {
     is_valid = false;
     if (messages != nullptr) {
       message.description = "Invalid transit z coordinate";
-- 
2.43.0


From 59ce1a014481b17bc68433b8031444e965fe7c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:04 +0000
Subject: [PATCH 41/52] fix: steady cable solvers keep the result of the
 previous units or weather

---
 src/thermalrating/steady_cable_current_solver.cc     | 2 ++
 src/thermalrating/steady_cable_temperature_solver.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/thermalrating/steady_cable_current_solver.cc b/src/thermalrating/steady_cable_current_solver.cc
index a6fb3a2..85ef28b 100644
--- a/src/thermalrating/steady_cable_current_solver.cc
+++ b/src/thermalrating/steady_cable_current_solver.cc
@@ -124,11 +124,13 @@ void SteadyCableCurrentSolver::set_temperature_cable(
 
 void SteadyCableCurrentSolver::set_units(const units::UnitSystem& units) {
   units_ = units;
+  is_updated_ = false;
 }
 
 void SteadyCableCurrentSolver::set_weather(
     const ThermalRatingWeather* weather) {
   weather_ = weather;
+  is_updated_ = false;
 }
 
 double SteadyCableCurrentSolver::temperature_cable() const {
diff --git a/src/thermalrating/steady_cable_temperature_solver.cc b/src/thermalrating/steady_cable_temperature_solver.cc
index 5ff38a7..5cff6ae 100644
--- a/src/thermalrating/steady_cable_temperature_solver.cc
+++ b/src/thermalrating/steady_cable_temperature_solver.cc
@@ -127,11 +127,13 @@ void SteadyCableTemperatureSolver::set_current(const double& current) {
 
 void SteadyCableTemperatureSolver::set_units(const units::UnitSystem& units) {
   units_ = units;
+  is_updated_ = false;
 }
 
 void SteadyCableTemperatureSolver::set_weather(
     const ThermalRatingWeather* weather) {
   weather_ = weather;
+  is_updated_ = false;
 }
 
 units::UnitSystem SteadyCableTemperatureSolver::units() const {
-- 
2.43.0


From cdfd825385b5bbae99801d3a8a998581873bd740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:05 +0000
Subject: [PATCH 42/52] fix: cable resistance uses the wrong points with more
 than two points

---
 src/thermalrating/thermal_rating_cable.cc | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/thermalrating/thermal_rating_cable.cc b/src/thermalrating/thermal_rating_cable.cc
index 980974b..af48624 100644
--- a/src/thermalrating/thermal_rating_cable.cc
+++ b/src/thermalrating/thermal_rating_cable.cc
@@ -84,15 +84,9 @@ double ThermalRatingCable::Resistance(const double& temperature) const {
   // searches list of points for the closest ones to target temp, starting
   // from the lowest
   while (true) {
-    // stops searching if resistance points bound the target temp
-    if ((point_low->temperature < temperature)
-         && (temperature < point_high->temperature)) {
-      break;
-    }
-
-    // stops searching if both resistance points are greater than target temp
-    if ((point_low->temperature < temperature)
-         && (point_high->temperature < temperature)) {
+    // stops searching if resistance points bound the target temp, or if both
+    // resistance points are greater than target temp
+    if (temperature <= point_high->temperature) {
       break;
     }
 
-- 
2.43.0


From 6197997291c0d7edddb4dc459265ed70c63279a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:06 +0000
Subject: [PATCH 43/52] fix: convection heat is not a number when cable is
 cooler than the air

---
 .../cable_heat_transfer_solver.cc              | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/thermalrating/cable_heat_transfer_solver.cc b/src/thermalrating/cable_heat_transfer_solver.cc
index a96ab1a..3e39976 100644
--- a/src/thermalrating/cable_heat_transfer_solver.cc
+++ b/src/thermalrating/cable_heat_transfer_solver.cc
@@ -77,11 +77,17 @@ double CableHeatTransferSolver::HeatConvection(
       temperature_cable);
 
   // determines which method of convection is highest and saves it
-  // switches sign to indicate that heat is removed
+  double heat_convection = heat_convection_natural;
   if (heat_convection_natural < heat_convection_forced) {
-    return -1 * heat_convection_forced;
+    heat_convection = heat_convection_forced;
+  }
+
+  // switches sign to indicate that heat is removed, unless the cable is cooler
+  // than the air
+  if (temperature_cable < weather_->temperature_air) {
+    return heat_convection;
   } else {
-    return -1 * heat_convection_natural;
+    return -1 * heat_convection;
   }
 }
 
@@ -222,13 +228,13 @@ double CableHeatTransferSolver::HeatConvectionForced(
       factor_wind_direction
       * (1.01 + 1.35 * std::pow(num_reynolds, 0.52))
       * conductivity_air
-      * (temperature_cable - weather_->temperature_air);
+      * std::abs(temperature_cable - weather_->temperature_air);
 
   const double heat_convection_forced_2 =
       factor_wind_direction
       * 0.754 * std::pow(num_reynolds, 0.6)
       * conductivity_air
-      * (temperature_cable - weather_->temperature_air);
+      * std::abs(temperature_cable - weather_->temperature_air);
 
   // returns the highest forced convection value
   if (heat_convection_forced_1 <= heat_convection_forced_2) {
@@ -254,5 +260,5 @@ double CableHeatTransferSolver::HeatConvectionNatural(
   // calculates
   return k * std::pow(density_air, 0.5)
       * std::pow(*cable_->diameter(), 0.75)
-      * std::pow(temperature_cable - weather_->temperature_air, 1.25);
+      * std::pow(std::abs(temperature_cable - weather_->temperature_air), 1.25);
 }
-- 
2.43.0


From 07db4436dbfda5babfcc157f67e460f132a1def8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:04 +0000
Subject: [PATCH 44/52] fix: steady cable temperature is not found or wrong for
 some currents

The bracket around the solution was updated as if current fell with rising
temperature, an exact hit never ended the iteration, and a missing weather
crashed. The solution is now bracketed and bisected.
---
 .../steady_cable_temperature_solver.cc        | 82 +++++++++++--------
 1 file changed, 47 insertions(+), 35 deletions(-)

diff --git a/src/thermalrating/steady_cable_temperature_solver.cc b/src/thermalrating/steady_cable_temperature_solver.cc
index 5cff6ae..a8bab1b 100644
--- a/src/thermalrating/steady_cable_temperature_solver.cc
+++ b/src/thermalrating/steady_cable_temperature_solver.cc
@@ -159,10 +159,13 @@ bool SteadyCableTemperatureSolver::SolveTemperatureAndState() const {
   // y = current
 
   // initializes target
-  double target_solution = current_;
+  const double target_solution = current_;
 
   // declares and initializes left point
   solver.set_temperature_cable(weather_->temperature_air);
+  if (solver.Validate(false, nullptr) == false) {
+    return false;
+  }
 
   Point2d<double> point_left;
   point_left.x = solver.temperature_cable();
@@ -175,53 +178,56 @@ bool SteadyCableTemperatureSolver::SolveTemperatureAndState() const {
   point_right.x = solver.temperature_cable();
   point_right.y = solver.Current();
 
-  // declares current point
-  Point2d<double> point_current;
-
-  // iterates
+  // iterates until the points are below and above the solution
   unsigned int iter = 0;
-  const int iter_max = 100;
-  while (0.1 < std::abs(point_left.x - point_right.x) && (iter <= iter_max)) {
-    // gets current point x value using left and right points
-    // calculates tangent line between points, extrapolates using line
-    double slope_line = (point_right.y - point_left.y)
-                        / (point_right.x - point_left.x);
+  const unsigned int iter_max = 100;
+  double step = 10;
+  while ((target_solution < point_left.y) && (iter < iter_max)) {
+    point_right = point_left;
+
+    step = 2 * step;
+    solver.set_temperature_cable(point_right.x - step);
+    point_left.x = solver.temperature_cable();
+    point_left.y = solver.Current();
 
-    point_current.x = point_left.x
-                      + ((target_solution - point_left.y) / slope_line);
+    iter++;
+  }
+
+  while ((point_right.y < target_solution) && (iter < iter_max)) {
+    point_left = point_right;
+
+    step = 2 * step;
+    solver.set_temperature_cable(point_left.x + step);
+    point_right.x = solver.temperature_cable();
+    point_right.y = solver.Current();
+
+    iter++;
+  }
+
+  // declares current point
+  Point2d<double> point_current = point_right;
+
+  // iterates until the range that contains the solution is narrow enough
+  while ((0.001 < (point_right.x - point_left.x)) && (iter < iter_max)) {
+    // splits the range
+    point_current.x = (point_left.x + point_right.x) / 2;
 
     // gets current point y value
     solver.set_temperature_cable(point_current.x);
     point_current.y = solver.Current();
 
     // updates either left or right point based on current point
-    if (point_current.x < point_left.x) {
-      point_right.x = point_left.x;
-      point_right.y = point_left.y;
-      point_left.x = point_current.x;
-      point_left.y = point_current.y;
-
-    } else if ((point_left.x < point_current.x)
-        && (point_current.x < point_right.x)) {
-      if (point_current.y < target_solution) {
-        point_right.x = point_current.x;
-        point_right.y = point_current.y;
-      } else if (target_solution < point_current.y) {
-        point_left.x = point_current.x;
-        point_left.y = point_current.y;
-      }
-
-    } else if (point_right.x < point_current.x) {
-      point_left.x = point_right.x;
-      point_left.y = point_right.y;
-      point_right.x = point_current.x;
-      point_right.y = point_current.y;
+    if (point_current.y < target_solution) {
+      point_left = point_current;
+    } else {
+      point_right = point_current;
     }
     iter++;
   }
 
   // caches results and returns success status
-  if (iter < iter_max) {
+  if ((iter < iter_max) && (point_left.y <= target_solution)
+      && (target_solution <= point_right.y)) {
     state_ = solver.StateHeatTransfer();
     temperature_cable_ = point_current.x;
     return true;
@@ -233,6 +239,12 @@ bool SteadyCableTemperatureSolver::SolveTemperatureAndState() const {
 }
 
 bool SteadyCableTemperatureSolver::Update() const {
+  // checks weather, the solution starts from the air temperature
+  if (weather_ == nullptr) {
+    is_updated_ = false;
+    return false;
+  }
+
   // solves for the cable temperature
   is_updated_ = SolveTemperatureAndState();
   if (is_updated_ == false) {
-- 
2.43.0


From d2edbb2504f1596c309ff25d98cc1e5b4360ec60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:05 +0000
Subject: [PATCH 45/52] fix: transient temperature starts from an unsolved
 steady temperature

---
 src/thermalrating/transient_cable_temperature_solver.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/thermalrating/transient_cable_temperature_solver.cc b/src/thermalrating/transient_cable_temperature_solver.cc
index 122d9de..264edfc 100644
--- a/src/thermalrating/transient_cable_temperature_solver.cc
+++ b/src/thermalrating/transient_cable_temperature_solver.cc
@@ -241,6 +241,9 @@ bool TransientCableTemperatureSolver::UpdateTemperaturePoints() const {
     if (time == 0) {
       // calculates steady-state temperature
       point.temperature = TemperatureSteady(current_steady_);
+      if (point.temperature == -999999) {
+        return false;
+      }
     } else {
       // solves for the heat transfer state
       CableHeatTransferState state = HeatTransferState(current_step_,
-- 
2.43.0


From c8ad6ae31ad1fcd622b3d0c7ef6383b00a0f0641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:33 +0000
Subject: [PATCH 46/52] fix: solar radiation is not zero when the sun is below
 the horizon

---
 src/thermalrating/solar_radiation_solver.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/thermalrating/solar_radiation_solver.cc b/src/thermalrating/solar_radiation_solver.cc
index 43dc20d..abfb762 100644
--- a/src/thermalrating/solar_radiation_solver.cc
+++ b/src/thermalrating/solar_radiation_solver.cc
@@ -331,11 +331,20 @@ bool SolarRadiationSolver::SolveAzimuthSolar(
 }
 
 bool SolarRadiationSolver::SolveRadiation() const {
+  // checks if the sun is below the horizon, where the polynomial doesn't apply
+  if (altitude_sun_ <= 0) {
+    radiation_ = 0;
+    return true;
+  }
+
   // calculates the radiation using a polynomial
   // this is the radiation at sea level (elevation = 0)
   Polynomial polynomial;
   polynomial.set_coefficients(&coefficients_atmosphere_);
   radiation_ = polynomial.Y(altitude_sun_);
+  if (radiation_ < 0) {
+    radiation_ = 0;
+  }
 
   // adjusts radiation based on incidence angle and elevation
   const double angle_incidence = AngleIncidence();
-- 
2.43.0


From e5d7a242d543295d80d30e300df0b930ca75954e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:35 +0000
Subject: [PATCH 47/52] fix: azimuth of a sun to the north at noon is reported
 as south

---
 src/thermalrating/solar_radiation_solver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thermalrating/solar_radiation_solver.cc b/src/thermalrating/solar_radiation_solver.cc
index abfb762..732151e 100644
--- a/src/thermalrating/solar_radiation_solver.cc
+++ b/src/thermalrating/solar_radiation_solver.cc
@@ -311,7 +311,7 @@ bool SolarRadiationSolver::SolveAzimuthSolar(
       kC = 0;
     }
   } else if (0 <= angle_hour) {
-    if (chi < 0) {
+    if ((chi < 0) || ((angle_hour == 0) && (term2 < term3))) {
       kC = 360;
     } else {
       kC = 180;
-- 
2.43.0


From e35822ce28806f77d9325ebb17ee32ca905ab422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:25 +0000
Subject: [PATCH 48/52] fix: string that is the start of another compares as
 equal

---
 src/base/helper.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/base/helper.cc b/src/base/helper.cc
index 2b34627..acd9acb 100644
--- a/src/base/helper.cc
+++ b/src/base/helper.cc
@@ -22,6 +22,10 @@ int CompareStrings(const std::string& str1, const std::string& str2) {
   }
 
   // an end of a string is reached
+  if (str1.length() < str2.length()) {
+    return -1;
+  }
+
   return str1.length() > str2.length();
 }
 
-- 
2.43.0


From d81a8893e07a84cc83f73b435f674fd35f82c36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:26 +0000
Subject: [PATCH 49/52] fix: polynomial x value overshoots a solution with a
 small slope

---
 src/base/polynomial.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/base/polynomial.cc b/src/base/polynomial.cc
index 95e7245..6260c09 100644
--- a/src/base/polynomial.cc
+++ b/src/base/polynomial.cc
@@ -123,6 +123,7 @@ double Polynomial::X(const double& y, const int& decimal_precision_y,
   Point2d<double> point_derivative(x_guess, -999999);
 
   // iterates until the value is within tolerance
+  double x_prev = x_guess;
   int iter = 0;
   while (precision_y < std::abs(point_function.y) && (iter < 100)) {
     // calculates y value for shifted polynomial and derivative
@@ -130,6 +131,7 @@ double Polynomial::X(const double& y, const int& decimal_precision_y,
     point_derivative.y = derivative_->Y(point_derivative.x);
 
     // calculates a new x value for shifted polynomial and derivative
+    x_prev = point_function.x;
     if (point_derivative.y != 0) {
       point_function.x = point_function.x
                            - (point_function.y / point_derivative.y);
@@ -139,8 +141,14 @@ double Polynomial::X(const double& y, const int& decimal_precision_y,
   }
 
   // checks if a solution was reached
+  // the x value after the last iteration isn't used if it's not a solution,
+  // which happens if the slope is very small
   if (std::abs(point_function.y) <= precision_y) {
-    return point_function.x;
+    if (std::abs(polynomial_shifted.Y(point_function.x)) <= precision_y) {
+      return point_function.x;
+    } else {
+      return x_prev;
+    }
   } else {
     return -999999;
   }
-- 
2.43.0


From 5a87491fcb09a6cda2584d62e5ae6791d87126f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:48 +0000
Subject: [PATCH 50/52] fix: invalid line cable reloader or unloader reports an
 empty error message

---
 src/sagtension/line_cable_loader_base.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/line_cable_loader_base.cc b/src/sagtension/line_cable_loader_base.cc
index 475b4fd..d3a6047 100644
--- a/src/sagtension/line_cable_loader_base.cc
+++ b/src/sagtension/line_cable_loader_base.cc
@@ -95,7 +95,8 @@ bool LineCableLoaderBase::Validate(
   }
 
   // validates update process
-  if (Update() == false) {
+  // derived class inputs are validated by the derived class
+  if (LineCableLoaderBase::Update() == false) {
     is_valid = false;
     if (messages != nullptr) {
       message.description = "";
-- 
2.43.0


From ae6bba7ccc7b4dfa2f4c9c6887d17db7e494c6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:22 +0000
Subject: [PATCH 51/52] fix: modifying an item of a line with itself uses a
 deleted object

---
 src/transmissionline/alignment.cc         | 5 ++++-
 src/transmissionline/line_cable.cc        | 5 ++++-
 src/transmissionline/transmission_line.cc | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/transmissionline/alignment.cc b/src/transmissionline/alignment.cc
index b9bd894..0c01772 100644
--- a/src/transmissionline/alignment.cc
+++ b/src/transmissionline/alignment.cc
@@ -143,11 +143,14 @@ int Alignment::ModifyPoint(const int& index, const AlignmentPoint& point) {
 
   // caches specified point in case something goes wrong
   AlignmentPoint point_cache = *std::next(points_.cbegin(), index);
+
+  // copies new point, which may be the one in the list that is deleted
+  const AlignmentPoint point_new = point;
   if (DeletePoint(index) == false) {
     return -1;
   }
 
-  const int status = AddPoint(point);
+  const int status = AddPoint(point_new);
   if (status == -1) {
     // resets cached point
     AddPoint(point_cache);
diff --git a/src/transmissionline/line_cable.cc b/src/transmissionline/line_cable.cc
index 99a5c19..e003486 100644
--- a/src/transmissionline/line_cable.cc
+++ b/src/transmissionline/line_cable.cc
@@ -131,11 +131,14 @@ int LineCable::ModifyConnection(const int& index,
   // caches specified connection in case something goes wrong
   LineCableConnection connection_cache = *std::next(connections_.cbegin(),
                                                     index);
+
+  // copies new connection, which may be the one in the list that is deleted
+  const LineCableConnection connection_new = connection;
   if (DeleteConnection(index) == false) {
     return -1;
   }
 
-  const int status = AddConnection(connection);
+  const int status = AddConnection(connection_new);
   if (status == -1) {
     // resets cached connection
     AddConnection(connection_cache);
diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index f5001e0..8e5c2f1 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -289,13 +289,16 @@ int TransmissionLine::ModifyLineCable(const int& index,
   auto iter = std::next(line_cables_.begin(), index);
   const LineCable line_cable_cache = *iter;
 
+  // copies new line cable, which may be the one in the list that is deleted
+  const LineCable line_cable_new = line_cable;
+
   // deletes and then adds back
   bool status = DeleteLineCable(index);
   if (status == false) {
     return -1;
   }
 
-  const int index_new = AddLineCable(line_cable);
+  const int index_new = AddLineCable(line_cable_new);
   if (index_new == -1) {
     // adds back original line cable
     AddLineCable(line_cable_cache);
-- 
2.43.0


From 1b1b0474734509b06f5561891cf20ae1a910c5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:44 +0000
Subject: [PATCH 52/52] fix: catenary reloader does not accept an exact
 solution beyond the boundary points

---
 src/sagtension/catenary_cable_reloader.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sagtension/catenary_cable_reloader.cc b/src/sagtension/catenary_cable_reloader.cc
index 6433922..8a4d461 100644
--- a/src/sagtension/catenary_cable_reloader.cc
+++ b/src/sagtension/catenary_cable_reloader.cc
@@ -286,6 +286,11 @@ bool CatenaryCableReloader::SolveReloadedCatenaryTension() const {
     // gets current point length difference
     point_current.y = LengthDifference(point_current.x);
 
+    // current point is an exact solution, regardless of which side it is on
+    if (point_current.y == target_solution) {
+      break;
+    }
+
     // current point is left of left/right points
     if (point_current.x < point_left.x) {
       point_right.x = point_left.x;
@@ -303,9 +308,6 @@ bool CatenaryCableReloader::SolveReloadedCatenaryTension() const {
       } else if (target_solution < point_current.y) {
         point_left.x = point_current.x;
         point_left.y = point_current.y;
-      } else {
-        // exact solution
-        break;
       }
 
     // current point is right of left/right points
-- 
2.43.0

