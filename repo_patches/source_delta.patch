From e3ef58c0f703d987bfde2ca87ecb57be8bf75d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:23 +0000
Subject: [PATCH 01/44] fix: TransmissionLine is only updated when alignment
 and structure points both are

IsUpdated() accepted either cache, so an edit that only invalidates the
structure points left stale or missing coordinates behind.
---
 src/transmissionline/transmission_line.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 9bda5d8..b57febe 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -619,7 +619,7 @@ void TransmissionLine::DeleteInvalidLineStructures() {
 
 bool TransmissionLine::IsUpdated() const {
   return (is_updated_points_xyz_alignment_ == true)
-      || (is_updated_points_xyz_structures_ == true);
+      && (is_updated_points_xyz_structures_ == true);
 }
 
 bool TransmissionLine::IsValidLineCableIndex(const int& index) const {
-- 
2.43.0


From c59c26efcac1cdc239d9c78fae2ef83cac2df3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:37 +0000
Subject: [PATCH 02/44] fix: copying a TransmissionLine no longer marks missing
 coordinates as updated

operator= copied the update flags but not the cached points they describe, so
the copy answered with its own old points or threw. The containers are now
copied before the line is modified, so a failed copy leaves it unchanged.
---
 src/transmissionline/transmission_line.cc | 26 +++++++++++++----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index b57febe..650273d 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -14,18 +14,12 @@ TransmissionLine::TransmissionLine(const TransmissionLine& that) {
 }
 
 TransmissionLine& TransmissionLine::operator=(const TransmissionLine& that) {
-  // transfers members as-is
-  this->alignment_ = that.alignment_;
-  this->is_updated_points_xyz_alignment_ =
-      that.is_updated_points_xyz_alignment_;
-  this->is_updated_points_xyz_structures_ =
-      that.is_updated_points_xyz_structures_;
-  this->line_cables_ = that.line_cables_;
-  this->line_structures_ = that.line_structures_;
-  this->origin_ = that.origin_;
+  // copies containers, which are transferred after all of the copying succeeds
+  std::list<LineCable> line_cables = that.line_cables_;
+  std::list<LineStructure> line_structures = that.line_structures_;
 
   // adjusts the new line cable connections to reference the new line structures
-  for (auto iter_cable = line_cables_.begin(); iter_cable != line_cables_.end();
+  for (auto iter_cable = line_cables.begin(); iter_cable != line_cables.end();
        iter_cable++) {
     LineCable& line_cable = *iter_cable;
     const std::list<LineCableConnection>* connections =
@@ -39,7 +33,7 @@ TransmissionLine& TransmissionLine::operator=(const TransmissionLine& that) {
       // gets the structure index, and switches connection reference
       const int index_structure =
           that.IndexLineStructure(connection.line_structure);
-      const LineStructure* structure = &*(std::next(line_structures_.cbegin(),
+      const LineStructure* structure = &*(std::next(line_structures.cbegin(),
                                                     index_structure));
       connection.line_structure = structure;
 
@@ -48,6 +42,16 @@ TransmissionLine& TransmissionLine::operator=(const TransmissionLine& that) {
     }
   }
 
+  // transfers members
+  alignment_ = that.alignment_;
+  line_cables_.swap(line_cables);
+  line_structures_.swap(line_structures);
+  origin_ = that.origin_;
+
+  // cached points are not copied
+  is_updated_points_xyz_alignment_ = false;
+  is_updated_points_xyz_structures_ = false;
+
   return *this;
 }
 
-- 
2.43.0


From aecec99786dbc2fd176c85ab81487dc3ada67537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:39 +0000
Subject: [PATCH 03/44] fix: line cables are sorted by starting structure and
 then attachment

The insert position ignored line cables on later structures with a lower
attachment index.
---
 src/transmissionline/transmission_line.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 650273d..c53b81e 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -102,8 +102,9 @@ int TransmissionLine::AddLineCable(const LineCable& line_cable) {
     const int index_attachment_list = connection_list.index_attachment;
 
     // checks if list connection indexes are larger than new connection indexes
-    if ((index_structure <= index_structure_list)
-         && (index_attachment < index_attachment_list)) {
+    if ((index_structure < index_structure_list)
+         || ((index_structure == index_structure_list)
+             && (index_attachment < index_attachment_list))) {
       // position is found
       break;
     }
-- 
2.43.0


From 136c0205b6ffcb893fc4a03397ff8d8f3f6de6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:41 +0000
Subject: [PATCH 04/44] fix: line cable connections without matching hardware
 are invalid

ValidateConnections reported a hardware type mismatch but still returned that
the connections are valid, threw for an attachment the structure does not have,
and dereferenced a missing hardware.
---
 src/transmissionline/line_cable.cc | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/transmissionline/line_cable.cc b/src/transmissionline/line_cable.cc
index f971f74..bae90df 100644
--- a/src/transmissionline/line_cable.cc
+++ b/src/transmissionline/line_cable.cc
@@ -252,8 +252,8 @@ bool LineCable::ValidateConnections(const bool& /*is_included_warnings*/,
   const int kSizeConnections = connections_.size();
   if (kSizeConnections < 2) {
     is_valid = false;
-    message.description = "Not enough connections";
     if (messages != nullptr) {
+      message.description = "Not enough connections";
       messages->push_back(message);
     }
   } else {
@@ -261,24 +261,40 @@ bool LineCable::ValidateConnections(const bool& /*is_included_warnings*/,
          iter++) {
       const LineCableConnection* connection = &(*iter);
       const LineStructure* structure = connection->line_structure;
-      const Hardware* hardware =
-          structure->hardwares()->at(connection->index_attachment);
+
+      // checks for hardware at the connection attachment
+      const std::vector<const Hardware*>* hardwares = structure->hardwares();
+      const int index_attachment = connection->index_attachment;
+      const int kSizeHardwares = hardwares->size();
+      if ((index_attachment < 0) || (kSizeHardwares <= index_attachment)
+          || (hardwares->at(index_attachment) == nullptr)) {
+        is_valid = false;
+        if (messages != nullptr) {
+          message.description = "Line cable connection does not have hardware";
+          messages->push_back(message);
+        }
+        continue;
+      }
+
+      const Hardware* hardware = hardwares->at(index_attachment);
       if ((connection == &connections_.front())
           || (connection == &connections_.back())) {
         // checks for dead-end hardware at start and end connections
         if (hardware->type != Hardware::HardwareType::kDeadEnd) {
-          message.description = "Terminal line cable connection does not have "
-                                "dead-end type hardware";
+          is_valid = false;
           if (messages != nullptr) {
+            message.description = "Terminal line cable connection does not "
+                                  "have dead-end type hardware";
             messages->push_back(message);
           }
         }
       } else {
         // checks for suspension hardware at all middle connections
         if (hardware->type != Hardware::HardwareType::kSuspension) {
-          message.description = "Interior line cable connection does not have "
-                                "suspension type hardware";
+          is_valid = false;
           if (messages != nullptr) {
+            message.description = "Interior line cable connection does not "
+                                  "have suspension type hardware";
             messages->push_back(message);
           }
         }
-- 
2.43.0


From 5b1fa0d151531b1e7121001ffa7d2892983c13ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:14 +0000
Subject: [PATCH 05/44] fix: an alignment without points has no valid stations

IsValidStation() and the removal of structures outside the alignment read the
front and back of an empty list, for example when structures are added before
points or the last point is deleted.
---
 src/transmissionline/alignment.cc         | 5 +++++
 src/transmissionline/transmission_line.cc | 6 +-----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/transmissionline/alignment.cc b/src/transmissionline/alignment.cc
index a712692..3522729 100644
--- a/src/transmissionline/alignment.cc
+++ b/src/transmissionline/alignment.cc
@@ -122,6 +122,11 @@ int Alignment::IndexSegment(const double& station) const {
 }
 
 bool Alignment::IsValidStation(const double& station) const {
+  // checks for points
+  if (points_.empty() == true) {
+    return false;
+  }
+
   // gets the first and last alignment points
   const AlignmentPoint& point_front = points_.front();
   const AlignmentPoint& point_back = points_.back();
diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index c53b81e..1be1420 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -602,15 +602,11 @@ void TransmissionLine::DeleteInvalidLineCables() {
 }
 
 void TransmissionLine::DeleteInvalidLineStructures() {
-  const double station_min = alignment_.points()->front().station;
-  const double station_max = alignment_.points()->back().station;
-
   // clears line structures outside of alignment
   auto iter = line_structures_.cbegin();
   while (iter != line_structures_.cend()) {
     const LineStructure& line_structure = *iter;
-    const double station = line_structure.station();
-    if ((station < station_min) || (station_max < station)) {
+    if (alignment_.IsValidStation(line_structure.station()) == false) {
       // clears any references to the structure and deletes
       const int index = std::distance(line_structures_.cbegin(), iter);
       DeleteConnectionsFromStructure(index);
-- 
2.43.0


From 0c76a2bf03bccc2cc0c5594c00c7defbaec9bece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:16 +0000
Subject: [PATCH 06/44] fix: a line structure cannot be modified to a station
 outside the alignment

The first and last structures were allowed to move up to one unit beyond the
alignment.
---
 src/transmissionline/transmission_line.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 1be1420..8276f87 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -338,6 +338,11 @@ bool TransmissionLine::ModifyLineStructure(const int& index,
     return false;
   }
 
+  // checks if structure is on the alignment
+  if (alignment_.IsValidStation(station) == false) {
+    return false;
+  }
+
   // updates the structure
   LineStructure& line_structure = *std::next(line_structures_.begin(), index);
   line_structure = structure;
-- 
2.43.0


From 54fe1342c14e13c7cde011dbec426da465b83fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:18 +0000
Subject: [PATCH 07/44] fix: line structures without a base structure have no
 attachments

Modifying a line structure and asking for attachment coordinates dereferenced
the missing base structure.
---
 src/transmissionline/transmission_line.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 8276f87..21f0a71 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -417,6 +417,11 @@ Point3d<double> TransmissionLine::PointXyzLineStructureAttachment(
   const LineStructure& line_structure = *std::next(line_structures_.cbegin(),
                                                    index_structure);
 
+  // checks if line structure has a base structure
+  if (line_structure.structure() == nullptr) {
+    return Point3d<double>();
+  }
+
   // checks if attachment index is valid
   const int kSizeAttachments = line_structure.structure()->attachments.size();
   if ((index_attachment < 0) || (kSizeAttachments <= index_attachment)) {
@@ -565,7 +570,10 @@ void TransmissionLine::DeleteInvalidConnectionsFromStructure(
   // gets line structure and attachment count
   auto iter_structure = std::next(line_structures_.cbegin(), index_structure);
   const LineStructure* line_structure = &(*iter_structure);
-  const int kSizeAttachments = line_structure->structure()->attachments.size();
+  int size_attachments = 0;
+  if (line_structure->structure() != nullptr) {
+    size_attachments = line_structure->structure()->attachments.size();
+  }
 
   // searches line cables
   for (auto iter_cable = line_cables_.begin();
@@ -579,7 +587,7 @@ void TransmissionLine::DeleteInvalidConnectionsFromStructure(
     while (iter_connection != connections->cend()) {
       const LineCableConnection& connection = *iter_connection;
       if ((connection.line_structure == line_structure)
-          && (kSizeAttachments <= connection.index_attachment)) {
+          && (size_attachments <= connection.index_attachment)) {
         // connection is invalid, deletes from line cable
         int index_connection = std::distance(connections->cbegin(),
                                              iter_connection);
-- 
2.43.0


From e620bee617d10ac4315dd0b653691f18be0164cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 08/44] fix: coordinates of structures on an alignment with a
 single point

The coordinates of the missing ahead point were read, which threw.
---
 src/transmissionline/transmission_line.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 21f0a71..190ebda 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -654,19 +654,18 @@ Point3d<double> TransmissionLine::PointXyzAlignmentFromStation(
     return Point3d<double>();
   }
 
-  // gets the back and ahead xyz points
+  // gets the back xyz and alignment points
   const Point3d<double>& point_xyz_back =
       points_xyz_alignment_.at(index_segment);
-  const Point3d<double>& point_xyz_ahead =
-      points_xyz_alignment_.at(index_segment + 1);
-
-  // gets back and ahead alignment points
   const AlignmentPoint& point_align_back =
       *std::next(alignment_.points()->cbegin(), index_segment);
   if (station == point_align_back.station) {
     return point_xyz_back;
   }
 
+  // gets the ahead xyz and alignment points
+  const Point3d<double>& point_xyz_ahead =
+      points_xyz_alignment_.at(index_segment + 1);
   const AlignmentPoint& point_align_ahead =
       *std::next(alignment_.points()->cbegin(), index_segment + 1);
   if (station == point_align_ahead.station) {
@@ -793,6 +792,11 @@ bool TransmissionLine::UpdatePointsXyzLineStructures() const {
 }
 
 Vector2d TransmissionLine::VectorXyAlignmentSegment(const int& index) const {
+  // an alignment with a single point has no segments, only the datum orientation
+  if (points_xyz_alignment_.size() == 1) {
+    return Vector2d(1, 0);
+  }
+
   const Point3d<double>& point_back = points_xyz_alignment_.at(index);
   const Point3d<double>& point_ahead = points_xyz_alignment_.at(index + 1);
 
-- 
2.43.0


From 983b592addc41150b4b2f6b28faab0e19c4a0b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:56 +0000
Subject: [PATCH 09/44] fix: TransmissionLine::HasConnection checks the
 structure index

Every other function rejects an invalid index; this one walked past the end of
the structure list.
---
 src/transmissionline/transmission_line.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 190ebda..156ea43 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -207,6 +207,11 @@ bool TransmissionLine::DeleteLineStructure(const int& index) {
 
 bool TransmissionLine::HasConnection(const int& index_structure,
                                      const int& index_attachment) const {
+  // checks if index is valid
+  if (IsValidLineStructureIndex(index_structure) == false) {
+    return false;
+  }
+
   // gets line structure
   auto iter_structure = std::next(line_structures_.cbegin(), index_structure);
   const LineStructure* line_structure = &(*iter_structure);
-- 
2.43.0


From 6a33c819137cf19ad576571312768dd5e98f0648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:59 +0000
Subject: [PATCH 10/44] fix: modifying a point, connection or line cable keeps
 the original on failure

The original was erased and had to be inserted again, so it was lost when memory
ran out, and an argument referring to it was read after it was erased.
---
 src/transmissionline/alignment.cc         | 20 ++++++++++++++------
 src/transmissionline/line_cable.cc        | 21 ++++++++++++++-------
 src/transmissionline/transmission_line.cc | 20 ++++++++++++--------
 3 files changed, 40 insertions(+), 21 deletions(-)

diff --git a/src/transmissionline/alignment.cc b/src/transmissionline/alignment.cc
index 3522729..fff0e9d 100644
--- a/src/transmissionline/alignment.cc
+++ b/src/transmissionline/alignment.cc
@@ -141,16 +141,24 @@ int Alignment::ModifyPoint(const int& index, const AlignmentPoint& point) {
     return -1;
   }
 
-  // caches specified point in case something goes wrong
-  AlignmentPoint point_cache = *std::next(points_.cbegin(), index);
-  if (DeletePoint(index) == false) {
-    return -1;
+  // moves specified point to a cache in case something goes wrong
+  std::list<AlignmentPoint> points_cache;
+  auto iter = std::next(points_.begin(), index);
+  auto iter_next = std::next(iter);
+  points_cache.splice(points_cache.begin(), points_, iter);
+
+  int status = -1;
+  try {
+    status = AddPoint(point);
+  } catch (...) {
+    // resets cached point
+    points_.splice(iter_next, points_cache);
+    throw;
   }
 
-  const int status = AddPoint(point);
   if (status == -1) {
     // resets cached point
-    AddPoint(point_cache);
+    points_.splice(iter_next, points_cache);
   }
 
   // successfully modified point
diff --git a/src/transmissionline/line_cable.cc b/src/transmissionline/line_cable.cc
index bae90df..23ca464 100644
--- a/src/transmissionline/line_cable.cc
+++ b/src/transmissionline/line_cable.cc
@@ -127,17 +127,24 @@ int LineCable::ModifyConnection(const int& index,
     return -1;
   }
 
-  // caches specified connection in case something goes wrong
-  LineCableConnection connection_cache = *std::next(connections_.cbegin(),
-                                                    index);
-  if (DeleteConnection(index) == false) {
-    return -1;
+  // moves specified connection to a cache in case something goes wrong
+  std::list<LineCableConnection> connections_cache;
+  auto iter = std::next(connections_.begin(), index);
+  auto iter_next = std::next(iter);
+  connections_cache.splice(connections_cache.begin(), connections_, iter);
+
+  int status = -1;
+  try {
+    status = AddConnection(connection);
+  } catch (...) {
+    // resets cached connection
+    connections_.splice(iter_next, connections_cache);
+    throw;
   }
 
-  const int status = AddConnection(connection);
   if (status == -1) {
     // resets cached connection
-    AddConnection(connection_cache);
+    connections_.splice(iter_next, connections_cache);
   }
 
   // successfully modified connection
diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 156ea43..9a10e3d 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -290,20 +290,24 @@ int TransmissionLine::ModifyLineCable(const int& index,
     return -1;
   }
 
-  // caches current line cable in case something goes wrong
+  // moves current line cable to a cache in case something goes wrong
+  std::list<LineCable> line_cables_cache;
   auto iter = std::next(line_cables_.begin(), index);
-  const LineCable line_cable_cache = *iter;
+  auto iter_next = std::next(iter);
+  line_cables_cache.splice(line_cables_cache.begin(), line_cables_, iter);
 
-  // deletes and then adds back
-  bool status = DeleteLineCable(index);
-  if (status == false) {
-    return -1;
+  int index_new = -1;
+  try {
+    index_new = AddLineCable(line_cable);
+  } catch (...) {
+    // adds back original line cable
+    line_cables_.splice(iter_next, line_cables_cache);
+    throw;
   }
 
-  const int index_new = AddLineCable(line_cable);
   if (index_new == -1) {
     // adds back original line cable
-    AddLineCable(line_cable_cache);
+    line_cables_.splice(iter_next, line_cables_cache);
   }
 
   return index_new;
-- 
2.43.0


From ccdacc3d45c319cd698affdbdb87e78738370db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:21 +0000
Subject: [PATCH 11/44] fix: a structure is only set when the hardware list
 matches it

When resizing the hardware list failed, the line structure referred to the new
structure with the hardware of the old one.
---
 src/transmissionline/line_structure.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/transmissionline/line_structure.cc b/src/transmissionline/line_structure.cc
index 2e4af3b..0ccb487 100644
--- a/src/transmissionline/line_structure.cc
+++ b/src/transmissionline/line_structure.cc
@@ -130,15 +130,15 @@ void LineStructure::set_station(const double& station) {
 }
 
 void LineStructure::set_structure(const Structure* structure) {
-  structure_ = structure;
-
-  if (structure_ == nullptr) {
+  if (structure == nullptr) {
     hardwares_.clear();
   } else {
     // resizes hardware vector to match new attachment vector
     // any additions to the vector are set to null pointers
     hardwares_.resize(structure->attachments.size(), nullptr);
   }
+
+  structure_ = structure;
 }
 
 double LineStructure::station() const {
-- 
2.43.0


From 0cb71dfeba065a12f3e996b0e866a0a026ee1816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:50 +0000
Subject: [PATCH 12/44] fix: steady cable solvers solve again after the units
 or weather are set

set_units() and set_weather() did not invalidate the cached solution.
---
 src/thermalrating/steady_cable_current_solver.cc     | 2 ++
 src/thermalrating/steady_cable_temperature_solver.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/thermalrating/steady_cable_current_solver.cc b/src/thermalrating/steady_cable_current_solver.cc
index a6fb3a2..85ef28b 100644
--- a/src/thermalrating/steady_cable_current_solver.cc
+++ b/src/thermalrating/steady_cable_current_solver.cc
@@ -124,11 +124,13 @@ void SteadyCableCurrentSolver::set_temperature_cable(
 
 void SteadyCableCurrentSolver::set_units(const units::UnitSystem& units) {
   units_ = units;
+  is_updated_ = false;
 }
 
 void SteadyCableCurrentSolver::set_weather(
     const ThermalRatingWeather* weather) {
   weather_ = weather;
+  is_updated_ = false;
 }
 
 double SteadyCableCurrentSolver::temperature_cable() const {
diff --git a/src/thermalrating/steady_cable_temperature_solver.cc b/src/thermalrating/steady_cable_temperature_solver.cc
index 5ff38a7..5cff6ae 100644
--- a/src/thermalrating/steady_cable_temperature_solver.cc
+++ b/src/thermalrating/steady_cable_temperature_solver.cc
@@ -127,11 +127,13 @@ void SteadyCableTemperatureSolver::set_current(const double& current) {
 
 void SteadyCableTemperatureSolver::set_units(const units::UnitSystem& units) {
   units_ = units;
+  is_updated_ = false;
 }
 
 void SteadyCableTemperatureSolver::set_weather(
     const ThermalRatingWeather* weather) {
   weather_ = weather;
+  is_updated_ = false;
 }
 
 units::UnitSystem SteadyCableTemperatureSolver::units() const {
-- 
2.43.0


From 60ffef1ae576b50f1900c8692f14bca496a03f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:51 +0000
Subject: [PATCH 13/44] fix: CatenarySolver is not updated when the solved
 catenary is invalid

The first question failed but left the class marked as updated, so asking again
returned the rejected catenary.
---
 src/transmissionline/catenary_solver.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transmissionline/catenary_solver.cc b/src/transmissionline/catenary_solver.cc
index 1270204..44409e9 100644
--- a/src/transmissionline/catenary_solver.cc
+++ b/src/transmissionline/catenary_solver.cc
@@ -484,7 +484,8 @@ bool CatenarySolver::Update() const {
   }
 
   // validates catenary to make sure that H/w is valid
-  if (catenary_.Validate(false, nullptr) == false) {
+  is_updated_ = catenary_.Validate(false, nullptr);
+  if (is_updated_ == false) {
     return false;
   }
 
-- 
2.43.0


From 1025de87ba0f9103bf19fc098c0ab4331b213c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:38 +0000
Subject: [PATCH 14/44] fix: polynomials own their derivative and are safe to
 copy

---
 include/models/base/polynomial.h | 11 +++++++++
 src/base/polynomial.cc           | 38 ++++++++++++++++++++++++++++----
 2 files changed, 45 insertions(+), 4 deletions(-)

diff --git a/include/models/base/polynomial.h b/include/models/base/polynomial.h
index e98feae..f9822f3 100644
--- a/include/models/base/polynomial.h
+++ b/include/models/base/polynomial.h
@@ -27,9 +27,20 @@ class Polynomial {
   ///   A list of coefficients.
   explicit Polynomial(const std::vector<double>* coefficients);
 
+  /// \brief Copy constructor.
+  /// \param[in] polynomial
+  ///   The polynomial to copy.
+  Polynomial(const Polynomial& polynomial);
+
   /// \brief Destructor.
   ~Polynomial();
 
+  /// \brief Copy assignment.
+  /// \param[in] polynomial
+  ///   The polynomial to copy.
+  /// \return A reference to this polynomial.
+  Polynomial& operator=(const Polynomial& polynomial);
+
   /// \brief Gets the derivative of the polynomial.
   /// \return A polynomial with derivative coefficients.
   Polynomial Derivative() const;
diff --git a/src/base/polynomial.cc b/src/base/polynomial.cc
index 45aecaa..55cfec8 100644
--- a/src/base/polynomial.cc
+++ b/src/base/polynomial.cc
@@ -8,6 +8,7 @@
 #include "models/base/point.h"
 
 Polynomial::Polynomial() {
+  coefficients_ = nullptr;
   derivative_ = nullptr;
   is_updated_derivative_ = false;
 }
@@ -18,10 +19,25 @@ Polynomial::Polynomial(const std::vector<double>* coefficients) {
   is_updated_derivative_ = false;
 }
 
+Polynomial::Polynomial(const Polynomial& polynomial) {
+  coefficients_ = polynomial.coefficients_;
+  derivative_ = nullptr;
+  is_updated_derivative_ = false;
+}
+
 Polynomial::~Polynomial() {
   delete derivative_;
 }
 
+/// The derivative is not copied, as it refers to coefficients that are owned by
+/// the other polynomial. It is updated when it is needed.
+Polynomial& Polynomial::operator=(const Polynomial& polynomial) {
+  coefficients_ = polynomial.coefficients_;
+  is_updated_derivative_ = false;
+
+  return *this;
+}
+
 Polynomial Polynomial::Derivative() const {
   Polynomial derivative;
 
@@ -35,6 +51,10 @@ Polynomial Polynomial::Derivative() const {
 }
 
 int Polynomial::OrderMax() const {
+  if (coefficients_ == nullptr) {
+    return -1;
+  }
+
   return coefficients_->size() - 1;
 }
 
@@ -70,7 +90,7 @@ bool Polynomial::Validate(const bool& /*is_included_warnings*/,
 
   // validates update process
   is_valid = Update();
-  if (is_valid == false) {
+  if ((is_valid == false) && (messages != nullptr)) {
     message.description = "Error solving derivative coefficients";
     messages->push_back(message);
   }
@@ -87,6 +107,11 @@ double Polynomial::X(const double& y, const int& decimal_precision_y,
     return -999999;
   }
 
+  // checks if there are any coefficients to solve with
+  if (coefficients_->empty() == true) {
+    return -999999;
+  }
+
   // converts to decimal precision
   const double precision_y = 1 / std::pow(10, decimal_precision_y);
 
@@ -160,6 +185,10 @@ bool Polynomial::Update() const {
 }
 
 bool Polynomial::UpdateDerivative() const {
+  if (coefficients_ == nullptr) {
+    return false;
+  }
+
   const int order_max = OrderMax();
 
   // calculates derivative coefficients
@@ -172,9 +201,10 @@ bool Polynomial::UpdateDerivative() const {
     }
   }
 
-  // deletes old derivative polynomial and creates new one
-  delete derivative_;
-  derivative_ = new Polynomial();
+  // creates derivative polynomial if necessary and updates coefficients
+  if (derivative_ == nullptr) {
+    derivative_ = new Polynomial();
+  }
   derivative_->set_coefficients(&coefficients_derivative_);
 
   return true;
-- 
2.43.0


From cd89787e0d2a77882bfc7c330e263ae9fcdc877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:05 +0000
Subject: [PATCH 15/44] fix: a sag-tension cable component is disabled until a
 base component is set

---
 src/sagtension/sag_tension_cable.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sagtension/sag_tension_cable.cc b/src/sagtension/sag_tension_cable.cc
index cbb84b0..92e3fe6 100644
--- a/src/sagtension/sag_tension_cable.cc
+++ b/src/sagtension/sag_tension_cable.cc
@@ -5,6 +5,7 @@
 
 SagTensionCableComponent::SagTensionCableComponent() {
   component_base_ = nullptr;
+  is_enabled_ = false;
 }
 
 SagTensionCableComponent::~SagTensionCableComponent() {
-- 
2.43.0


From 27da13e9fdca9935c09982c7ed7219133c97c935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:04 +0000
Subject: [PATCH 16/44] fix: component elongation model solves the stretch
 again for another state

---
 .../cable_component_elongation_model.h         |  4 ++++
 .../cable_component_elongation_model.cc        | 18 ++++++++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/models/sagtension/cable_component_elongation_model.h b/include/models/sagtension/cable_component_elongation_model.h
index 74c0bd2..93db17d 100644
--- a/include/models/sagtension/cable_component_elongation_model.h
+++ b/include/models/sagtension/cable_component_elongation_model.h
@@ -376,6 +376,10 @@ class CableComponentElongationModel {
   ///   The cable component that is being modeled.
   const SagTensionCableComponent* component_;
 
+  /// \var is_updated_modulus_
+  ///   An indicator that tells if the extrapolation slopes have been updated.
+  mutable bool is_updated_modulus_;
+
   /// \var is_updated_state_
   ///   An indicator that tells if the state has been updated.
   mutable bool is_updated_state_;
diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index ab4ff25..d5af039 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -19,6 +19,7 @@ CableComponentElongationModel::CableComponentElongationModel() {
   strain_thermal_state_ = -999999;
   strain_thermal_stretch_ = -999999;
 
+  is_updated_modulus_ = false;
   is_updated_state_ = false;
   is_updated_stretch_ = false;
 }
@@ -206,11 +207,9 @@ void CableComponentElongationModel::set_component_cable(
     coefficients = component_->coefficients_polynomial(
         SagTensionCableComponent::PolynomialType::kLoadStrain);
     polynomial_loadstrain_.set_coefficients(coefficients);
-
-    // updates extrapolation slopes
-    UpdateModulusExtrapolate();
   }
 
+  is_updated_modulus_ = false;
   is_updated_stretch_ = false;
   is_updated_state_ = false;
 }
@@ -218,6 +217,8 @@ void CableComponentElongationModel::set_component_cable(
 void CableComponentElongationModel::set_state(const CableState* state) {
   state_ = state;
 
+  // the stretch load depends on the polynomial type of the state
+  is_updated_stretch_ = false;
   is_updated_state_ = false;
 }
 
@@ -267,7 +268,8 @@ double CableComponentElongationModel::ConvertToStrainPolynomial(
 }
 
 bool CableComponentElongationModel::IsUpdated() const {
-  return (is_updated_state_ == true) && (is_updated_stretch_ == true);
+  return (is_updated_modulus_ == true) && (is_updated_state_ == true)
+      && (is_updated_stretch_ == true);
 }
 
 double CableComponentElongationModel::Load(
@@ -539,6 +541,12 @@ double CableComponentElongationModel::StrainThermal(
 }
 
 bool CableComponentElongationModel::Update() const {
+  // updates extrapolation slopes
+  if (is_updated_modulus_ == false) {
+    UpdateModulusExtrapolate();
+    is_updated_modulus_ = true;
+  }
+
   // updates stretch
   if (is_updated_stretch_ == false) {
     is_updated_stretch_ = UpdateStretch();
@@ -619,6 +627,8 @@ bool CableComponentElongationModel::UpdateState(const CableState& state) const {
   } else if (state_->type_polynomial ==
       SagTensionCableComponent::PolynomialType::kLoadStrain) {
     polynomial = &polynomial_loadstrain_;
+  } else {
+    return false;
   }
 
   // updates points
-- 
2.43.0


From 74ecc6e0cae16d37390902859cd540b15c4d26e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:12 +0000
Subject: [PATCH 17/44] fix: cable elongation models only refer to their own
 states

---
 .../cable_component_elongation_model.h        | 12 +++
 .../sagtension/cable_elongation_model.h       | 15 ++++
 .../cable_component_elongation_model.cc       | 24 ++++++
 src/sagtension/cable_elongation_model.cc      | 74 +++++++++++++------
 4 files changed, 102 insertions(+), 23 deletions(-)

diff --git a/include/models/sagtension/cable_component_elongation_model.h b/include/models/sagtension/cable_component_elongation_model.h
index 93db17d..23665aa 100644
--- a/include/models/sagtension/cable_component_elongation_model.h
+++ b/include/models/sagtension/cable_component_elongation_model.h
@@ -90,9 +90,21 @@ class CableComponentElongationModel {
   /// \brief Default constructor.
   CableComponentElongationModel();
 
+  /// \brief Copy constructor.
+  /// \param[in] model
+  ///   The model to copy.
+  CableComponentElongationModel(const CableComponentElongationModel& model);
+
   /// \brief Destructor.
   ~CableComponentElongationModel();
 
+  /// \brief Copy assignment.
+  /// \param[in] model
+  ///   The model to copy.
+  /// \return A reference to this model.
+  CableComponentElongationModel& operator=(
+      const CableComponentElongationModel& model);
+
   /// \brief Gets the load.
   /// \param[in] strain
   ///   The strain value (x-axis)
diff --git a/include/models/sagtension/cable_elongation_model.h b/include/models/sagtension/cable_elongation_model.h
index 364af76..bee3df4 100644
--- a/include/models/sagtension/cable_elongation_model.h
+++ b/include/models/sagtension/cable_elongation_model.h
@@ -73,9 +73,20 @@ class CableElongationModel {
   /// \brief Default constructor.
   CableElongationModel();
 
+  /// \brief Copy constructor.
+  /// \param[in] model
+  ///   The model to copy.
+  CableElongationModel(const CableElongationModel& model);
+
   /// \brief Destructor.
   ~CableElongationModel();
 
+  /// \brief Copy assignment.
+  /// \param[in] model
+  ///   The model to copy.
+  /// \return A reference to this model.
+  CableElongationModel& operator=(const CableElongationModel& model);
+
   /// \brief Gets the load.
   /// \param[in] type_component
   ///   The model component type.
@@ -286,6 +297,10 @@ class CableElongationModel {
   ///   values.
   CableState state_;
 
+  /// \var state_components_
+  ///   The cable state parameters that the component models are updated to.
+  mutable CableState state_components_;
+
   /// \var state_stretch_
   ///   The cable state parameters that are used for solving the component
   ///   stretch.
diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index d5af039..2eaa76d 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -24,9 +24,33 @@ CableComponentElongationModel::CableComponentElongationModel() {
   is_updated_stretch_ = false;
 }
 
+CableComponentElongationModel::CableComponentElongationModel(
+    const CableComponentElongationModel& model)
+    : CableComponentElongationModel() {
+  *this = model;
+}
+
 CableComponentElongationModel::~CableComponentElongationModel() {
 }
 
+/// Only the inputs are copied. The cached values are updated when they are
+/// needed.
+CableComponentElongationModel& CableComponentElongationModel::operator=(
+    const CableComponentElongationModel& model) {
+  component_ = model.component_;
+  polynomial_creep_ = model.polynomial_creep_;
+  polynomial_loadstrain_ = model.polynomial_loadstrain_;
+  state_ = model.state_;
+  state_stretch_ = model.state_stretch_;
+  temperature_reference_ = model.temperature_reference_;
+
+  is_updated_modulus_ = false;
+  is_updated_stretch_ = false;
+  is_updated_state_ = false;
+
+  return *this;
+}
+
 double CableComponentElongationModel::Load(const double& strain) const {
   // updates class if necessary
   if ((IsUpdated() == false) && (Update() == false)) {
diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index de4ba5d..f06b669 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -31,9 +31,30 @@ CableElongationModel::CableElongationModel() {
   is_updated_stretch_ = false;
 }
 
+CableElongationModel::CableElongationModel(const CableElongationModel& model)
+    : CableElongationModel() {
+  *this = model;
+}
+
 CableElongationModel::~CableElongationModel() {
 }
 
+/// Only the inputs are copied. The component models refer to states that are
+/// owned by this class, and are updated when they are needed.
+CableElongationModel& CableElongationModel::operator=(
+    const CableElongationModel& model) {
+  cable_ = model.cable_;
+  model_core_ = model.model_core_;
+  model_shell_ = model.model_shell_;
+  state_ = model.state_;
+  state_stretch_ = model.state_stretch_;
+
+  is_updated_stretch_ = false;
+  is_updated_state_ = false;
+
+  return *this;
+}
+
 double CableElongationModel::Load(
     const CableElongationModel::ComponentType& type_component,
     const double& strain) const {
@@ -282,6 +303,11 @@ double CableElongationModel::StrainCombined(
   // x = strain
   // y = load
 
+  // exits if there are no regions
+  if (points_regions_.empty() == true) {
+    return -999999;
+  }
+
   // determines which region the target load is in, and sets left and right
   // points
   const Point2d<double>& point_regions_min = *points_regions_.cbegin();
@@ -320,8 +346,8 @@ double CableElongationModel::StrainCombined(
   // load is between the points in the sorted collection
   } else {
     // searches for boundary region points
-    for (auto iter = points_regions_.cbegin(); iter != points_regions_.cend();
-         iter++) {
+    for (auto iter = points_regions_.cbegin();
+         iter != points_regions_.cend() - 1; iter++) {
       point_left = *iter;
       point_right = *(iter + 1);
 
@@ -427,14 +453,17 @@ bool CableElongationModel::Update() const {
 
 bool CableElongationModel::UpdateComponentsState(
     const CableState& state) const {
+  // the component models refer to the state
+  state_components_ = state;
+
   // if core component is enabled, updates state
   if (cable_->IsEnabled(SagTensionCable::ComponentType::kCore) == true) {
-    model_core_.set_state(&state);
+    model_core_.set_state(&state_components_);
   }
 
   // if shell component is enabled, updates state
   if (cable_->IsEnabled(SagTensionCable::ComponentType::kShell) == true) {
-    model_shell_.set_state(&state);
+    model_shell_.set_state(&state_components_);
   }
 
   // updates the region points
@@ -543,6 +572,9 @@ bool CableElongationModel::ValidateComponentsStrainLimit(
   }
 
   // modifies component states to reference temperature
+  // the component states are updated again when they are needed
+  is_updated_state_ = false;
+
   CableState state;
   state.temperature = *cable_->temperature_properties_components();
   state.type_polynomial = SagTensionCableComponent::PolynomialType::kLoadStrain;
@@ -590,9 +622,6 @@ bool CableElongationModel::ValidateComponentsStrainLimit(
     }
   }
 
-  // restores component states
-  UpdateComponentsState(state_);
-
   return is_valid;
 }
 
@@ -611,15 +640,19 @@ bool CableElongationModel::ValidateComponentsStrainUnloaded(
 
   // determines if this check is necessary, both core and shell must be enabled
   if ((cable_->IsEnabled(SagTensionCable::ComponentType::kCore) == false)
-      || (cable_->IsEnabled(SagTensionCable::ComponentType::kCore) == false)) {
+      || (cable_->IsEnabled(SagTensionCable::ComponentType::kShell) == false)) {
     return is_valid;
   }
 
-  // creates states and stretch states for components at reference temp with
+  // modifies states and stretch states for components to reference temp with
   // no stretch
-  CableState state;
-  state.temperature = *cable_->temperature_properties_components();
-  state.type_polynomial = SagTensionCableComponent::PolynomialType::kLoadStrain;
+  // the component states are updated again when they are needed
+  is_updated_stretch_ = false;
+  is_updated_state_ = false;
+
+  state_components_.temperature = *cable_->temperature_properties_components();
+  state_components_.type_polynomial =
+      SagTensionCableComponent::PolynomialType::kLoadStrain;
 
   CableStretchState state_stretch;
   state_stretch.load = 0;
@@ -627,11 +660,13 @@ bool CableElongationModel::ValidateComponentsStrainUnloaded(
   state_stretch.type_polynomial =
       SagTensionCableComponent::PolynomialType::kLoadStrain;
 
-  model_core_.set_state(&state);
-  model_core_.set_state_stretch(&state_stretch);
+  state_stretch_core_ = state_stretch;
+  model_core_.set_state(&state_components_);
+  model_core_.set_state_stretch(&state_stretch_core_);
 
-  model_shell_.set_state(&state);
-  model_shell_.set_state_stretch(&state_stretch);
+  state_stretch_shell_ = state_stretch;
+  model_shell_.set_state(&state_components_);
+  model_shell_.set_state_stretch(&state_stretch_shell_);
 
   // gets unloaded unstretched strains for core and shell, calculates
   // difference
@@ -655,12 +690,5 @@ bool CableElongationModel::ValidateComponentsStrainUnloaded(
     }
   }
 
-  // restores component states
-  model_core_.set_state(&state_);
-  model_core_.set_state_stretch(&state_stretch_);
-
-  model_shell_.set_state(&state_);
-  model_shell_.set_state_stretch(&state_stretch_);
-
   return is_valid;
 }
-- 
2.43.0


From bfabb98ba606129205735684b885e02274f15bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:53 +0000
Subject: [PATCH 18/44] fix: line cable loaders only refer to their own models

---
 .../sagtension/line_cable_loader_base.h       | 11 ++++++++
 src/sagtension/line_cable_loader_base.cc      | 28 +++++++++++++++++--
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/include/models/sagtension/line_cable_loader_base.h b/include/models/sagtension/line_cable_loader_base.h
index fb03abc..545bf89 100644
--- a/include/models/sagtension/line_cable_loader_base.h
+++ b/include/models/sagtension/line_cable_loader_base.h
@@ -35,9 +35,20 @@ class LineCableLoaderBase {
   /// \brief Default constructor.
   LineCableLoaderBase();
 
+  /// \brief Copy constructor.
+  /// \param[in] loader
+  ///   The loader to copy.
+  LineCableLoaderBase(const LineCableLoaderBase& loader);
+
   /// \brief Destructor.
   ~LineCableLoaderBase();
 
+  /// \brief Copy assignment.
+  /// \param[in] loader
+  ///   The loader to copy.
+  /// \return A reference to this loader.
+  LineCableLoaderBase& operator=(const LineCableLoaderBase& loader);
+
   /// \brief Gets the stretch state for the creep condition.
   /// \return The stretch state for the creep condition.
   CableStretchState StretchStateCreep() const;
diff --git a/src/sagtension/line_cable_loader_base.cc b/src/sagtension/line_cable_loader_base.cc
index 27b718e..76c3a7c 100644
--- a/src/sagtension/line_cable_loader_base.cc
+++ b/src/sagtension/line_cable_loader_base.cc
@@ -15,9 +15,27 @@ LineCableLoaderBase::LineCableLoaderBase() {
   is_updated_stretch_ = false;
 }
 
+LineCableLoaderBase::LineCableLoaderBase(const LineCableLoaderBase& loader)
+    : LineCableLoaderBase() {
+  *this = loader;
+}
+
 LineCableLoaderBase::~LineCableLoaderBase() {
 }
 
+/// Only the inputs are copied. The cable models refer to the sag-tension cable
+/// that is owned by this class, and are updated when they are needed.
+LineCableLoaderBase& LineCableLoaderBase::operator=(
+    const LineCableLoaderBase& loader) {
+  cable_sagtension_ = loader.cable_sagtension_;
+  line_cable_ = loader.line_cable_;
+
+  is_updated_catenary_constraint_ = false;
+  is_updated_stretch_ = false;
+
+  return *this;
+}
+
 CableStretchState LineCableLoaderBase::StretchStateCreep() const {
   // updates class if necessary
   if ((IsUpdated() == false) && (Update() == false)) {
@@ -187,13 +205,17 @@ Vector3d LineCableLoaderBase::UnitLoad(
 }
 
 bool LineCableLoaderBase::Update() const {
+  is_updated_catenary_constraint_ = false;
+  is_updated_stretch_ = false;
+
   // updates constraint catenary
-  is_updated_catenary_constraint_ = UpdateConstraintCatenary();
-  if (is_updated_catenary_constraint_ == false) {
+  if (UpdateConstraintCatenary() == false) {
     return false;
   }
 
-  InitializeLineCableModels();
+  if (InitializeLineCableModels() == false) {
+    return false;
+  }
 
   is_updated_catenary_constraint_ = UpdateConstraintCableModel();
   if (is_updated_catenary_constraint_ == false) {
-- 
2.43.0


From 88a57df8ea09b6cf43717c04e23c35b260dfab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:54 +0000
Subject: [PATCH 19/44] fix: line cable reloader is validated without a
 reloaded weathercase

---
 src/sagtension/line_cable_reloader.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sagtension/line_cable_reloader.cc b/src/sagtension/line_cable_reloader.cc
index 3ca7d06..1a21667 100644
--- a/src/sagtension/line_cable_reloader.cc
+++ b/src/sagtension/line_cable_reloader.cc
@@ -201,6 +201,11 @@ bool LineCableReloader::Update() const {
 }
 
 bool LineCableReloader::UpdateReloadedCableModel() const {
+  // the base class may be updated before all of the inputs are set
+  if (weathercase_reloaded_ == nullptr) {
+    return false;
+  }
+
   // builds cable states based on reloaded weathercase and stretch
   CableState state;
   state.temperature = weathercase_reloaded_->temperature_cable;
-- 
2.43.0


From 768d95aaef0d6131914091c646123f9ae85f7530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:15 +0000
Subject: [PATCH 20/44] fix: a line cable is only sagged when the entire
 solution succeeds

---
 include/models/sagtension/line_cable_sagger.h |  9 +++-
 src/sagtension/line_cable_sagger.cc           | 43 ++++++++++++-------
 2 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/include/models/sagtension/line_cable_sagger.h b/include/models/sagtension/line_cable_sagger.h
index 53cb76e..85a4b2a 100644
--- a/include/models/sagtension/line_cable_sagger.h
+++ b/include/models/sagtension/line_cable_sagger.h
@@ -127,13 +127,18 @@ class LineCableSagger {
   bool UpdateControllingConstraintIndex() const;
 
   /// \brief Updates the line cable constraint limit.
+  /// \param[in,out] line_cable_sagged
+  ///   The line cable that receives the constraint limit.
   /// \return The success status of the update.
-  bool UpdateLineCableConstraintLimit() const;
+  bool UpdateLineCableConstraintLimit(LineCable* line_cable_sagged) const;
 
   /// \brief Updates the catenaries for the design constraints with the actual
   ///   loading.
+  /// \param[in] line_cable_sagged
+  ///   The line cable with the sagged constraint limit.
   /// \return The success status of the update.
-  bool UpdateCatenariesConstraintsActual() const;
+  bool UpdateCatenariesConstraintsActual(
+      const LineCable* line_cable_sagged) const;
 
   /// \var catenaries_constraints_actual_
   ///   The catenaries for the design constraints, which contain the actual
diff --git a/src/sagtension/line_cable_sagger.cc b/src/sagtension/line_cable_sagger.cc
index 3d721ec..a78cef3 100644
--- a/src/sagtension/line_cable_sagger.cc
+++ b/src/sagtension/line_cable_sagger.cc
@@ -96,11 +96,20 @@ bool LineCableSagger::Validate(const bool& is_included_warnings,
   message.title = "LINE CABLE SAGGER";
 
   // validates constraints-design
-  for (auto iter = constraints_design_->cbegin();
-       iter != constraints_design_->cend(); iter++) {
-    const CableConstraint& constraint = *iter;
-    if (constraint.Validate(is_included_warnings, messages) == false) {
-      is_valid = false;
+  if ((constraints_design_ == nullptr)
+      || (constraints_design_->empty() == true)) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid design constraints";
+      messages->push_back(message);
+    }
+  } else {
+    for (auto iter = constraints_design_->cbegin();
+         iter != constraints_design_->cend(); iter++) {
+      const CableConstraint& constraint = *iter;
+      if (constraint.Validate(is_included_warnings, messages) == false) {
+        is_valid = false;
+      }
     }
   }
 
@@ -173,16 +182,18 @@ bool LineCableSagger::IsUpdated() const {
 bool LineCableSagger::Update() const {
   // updates line cable constraint limit
   if (is_updated_linecable_constraint_limit_ == false) {
-    is_updated_linecable_constraint_limit_ = UpdateLineCableConstraintLimit();
-    if (is_updated_linecable_constraint_limit_ == false) {
+    // the line cable is only modified if the entire update is successful
+    LineCable line_cable = LineCable(*line_cable_);
+    if (UpdateLineCableConstraintLimit(&line_cable) == false) {
       return false;
     }
 
-    is_updated_linecable_constraint_limit_ =
-        UpdateCatenariesConstraintsActual();
-    if (is_updated_linecable_constraint_limit_ == false) {
+    if (UpdateCatenariesConstraintsActual(&line_cable) == false) {
       return false;
     }
+
+    line_cable_->set_constraint(line_cable.constraint());
+    is_updated_linecable_constraint_limit_ = true;
   }
 
   // if it reaches this point, update was successful
@@ -236,12 +247,13 @@ bool LineCableSagger::UpdateControllingConstraintIndex() const {
     }
   }
 
-  return true;
+  return index_constraint_controlling_ != -9999;
 }
 
 /// This function reloads the controlling design constraint at the line cable
 /// constraint loading. The reloaded value is the new constraint limit.
-bool LineCableSagger::UpdateLineCableConstraintLimit() const {
+bool LineCableSagger::UpdateLineCableConstraintLimit(
+    LineCable* line_cable_sagged) const {
   // updates controlling constraint index
   if (UpdateControllingConstraintIndex() == false) {
     return false;
@@ -278,16 +290,17 @@ bool LineCableSagger::UpdateLineCableConstraintLimit() const {
       == CableConstraint::LimitType::kSupportTension) {
     constraint.limit = catenary.TensionMax();
   }
-  line_cable_->set_constraint(constraint);
+  line_cable_sagged->set_constraint(constraint);
 
   return true;
 }
 
-bool LineCableSagger::UpdateCatenariesConstraintsActual() const {
+bool LineCableSagger::UpdateCatenariesConstraintsActual(
+    const LineCable* line_cable_sagged) const {
   // builds a reloader with the reloaded case set to each design constraint
   // loading
   LineCableReloader reloader;
-  reloader.set_line_cable(line_cable_);
+  reloader.set_line_cable(line_cable_sagged);
 
   catenaries_constraints_actual_.clear();
   for (auto iter = constraints_design_->cbegin();
-- 
2.43.0


From 2a0489f22e5fcbfa852e95cd68569c2d8fc90e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:16 +0000
Subject: [PATCH 21/44] fix: cable strainer is validated without elongation
 models

---
 src/sagtension/cable_strainer.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/sagtension/cable_strainer.cc b/src/sagtension/cable_strainer.cc
index e00f55b..61ef6f2 100644
--- a/src/sagtension/cable_strainer.cc
+++ b/src/sagtension/cable_strainer.cc
@@ -48,6 +48,24 @@ bool CableStrainer::Validate(const bool& is_included_warnings,
   ErrorMessage message;
   message.title = "CABLE STRAINER";
 
+  // validates model-start
+  if (model_elongation_start_ == nullptr) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid start elongation model";
+      messages->push_back(message);
+    }
+  }
+
+  // validates model-finish
+  if (model_elongation_finish_ == nullptr) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid finish elongation model";
+      messages->push_back(message);
+    }
+  }
+
   // validates length-start
   if (length_start_ <= 0) {
     is_valid = false;
-- 
2.43.0


From 1a71e96a0ef4e2de93cac1862e0472f27f00afb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:29 +0000
Subject: [PATCH 22/44] fix: cable position locator checks its inputs and the
 span index

---
 .../cable_position_locator.cc                 | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/transmissionline/cable_position_locator.cc b/src/transmissionline/cable_position_locator.cc
index 55d387b..6589cda 100644
--- a/src/transmissionline/cable_position_locator.cc
+++ b/src/transmissionline/cable_position_locator.cc
@@ -33,7 +33,7 @@ std::list<Point3d<double>> CablePositionLocator::PointsCable(
   }
 
   // determines if span index is valid
-  if ((index_span < 0) || (size_connections_ - 1 < index_span)) {
+  if ((index_span < 0) || (size_connections_ - 1 <= index_span)) {
     return points;
   }
 
@@ -174,6 +174,11 @@ bool CablePositionLocator::Validate(const bool& is_included_warnings,
     }
   }
 
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
+  }
+
   // validates update process
   if (Update() == false) {
     is_valid = false;
@@ -282,6 +287,11 @@ bool CablePositionLocator::InitializeConnectionData() const {
 bool CablePositionLocator::InitializeContainers() const {
   // gets the line cable
   const std::list<LineCable>* line_cables = line_->line_cables();
+  const int kSizeLineCables = line_cables->size();
+  if ((index_cable_ < 0) || (kSizeLineCables <= index_cable_)) {
+    return false;
+  }
+
   const LineCable& line_cable = *std::next(line_cables->cbegin(), index_cable_);
 
   // caches the number of connections
@@ -381,15 +391,20 @@ bool CablePositionLocator::SolveCablePosition() const {
 }
 
 bool CablePositionLocator::Update() const {
+  is_updated_ = false;
+
+  // checks if all required inputs are set
+  if ((line_ == nullptr) || (weight_unit_ == nullptr)) {
+    return false;
+  }
+
   // resizes containers to match connection size
-  is_updated_ = InitializeContainers();
-  if (is_updated_ == false) {
+  if (InitializeContainers() == false) {
     return false;
   }
 
   // intializes cached connection data
-  is_updated_ = InitializeConnectionData();
-  if (is_updated_ == false) {
+  if (InitializeConnectionData() == false) {
     return false;
   }
 
-- 
2.43.0


From bdee667128fd3270c624cefc346768a3a58d6715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:30 +0000
Subject: [PATCH 23/44] fix: cable sag position corrector checks its inputs

---
 src/sagging/cable_sag_position_corrector.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/sagging/cable_sag_position_corrector.cc b/src/sagging/cable_sag_position_corrector.cc
index 3c1894e..12cb61f 100644
--- a/src/sagging/cable_sag_position_corrector.cc
+++ b/src/sagging/cable_sag_position_corrector.cc
@@ -135,9 +135,18 @@ bool CableSagPositionCorrector::Validate(
   } else {
     if (points_attachment_->size() <= 1) {
       is_valid = false;
+      if (messages != nullptr) {
+        message.description = "Invalid number of attachment points";
+        messages->push_back(message);
+      }
     }
   }
 
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
+  }
+
   // validates update process
   if (Update() == false) {
     is_valid = false;
@@ -231,9 +240,16 @@ bool CableSagPositionCorrector::SolvePulleyStateTensions(
 }
 
 bool CableSagPositionCorrector::Update() const {
+  is_updated_ = false;
+
+  // checks if all required inputs are set
+  if ((linecable_ == nullptr) || (points_attachment_ == nullptr)
+      || (points_attachment_->size() <= 1)) {
+    return false;
+  }
+
   // updates the clipped state
-  is_updated_ = UpdateClippedState();
-  if (is_updated_ == false) {
+  if (UpdateClippedState() == false) {
     return false;
   }
 
-- 
2.43.0


From 0b9234d057769d8c1bc40ccd170b51c716c5fd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:32 +0000
Subject: [PATCH 24/44] fix: transit sagger fails when there is no low angle

---
 src/sagging/transit_sagger.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sagging/transit_sagger.cc b/src/sagging/transit_sagger.cc
index 620ce87..4ed0d36 100644
--- a/src/sagging/transit_sagger.cc
+++ b/src/sagging/transit_sagger.cc
@@ -215,6 +215,11 @@ double TransitSagger::PositionCatenaryLowAngle(
     }
   }
 
+  // checks if a low angle was found
+  if (index_low == -9999) {
+    return -999999;
+  }
+
   return positions[index_low];
 }
 
@@ -256,6 +261,9 @@ bool TransitSagger::UpdatePointCatenaryLow() const {
     // calculates a new position
     position = PositionCatenaryLowAngle(position_back, position_ahead,
                                         kNumPoints);
+    if (position == -999999) {
+      break;
+    }
 
     // calculates the solution tolerance
     tolerance = (position_ahead - position_back) / (kNumPoints - 1);
@@ -274,7 +282,7 @@ bool TransitSagger::UpdatePointCatenaryLow() const {
   }
 
   // returns success status
-  if ((position == 0) || (position == 1)) {
+  if ((position == -999999) || (position == 0) || (position == 1)) {
     // low point wasn't found because the position matches an end point
     position_low_ = -999999;
     point_catenary_low_ = Point3d<double>();
-- 
2.43.0


From 137fafb219a72700aed5412275d0454e4d85e87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:33 +0000
Subject: [PATCH 25/44] fix: stopwatch sagger is not valid without units

---
 src/sagging/stopwatch_sagger.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sagging/stopwatch_sagger.cc b/src/sagging/stopwatch_sagger.cc
index 5db62e6..5874897 100644
--- a/src/sagging/stopwatch_sagger.cc
+++ b/src/sagging/stopwatch_sagger.cc
@@ -39,6 +39,15 @@ bool StopwatchSagger::Validate(const bool& is_included_warnings,
     is_valid = false;
   }
 
+  // validates units
+  if (units_ == units::UnitSystem::kNull) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid unit system";
+      messages->push_back(message);
+    }
+  }
+
   return is_valid;
 }
 
-- 
2.43.0


From 5ebb8e3e2d8f55a5c2f81d522d14ffd104ac91f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:34 +0000
Subject: [PATCH 26/44] fix: cable attachment equilibrium solver is validated
 without catenaries

---
 .../cable_attachment_equilibrium_solver.cc             | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/transmissionline/cable_attachment_equilibrium_solver.cc b/src/transmissionline/cable_attachment_equilibrium_solver.cc
index 73296df..3ae133a 100644
--- a/src/transmissionline/cable_attachment_equilibrium_solver.cc
+++ b/src/transmissionline/cable_attachment_equilibrium_solver.cc
@@ -98,6 +98,11 @@ bool CableAttachmentEquilibriumSolver::Validate(
     }
   }
 
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
+  }
+
   // validates update process
   if (Update() == false) {
     is_valid = false;
@@ -166,6 +171,11 @@ bool CableAttachmentEquilibriumSolver::IsUpdated() const {
 }
 
 bool CableAttachmentEquilibriumSolver::Update() const {
+  // checks if all required inputs are set
+  if ((catenary_ahead_ == nullptr) || (catenary_back_ == nullptr)) {
+    return false;
+  }
+
   // initializes
   Vector3d tension(0, 0, 0);
   tension_cable_ = Vector3d(0, 0, 0);
-- 
2.43.0


From f145c282667c1558335d32c704996334cb9394eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:35 +0000
Subject: [PATCH 27/44] fix: steady cable temperature solver is validated
 without cable or weather

---
 src/thermalrating/steady_cable_temperature_solver.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/thermalrating/steady_cable_temperature_solver.cc b/src/thermalrating/steady_cable_temperature_solver.cc
index 5cff6ae..2d42289 100644
--- a/src/thermalrating/steady_cable_temperature_solver.cc
+++ b/src/thermalrating/steady_cable_temperature_solver.cc
@@ -93,6 +93,11 @@ bool SteadyCableTemperatureSolver::Validate(
     }
   }
 
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
+  }
+
   // validates update process
   if (Update() == false) {
     is_valid = false;
@@ -233,6 +238,11 @@ bool SteadyCableTemperatureSolver::SolveTemperatureAndState() const {
 }
 
 bool SteadyCableTemperatureSolver::Update() const {
+  // checks if all required inputs are set
+  if ((cable_ == nullptr) || (weather_ == nullptr)) {
+    return false;
+  }
+
   // solves for the cable temperature
   is_updated_ = SolveTemperatureAndState();
   if (is_updated_ == false) {
-- 
2.43.0


From 6d0bc17f16a1a4ac65aa22c196b77f15dbc8701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:09 +0000
Subject: [PATCH 28/44] fix: assigning an alignment keeps the original points
 on failure

---
 include/models/transmissionline/alignment.h | 11 +++++++++++
 src/transmissionline/alignment.cc           | 12 ++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/include/models/transmissionline/alignment.h b/include/models/transmissionline/alignment.h
index 6710f9c..5704b3d 100644
--- a/include/models/transmissionline/alignment.h
+++ b/include/models/transmissionline/alignment.h
@@ -53,9 +53,20 @@ class Alignment {
   /// \brief Default constructor.
   Alignment();
 
+  /// \brief Copy constructor.
+  /// \param[in] alignment
+  ///   The alignment to copy.
+  Alignment(const Alignment& alignment);
+
   /// \brief Destructor.
   ~Alignment();
 
+  /// \brief Copy assignment.
+  /// \param[in] alignment
+  ///   The alignment to copy.
+  /// \return A reference to this alignment.
+  Alignment& operator=(const Alignment& alignment);
+
   /// \brief Adds an alignment point.
   /// \param[in] point
   ///   The alignment point.
diff --git a/src/transmissionline/alignment.cc b/src/transmissionline/alignment.cc
index fff0e9d..8eeba06 100644
--- a/src/transmissionline/alignment.cc
+++ b/src/transmissionline/alignment.cc
@@ -56,9 +56,21 @@ bool AlignmentPoint::Validate(const bool& /*is_included_warnings*/,
 Alignment::Alignment() {
 }
 
+Alignment::Alignment(const Alignment& alignment)
+    : points_(alignment.points_) {
+}
+
 Alignment::~Alignment() {
 }
 
+/// The points are only replaced after all of them are copied.
+Alignment& Alignment::operator=(const Alignment& alignment) {
+  std::list<AlignmentPoint> points = alignment.points_;
+  points_.swap(points);
+
+  return *this;
+}
+
 int Alignment::AddPoint(const AlignmentPoint& point) {
   // searches list for the position to insert point
   auto iter = points_.begin();
-- 
2.43.0


From dda48d18d6f50454e1436eb5f14000ce3b586559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:10 +0000
Subject: [PATCH 29/44] fix: transient temperatures are solved again when an
 update is interrupted

---
 src/thermalrating/transient_cable_temperature_solver.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thermalrating/transient_cable_temperature_solver.cc b/src/thermalrating/transient_cable_temperature_solver.cc
index 122d9de..036eb1c 100644
--- a/src/thermalrating/transient_cable_temperature_solver.cc
+++ b/src/thermalrating/transient_cable_temperature_solver.cc
@@ -218,6 +218,7 @@ bool TransientCableTemperatureSolver::Update() const {
 
 bool TransientCableTemperatureSolver::UpdateTemperaturePoints() const {
   // initializes points
+  is_updated_ = false;
   points_temperature_.clear();
 
   // initializes heat transfer solver
-- 
2.43.0


From b7b4570a19bf74373857ce98f254d8e0cc13254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:29 +0000
Subject: [PATCH 30/44] fix: report why a line cable loader cannot be updated
 when a derived class fails

---
 src/sagtension/line_cable_loader_base.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/line_cable_loader_base.cc b/src/sagtension/line_cable_loader_base.cc
index 76c3a7c..4e711b5 100644
--- a/src/sagtension/line_cable_loader_base.cc
+++ b/src/sagtension/line_cable_loader_base.cc
@@ -90,7 +90,9 @@ bool LineCableLoaderBase::Validate(
   }
 
   // validates update process
-  if (Update() == false) {
+  // the update process is extended by the derived classes, which report on
+  // their own part of it
+  if ((Update() == false) && (LineCableLoaderBase::IsUpdated() == false)) {
     is_valid = false;
     if (messages != nullptr) {
       message.description = "";
-- 
2.43.0


From 9260981d8435963aa7150dbe94bd36cd29517b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:19 +0000
Subject: [PATCH 31/44] fix: a stretch state with an invalid temperature or
 polynomial is not valid

---
 src/sagtension/cable_state.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/cable_state.cc b/src/sagtension/cable_state.cc
index 5d274b3..faad420 100644
--- a/src/sagtension/cable_state.cc
+++ b/src/sagtension/cable_state.cc
@@ -54,7 +54,9 @@ bool CableStretchState::Validate(const bool& is_included_warnings,
   message.title = "CABLE STRETCH STATE";
 
   // validates parent struct
-  CableState::Validate(is_included_warnings, messages);
+  if (CableState::Validate(is_included_warnings, messages) == false) {
+    is_valid = false;
+  }
 
   // validates load
   if (load < 0) {
-- 
2.43.0


From 9463dfd4a14c9bdfd70dd65c6cf4d55346130a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:20 +0000
Subject: [PATCH 32/44] fix: a structure with an invalid attachment is not
 valid

---
 src/transmissionline/structure.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transmissionline/structure.cc b/src/transmissionline/structure.cc
index c94a8d3..2978f08 100644
--- a/src/transmissionline/structure.cc
+++ b/src/transmissionline/structure.cc
@@ -59,7 +59,9 @@ bool Structure::Validate(
   } else {
     for (auto iter = attachments.cbegin(); iter != attachments.cend(); iter++) {
       const StructureAttachment& attachment = *iter;
-      attachment.Validate(is_included_warnings, messages);
+      if (attachment.Validate(is_included_warnings, messages) == false) {
+        is_valid = false;
+      }
     }
   }
 
-- 
2.43.0


From d7653e33b706e4b019f1c7817210b7b4670d9d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:15 +0000
Subject: [PATCH 33/44] fix: interpolate between the resistance points that
 bound the temperature

With three or more points the resistance was extrapolated from the first
segment above it, and from the last segment below the first point.
---
 src/thermalrating/thermal_rating_cable.cc | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/thermalrating/thermal_rating_cable.cc b/src/thermalrating/thermal_rating_cable.cc
index 980974b..af48624 100644
--- a/src/thermalrating/thermal_rating_cable.cc
+++ b/src/thermalrating/thermal_rating_cable.cc
@@ -84,15 +84,9 @@ double ThermalRatingCable::Resistance(const double& temperature) const {
   // searches list of points for the closest ones to target temp, starting
   // from the lowest
   while (true) {
-    // stops searching if resistance points bound the target temp
-    if ((point_low->temperature < temperature)
-         && (temperature < point_high->temperature)) {
-      break;
-    }
-
-    // stops searching if both resistance points are greater than target temp
-    if ((point_low->temperature < temperature)
-         && (point_high->temperature < temperature)) {
+    // stops searching if resistance points bound the target temp, or if both
+    // resistance points are greater than target temp
+    if (temperature <= point_high->temperature) {
       break;
     }
 
-- 
2.43.0


From 8f15c6ff126d756c3fff7aa46539bc5f821f416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:48 +0000
Subject: [PATCH 34/44] fix: solve for steady cable temperatures close to the
 air temperature

When the temperature was less than ten degrees above the air the wrong
boundary point was replaced, so that no solution or an undefined number
was found. Bounded solutions are bisected.
---
 .../steady_cable_temperature_solver.cc        | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/thermalrating/steady_cable_temperature_solver.cc b/src/thermalrating/steady_cable_temperature_solver.cc
index 2d42289..1a20647 100644
--- a/src/thermalrating/steady_cable_temperature_solver.cc
+++ b/src/thermalrating/steady_cable_temperature_solver.cc
@@ -186,14 +186,22 @@ bool SteadyCableTemperatureSolver::SolveTemperatureAndState() const {
   // iterates
   unsigned int iter = 0;
   const int iter_max = 100;
-  while (0.1 < std::abs(point_left.x - point_right.x) && (iter <= iter_max)) {
+  const double precision = 0.1;
+  while (precision < std::abs(point_left.x - point_right.x)
+         && (iter <= iter_max)) {
     // gets current point x value using left and right points
-    // calculates tangent line between points, extrapolates using line
-    double slope_line = (point_right.y - point_left.y)
-                        / (point_right.x - point_left.x);
-
-    point_current.x = point_left.x
-                      + ((target_solution - point_left.y) / slope_line);
+    if ((point_left.y <= target_solution)
+        && (target_solution <= point_right.y)) {
+      // gets average of left and right points
+      point_current.x = (point_left.x + point_right.x) / 2;
+    } else {
+      // calculates tangent line between points, extrapolates using line
+      double slope_line = (point_right.y - point_left.y)
+                          / (point_right.x - point_left.x);
+
+      point_current.x = point_left.x
+                        + ((target_solution - point_left.y) / slope_line);
+    }
 
     // gets current point y value
     solver.set_temperature_cable(point_current.x);
@@ -209,11 +217,11 @@ bool SteadyCableTemperatureSolver::SolveTemperatureAndState() const {
     } else if ((point_left.x < point_current.x)
         && (point_current.x < point_right.x)) {
       if (point_current.y < target_solution) {
-        point_right.x = point_current.x;
-        point_right.y = point_current.y;
-      } else if (target_solution < point_current.y) {
         point_left.x = point_current.x;
         point_left.y = point_current.y;
+      } else {
+        point_right.x = point_current.x;
+        point_right.y = point_current.y;
       }
 
     } else if (point_right.x < point_current.x) {
@@ -226,7 +234,9 @@ bool SteadyCableTemperatureSolver::SolveTemperatureAndState() const {
   }
 
   // caches results and returns success status
-  if (iter < iter_max) {
+  // an undefined number never satisfies the precision
+  if ((iter < iter_max)
+      && (std::abs(point_left.x - point_right.x) <= precision)) {
     state_ = solver.StateHeatTransfer();
     temperature_cable_ = point_current.x;
     return true;
-- 
2.43.0


From 431cbdf022899377cb7c8b50343752ecf0a86382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:05 +0000
Subject: [PATCH 35/44] fix: compare the compression moduli instead of their
 addresses

Strains of loads below the unloaded region were those of the region's
start, whether or not the components can be compressed.
---
 src/sagtension/cable_elongation_model.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index f06b669..f97226b 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -319,9 +319,9 @@ double CableElongationModel::StrainCombined(
   if (load <= point_regions_min.y) {
     // determines if core and/or shell can be compressed
     bool is_compressible_core =
-        cable_->component_core()->modulus_compression_elastic_area() == 0;
+        *cable_->component_core()->modulus_compression_elastic_area() != 0;
     bool is_compressible_shell =
-        cable_->component_shell()->modulus_compression_elastic_area() == 0;
+        *cable_->component_shell()->modulus_compression_elastic_area() != 0;
 
     if ((is_compressible_core == false) && (is_compressible_shell == false)) {
       // cable has no compressive ability, returns minimum value
-- 
2.43.0


From 74116c249e3046a2443545019ba15f3eb2dabb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:21 +0000
Subject: [PATCH 36/44] fix: accept catenary solutions that meet the target
 exactly

The boundary points are not adjusted when the current point is exact, so
that the iteration stalled and no solution was reported.
---
 src/transmissionline/catenary_solver.cc | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/transmissionline/catenary_solver.cc b/src/transmissionline/catenary_solver.cc
index 44409e9..c103366 100644
--- a/src/transmissionline/catenary_solver.cc
+++ b/src/transmissionline/catenary_solver.cc
@@ -242,6 +242,7 @@ bool CatenarySolver::SolveHorizontalTensionFromLength() const {
   // iterates
   unsigned int iter = 0;
   const int iter_max = 100;
+  const double precision = 1e-12;
   while (0.01 < std::abs(point_left.x - point_right.x) && (iter <= iter_max)) {
     // gets current point x value using left and right points
     // calculates tangent line between points, extrapolates using line
@@ -254,6 +255,12 @@ bool CatenarySolver::SolveHorizontalTensionFromLength() const {
     // gets current point y value
     point_current.y = UpdateCatenaryLength(point_current.x);
 
+    // checks if target is met, the boundary points can't be adjusted any closer
+    if (std::abs(point_current.y - target_solution)
+        <= precision * std::abs(target_solution)) {
+      break;
+    }
+
     // updates either left or right point based on current point
     if (point_current.x < point_left.x) {
       point_right.x = point_left.x;
@@ -323,6 +330,7 @@ bool CatenarySolver::SolveHorizontalTensionFromSag() const {
   // iterates
   unsigned int iter = 0;
   const int iter_max = 100;
+  const double precision = 1e-12;
   while (0.01 < std::abs(point_left.x - point_right.x) && (iter <= iter_max)) {
     // gets current point x value using left and right points
     // calculates tangent line between points, extrapolates using line
@@ -335,6 +343,12 @@ bool CatenarySolver::SolveHorizontalTensionFromSag() const {
     // gets current point y value
     point_current.y = UpdateCatenarySag(point_current.x, position_target_);
 
+    // checks if target is met, the boundary points can't be adjusted any closer
+    if (std::abs(point_current.y - target_solution)
+        <= precision * std::abs(target_solution)) {
+      break;
+    }
+
     // updates either left or right point based on current point
     if (point_current.x < point_left.x) {
       point_right.x = point_left.x;
@@ -405,6 +419,7 @@ bool CatenarySolver::SolveHorizontalTensionFromTension() const {
   // iterates
   unsigned int iter = 0;
   const int iter_max = 100;
+  const double precision = 1e-12;
   while (0.01 < std::abs(point_left.x - point_right.x) && (iter <= iter_max)) {
     // gets current point x value using left and right points
     // calculates tangent line between points, extrapolates using line
@@ -417,6 +432,12 @@ bool CatenarySolver::SolveHorizontalTensionFromTension() const {
     // gets current point y value
     point_current.y = UpdateCatenaryTension(point_current.x, position_target_);
 
+    // checks if target is met, the boundary points can't be adjusted any closer
+    if (std::abs(point_current.y - target_solution)
+        <= precision * std::abs(target_solution)) {
+      break;
+    }
+
     // updates either left or right point based on current point
     if (point_current.x < point_left.x) {
       point_right.x = point_left.x;
-- 
2.43.0


From eaeb016ed3c151fe9aba5d2927b125a24b103a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:06 +0000
Subject: [PATCH 37/44] fix: do not strain a cable with a strain that could not
 be solved

---
 src/sagtension/cable_strainer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sagtension/cable_strainer.cc b/src/sagtension/cable_strainer.cc
index 61ef6f2..67d3843 100644
--- a/src/sagtension/cable_strainer.cc
+++ b/src/sagtension/cable_strainer.cc
@@ -29,6 +29,11 @@ double CableStrainer::LengthFinish() const {
   const double strain_finish = model_elongation_finish_->Strain(
       CableElongationModel::ComponentType::kCombined, load_finish_);
 
+  // exits if either of the strains could not be solved for
+  if ((strain_start == -999999) || (strain_finish == -999999)) {
+    return -999999;
+  }
+
   // solves for finish length
   const double strain_transition = strain_finish - strain_start;
 
-- 
2.43.0


From 7840fa729db97cc0cdd36d573e0ce1593bcbf4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:08 +0000
Subject: [PATCH 38/44] fix: check both signs of the length difference of a
 reloaded catenary

---
 src/sagtension/catenary_cable_reloader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sagtension/catenary_cable_reloader.cc b/src/sagtension/catenary_cable_reloader.cc
index f90455f..a9c77ab 100644
--- a/src/sagtension/catenary_cable_reloader.cc
+++ b/src/sagtension/catenary_cable_reloader.cc
@@ -317,7 +317,7 @@ bool CatenaryCableReloader::SolveReloadedCatenaryTension() const {
   // returns success status
   if (iter < iter_max) {
     // does one last sanity check to see if lengths match
-    return point_current.y < 0.1;
+    return std::abs(point_current.y) < 0.1;
   } else {
     return false;
   }
-- 
2.43.0


From 96a98991d41572591830435d70062d87ac2ab834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:28 +0000
Subject: [PATCH 39/44] fix: natural convection of a cable that is colder than
 the air

---
 .../cable_heat_transfer_solver.cc             | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/thermalrating/cable_heat_transfer_solver.cc b/src/thermalrating/cable_heat_transfer_solver.cc
index a96ab1a..1c297df 100644
--- a/src/thermalrating/cable_heat_transfer_solver.cc
+++ b/src/thermalrating/cable_heat_transfer_solver.cc
@@ -78,7 +78,7 @@ double CableHeatTransferSolver::HeatConvection(
 
   // determines which method of convection is highest and saves it
   // switches sign to indicate that heat is removed
-  if (heat_convection_natural < heat_convection_forced) {
+  if (std::abs(heat_convection_natural) < std::abs(heat_convection_forced)) {
     return -1 * heat_convection_forced;
   } else {
     return -1 * heat_convection_natural;
@@ -231,7 +231,8 @@ double CableHeatTransferSolver::HeatConvectionForced(
       * (temperature_cable - weather_->temperature_air);
 
   // returns the highest forced convection value
-  if (heat_convection_forced_1 <= heat_convection_forced_2) {
+  if (std::abs(heat_convection_forced_1)
+      <= std::abs(heat_convection_forced_2)) {
     return heat_convection_forced_2;
   } else {
     return heat_convection_forced_1;
@@ -252,7 +253,17 @@ double CableHeatTransferSolver::HeatConvectionNatural(
   }
 
   // calculates
-  return k * std::pow(density_air, 0.5)
+  // a cable that is colder than the air gains the heat instead of losing it
+  const double temperature_difference =
+      temperature_cable - weather_->temperature_air;
+  const double heat_convection_natural =
+      k * std::pow(density_air, 0.5)
       * std::pow(*cable_->diameter(), 0.75)
-      * std::pow(temperature_cable - weather_->temperature_air, 1.25);
+      * std::pow(std::abs(temperature_difference), 1.25);
+
+  if (temperature_difference < 0) {
+    return -1 * heat_convection_natural;
+  } else {
+    return heat_convection_natural;
+  }
 }
-- 
2.43.0


From 18eb0c440b202e73c578a88ccabaeeec30b94ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:30 +0000
Subject: [PATCH 40/44] fix: no solar radiation while the sun is below the
 horizon

---
 src/thermalrating/solar_radiation_solver.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/thermalrating/solar_radiation_solver.cc b/src/thermalrating/solar_radiation_solver.cc
index 43dc20d..41eae32 100644
--- a/src/thermalrating/solar_radiation_solver.cc
+++ b/src/thermalrating/solar_radiation_solver.cc
@@ -349,6 +349,11 @@ bool SolarRadiationSolver::SolveRadiation() const {
   radiation_ = radiation_ * std::sin(angle_incidence_rad)
                * factor_elevation_correction;
 
+  // the polynomials only apply to a sun that is above the horizon
+  if ((altitude_sun_ < 0) || (radiation_ < 0)) {
+    radiation_ = 0;
+  }
+
   return true;
 }
 
-- 
2.43.0


From 0b86df05fcf8c0f45835cf6a7aeac6afab1aa48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:31 +0000
Subject: [PATCH 41/44] fix: azimuth of a sun that is straight to the north

---
 src/thermalrating/solar_radiation_solver.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/thermalrating/solar_radiation_solver.cc b/src/thermalrating/solar_radiation_solver.cc
index 41eae32..22c034e 100644
--- a/src/thermalrating/solar_radiation_solver.cc
+++ b/src/thermalrating/solar_radiation_solver.cc
@@ -311,7 +311,8 @@ bool SolarRadiationSolver::SolveAzimuthSolar(
       kC = 0;
     }
   } else if (0 <= angle_hour) {
-    if (chi < 0) {
+    // the sun may also be straight to the north at noon
+    if ((chi < 0) || (term2 < term3)) {
       kC = 360;
     } else {
       kC = 180;
-- 
2.43.0


From 17f42463e127f1f75fb10ac4d2e82b56491141c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:19 +0000
Subject: [PATCH 42/44] fix: only enabled components make a cable compressible

---
 src/sagtension/cable_elongation_model.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index f97226b..43d62a7 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -317,11 +317,14 @@ double CableElongationModel::StrainCombined(
 
   // load is less than all points in the sorted collection
   if (load <= point_regions_min.y) {
-    // determines if core and/or shell can be compressed
+    // determines if core and/or shell can be compressed, if enabled
     bool is_compressible_core =
-        *cable_->component_core()->modulus_compression_elastic_area() != 0;
+        (cable_->IsEnabled(SagTensionCable::ComponentType::kCore) == true)
+        && (*cable_->component_core()->modulus_compression_elastic_area() != 0);
     bool is_compressible_shell =
-        *cable_->component_shell()->modulus_compression_elastic_area() != 0;
+        (cable_->IsEnabled(SagTensionCable::ComponentType::kShell) == true)
+        && (*cable_->component_shell()->modulus_compression_elastic_area()
+            != 0);
 
     if ((is_compressible_core == false) && (is_compressible_shell == false)) {
       // cable has no compressive ability, returns minimum value
-- 
2.43.0


From c880d763aa66f8038f4d31a641e3fa8c4f1b7ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:00 +0000
Subject: [PATCH 43/44] fix: suspension hardware swings towards the pull of the
 cable on either side

The direction of the line angle was taken from stale angles, so hardware swung
away from the line angle when the plan angles of the spans wrapped around, and
the transverse load was reversed where the line turns right. Without a line
angle the plane of the hardware was undefined.
---
 .../cable_position_locator.cc                 | 31 ++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/transmissionline/cable_position_locator.cc b/src/transmissionline/cable_position_locator.cc
index 6589cda..9907b4d 100644
--- a/src/transmissionline/cable_position_locator.cc
+++ b/src/transmissionline/cable_position_locator.cc
@@ -346,6 +346,13 @@ bool CablePositionLocator::InitializePointsHardware() const {
     vector_combined.set_x(vector_back.x() + vector_ahead.x());
     vector_combined.set_y(vector_back.y() + vector_ahead.y());
 
+    // the bisect orientation is undefined if there is no line angle, so the
+    // orientation perpendicular to the line is used
+    if (vector_combined.Magnitude() < 0.000001) {
+      vector_combined.set_x(vector_back.y() - vector_ahead.y());
+      vector_combined.set_y(vector_ahead.x() - vector_back.x());
+    }
+
     // gets the hardware assembly at the connection
     const Hardware* hardware = hardwares_[index];
 
@@ -513,20 +520,30 @@ double CablePositionLocator::UpdatePointsHardware() const {
     vector_ahead.Scale(1 / vector_ahead.Magnitude());
     const double angle_ahead = vector_ahead.Angle();
 
-    const double angle_catenaries = std::abs(angle_ahead - angle_back);
+    // gets the hardware point
+    SphericalPoint3d<double>& point_hardware = points_hardware_[index];
 
-    // determines the direction of the line angle
+    // determines the direction of the line angle, which is the side of the
+    // ahead catenary that the hardware bisect orientation is on
+    const double angle_hardware_rad =
+        units::ConvertAngle(point_hardware.angle_x - angle_ahead,
+                            units::AngleConversionType::kDegreesToRadians);
+
+    // solves for the angle between catenaries on the side of the bisect
+    // orientation
     AxisDirectionType direction_line_angle;
-    vector_back.Rotate(180);
-    const double angle_diff_xy = std::abs(angle_ahead - angle_back);
-    if (angle_diff_xy <= 180) {
+    double angle_catenaries;
+    if (0 <= std::sin(angle_hardware_rad)) {
       direction_line_angle = AxisDirectionType::kPositive;
+      angle_catenaries = angle_back - angle_ahead;
     } else {
       direction_line_angle = AxisDirectionType::kNegative;
+      angle_catenaries = angle_ahead - angle_back;
     }
 
-    // gets the hardware point
-    SphericalPoint3d<double>& point_hardware = points_hardware_[index];
+    if (angle_catenaries < 0) {
+      angle_catenaries += 360;
+    }
 
     // updates the equilibrium solver
     solver_equilibrium.set_angle_catenaries(angle_catenaries);
-- 
2.43.0


From 6a27ada56e6e64a0049e7c1b2ccbfe9510099bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:20 +0000
Subject: [PATCH 44/44] fix: longitudinal tension does not keep hardware from
 its equilibrium

Suspension hardware only swings transversely, so the longitudinal imbalance of
windblown spans on a slope stays, and the position of such a cable was never
found.
---
 src/transmissionline/cable_position_locator.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/transmissionline/cable_position_locator.cc b/src/transmissionline/cable_position_locator.cc
index 9907b4d..f852b4b 100644
--- a/src/transmissionline/cable_position_locator.cc
+++ b/src/transmissionline/cable_position_locator.cc
@@ -552,11 +552,23 @@ double CablePositionLocator::UpdatePointsHardware() const {
     solver_equilibrium.set_catenary_ahead(&catenary_ahead);
     solver_equilibrium.set_direction_catenaries(direction_line_angle);
 
+    // gets the tension imbalance at the current hardware angle
+    const double tension_imbalance_current =
+        solver_equilibrium.TensionImbalance();
+
     // updates the hardware point z-axis angle
     point_hardware.angle_z = solver_equilibrium.AngleEquilibrium();
 
+    // gets the tension imbalance at the equilibrium angle, which is the
+    // longitudinal tension that the hardware cannot balance by swinging
+    solver_equilibrium.set_angle_hardware(point_hardware.angle_z);
+    const double tension_imbalance_equilibrium =
+        solver_equilibrium.TensionImbalance();
+
     // updates the max tension imbalance
-    const double tension_imbalance = solver_equilibrium.TensionImbalance();
+    const double tension_imbalance = std::sqrt(
+        std::abs(std::pow(tension_imbalance_current, 2)
+                 - std::pow(tension_imbalance_equilibrium, 2)));
     if (tension_imbalance_max < tension_imbalance) {
       tension_imbalance_max = tension_imbalance;
     }
-- 
2.43.0

