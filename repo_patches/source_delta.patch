From f50f2909eff4ce79e4d8829d540c97cb39f5faf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:26 +0000
Subject: [PATCH 01/12] fix: project the second end point in
 LinearAlg2D::getClosestConnection

---
 src/utils/linearAlg2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/linearAlg2D.cpp b/src/utils/linearAlg2D.cpp
index ef1a8be..f122764 100644
--- a/src/utils/linearAlg2D.cpp
+++ b/src/utils/linearAlg2D.cpp
@@ -135,7 +135,7 @@ std::pair<Point2LL, Point2LL> LinearAlg2D::getClosestConnection(Point2LL a1, Poi
     coord_t b2_on_a_dist2 = vSize2(b2_on_a - b2);
     Point2LL a1_on_b = getClosestOnLineSegment(a1, b1, b2);
     coord_t a1_on_b_dist2 = vSize2(a1_on_b - a1);
-    Point2LL a2_on_b = getClosestOnLineSegment(a1, b1, b2);
+    Point2LL a2_on_b = getClosestOnLineSegment(a2, b1, b2);
     coord_t a2_on_b_dist2 = vSize2(a2_on_b - a2);
     if (b1_on_a_dist2 < b2_on_a_dist2 && b1_on_a_dist2 < a1_on_b_dist2 && b1_on_a_dist2 < a2_on_b_dist2)
     {
-- 
2.43.0


From 1ed3e852e456538be5dd36cbf60db08cdc64adec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 02/12] fix: apply the flow rate compensation offset once in
 relative extrusion mode

---
 include/gcode_export/gcodeExport.h | 1 +
 src/gcode_export/gcodeExport.cpp   | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/gcode_export/gcodeExport.h b/include/gcode_export/gcodeExport.h
index 6a5d660..c4427d8 100644
--- a/include/gcode_export/gcodeExport.h
+++ b/include/gcode_export/gcodeExport.h
@@ -150,6 +150,7 @@ private:
 
     // flow-rate compensation
     double current_e_offset_; //!< Offset to compensate for flow rate (mm or mm^3)
+    double relative_e_offset_{ 0.0 }; //!< The part of current_e_offset_ that has already been written to relative gcode (mm or mm^3)
     double max_extrusion_offset_; //!< 0 to turn it off, normally 4
     double extrusion_offset_factor_; //!< default 1
 
diff --git a/src/gcode_export/gcodeExport.cpp b/src/gcode_export/gcodeExport.cpp
index d82113d..687d48a 100644
--- a/src/gcode_export/gcodeExport.cpp
+++ b/src/gcode_export/gcodeExport.cpp
@@ -56,6 +56,7 @@ GCodeExport::GCodeExport()
     , template_resolver_(std::make_shared<GcodeTemplateResolver>())
 {
     current_e_value_ = 0;
+    current_e_offset_ = 0;
     current_extruder_ = 0;
 
     total_print_times_ = std::vector<Duration>(static_cast<unsigned char>(PrintFeatureType::NumPrintFeatureTypes), 0.0);
@@ -1162,10 +1163,12 @@ void GCodeExport::writeFXYZE(
             writeRawRetract(retraction_amounts.value());
         }
     }
-    else if (e + current_e_offset_ != current_e_value_)
+    // In relative mode the offset that has been written before is already included in the position of the extruder.
+    else if (const double previous_e = relative_extrusion_ ? current_e_value_ + relative_e_offset_ : current_e_value_; e + current_e_offset_ != previous_e)
     {
         any_written = true;
-        const double output_e = (relative_extrusion_) ? e + current_e_offset_ - current_e_value_ : e + current_e_offset_;
+        const double output_e = (relative_extrusion_) ? e + current_e_offset_ - previous_e : e + current_e_offset_;
+        relative_e_offset_ = current_e_offset_;
         *output_stream_ << " " << extruder_attr_[current_extruder_].extruder_character_ << PrecisionedDouble{ 5, output_e };
         current_e_value_ = e;
     }
-- 
2.43.0


From 0e116ae5c85d42649627e4c8e1f68dacbfb03c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 03/12] fix: accumulate polyline lengths in coord_t instead of
 int

---
 src/geometry/Polyline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/Polyline.cpp b/src/geometry/Polyline.cpp
index fcbab0f..8dab304 100644
--- a/src/geometry/Polyline.cpp
+++ b/src/geometry/Polyline.cpp
@@ -137,7 +137,7 @@ coord_t Polyline::length() const
     return std::accumulate(
         beginSegments(),
         endSegments(),
-        0,
+        coord_t{ 0 },
         [](coord_t total, const const_segments_iterator::value_type& segment)
         {
             return total + vSize(segment.end - segment.start);
-- 
2.43.0


From fae37d473e822c31df690646d9393cba20eae726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 04/12] fix: do not read before the buffer when printing the
 coordinate 0

---
 include/utils/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/string.h b/include/utils/string.h
index c26b55c..ec3ac63 100644
--- a/include/utils/string.h
+++ b/include/utils/string.h
@@ -82,7 +82,7 @@ static inline void writeInt2mm(const int32_t coord, std::ostream& ss)
 #endif // DEBUG
     int end_pos = char_count; // the first character not to write any more
     int trailing_zeros = 1;
-    while (trailing_zeros < 4 && buffer[char_count - trailing_zeros] == '0')
+    while (trailing_zeros < 4 && trailing_zeros <= char_count && buffer[char_count - trailing_zeros] == '0')
     {
         trailing_zeros++;
     }
-- 
2.43.0


From bd10c4dc3233cfc7f638386ca62cf1a6a563735d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 05/12] fix: keep the extruder position when a flow rate
 compensated move needs no extruder change

---
 src/gcode_export/gcodeExport.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/gcode_export/gcodeExport.cpp b/src/gcode_export/gcodeExport.cpp
index 687d48a..5455037 100644
--- a/src/gcode_export/gcodeExport.cpp
+++ b/src/gcode_export/gcodeExport.cpp
@@ -1163,14 +1163,19 @@ void GCodeExport::writeFXYZE(
             writeRawRetract(retraction_amounts.value());
         }
     }
-    // In relative mode the offset that has been written before is already included in the position of the extruder.
-    else if (const double previous_e = relative_extrusion_ ? current_e_value_ + relative_e_offset_ : current_e_value_; e + current_e_offset_ != previous_e)
+    else
     {
-        any_written = true;
-        const double output_e = (relative_extrusion_) ? e + current_e_offset_ - previous_e : e + current_e_offset_;
-        relative_e_offset_ = current_e_offset_;
-        *output_stream_ << " " << extruder_attr_[current_extruder_].extruder_character_ << PrecisionedDouble{ 5, output_e };
+        // In relative mode the offset that has been written before is already included in the position of the extruder.
+        const double previous_e = relative_extrusion_ ? current_e_value_ + relative_e_offset_ : current_e_value_;
+        const bool extruder_moves = relative_extrusion_ ? e + current_e_offset_ != previous_e : (e != current_e_value_ || current_e_offset_ != 0.0);
+        if (extruder_moves)
+        {
+            any_written = true;
+            const double output_e = (relative_extrusion_) ? e + current_e_offset_ - previous_e : e + current_e_offset_;
+            *output_stream_ << " " << extruder_attr_[current_extruder_].extruder_character_ << PrecisionedDouble{ 5, output_e };
+        }
         current_e_value_ = e;
+        relative_e_offset_ = current_e_offset_;
     }
 
     if (! any_written)
-- 
2.43.0


From f46cb695a187587172238d50cb5f3bdca752951f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 06/12] fix: also fill the first row of a triangle that starts
 in grid row 0

---
 src/utils/SquareGrid.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/utils/SquareGrid.cpp b/src/utils/SquareGrid.cpp
index 4c66c49..7ab2808 100644
--- a/src/utils/SquareGrid.cpp
+++ b/src/utils/SquareGrid.cpp
@@ -131,13 +131,14 @@ bool SquareGrid::processAxisAlignedTriangle(const Point2LL from, const Point2LL
 
 bool SquareGrid::processAxisAlignedTriangle(const Point2LL from, const Point2LL to, const std::function<bool(GridPoint)>& process_cell_func) const
 {
-    GridPoint last;
     GridPoint grid_to = toGridPoint(to);
+    bool is_first = true;
+    GridPoint last;
     return processLineCells(
         std::make_pair(from, to),
-        [grid_to, &last, &process_cell_func, this](const GridPoint grid_loc)
+        [grid_to, &is_first, &last, &process_cell_func, this](const GridPoint grid_loc)
         {
-            if (grid_loc.Y != last.Y)
+            if (is_first || grid_loc.Y != last.Y)
             {
                 const coord_t sign = nonzeroSign(grid_to.X - grid_loc.X);
                 for (grid_coord_t x = grid_loc.X; x * sign <= grid_to.X * sign; x += sign)
@@ -155,6 +156,7 @@ bool SquareGrid::processAxisAlignedTriangle(const Point2LL from, const Point2LL
                     return false;
                 }
             }
+            is_first = false;
             last = grid_loc;
             return true;
         });
-- 
2.43.0


From 183f1333b64debd9cd6418bdd0bcf4a34dd753da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 07/12] fix: unite the roots of the two sets in
 UnionFind::unite

---
 include/utils/UnionFind.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/utils/UnionFind.h b/include/utils/UnionFind.h
index e2d42cc..2ff3b55 100644
--- a/include/utils/UnionFind.h
+++ b/include/utils/UnionFind.h
@@ -102,17 +102,21 @@ public:
         const size_t second_root = findByHandle(second);
 
         //The tree with the greatest rank becomes the parent. This creates shallower trees.
+        if (first_root == second_root)
+        {
+            return first_root;
+        }
         if (rank[first_root] < rank[second_root])
         {
-            parent_index[first] = second;
+            parent_index[first_root] = second_root;
             rank[second_root] += rank[first_root];
-            return second;
+            return second_root;
         }
         else
         {
-            parent_index[second] = first;
+            parent_index[second_root] = first_root;
             rank[first_root] += rank[second_root];
-            return first;
+            return first_root;
         }
     }
 
-- 
2.43.0


From 8259dcf6bd4b9cb94d79da19ca5462c3fdb847e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 08/12] fix: measure the distance of the point, not of the box
 corners, in AABB::distanceSquared

---
 src/utils/AABB.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/AABB.cpp b/src/utils/AABB.cpp
index 649fbfd..9881a2a 100644
--- a/src/utils/AABB.cpp
+++ b/src/utils/AABB.cpp
@@ -67,10 +67,10 @@ coord_t AABB::distanceSquared(const Point2LL& p) const
     const Point2LL a = Point2LL(max_.X, min_.Y);
     const Point2LL b = Point2LL(min_.X, max_.Y);
     return (contains(p) ? -1 : 1)
-         * std::min({ LinearAlg2D::getDist2FromLineSegment(min_, a, p),
-                      LinearAlg2D::getDist2FromLineSegment(a, max_, p),
-                      LinearAlg2D::getDist2FromLineSegment(max_, b, p),
-                      LinearAlg2D::getDist2FromLineSegment(b, min_, p) });
+         * std::min({ LinearAlg2D::getDist2FromLineSegment(min_, p, a),
+                      LinearAlg2D::getDist2FromLineSegment(a, p, max_),
+                      LinearAlg2D::getDist2FromLineSegment(max_, p, b),
+                      LinearAlg2D::getDist2FromLineSegment(b, p, min_) });
 }
 
 coord_t AABB::distanceSquared(const AABB& other) const
-- 
2.43.0


From a78b25cba0f5c227100b55a42ed81da620b31547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:48 +0000
Subject: [PATCH 09/12] fix: let the second part of a split z-hop descent reach
 the layer height

writeZhopEnd recorded the layer height as the current height after a partial
descent, so that the final part was written without a Z coordinate and the
nozzle stayed above the layer.
---
 src/gcode_export/gcodeExport.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/gcode_export/gcodeExport.cpp b/src/gcode_export/gcodeExport.cpp
index 5455037..99ba495 100644
--- a/src/gcode_export/gcodeExport.cpp
+++ b/src/gcode_export/gcodeExport.cpp
@@ -1379,7 +1379,6 @@ void GCodeExport::writeZhopEnd(Velocity speed /*= 0*/, const coord_t height, con
         }
 
         writeZhop(speed, height, prime_distance);
-        current_position_.z_ = current_layer_z_;
     }
 }
 
-- 
2.43.0


From b99476de479f72cc1b1ac3baf98cbdf614c3e817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:48 +0000
Subject: [PATCH 10/12] fix: keep the retraction during the first part of a
 split z-hop descent in volumetric mode

The current retraction is stored in E units (mm3 when volumetric) while
writeZhopEnd expects millimetres of filament.
---
 src/gcode_export/gcodeExport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gcode_export/gcodeExport.cpp b/src/gcode_export/gcodeExport.cpp
index 99ba495..cd9c4ff 100644
--- a/src/gcode_export/gcodeExport.cpp
+++ b/src/gcode_export/gcodeExport.cpp
@@ -1373,7 +1373,7 @@ void GCodeExport::writeZhopEnd(Velocity speed /*= 0*/, const coord_t height, con
         if (prime_distance.has_value() && prime_ratio > 0.0 && prime_ratio < 1.0)
         {
             // We have to split the z-hop move in two sub-moves, one without prime and one with
-            writeZhopEnd(speed, is_z_hopped_ * prime_ratio, extruder_attr_[current_extruder_].retraction_e_amount_current_, 0.0);
+            writeZhopEnd(speed, is_z_hopped_ * prime_ratio, eToMm(extruder_attr_[current_extruder_].retraction_e_amount_current_), 0.0);
             writeZhopEnd(speed, 0, prime_distance, 0.0);
             return;
         }
-- 
2.43.0


From 2e787da42efc2a11562e15fa18a41abb5a583c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:12 +0000
Subject: [PATCH 11/12] fix: only treat fan speeds that round to zero as zero

PrecisionedDouble::wouldWriteZero was true for values that are written as a
non-zero number, so that such a fan speed turned the fan off, and the next
equal one was considered to be already in force.
---
 include/utils/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/string.h b/include/utils/string.h
index ec3ac63..f3cb0ad 100644
--- a/include/utils/string.h
+++ b/include/utils/string.h
@@ -200,7 +200,7 @@ struct PrecisionedDouble
 
     bool wouldWriteZero() const
     {
-        return (std::abs(value) * std::pow(10.0, precision)) < 1.0;
+        return (std::abs(value) * std::pow(10.0, precision)) < 0.5;
     }
 
     friend inline std::ostream& operator<<(std::ostream& out, const PrecisionedDouble precision_and_input)
-- 
2.43.0


From ae50b4c5d0477a62e03a13248606609916316adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:44 +0000
Subject: [PATCH 12/12] fix: end the recursion in
 RedistributeBeadingStrategy::toString

---
 src/BeadingStrategy/RedistributeBeadingStrategy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BeadingStrategy/RedistributeBeadingStrategy.cpp b/src/BeadingStrategy/RedistributeBeadingStrategy.cpp
index ebceddf..63b6cb9 100644
--- a/src/BeadingStrategy/RedistributeBeadingStrategy.cpp
+++ b/src/BeadingStrategy/RedistributeBeadingStrategy.cpp
@@ -63,7 +63,7 @@ double RedistributeBeadingStrategy::getTransitionAnchorPos(coord_t lower_bead_co
 
 std::string RedistributeBeadingStrategy::toString() const
 {
-    return toString() + parent_->toString();
+    return std::string("RedistributeBeadingStrategy+") + parent_->toString();
 }
 
 BeadingStrategy::Beading RedistributeBeadingStrategy::compute(coord_t thickness, coord_t bead_count) const
-- 
2.43.0

