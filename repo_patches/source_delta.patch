From 7f929ccfac23d5fa202a116c71ef1c90f36bc6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:30 +0000
Subject: [PATCH 01/62] fix: do not weld moves of different types at the start
 of an arc

---
 ArcWelder/segmented_arc.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index bc17ef8..b66a690 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -171,6 +171,18 @@ bool segmented_arc::try_add_point(printer_point p)
         return false;
       }
     }
+    else if (points_.count() == 2 && !(
+      (p1.e_relative > 0 && p.e_relative > 0) // Extrusions 
+      || (p1.e_relative < 0 && p.e_relative < 0) // Retractions
+      || (p1.e_relative == 0 && p.e_relative == 0) // Travel
+      ))
+    {
+      // There is only one move so far, and the current move is of a different type.  An arc can't contain both,
+      // so drop the initial point and start over with the end of the previous move.
+      points_.pop_front();
+      original_shape_length_ -= p1.distance;
+      e_relative_ -= p1.e_relative;
+    }
 
     if (utilities::is_zero(p.distance))
     {
-- 
2.43.0


From 0dbeb8c342810ecb78aff2f1526146bf7e797959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:30 +0000
Subject: [PATCH 02/62] fix: keep the comments of all moves of an arc when
 blank lines lie between them

---
 ArcWelder/arc_welder.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index c68fdc0..bba98d0 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -872,7 +872,17 @@ std::string arc_welder::get_comment_for_arc()
 {
   // build a comment string from the commands making up the arc
         // We need to start with the first command entered.
-  int comment_index = unwritten_commands_.count() - (current_arc_.get_num_segments() - 1);
+  // Blank lines may be mixed in with the moves, so count only the moves.
+  int comment_index = unwritten_commands_.count();
+  int num_moves = current_arc_.get_num_segments() - 1;
+  while (num_moves > 0 && comment_index > 0)
+  {
+    comment_index--;
+    if (unwritten_commands_[comment_index].is_g0_g1)
+    {
+      num_moves--;
+    }
+  }
   std::string comment;
   for (; comment_index < unwritten_commands_.count(); comment_index++)
   {
-- 
2.43.0


From 8e55c355610180f5941a37b3d6040979920359a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:30 +0000
Subject: [PATCH 03/62] fix: write the final arc when the file ends with a
 blank line

---
 ArcWelder/arc_welder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index bba98d0..533e7f1 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -734,7 +734,7 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
     previous_extrusion_rate_ = 0;
   }
 
-  if (!arc_added && !(cmd.is_empty && cmd.comment.length() == 0))
+  if (!arc_added && (is_end || !(cmd.is_empty && cmd.comment.length() == 0)))
   {
     if (current_arc_.get_num_segments() < current_arc_.get_min_segments()) {
       if (debug_logging_enabled_ && !cmd.is_empty)
-- 
2.43.0


From 1a9b1a56a2a21e8b07e7facf12b41e80da5a6ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:59 +0000
Subject: [PATCH 04/62] fix: circular_buffer::push_back must add one item

---
 GcodeProcessorLib/circular_buffer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/circular_buffer.h b/GcodeProcessorLib/circular_buffer.h
index 645234e..99a979d 100644
--- a/GcodeProcessorLib/circular_buffer.h
+++ b/GcodeProcessorLib/circular_buffer.h
@@ -118,11 +118,15 @@ public:
 	{
 		int pos = get_index_position(count_);
 		items_[pos] = object;
-		count_++;
 		if (count_ != max_size_)
 		{
 			count_++;
 		}
+		else
+		{
+			// The buffer is full, the oldest item at the front was replaced
+			front_index_ = get_index_position(1);
+		}
 	}
 
 	T& pop_front()
-- 
2.43.0


From ed5dab7acd1f961df7050fc3e668ad615fe61815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:59 +0000
Subject: [PATCH 05/62] fix: copying a container must not shift its items

---
 GcodeProcessorLib/array_list.h      | 1 -
 GcodeProcessorLib/circular_buffer.h | 1 -
 2 files changed, 2 deletions(-)

diff --git a/GcodeProcessorLib/array_list.h b/GcodeProcessorLib/array_list.h
index 1befaa6..89b3dfa 100644
--- a/GcodeProcessorLib/array_list.h
+++ b/GcodeProcessorLib/array_list.h
@@ -179,7 +179,6 @@ public:
 		{
 			items_[index] = source[index];
 		}
-		front_index_ = source.front_index_;
 		count_ = source.count_;
 	}
 
diff --git a/GcodeProcessorLib/circular_buffer.h b/GcodeProcessorLib/circular_buffer.h
index 99a979d..feab12d 100644
--- a/GcodeProcessorLib/circular_buffer.h
+++ b/GcodeProcessorLib/circular_buffer.h
@@ -197,7 +197,6 @@ public:
 		{
 			items_[index] = source[index];
 		}
-		front_index_ = source.front_index_;
 		count_ = source.count_;
 	}
 
-- 
2.43.0


From 68829da96182893444f8afb769b4071f72d29b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 06/62] fix: count the digits of numbers that do not fit into
 an int

---
 GcodeProcessorLib/utilities.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index d16f8f4..dd05ef2 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -402,14 +402,20 @@ int utilities::get_num_digits(int x)
 int utilities::get_num_digits(double x, int precision)
 {
 	return get_num_digits(
-		(int)utilities::ceil(x * utilities::pow(10, precision) - .4999999999999)
+		utilities::ceil(utilities::abs(x) * utilities::pow(10, precision) - .4999999999999)
 		/ utilities::pow(10, precision)
 	);
 }
 
 int utilities::get_num_digits(double x)
 {
-	return get_num_digits((int)x);
+	int num_digits = 1;
+	// This is done with doubles, since x may not fit into an int
+	for (x = utilities::abs(x); x >= 10 && num_digits < 400; x /= 10)
+	{
+		num_digits++;
+	}
+	return num_digits;
 }
 
 // Nice utility function found here: https://stackoverflow.com/questions/8520560/get-a-file-name-from-a-path
-- 
2.43.0


From ec2a1ca492fbc64ca4d2e8057c1b27622dc99c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 07/62] fix: do not overrun the buffer of dtos for very large
 and very small numbers

---
 GcodeProcessorLib/utilities.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index dd05ef2..169ec2e 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -687,6 +687,14 @@ std::string utilities::dtos(double x, unsigned char precision)
 {
 	static char buffer[FPCONV_BUFFER_LENGTH];
 	char* p = buffer;
+	double abs_x = utilities::abs(x);
+	if (abs_x >= 1e7 || (abs_x != 0 && abs_x < 1e-4) || precision > 6)
+	{
+		// The digits of this number either do not fit into the buffer, or fpconv_dtos cannot write them without an exponent.
+		std::ostringstream number_stream;
+		number_stream << std::fixed << std::setprecision(precision) << x;
+		return number_stream.str();
+	}
 	buffer[fpconv_dtos(x, buffer, precision)] = '\0';
 	/* This is code that can be used to compare the output of the
 		 modified fpconv_dtos function to the ofstream output
-- 
2.43.0


From 8c2f302b2aa9d2013d285e5be98285362e48cce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 08/62] fix: use the values of I, J and R to measure the arcs
 of the source

---
 ArcWelder/arc_welder.cpp        | 6 +++---
 GcodeProcessorLib/utilities.cpp | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 533e7f1..0f33a03 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -471,14 +471,14 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
         switch ((*it).name[0])
         {
         case 'I':
-          i = (*it).double_precision;
+          i = (*it).double_value;
           break;
         case 'J':
-          j = (*it).double_precision;
+          j = (*it).double_value;
           break;
           // Note that the R form isn't fully implemented!
         case 'R':
-          r = (*it).double_precision;
+          r = (*it).double_value;
           break;
         }
       }
diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index 169ec2e..c82fa5d 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -212,13 +212,14 @@ double utilities::get_cartesian_distance(double x1, double y1, double z1, double
 
 double utilities::get_arc_distance(double x1, double y1, double z1, double x2, double y2, double z2, double i, double j, double r, bool is_clockwise)
 {
-	double center_x = x1 - i;
-	double center_y = y1 - j;
+	double center_x = x1 + i;
+	double center_y = y1 + j;
 	double radius = utilities::hypot(i, j);
 	double z_dist = z2 - z1;
 	double rt_x = x2 - center_x;
 	double rt_y = y2 - center_y;
-	double angular_travel_total = utilities::atan2(i * rt_y - j * rt_x, i * rt_x + j * rt_y);
+	// The vector from the center to the first point is (-i, -j)
+	double angular_travel_total = utilities::atan2(j * rt_x - i * rt_y, -i * rt_x - j * rt_y);
 	if (angular_travel_total < 0) { angular_travel_total += 2.0 * PI_DOUBLE; }
 	// Adjust the angular travel if the direction is clockwise
 	if (is_clockwise) { angular_travel_total -= 2.0 * PI_DOUBLE; }
-- 
2.43.0


From f00a33b4c30e174e338376bfd8d610490be243e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 09/62] fix: recognise the UltiGCode flavor line in files with
 CRLF line ends

---
 ArcWelder/arc_welder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 0f33a03..38166d3 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -280,7 +280,7 @@ arc_welder_results arc_welder::process()
 // This comment MUST be preserved as the first line for ultimakers, else things won't work
     if (lines_processed_ == 1)
     {
-      bool isUltiGCode = line == ";FLAVOR:UltiGCode";
+      bool isUltiGCode = line == ";FLAVOR:UltiGCode" || line == ";FLAVOR:UltiGCode\r";
       bool isPrusaSlicer = line.rfind("; generated by PrusaSlicer", 0) == 0;
       if (isUltiGCode || isPrusaSlicer)
       {
-- 
2.43.0


From 4d3ee14be384c47a3ff39a12ef6c5498cf5d38bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 10/62] fix: do not start an arc at an unknown position

---
 ArcWelder/arc_welder.cpp             |  2 ++
 GcodeProcessorLib/gcode_position.cpp | 15 +++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 38166d3..9e746f4 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -570,6 +570,8 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
   if (
     !is_end && cmd.is_known_command && !cmd.is_empty && (
       is_g0_g1 && z_axis_ok &&
+      !p_pre_pos->x_null && !p_pre_pos->y_null && !p_cur_pos->x_null && !p_cur_pos->y_null &&
+      p_pre_pos->z_null == p_cur_pos->z_null &&
       utilities::is_equal(p_cur_pos->x_offset, p_pre_pos->x_offset) &&
       utilities::is_equal(p_cur_pos->y_offset, p_pre_pos->y_offset) &&
       utilities::is_equal(p_cur_pos->z_offset, p_pre_pos->z_offset) &&
diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 3c60868..366c83a 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -1104,18 +1104,33 @@ void gcode_position::process_g28(position* pos, parsed_command& cmd)
 		pos->x = home_x_;
 		pos->x_null = false;
 	}
+	else if (set_x_home)
+	{
+		// The home position is not known
+		pos->x_null = true;
+	}
 	// todo: set error flag on else
 	if (set_y_home && !home_y_none_)
 	{
 		pos->y = home_y_;
 		pos->y_null = false;
 	}
+	else if (set_y_home)
+	{
+		// The home position is not known
+		pos->y_null = true;
+	}
 	// todo: set error flag on else
 	if (set_z_home && !home_z_none_)
 	{
 		pos->z = home_z_;
 		pos->z_null = false;
 	}
+	else if (set_z_home)
+	{
+		// The home position is not known
+		pos->z_null = true;
+	}
 	// todo: set error flag on else
 }
 
-- 
2.43.0


From 7b89b5007d52aed677a38965409b674136273cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 11/62] fix: write the Z parameter of an arc whenever Z changes

---
 ArcWelder/segmented_arc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index b66a690..3f4825c 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -309,7 +309,7 @@ std::string segmented_arc::get_shape_gcode() const
   bool has_e = e_relative_ != 0;
   bool has_f = utilities::greater_than_or_equal(f, 1);
   bool has_z = allow_3d_arcs_ && !utilities::is_equal(
-    current_arc_.start_point.z, current_arc_.end_point.z, get_xyz_tolerance()
+    current_arc_.start_point.z, current_arc_.end_point.z
   );
   gcode.reserve(96);
 
@@ -374,7 +374,7 @@ int segmented_arc::get_shape_gcode_length()
   bool has_e = e_relative_ != 0;
   bool has_f = utilities::greater_than_or_equal(f, 1);
   bool has_z = allow_3d_arcs_ && !utilities::is_equal(
-    current_arc_.start_point.z, current_arc_.end_point.z, get_xyz_tolerance()
+    current_arc_.start_point.z, current_arc_.end_point.z
   );
   
   int xyz_precision = get_xyz_precision();
-- 
2.43.0


From 12800990a6ad5ea292bf29cc82f557c336b6a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 12/62] fix: firmware compensation must use mm_per_arc_segment

---
 ArcWelder/segmented_arc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index 3f4825c..9c7e697 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -255,7 +255,7 @@ bool segmented_arc::try_add_point_internal_(printer_point p)
       // See how many arcs will be interpolated
       double circumference = 2.0 * PI_DOUBLE * current_arc_.radius;
       // TODO: Should this be ceil?
-      int num_segments = (int)utilities::floor(circumference / min_arc_segments_);
+      int num_segments = (int)utilities::floor(circumference / mm_per_arc_segment_);
       if (num_segments < min_arc_segments_) {
         //num_segments = (int)std::ceil(circumference/approximate_length) * (int)std::ceil(approximate_length / mm_per_arc_segment);
         // TODO: Should this be ceil?
-- 
2.43.0


From 76f0d64ea75b0e1165c4845cd08f17bdd71aeab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 13/62] fix: 3D arcs must follow the Z ramp of all of their
 points

---
 ArcWelder/segmented_shape.cpp | 60 ++++++++++++++++-------------------
 ArcWelder/segmented_shape.h   |  2 ++
 2 files changed, 30 insertions(+), 32 deletions(-)

diff --git a/ArcWelder/segmented_shape.cpp b/ArcWelder/segmented_shape.cpp
index 3da264c..7f22345 100644
--- a/ArcWelder/segmented_shape.cpp
+++ b/ArcWelder/segmented_shape.cpp
@@ -200,6 +200,11 @@ bool circle::try_create_circle(const array_list<printer_point>& points, const do
   int count = points.count();
   int middle_index = count / 2;
   int end_index = count - 1;
+
+  if (allow_3d_arcs && !circle::is_z_ramp(points, resolution_mm))
+  {
+    return false;
+  }
   
 
   
@@ -265,10 +270,31 @@ double circle::get_polar_radians(const point& p1) const
   return polar_radians;
 }
 
+bool circle::is_z_ramp(const array_list<printer_point>& points, const double resolution_mm)
+{
+  // The Z axis moves at a constant rate along an arc, so every point must be close to a straight ramp
+  // from the first to the last point.
+  const int count = points.count();
+  double total_length = 0;
+  for (int index = 1; index < count; index++)
+  {
+    total_length += point::cartesian_distance(points[index - 1], points[index]);
+  }
+  double length = 0;
+  for (int index = 1; index < count; index++)
+  {
+    length += point::cartesian_distance(points[index - 1], points[index]);
+    double ramp_z = points[0].z + (points[count - 1].z - points[0].z) * length / total_length;
+    if (!(utilities::abs(points[index].z - ramp_z) <= resolution_mm))
+    {
+      return false;
+    }
+  }
+  return true;
+}
+
 bool circle::get_deviation_sum_squared(const array_list<printer_point>& points, const double resolution_mm, const double xyz_tolerance, const bool allow_3d_arcs, double &total_deviation)
 {
-  // We need to ensure that the Z steps are constand per linear travel unit
-  double z_step_per_distance = 0;
   total_deviation = 0;
   // Skip the first and last points since they will fit perfectly.
   for (int index = 1; index < points.count() - 1; index++)
@@ -276,20 +302,6 @@ bool circle::get_deviation_sum_squared(const array_list<printer_point>& points,
     // Make sure the length from the center of our circle to the test point is 
     // at or below our max distance.
     double distance_from_center = utilities::get_cartesian_distance(points[index].x, points[index].y, center.x, center.y);
-    if (allow_3d_arcs) {
-      double z1 = points[index - 1].z;
-      double z2 = points[index].z;
-
-      double current_z_stepper_distance = (z2 - z1) / distance_from_center;
-      if (index == 1) {
-        z_step_per_distance = current_z_stepper_distance;
-      }
-      else if (!utilities::is_equal(z_step_per_distance, current_z_stepper_distance, xyz_tolerance))
-      {
-        // The z step is uneven, can't create arc				
-        return false;
-      }
-    }
     double deviation = utilities::abs(distance_from_center - radius);
     total_deviation += deviation * deviation;
     if (deviation > resolution_mm)
@@ -318,8 +330,6 @@ bool circle::get_deviation_sum_squared(const array_list<printer_point>& points,
 
 bool circle::is_over_deviation(const array_list<printer_point>& points, const double resolution_mm, const double xyz_tolerance, const bool allow_3d_arcs)
 {
-  // We need to ensure that the Z steps are constand per linear travel unit
-  double z_step_per_distance = 0;
   // shared point to test
   point point_to_test;
   int max_index = points.count() - 1;
@@ -332,20 +342,6 @@ bool circle::is_over_deviation(const array_list<printer_point>& points, const do
       // Make sure the length from the center of our circle to the test point is 
       // at or below our max distance.
       double distance_from_center = utilities::get_cartesian_distance(current_point.x, current_point.y, center.x, center.y);
-      if (allow_3d_arcs) {
-        double z1 = points[index - 1].z;
-        double z2 = current_point.z;
-
-        double current_z_stepper_distance = (z2 - z1) / distance_from_center;
-        if (index == 1) {
-          z_step_per_distance = current_z_stepper_distance;
-        }
-        else if (!utilities::is_equal(z_step_per_distance, current_z_stepper_distance, xyz_tolerance))
-        {
-          // The z step is uneven, can't create arc				
-          return true;
-        }
-      }
       if (utilities::abs(distance_from_center - radius) > resolution_mm)
       {
         return true;
diff --git a/ArcWelder/segmented_shape.h b/ArcWelder/segmented_shape.h
index d466a42..b699784 100644
--- a/ArcWelder/segmented_shape.h
+++ b/ArcWelder/segmented_shape.h
@@ -129,6 +129,8 @@ struct circle {
 
 	point get_closest_point(const point& p) const;
 
+	static bool is_z_ramp(const array_list<printer_point>& points, const double resolution_mm);
+
 	bool is_over_deviation(const array_list<printer_point>& points, const double resolution_mm, const double xyz_tolerance, const bool allow_3d_arcs);
 	
 	bool get_deviation_sum_squared(const array_list<printer_point>& points, const double resolution_mm, const double xyz_tolerance, const bool allow_3d_arcs, double& sum_deviation);
-- 
2.43.0


From b05d871c3fe2fb55953485561344d7b5611dbf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 14/62] fix: ignore leading zeros of command numbers

---
 GcodeProcessorLib/gcode_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index 1a4b928..968c278 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -299,6 +299,11 @@ bool gcode_parser::try_extract_gcode_command(char ** p_p_gcode, std::string * p_
 				if (*p != ' ')
 				{
 					found_command = true;
+					if ((*p_command).length() == 2 && (*p_command)[1] == '0')
+					{
+						// Leading zeros have no meaning, G01 is G1
+						(*p_command).erase(1);
+					}
 					(*p_command).push_back(*p++);
 				}
 				else if (found_command)
-- 
2.43.0


From 1908de45202e0a0ef454830831ac7f51dc7db194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:32 +0000
Subject: [PATCH 15/62] fix: G92 of an axis that was not homed must respect the
 firmware offset

---
 GcodeProcessorLib/gcode_position.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 366c83a..8828875 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -1240,7 +1240,7 @@ void gcode_position::process_g92(position* pos, parsed_command& cmd)
 				pos->x_offset = pos->x - x + pos->x_firmware_offset;
 			else
 			{
-				pos->x = x;
+				pos->x = x - pos->x_firmware_offset;
 				pos->x_offset = 0;
 				pos->x_null = false;
 			}
@@ -1251,7 +1251,7 @@ void gcode_position::process_g92(position* pos, parsed_command& cmd)
 				pos->y_offset = pos->y - y + pos->y_firmware_offset;
 			else
 			{
-				pos->y = y;
+				pos->y = y - pos->y_firmware_offset;
 				pos->y_offset = 0;
 				pos->y_null = false;
 			}
@@ -1262,7 +1262,7 @@ void gcode_position::process_g92(position* pos, parsed_command& cmd)
 				pos->z_offset = pos->z - z + pos->z_firmware_offset;
 			else
 			{
-				pos->z = z;
+				pos->z = z - pos->z_firmware_offset;
 				pos->z_offset = 0;
 				pos->z_null = false;
 			}
-- 
2.43.0


From 1de6bb30ec038e4bd0f5a3e797efb5f08d2be462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:12 +0000
Subject: [PATCH 16/62] fix: include the extrusion of the last move in the
 gcode length of an arc

---
 ArcWelder/segmented_arc.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index 9c7e697..a5491e7 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -244,10 +244,17 @@ bool segmented_arc::try_add_point_internal_(printer_point p)
   if (arc::try_create_arc(points_, current_arc_, original_shape_length_, max_radius_mm_, resolution_mm_, path_tolerance_percent_, min_arc_segments_, mm_per_arc_segment_, get_xyz_tolerance(), allow_3d_arcs_))
   {
     bool abort_arc = false;
-    if (max_gcode_length_ > 0 && get_shape_gcode_length() > max_gcode_length_)
+    if (max_gcode_length_ > 0)
     {
-      abort_arc = true;
-      num_gcode_length_exceptions_++;
+      // The extrusion of the new point is part of the gcode, but it has not been added yet
+      const double previous_e_relative = e_relative_;
+      e_relative_ += p.e_relative;
+      if (get_shape_gcode_length() > max_gcode_length_)
+      {
+        abort_arc = true;
+        num_gcode_length_exceptions_++;
+      }
+      e_relative_ = previous_e_relative;
     }
     if (min_arc_segments_ > 0 && mm_per_arc_segment_ > 0)
     {
-- 
2.43.0


From be29697f7513c6b62b1e63123584032d0b306c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:08 +0000
Subject: [PATCH 17/62] fix: check that every point lies within the arc, not
 only the last two

---
 ArcWelder/segmented_shape.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/segmented_shape.cpp b/ArcWelder/segmented_shape.cpp
index 7f22345..e90da59 100644
--- a/ArcWelder/segmented_shape.cpp
+++ b/ArcWelder/segmented_shape.cpp
@@ -561,8 +561,8 @@ bool arc::are_points_within_slice(const arc& test_arc, const array_list<printer_
     will_cross_zero = test_arc.polar_start_theta < test_arc.polar_end_theta;
   }
 
-  // Need to see if point 1 to point 2 cross zero
-  for (int index = point_count - 2; index < point_count; index++)
+  // Every point must be within the arc, since the direction could be wrong for the earlier ones
+  for (int index = 1; index < point_count; index++)
   {
     double polar_test;
     if (index < point_count - 1)
-- 
2.43.0


From 326917cc24fdaa07cb9f7b75edcff305928f58a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:45 +0000
Subject: [PATCH 18/62] fix: rounding errors of extruder offsets must not count
 as extrusion

---
 GcodeProcessorLib/gcode_position.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 8828875..c4ffd97 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -494,6 +494,11 @@ void gcode_position::update(parsed_command& command, const long file_line_number
 		(this->*func)(p_current_pos, command);
 		// calculate z and e relative distances
 		p_current_pos->get_current_extruder().e_relative = (p_current_pos->get_current_extruder().e - p_previous_pos->get_extruder(p_current_pos->current_tool).e);
+		if (utilities::is_zero(p_current_pos->get_current_extruder().e_relative, 0.000000001))
+		{
+			// This is only a rounding error of the offset arithmetic, the extruder doesn't move.
+			p_current_pos->get_current_extruder().e_relative = 0;
+		}
 		p_current_pos->z_relative = (p_current_pos->z - p_previous_pos->z);
 		// Have the XYZ positions changed after processing a command ?
 
-- 
2.43.0


From 8f9b886dedf1e007293e8b404d7aa73e3458fcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 19/62] fix: tools that share an extruder must share its E
 position

---
 GcodeProcessorLib/gcode_position.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index c4ffd97..aa13ea3 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -493,7 +493,8 @@ void gcode_position::update(parsed_command& command, const long file_line_number
 		const pos_function_type func = gcode_functions_iterator_->second;
 		(this->*func)(p_current_pos, command);
 		// calculate z and e relative distances
-		p_current_pos->get_current_extruder().e_relative = (p_current_pos->get_current_extruder().e - p_previous_pos->get_extruder(p_current_pos->current_tool).e);
+		// (a shared extruder has one E axis, which keeps its position when the tool changes)
+		p_current_pos->get_current_extruder().e_relative = (p_current_pos->get_current_extruder().e - p_previous_pos->get_extruder(shared_extruder_ ? p_previous_pos->current_tool : p_current_pos->current_tool).e);
 		if (utilities::is_zero(p_current_pos->get_current_extruder().e_relative, 0.000000001))
 		{
 			// This is only a rounding error of the offset arithmetic, the extruder doesn't move.
@@ -1400,6 +1401,7 @@ void gcode_position::process_m563(position* pos, parsed_command& cmd)
 
 void gcode_position::process_t(position* pos, parsed_command& cmd)
 {
+	const int previous_tool = pos->current_tool;
 	for (unsigned int index = 0; index < cmd.parameters.size(); index++)
 	{
 		parsed_command_parameter p_cur_param = cmd.parameters[index];
@@ -1418,6 +1420,12 @@ void gcode_position::process_t(position* pos, parsed_command& cmd)
 			{
 				pos->current_tool = num_extruders_ - 1;
 			}
+			if (shared_extruder_ && pos->current_tool != previous_tool)
+			{
+				// All tools share one E axis, so its position and offset carry over to the new tool.
+				pos->get_current_extruder().e = pos->get_extruder(previous_tool).e;
+				pos->get_current_extruder().e_offset = pos->get_extruder(previous_tool).e_offset;
+			}
 			
 			break;
 		}
-- 
2.43.0


From d161e43c72ad9de615333934c3b8a03d3d900fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:55 +0000
Subject: [PATCH 20/62] fix: initialise the number of extruders of a new
 position

position(int) left num_extruders uninitialised and set_num_extruders compares
it to the requested number: when the garbage happened to be equal, no extruder
was allocated and the first access crashed (ArcStraightener -f=SMOOTHIEWARE
crashed on every file).
---
 GcodeProcessorLib/position.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GcodeProcessorLib/position.cpp b/GcodeProcessorLib/position.cpp
index d9cd3a8..25575fd 100644
--- a/GcodeProcessorLib/position.cpp
+++ b/GcodeProcessorLib/position.cpp
@@ -214,6 +214,7 @@ position::position(int extruder_count)
 	is_in_bounds = true;
 	current_tool = 0;
 	p_extruders = NULL;
+	num_extruders = 0;
 	set_num_extruders(extruder_count);
 	
 }
-- 
2.43.0


From c0eb6508533e7f49d00773d93c5217ae3c1a75b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:55 +0000
Subject: [PATCH 21/62] fix: free the firmware of the straightener correctly

The array current_position was freed with delete, and the firmware was deleted
through a base class without a virtual destructor.
---
 ArcWelderInverseProcessor/firmware.h   | 2 ++
 ArcWelderInverseProcessor/marlin_1.cpp | 2 +-
 ArcWelderInverseProcessor/marlin_2.cpp | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ArcWelderInverseProcessor/firmware.h b/ArcWelderInverseProcessor/firmware.h
index 3113539..d75b573 100644
--- a/ArcWelderInverseProcessor/firmware.h
+++ b/ArcWelderInverseProcessor/firmware.h
@@ -435,6 +435,8 @@ public:
 
   firmware(firmware_arguments args);
 
+  virtual ~firmware() {}
+
   /// <summary>
   /// Generate G1 gcode strings separated by line breaks representing the supplied G2/G3 command.
   /// </summary>
diff --git a/ArcWelderInverseProcessor/marlin_1.cpp b/ArcWelderInverseProcessor/marlin_1.cpp
index 3bdf86f..a295f73 100644
--- a/ArcWelderInverseProcessor/marlin_1.cpp
+++ b/ArcWelderInverseProcessor/marlin_1.cpp
@@ -42,7 +42,7 @@ marlin_1::marlin_1(firmware_arguments args) : firmware(args) {
 
 marlin_1::~marlin_1()
 {
-	delete current_position;
+	delete[] current_position;
 }
 
 void marlin_1::apply_arguments()
diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index e70c043..8269367 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -41,7 +41,7 @@ marlin_2::marlin_2(firmware_arguments args) : firmware(args) {
 
 marlin_2::~marlin_2()
 {
-  delete current_position;
+  delete[] current_position;
 }
 
 void marlin_2::apply_arguments()
-- 
2.43.0


From e6020c235f7876ff52cb67cfa6146d895121ffcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:24 +0000
Subject: [PATCH 22/62] fix: each straightened move must start where the
 previous one ended

marlin_2 and smoothieware never updated the current position, so with relative
extrusion every segment extruded the whole arc up to its end (and with relative
positioning it moved by it), and the feedrate was repeated on every line.
---
 ArcWelderInverseProcessor/marlin_2.cpp     | 2 ++
 ArcWelderInverseProcessor/smoothieware.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index 8269367..51eea22 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -604,5 +604,7 @@ bool marlin_2::buffer_line(const float(&cart)[MARLIN_2_XYZE], double fr_mm_s, in
   // Generate the gcode
   gcodes_ += g1_command(target);
 
+  // update the current position
+  set_current_position(target);
   return true;
 }
diff --git a/ArcWelderInverseProcessor/smoothieware.cpp b/ArcWelderInverseProcessor/smoothieware.cpp
index 43b8c3c..61cacc4 100644
--- a/ArcWelderInverseProcessor/smoothieware.cpp
+++ b/ArcWelderInverseProcessor/smoothieware.cpp
@@ -302,6 +302,8 @@ bool smoothieware::append_milestone(const float target[], double rate_mm_s)
   // Generate the gcode
   gcodes_ += g1_command(gcode_target);
 
+  // update the current position
+  set_current_position(gcode_target);
   return true;
   return true;
 }
-- 
2.43.0


From 88fa55d38e9d6fa8c16e2e1057522a8914b1b21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:24 +0000
Subject: [PATCH 23/62] fix: marlin_2 arcs must move Z

raw[l_axis] = start_L, raw[l_axis] + x; always assigned start_L, and the last
segment was forced back to the start height.
---
 ArcWelderInverseProcessor/marlin_2.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index 51eea22..7e8a129 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -307,7 +307,7 @@ void marlin_2::plan_arc_2_0_9_1(
     // Update raw location
     raw[p_axis] = center_P + rvec[0];
     raw[q_axis] = center_Q + rvec[1];
-    raw[l_axis] = start_L, raw[l_axis] + linear_per_segment;
+    raw[l_axis] += linear_per_segment;
 
     raw[E_AXIS] += extruder_per_segment;
 
@@ -321,14 +321,12 @@ void marlin_2::plan_arc_2_0_9_1(
 
   // Ensure last segment arrives at target location.
   COPY(raw, cart);
-  raw[l_axis] = start_L;
 
   apply_motion_limits(raw);
 
 
   buffer_line(raw, scaled_fr_mm_s, 0);
 
-  raw[l_axis] = start_L;
   COPY(current_position, raw);
 }
 
@@ -527,7 +525,7 @@ void marlin_2::plan_arc_2_0_9_2(
     // Update raw location
     raw[p_axis] = center_P + rvec[0];
     raw[q_axis] = center_Q + rvec[1];
-    raw[l_axis] = start_L, raw[l_axis] + per_segment_L;
+    raw[l_axis] += per_segment_L;
     raw[E_AXIS] += extruder_per_segment;
 
     apply_motion_limits(raw);
@@ -540,14 +538,12 @@ void marlin_2::plan_arc_2_0_9_2(
 
   // Ensure last segment arrives at target location.
   COPY(raw, cart);
-  raw[l_axis] = start_L;
 
   apply_motion_limits(raw);
 
 
   buffer_line(raw, scaled_fr_mm_s, 0);
 
-  raw[l_axis] = start_L;
   COPY(current_position, raw);
 }
 // Marlin Function Defs
-- 
2.43.0


From 249ea4ed85918f97b217153f8d1a72fa6ad0857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:24 +0000
Subject: [PATCH 24/62] fix: repetier 1.0.5 must not truncate the angle of the
 arc

abs(int) was used for the angular travel: arcs of less than one radian were
dropped, others were split into too few segments.
---
 ArcWelderInverseProcessor/repetier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelderInverseProcessor/repetier.cpp b/ArcWelderInverseProcessor/repetier.cpp
index f3feb61..8b5ead2 100644
--- a/ArcWelderInverseProcessor/repetier.cpp
+++ b/ArcWelderInverseProcessor/repetier.cpp
@@ -192,7 +192,7 @@ void repetier::arc_1_0_5(float* position, float* target, float* offset, float ra
   }
 
   // Determine the number of mm of total travel
-  float millimeters_of_travel = abs(angular_travel) * radius;
+  float millimeters_of_travel = utilities::absf(angular_travel) * radius;
   if (linear_travel)
   {
     // If we have any Z motion, add this to the total mm of travel.
-- 
2.43.0


From bfd28625b569a6de0401c2115690c6eef7d5b0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:24 +0000
Subject: [PATCH 25/62] fix: repetier 1.0.5 arcs must move Z

The Z travel was computed and accumulated into an uninitialised variable, but
every segment was sent with the Z of the start.
---
 ArcWelderInverseProcessor/repetier.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ArcWelderInverseProcessor/repetier.cpp b/ArcWelderInverseProcessor/repetier.cpp
index 8b5ead2..78dea06 100644
--- a/ArcWelderInverseProcessor/repetier.cpp
+++ b/ArcWelderInverseProcessor/repetier.cpp
@@ -261,7 +261,7 @@ void repetier::arc_1_0_5(float* position, float* target, float* offset, float ra
   int8_t count = 0;
 
   // Initialize the linear axis
-  //arc_target[axis_linear] = position[axis_linear];
+  arc_target[Z_AXIS] = position[Z_AXIS];
 
   // Initialize the extruder axis
   arc_target[E_AXIS] = position[E_AXIS]; // * Printer::invAxisStepsPerMM[E_AXIS]; -- Not sure what this does
@@ -291,10 +291,10 @@ void repetier::arc_1_0_5(float* position, float* target, float* offset, float ra
     arc_target[Y_AXIS] = center_axis1 + r_axis1;
     arc_target[Z_AXIS] += linear_per_segment;
     arc_target[E_AXIS] += extruder_per_segment;
-    moveToReal(arc_target[X_AXIS], arc_target[Y_AXIS], position[Z_AXIS], arc_target[E_AXIS]);
+    moveToReal(arc_target[X_AXIS], arc_target[Y_AXIS], arc_target[Z_AXIS], arc_target[E_AXIS]);
   }
   // Ensure last segment arrives at target location.
-  moveToReal(target[X_AXIS], target[Y_AXIS], position[Z_AXIS], target[E_AXIS]);
+  moveToReal(target[X_AXIS], target[Y_AXIS], target[Z_AXIS], target[E_AXIS]);
 }
 
 /// <summary>
-- 
2.43.0


From 04c661a46d2bbc507f0ce8c66d05d7eec3f9b63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:24 +0000
Subject: [PATCH 26/62] fix: arc_segments_per_sec must use the feedrate in mm
 per second

The feedrate of marlin_2 is kept in mm per minute as in the gcode, so the
segments were 60 times too long.
---
 ArcWelderInverseProcessor/marlin_2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index 7e8a129..5c67720 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -225,7 +225,7 @@ void marlin_2::plan_arc_2_0_9_1(
   }
   else if (args_.arc_segments_per_sec > 0)
   {
-    seg_length = utilities::maxf(scaled_fr_mm_s * utilities::reciprocalf((float)args_.arc_segments_per_sec), (float)args_.mm_per_arc_segment);
+    seg_length = utilities::maxf(scaled_fr_mm_s / 60.0f * utilities::reciprocalf((float)args_.arc_segments_per_sec), (float)args_.mm_per_arc_segment);
   }
 
   // Divide total travel by nominal segment length
@@ -429,7 +429,7 @@ void marlin_2::plan_arc_2_0_9_2(
   // Get the nominal segment length based on settings
   float nominal_segment_mm;
   if (args_.arc_segments_per_sec > 0) {
-    nominal_segment_mm = utilities::constrainf(scaled_fr_mm_s * utilities::reciprocalf((float)args_.arc_segments_per_sec), (float)args_.min_arc_segment_mm, (float)args_.max_arc_segment_mm);
+    nominal_segment_mm = utilities::constrainf(scaled_fr_mm_s / 60.0f * utilities::reciprocalf((float)args_.arc_segments_per_sec), (float)args_.min_arc_segment_mm, (float)args_.max_arc_segment_mm);
   }
   else {
     nominal_segment_mm = (float)args_.max_arc_segment_mm;
-- 
2.43.0


From 82f8fbd22a43f6502a35f4d566e8639e9cbd3d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:24 +0000
Subject: [PATCH 27/62] fix: --g90-g91-influences-extruder=DEFAULT must keep
 the default of the firmware

---
 ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 9a82f76..d175e80 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -430,7 +430,10 @@ int run_arc_straightener(int argc, char* argv[])
       {
         throw TCLAP::ArgException("The argument does not apply to the " + firmware_type_string + " " + firmware_version_arg.getValue() + " firmware.  Only the following parameters are supported: " + available_arguments_string, g90_arg.toString());
       }
-      args.firmware_args.g90_g91_influences_extruder = g90_arg.getValue() == "TRUE";
+      if (g90_arg.getValue() != g90_g91_influences_extruder_default_value)
+      {
+        args.firmware_args.g90_g91_influences_extruder = g90_arg.getValue() == "TRUE";
+      }
     }
     if (n_arc_correction_arg.isSet())
     {
-- 
2.43.0


From 38edc6f8921f9ac2fd72a85815392702e5a401a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:13 +0000
Subject: [PATCH 28/62] fix: the number of segments of an arc must not overflow

Converting a number of segments beyond 65535 (long arcs, or a segment length of
zero) to uint16_t is undefined.
---
 ArcWelderInverseProcessor/firmware.cpp     | 11 +++++++++++
 ArcWelderInverseProcessor/firmware.h       |  8 ++++++++
 ArcWelderInverseProcessor/marlin_1.cpp     |  2 +-
 ArcWelderInverseProcessor/marlin_2.cpp     | 14 +++++++-------
 ArcWelderInverseProcessor/prusa.cpp        |  4 ++--
 ArcWelderInverseProcessor/repetier.cpp     |  4 ++--
 ArcWelderInverseProcessor/smoothieware.cpp |  2 +-
 7 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/ArcWelderInverseProcessor/firmware.cpp b/ArcWelderInverseProcessor/firmware.cpp
index bab3968..45a6e2c 100644
--- a/ArcWelderInverseProcessor/firmware.cpp
+++ b/ArcWelderInverseProcessor/firmware.cpp
@@ -207,6 +207,17 @@ void firmware::set_arguments(firmware_arguments args)
   this->apply_arguments();
 }
 
+uint16_t firmware::to_segment_count(double segments)
+{
+  // Negative values and NaN
+  if (!(segments > 0))
+  {
+    return 0;
+  }
+  // Leave room for one more segment
+  return segments >= 65534 ? 65534 : static_cast<uint16_t>(segments);
+}
+
 firmware_arguments firmware::arguments_changed(firmware_arguments current_args, firmware_arguments new_args)
 {
   return new_args;
diff --git a/ArcWelderInverseProcessor/firmware.h b/ArcWelderInverseProcessor/firmware.h
index d75b573..f2bbbe5 100644
--- a/ArcWelderInverseProcessor/firmware.h
+++ b/ArcWelderInverseProcessor/firmware.h
@@ -33,6 +33,7 @@
 
 #pragma once
 #include "firmware_types.h"
+#include <cstdint>
 #include <vector>
 #include <sstream>
 #include <iomanip>
@@ -533,4 +534,11 @@ protected:
   int num_arc_segments_generated_;
 
   virtual firmware_arguments arguments_changed(firmware_arguments current_args, firmware_arguments new_args);
+
+  /// <summary>
+  /// Converts a number of segments to the type used by the firmware, without leaving its range.
+  /// </summary>
+  /// <param name="segments">The number of segments, possibly infinite or not a number.</param>
+  /// <returns>A value between 0 and 65534</returns>
+  static uint16_t to_segment_count(double segments);
 };
diff --git a/ArcWelderInverseProcessor/marlin_1.cpp b/ArcWelderInverseProcessor/marlin_1.cpp
index a295f73..e9f21fb 100644
--- a/ArcWelderInverseProcessor/marlin_1.cpp
+++ b/ArcWelderInverseProcessor/marlin_1.cpp
@@ -177,7 +177,7 @@ void marlin_1::plan_arc_1_1_9_1(const float(&cart)[MARLIN_XYZE], // Destination
 		mm_of_travel = linear_travel ? utilities::hypotf(flat_mm, linear_travel) : utilities::absf(flat_mm);
 	if (mm_of_travel < 0.001f) return;
 
-	uint16_t segments = (uint16_t)utilities::floorf(mm_of_travel / (float)(args_.mm_per_arc_segment));
+	uint16_t segments = to_segment_count(utilities::floorf(mm_of_travel / (float)(args_.mm_per_arc_segment)));
 	NOLESS(segments, 1);
 
 	/**
diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index 5c67720..e974ee2 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -177,7 +177,7 @@ void marlin_2::plan_arc_2_0_9_1(
     rt_Y = cart[q_axis] - center_Q,
     start_L = current_position[l_axis];
 
-  uint16_t min_segments = args_.min_arc_segments > 0 ? args_.min_arc_segments : 1;
+  uint16_t min_segments = to_segment_count(args_.min_arc_segments > 0 ? args_.min_arc_segments : 1);
 
   // Angle of rotation between position and target from the circle center.
   float angular_travel;
@@ -202,7 +202,7 @@ void marlin_2::plan_arc_2_0_9_1(
 
     if (args_.min_arc_segments > 1)
     {
-      min_segments = (uint16_t)utilities::ceilf(min_segments * utilities::absf(angular_travel) / utilities::radiansf(360.0f));
+      min_segments = to_segment_count(utilities::ceilf(min_segments * utilities::absf(angular_travel) / utilities::radiansf(360.0f)));
       NOLESS(min_segments, 1U);
     }
   }
@@ -229,7 +229,7 @@ void marlin_2::plan_arc_2_0_9_1(
   }
 
   // Divide total travel by nominal segment length
-  uint16_t segments = (uint16_t)utilities::floorf(mm_of_travel / seg_length);
+  uint16_t segments = to_segment_count(utilities::floorf(mm_of_travel / seg_length));
   //uint16_t segments = utilities::floorf(mm_of_travel / seg_length);
   NOLESS(segments, min_segments);         // At least some segments
   seg_length = mm_of_travel / segments;
@@ -382,7 +382,7 @@ void marlin_2::plan_arc_2_0_9_2(
     rt_Y = cart[q_axis] - center_Q,
     start_L = current_position[l_axis];
 
-  uint16_t min_segments = args_.min_arc_segments > 0 ? args_.min_arc_segments : 1;
+  uint16_t min_segments = to_segment_count(args_.min_arc_segments > 0 ? args_.min_arc_segments : 1);
 
   // Angle of rotation between position and target from the circle center.
   float angular_travel, abs_angular_travel;
@@ -392,7 +392,7 @@ void marlin_2::plan_arc_2_0_9_2(
     // Preserve direction for circles
     angular_travel = clockwise ? -utilities::radiansf(360.0f) : utilities::radiansf(360.0f);
     abs_angular_travel = utilities::radiansf(360.0f);
-    min_segments = min_circle_segments;
+    min_segments = to_segment_count(min_circle_segments);
   }
   else {
     // Calculate the angle
@@ -411,7 +411,7 @@ void marlin_2::plan_arc_2_0_9_2(
 
     // Apply minimum segments to the arc
     const float portion_of_circle = abs_angular_travel / utilities::radiansf(360.0f);  // Portion of a complete circle (0 < N < 1)
-    min_segments = (uint16_t)utilities::ceilf((min_circle_segments)*portion_of_circle);     // Minimum segments for the arc
+    min_segments = to_segment_count(utilities::ceilf((min_circle_segments)*portion_of_circle));     // Minimum segments for the arc
   }
 
   float travel_L = cart[Z_AXIS] - start_L;
@@ -441,7 +441,7 @@ void marlin_2::plan_arc_2_0_9_2(
   const float segment_mm = utilities::constrainf(flat_mm / nominal_segments, (float)args_.min_arc_segment_mm, (float)args_.max_arc_segment_mm);
 
   // The number of whole segments in the arc, ignoring the remainder
-  uint16_t segments = (uint16_t)utilities::floorf(flat_mm / segment_mm);
+  uint16_t segments = to_segment_count(utilities::floorf(flat_mm / segment_mm));
 
   // Are the segments now too few to reach the destination?
   const float segmented_length = segment_mm * segments;
diff --git a/ArcWelderInverseProcessor/prusa.cpp b/ArcWelderInverseProcessor/prusa.cpp
index 085977e..e0ed42b 100644
--- a/ArcWelderInverseProcessor/prusa.cpp
+++ b/ArcWelderInverseProcessor/prusa.cpp
@@ -190,7 +190,7 @@ void prusa::mc_arc_3_10_0(float* position, float* target, float* offset, float f
 
   float millimeters_of_travel = (float)utilities::hypot((double)angular_travel * radius, utilities::absf(linear_travel));
   if (millimeters_of_travel < 0.001) { return; }
-  uint16_t segments = (uint16_t)utilities::floorf(millimeters_of_travel / static_cast<float>(args_.mm_per_arc_segment));
+  uint16_t segments = to_segment_count(utilities::floorf(millimeters_of_travel / static_cast<float>(args_.mm_per_arc_segment)));
   if (segments == 0) segments = 1;
 
   /*
@@ -373,7 +373,7 @@ void prusa::mc_arc_3_11_0(float* position, float* target, float* offset, float f
   if (millimeters_of_travel_arc < 0.001) { return; }
 
   // Calculate the number of arc segments
-  uint16_t segments = static_cast<uint16_t>(utilities::ceilf(millimeters_of_travel_arc / mm_per_arc_segment));
+  uint16_t segments = to_segment_count(utilities::ceilf(millimeters_of_travel_arc / mm_per_arc_segment));
 
   /* Vector rotation by transformation matrix: r is the original vector, r_T is the rotated vector,
      and phi is the angle of rotation. Based on the solution approach by Jens Geisler.
diff --git a/ArcWelderInverseProcessor/repetier.cpp b/ArcWelderInverseProcessor/repetier.cpp
index 78dea06..6e278ee 100644
--- a/ArcWelderInverseProcessor/repetier.cpp
+++ b/ArcWelderInverseProcessor/repetier.cpp
@@ -211,7 +211,7 @@ void repetier::arc_1_0_5(float* position, float* target, float* offset, float ra
   // Example, assume millimeters_of_travel = 1.999.  In this case segments will be 1,
   // the interpolation loop will be skipped, and the segment drawn will be of length
   // 1.999, which is not great.
-  uint16_t segments = (uint16_t)utilities::ceil(millimeters_of_travel / (float)args_.mm_per_arc_segment);
+  uint16_t segments = to_segment_count(utilities::ceil(millimeters_of_travel / (float)args_.mm_per_arc_segment));
   
   if (segments == 0)
     segments = 1;
@@ -353,7 +353,7 @@ void repetier::arc_1_0_4(float* position, float* target, float* offset, float ra
   }
   //uint16_t segments = (radius>=BIG_ARC_RADIUS ? floor(millimeters_of_travel/MM_PER_ARC_SEGMENT_BIG) : floor(millimeters_of_travel/MM_PER_ARC_SEGMENT));
   // Increase segment size if printing faster then computation speed allows
-  uint16_t segments = (uint16_t)(feedrate > 60.0f ? utilities::floorf(millimeters_of_travel / utilities::minf(static_cast<float>(args_.mm_per_arc_segment), feedrate * 0.01666f * static_cast<float>(args_.mm_per_arc_segment))) : utilities::floorf(millimeters_of_travel / static_cast<float>(args_.mm_per_arc_segment)));
+  uint16_t segments = to_segment_count(feedrate > 60.0f ? utilities::floorf(millimeters_of_travel / utilities::minf(static_cast<float>(args_.mm_per_arc_segment), feedrate * 0.01666f * static_cast<float>(args_.mm_per_arc_segment))) : utilities::floorf(millimeters_of_travel / static_cast<float>(args_.mm_per_arc_segment)));
   if (segments == 0)
     segments = 1;
   /*
diff --git a/ArcWelderInverseProcessor/smoothieware.cpp b/ArcWelderInverseProcessor/smoothieware.cpp
index 61cacc4..8d626de 100644
--- a/ArcWelderInverseProcessor/smoothieware.cpp
+++ b/ArcWelderInverseProcessor/smoothieware.cpp
@@ -191,7 +191,7 @@ bool smoothieware::append_arc_2021_06_19(SmoothiewareGcode* gcode, const float t
 
   // Figure out how many segments for this gcode
   // TODO for deltas we need to make sure we are at least as many segments as requested, also if mm_per_line_segment is set we need to use the
-  uint16_t segments = (uint16_t)utilities::floorf(millimeters_of_travel / arc_segment);
+  uint16_t segments = to_segment_count(utilities::floorf(millimeters_of_travel / arc_segment));
   bool moved = false;
 
   if (segments > 1) {
-- 
2.43.0


From 1af69743eb769420914bd7e0b458b2cb33eb8bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 29/62] fix: a conversion that fails or is cancelled must keep
 the source file

In place conversion always removed the source and renamed the temporary file,
also after the conversion was cancelled or the output could not be written, and
a failed write was reported as a success. Now the source is only replaced, in
one step, by a complete result; otherwise the temporary file is removed.
---
 ArcWelder/arc_welder.cpp        | 34 ++++++++++++++++++++++++---------
 GcodeProcessorLib/utilities.cpp | 17 +++++++++++++++++
 GcodeProcessorLib/utilities.h   |  3 +++
 3 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 9e746f4..cf41a95 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -353,26 +353,42 @@ arc_welder_results arc_welder::process()
   on_progress_(final_progress);
 
   p_logger_->log(logger_type_, log_levels::DEBUG, "Closing source and target files.");
+  results.success = continue_processing;
+  results.cancelled = !continue_processing;
+  results.progress = final_progress;
+  // close sets the fail bit if anything could not be written
   output_file_.close();
+  if (output_file_.fail() || gcodeFile.bad())
+  {
+    results.success = false;
+    results.message = gcodeFile.bad() ? "Unable to read the source file." : "Unable to write the target file.";
+    p_logger_->log_exception(logger_type_, results.message);
+  }
   gcodeFile.close();
 
-  if (overwrite_source_file)
+  if (overwrite_source_file && !results.success)
   {
+    // Keep the source file, it is only replaced by a complete result
     stream.clear();
     stream.str("");
-    stream << "Deleting the original source file at '" << source_path_ << "'.";
+    stream << "Deleting the temporary file at '" << target_path_ << "'.";
     p_logger_->log(logger_type_, log_levels::DEBUG, stream.str());
+    std::remove(target_path_.c_str());
+  }
+  else if (overwrite_source_file)
+  {
     stream.clear();
     stream.str("");
-    std::remove(source_path_.c_str());
-    stream << "Renaming temporary file at '" << target_path_ << "' to '" << source_path_ << "'.";
-    p_logger_->log(0, log_levels::DEBUG, stream.str());
-    std::rename(target_path_.c_str(), source_path_.c_str());
+    stream << "Replacing the original source file at '" << source_path_ << "' by the temporary file at '" << target_path_ << "'.";
+    p_logger_->log(logger_type_, log_levels::DEBUG, stream.str());
+    if (!utilities::replace_file(target_path_, source_path_))
+    {
+      results.success = false;
+      results.message = "Unable to replace the source file '" + source_path_ + "' by the temporary file '" + target_path_ + "'.";
+      p_logger_->log_exception(logger_type_, results.message);
+    }
   }
 
-  results.success = continue_processing;
-  results.cancelled = !continue_processing;
-  results.progress = final_progress;
   p_logger_->log(logger_type_, log_levels::DEBUG, "Returning processing results.");
 
   return results;
diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index c82fa5d..26929f0 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -493,6 +493,23 @@ bool utilities::does_file_exist(const std::string& file_path)
 	return false;
 }
 
+// Replaces a file by a new one.  If this is not possible, the file is left alone and the new one is deleted.
+bool utilities::replace_file(const std::string& new_file_path, const std::string& file_path)
+{
+	// On most systems this replaces an existing file in a single step, so that there is never a moment without one.
+	if (std::rename(new_file_path.c_str(), file_path.c_str()) == 0)
+	{
+		return true;
+	}
+#ifdef _WIN32
+	// Windows refuses to rename a file to one that exists.
+	return std::remove(file_path.c_str()) == 0 && std::rename(new_file_path.c_str(), file_path.c_str()) == 0;
+#else
+	std::remove(new_file_path.c_str());
+	return false;
+#endif
+}
+
 double utilities::hypot(double x, double y)
 {
 	if (x < 0) x = -x;
diff --git a/GcodeProcessorLib/utilities.h b/GcodeProcessorLib/utilities.h
index f1f4ede..35d2f66 100644
--- a/GcodeProcessorLib/utilities.h
+++ b/GcodeProcessorLib/utilities.h
@@ -31,6 +31,7 @@
 #include <iomanip>
 #include <algorithm>
 #include <cstring>
+#include <cstdio>
 #include "fpconv.h"
 
 #define FPCONV_BUFFER_LENGTH 25
@@ -109,6 +110,8 @@ namespace utilities{
 
 	bool get_temp_file_path_for_file(const std::string& file_path, std::string& temp_file_path);
 
+	bool replace_file(const std::string& new_file_path, const std::string& file_path);
+
 	double hypot(double x, double y);
 	
 	float hypotf(float x, float y);
-- 
2.43.0


From 8d73c1e5ecf34494350ef8473c1b764af43e6d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 30/62] fix: the console must report a failed conversion in its
 exit status

---
 ArcWelderConsole/ArcWelderConsole.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index 50e2b93..2b74494 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -425,12 +425,12 @@ int main(int argc, char* argv[])
   {
     log_messages.clear();
     log_messages.str("");
-    log_messages << "File processing failed.";
+    log_messages << "File processing failed.  " << results.message;
     p_logger->log(0, log_levels::INFO, log_messages.str());
   }
 
   delete p_arc_welder;
-  return 0;
+  return results.success ? 0 : 1;
 }
 
 bool on_progress_full(arc_welder_progress progress, logger* p_logger, int logger_type)
-- 
2.43.0


From 90221d45ec39cd940e94c79fbacf44d7aada645b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:28 +0000
Subject: [PATCH 31/62] fix: the straightener must report failures and keep the
 source file

---
 .../ArcWelderInverseProcessor.cpp             | 30 +++++++++++++------
 .../arc_interpolation.cpp                     | 10 ++++++-
 ArcWelderInverseProcessor/arc_interpolation.h |  6 +++-
 3 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index d175e80..dafd278 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -56,10 +56,10 @@
 int main(int argc, char* argv[])
 {
   try {
-    run_arc_straightener(argc, argv);
+    return run_arc_straightener(argc, argv);
   }
-  catch (TCLAP::ArgException *e) {
-    std::cout << (*e).what() << " - " << (*e).typeDescription() << "\n";
+  catch (TCLAP::ArgException &e) {
+    std::cout << e.what() << " - " << e.typeDescription() << "\n";
     return -1;
   }
 }
@@ -546,6 +546,7 @@ int run_arc_straightener(int argc, char* argv[])
       p_logger->log(0, log_levels::INFO, log_messages.str());
       log_messages.clear();
       log_messages.str("");
+      return 1;
     }
 
     // create a uuid with a tmp extension for the temporary file
@@ -581,7 +582,16 @@ int run_arc_straightener(int argc, char* argv[])
   p_logger->log(0, log_levels::INFO, log_messages.str());
 
   p_logger->log(0, log_levels::INFO, "Running interpolation...");
-  interpolator.process();
+  if (!interpolator.process())
+  {
+    p_logger->log(0, log_levels::INFO, "Interpolation failed.");
+    if (overwrite_source_file)
+    {
+      // Keep the source file, it is only replaced by a complete result
+      std::remove(args.target_path.c_str());
+    }
+    return 1;
+  }
   p_logger->log(0, log_levels::INFO, "Interpolation Complete.");
 
   log_messages.clear();
@@ -592,14 +602,16 @@ int run_arc_straightener(int argc, char* argv[])
   {
     log_messages.clear();
     log_messages.str("");
-    log_messages << "Deleting the original source file at '" << args.source_path << "'.";
+    log_messages << "Replacing the original source file at '" << args.source_path << "' by the temporary file at '" << args.target_path << "'.";
     p_logger->log(0, log_levels::INFO, log_messages.str());
     log_messages.clear();
     log_messages.str("");
-    std::remove(args.source_path.c_str());
-    log_messages << "Renaming temporary file at '" << args.target_path << "' to '" << args.source_path << "'.";
-    p_logger->log(0, log_levels::INFO, log_messages.str());
-    std::rename(args.target_path.c_str(), args.source_path.c_str());
+    if (!utilities::replace_file(args.target_path, args.source_path))
+    {
+      log_messages << "Unable to replace the source file.";
+      p_logger->log(0, log_levels::INFO, log_messages.str());
+      return 1;
+    }
   }
 
   log_messages.clear();
diff --git a/ArcWelderInverseProcessor/arc_interpolation.cpp b/ArcWelderInverseProcessor/arc_interpolation.cpp
index feb045b..7973bfa 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.cpp
+++ b/ArcWelderInverseProcessor/arc_interpolation.cpp
@@ -114,8 +114,9 @@ arc_interpolation::~arc_interpolation()
  
 }
 
-void arc_interpolation::process()
+bool arc_interpolation::process()
 {
+  bool success = false;
   // Create a stringstream we can use for messaging.
   std::stringstream stream;
 
@@ -248,7 +249,13 @@ void arc_interpolation::process()
         }
 
       }
+      // close sets the fail bit if anything could not be written
       output_file_.close();
+      success = !output_file_.fail() && !gcode_file.bad();
+      if (!success)
+      {
+        std::cout << "Unable to read the gcode file or to write the output file.\n";
+      }
     }
     else
     {
@@ -273,6 +280,7 @@ void arc_interpolation::process()
   stream << "\tArc Segments Generated: " << p_current_firmware_->get_num_arc_segments_generated() << "\r\n";
   stream << "\tTotal Seconds         : " << total_seconds << "\r\n";
   std::cout << stream.str();
+  return success;
 }
 
 std::string arc_interpolation::get_firmware_arguments_description(std::string separator, std::string argument_prefix, std::string replacement_string, std::string replacement_value) const
diff --git a/ArcWelderInverseProcessor/arc_interpolation.h b/ArcWelderInverseProcessor/arc_interpolation.h
index e1eed16..53b4392 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.h
+++ b/ArcWelderInverseProcessor/arc_interpolation.h
@@ -69,7 +69,11 @@ class arc_interpolation
 		arc_interpolation();
 		arc_interpolation(arc_interpolation_args args);
 		virtual ~arc_interpolation();
-		void process();
+		/// <summary>
+		/// Converts the source file.
+		/// </summary>
+		/// <returns>False if the source could not be read or the target could not be written completely.</returns>
+		bool process();
 		/// <summary>
 		/// Outputs a string description of the firmware arguments.
 		/// </summary>
-- 
2.43.0


From a289a6bd861912a158dddbce40bdec4bd7c0a552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:29 +0000
Subject: [PATCH 32/62] fix: a target that is the source under another path
 must not destroy the source

---
 ArcWelder/arc_welder.cpp                      | 11 ++++---
 .../ArcWelderInverseProcessor.cpp             |  9 +++---
 GcodeProcessorLib/utilities.cpp               | 31 +++++++++++++++++++
 GcodeProcessorLib/utilities.h                 |  2 ++
 4 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index cf41a95..fbfcc01 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -220,10 +220,11 @@ arc_welder_results arc_welder::process()
   // Determine if we need to overwrite the source file
   bool overwrite_source_file = false;
   std::string temp_file_path;
-  if (source_path_ == target_path_)
+  std::string final_target_path = target_path_;
+  if (utilities::is_same_file(source_path_, target_path_))
   {
     overwrite_source_file = true;
-    if (!utilities::get_temp_file_path_for_file(source_path_, temp_file_path))
+    if (!utilities::get_temp_file_path_for_file(target_path_, temp_file_path))
     {
       results.success = false;
       results.message = "The source and target path are the same, but a temporary file path could not be created.  Are the paths empty?";
@@ -379,12 +380,12 @@ arc_welder_results arc_welder::process()
   {
     stream.clear();
     stream.str("");
-    stream << "Replacing the original source file at '" << source_path_ << "' by the temporary file at '" << target_path_ << "'.";
+    stream << "Replacing the original source file at '" << final_target_path << "' by the temporary file at '" << target_path_ << "'.";
     p_logger_->log(logger_type_, log_levels::DEBUG, stream.str());
-    if (!utilities::replace_file(target_path_, source_path_))
+    if (!utilities::replace_file(target_path_, final_target_path))
     {
       results.success = false;
-      results.message = "Unable to replace the source file '" + source_path_ + "' by the temporary file '" + target_path_ + "'.";
+      results.message = "Unable to replace the source file '" + final_target_path + "' by the temporary file '" + target_path_ + "'.";
       p_logger_->log_exception(logger_type_, results.message);
     }
   }
diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index dafd278..6299f85 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -537,10 +537,11 @@ int run_arc_straightener(int argc, char* argv[])
   std::stringstream log_messages;
   std::string temp_file_path = "";
   log_messages << std::fixed << std::setprecision(DEFAULT_ARG_DOUBLE_PRECISION);
-  if (args.source_path == args.target_path)
+  const std::string final_target_path = args.target_path;
+  if (utilities::is_same_file(args.source_path, args.target_path))
   {
     overwrite_source_file = true;
-    if (!utilities::get_temp_file_path_for_file(args.source_path, temp_file_path))
+    if (!utilities::get_temp_file_path_for_file(args.target_path, temp_file_path))
     {
       log_messages << "The source and target path are the same, but a temporary file path could not be created.  Is the path empty?";
       p_logger->log(0, log_levels::INFO, log_messages.str());
@@ -602,11 +603,11 @@ int run_arc_straightener(int argc, char* argv[])
   {
     log_messages.clear();
     log_messages.str("");
-    log_messages << "Replacing the original source file at '" << args.source_path << "' by the temporary file at '" << args.target_path << "'.";
+    log_messages << "Replacing the original source file at '" << final_target_path << "' by the temporary file at '" << args.target_path << "'.";
     p_logger->log(0, log_levels::INFO, log_messages.str());
     log_messages.clear();
     log_messages.str("");
-    if (!utilities::replace_file(args.target_path, args.source_path))
+    if (!utilities::replace_file(args.target_path, final_target_path))
     {
       log_messages << "Unable to replace the source file.";
       p_logger->log(0, log_levels::INFO, log_messages.str());
diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index 26929f0..dcfb006 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -21,6 +21,13 @@
 ////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 
 #include "utilities.h"
+#include <cstdlib>
+#ifdef _WIN32
+#include <string.h>
+#else
+#include <sys/types.h>
+#include <sys/stat.h>
+#endif
 
 namespace utilities {
 	// Box Drawing Consts
@@ -493,6 +500,30 @@ bool utilities::does_file_exist(const std::string& file_path)
 	return false;
 }
 
+// Two different paths may lead to the same file (relative paths, links).
+bool utilities::is_same_file(const std::string& file_path_1, const std::string& file_path_2)
+{
+	if (file_path_1 == file_path_2)
+	{
+		return true;
+	}
+#ifdef _WIN32
+	char full_path_1[_MAX_PATH];
+	char full_path_2[_MAX_PATH];
+	return _fullpath(full_path_1, file_path_1.c_str(), _MAX_PATH) != NULL
+		&& _fullpath(full_path_2, file_path_2.c_str(), _MAX_PATH) != NULL
+		&& _stricmp(full_path_1, full_path_2) == 0;
+#else
+	struct stat info_1;
+	struct stat info_2;
+	return stat(file_path_1.c_str(), &info_1) == 0
+		&& stat(file_path_2.c_str(), &info_2) == 0
+		&& S_ISREG(info_1.st_mode)
+		&& info_1.st_dev == info_2.st_dev
+		&& info_1.st_ino == info_2.st_ino;
+#endif
+}
+
 // Replaces a file by a new one.  If this is not possible, the file is left alone and the new one is deleted.
 bool utilities::replace_file(const std::string& new_file_path, const std::string& file_path)
 {
diff --git a/GcodeProcessorLib/utilities.h b/GcodeProcessorLib/utilities.h
index 35d2f66..01ecc42 100644
--- a/GcodeProcessorLib/utilities.h
+++ b/GcodeProcessorLib/utilities.h
@@ -110,6 +110,8 @@ namespace utilities{
 
 	bool get_temp_file_path_for_file(const std::string& file_path, std::string& temp_file_path);
 
+	bool is_same_file(const std::string& file_path_1, const std::string& file_path_2);
+
 	bool replace_file(const std::string& new_file_path, const std::string& file_path);
 
 	double hypot(double x, double y);
-- 
2.43.0


From 4468de8caa17b5490b3a252478fab957f3bd213a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:25 +0000
Subject: [PATCH 33/62] fix: temporary files of concurrent conversions must
 have different names

---
 GcodeProcessorLib/utilities.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index dcfb006..d7aa28a 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -22,6 +22,7 @@
 
 #include "utilities.h"
 #include <cstdlib>
+#include <random>
 #ifdef _WIN32
 #include <string.h>
 #else
@@ -469,10 +470,12 @@ bool utilities::get_file_path(const std::string& file_path, std::string& path)
 
 std::string utilities::create_uuid() {
 	std::string res;
+	// rand() repeats the same numbers in every process, use real entropy
+	std::random_device random_source;
 	for (int i = 0; i < 16; i++) {
 		if (GUID_DASHES[i]) res += "-";
-		res += GUID_RANGE[(int)(rand() % 16)];
-		res += GUID_RANGE[(int)(rand() % 16)];
+		res += GUID_RANGE[(int)(random_source() % 16)];
+		res += GUID_RANGE[(int)(random_source() % 16)];
 	}
 	return res;
 }
-- 
2.43.0


From 581149ca01c313e0bcb3c1130a1e9cee01f30b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:40 +0000
Subject: [PATCH 34/62] fix: the python module must not raise an error when an
 optional argument is missing

---
 PyArcWelder/py_arc_welder.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 65dabc9..7a85a7d 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -254,13 +254,13 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     if (args.default_xyz_precision < 3)
     {
       std::string message = "ParseArgs - The default XYZ precision received was less than 3, which could cause problems printing arcs.  Setting to 3.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_xyz_precision = 3;
     }
     else if (args.default_xyz_precision > 6)
     {
       std::string message = "ParseArgs - The default XYZ precision received was greater than 6, which could can cause checksum errors depending on your firmware.  Setting to 6.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_xyz_precision = 6;
     }
   }
@@ -271,20 +271,20 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_default_e_precision == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'default_e_precision parameter' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else {
     args.default_e_precision = (unsigned char)gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_e_precision);
     if (args.default_e_precision < 3)
     {
       std::string message = "ParseArgs - The default E precision received was less than 3, which could cause extrusion problems.  Setting to 3.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_e_precision = 3;
     }
     else if (args.default_e_precision > 6)
     {
       std::string message = "ParseArgs - The default E precision received was greater than 6, which could can cause checksum errors depending on your firmware.  Setting to 6.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_e_precision = 6;
     }
   }
@@ -295,7 +295,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_extrusion_rate_variance_percent == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'extrusion_rate_variance_percent' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -312,7 +312,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_path_tolerance_percent == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'path_tolerance_percent' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -329,7 +329,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_max_radius_mm == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'max_radius_mm' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -346,7 +346,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_mm_per_arc_segment == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'mm_per_arc_segment' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -363,7 +363,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_min_arc_segments == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'min_arc_segments' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -380,7 +380,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_max_gcode_length == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'max_gcode_length' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -397,7 +397,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_allow_3d_arcs == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'allow_3d_arcs' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -410,7 +410,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_allow_travel_arcs == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'allow_travel_arcs' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -424,7 +424,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_g90_g91_influences_extruder == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'g90_g91_influences_extruder' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -437,7 +437,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_log_level == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'log_level' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
-- 
2.43.0


From cfa06c8925da806ef013ea877ea8a9987a20246f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:10 +0000
Subject: [PATCH 35/62] fix: the python module must report errors as exceptions

---
 PyArcWelder/py_arc_welder.cpp           | 136 ++++++++++++++++++++++--
 PyArcWelder/py_arc_welder.h             |  15 ++-
 PyArcWelder/py_arc_welder_extension.cpp |   9 +-
 PyArcWelder/python_helpers.cpp          |   9 +-
 4 files changed, 152 insertions(+), 17 deletions(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 7a85a7d..da47d01 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -117,14 +117,21 @@ PyObject* py_arc_welder::build_py_progress(const arc_welder_progress& progress,
 
 bool py_arc_welder::on_progress_(const arc_welder_progress& progress)
 {
+  if (callback_error_type_ != NULL)
+  {
+    // The callback failed before, do not call it again
+    return false;
+  }
   PyObject* py_dict = py_arc_welder::build_py_progress(progress, guid_, false);
   if (py_dict == NULL)
   {
+    fetch_callback_error_();
     return false;
   }
   PyObject* func_args = Py_BuildValue("(O)", py_dict);
   if (func_args == NULL)
   {
+    fetch_callback_error_();
     Py_DECREF(py_dict);
     return false;	// This was returning true, I think it was a typo.  Making a note just in case.
   }
@@ -137,8 +144,9 @@ bool py_arc_welder::on_progress_(const arc_welder_progress& progress)
   bool continue_processing;
   if (pContinueProcessing == NULL)
   {
-    // no return value was supply, assume true, but without decrefing pContinueProcessing
-    continue_processing = true;
+    // The callback raised an exception.  Stop processing, it is raised again when processing has ended.
+    fetch_callback_error_();
+    continue_processing = false;
   }
   else
   {
@@ -149,6 +157,7 @@ bool py_arc_welder::on_progress_(const arc_welder_progress& progress)
     else
     {
       continue_processing = PyLong_AsLong(pContinueProcessing) > 0;
+      fetch_callback_error_();
     }
     Py_DECREF(pContinueProcessing);
   }
@@ -156,6 +165,27 @@ bool py_arc_welder::on_progress_(const arc_welder_progress& progress)
   return continue_processing;
 }
 
+void py_arc_welder::fetch_callback_error_()
+{
+  if (PyErr_Occurred())
+  {
+    PyErr_Fetch(&callback_error_type_, &callback_error_value_, &callback_error_traceback_);
+  }
+}
+
+bool py_arc_welder::restore_callback_error()
+{
+  if (callback_error_type_ == NULL)
+  {
+    return false;
+  }
+  PyErr_Restore(callback_error_type_, callback_error_value_, callback_error_traceback_);
+  callback_error_type_ = NULL;
+  callback_error_value_ = NULL;
+  callback_error_traceback_ = NULL;
+  return true;
+}
+
 bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py_gcode_arc_args& args, PyObject** py_progress_callback)
 {
   p_py_logger->log(
@@ -173,7 +203,12 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log_exception(GCODE_CONVERSION, message);
     return false;
   }
-  args.guid = gcode_arc_converter::PyUnicode_SafeAsString(py_guid);
+  const char* guid = gcode_arc_converter::PyUnicode_SafeAsString(py_guid);
+  if (guid == NULL)
+  {
+    return false;
+  }
+  args.guid = guid;
 #pragma endregion guid
 #pragma region source_path
   // Extract the source file path
@@ -184,7 +219,12 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log_exception(GCODE_CONVERSION, message);
     return false;
   }
-  args.source_path = gcode_arc_converter::PyUnicode_SafeAsString(py_source_path);
+  const char* source_path = gcode_arc_converter::PyUnicode_SafeAsString(py_source_path);
+  if (source_path == NULL)
+  {
+    return false;
+  }
+  args.source_path = source_path;
 #pragma endregion source_path
 #pragma region target_path
   // Extract the target file path
@@ -195,7 +235,12 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log_exception(GCODE_CONVERSION, message);
     return false;
   }
-  args.target_path = gcode_arc_converter::PyUnicode_SafeAsString(py_target_path);
+  const char* target_path = gcode_arc_converter::PyUnicode_SafeAsString(py_target_path);
+  if (target_path == NULL)
+  {
+    return false;
+  }
+  args.target_path = target_path;
 #pragma endregion target_path
 #pragma region on_progress_received
   // on_progress_received
@@ -206,6 +251,11 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log_exception(GCODE_CONVERSION, message);
     return false;
   }
+  if (!PyCallable_Check(py_on_progress_received))
+  {
+    PyErr_SetString(PyExc_TypeError, "ParseArgs - The parameter 'on_progress_received' is not callable.");
+    return false;
+  }
   // need to incref this so it doesn't vanish later (borrowed reference we are saving)
   Py_XINCREF(py_on_progress_received);
   *py_progress_callback = py_on_progress_received;
@@ -223,6 +273,10 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   }
   else {
     args.resolution_mm = gcode_arc_converter::PyFloatOrInt_AsDouble(py_resolution_mm);
+    if (PyErr_Occurred())
+    {
+      return false;
+    }
     if (args.resolution_mm <= 0)
     {
       args.resolution_mm = 0.05; // Set to the default if no resolution is provided, or if it is less than 0.
@@ -239,6 +293,10 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   }
   else {
     args.allow_dynamic_precision = PyLong_AsLong(py_allow_dynamic_precision) > 0;
+    if (PyErr_Occurred())
+    {
+      return false;
+    }
   }
 #pragma endregion allow_dynamic_precision
 #pragma region default_xyz_precision
@@ -250,19 +308,27 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else {
-    args.default_xyz_precision = (unsigned char)gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_xyz_precision);
-    if (args.default_xyz_precision < 3)
+    double xyz_precision = gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_xyz_precision);
+    if (PyErr_Occurred())
+    {
+      return false;
+    }
+    if (!(xyz_precision >= 3))
     {
       std::string message = "ParseArgs - The default XYZ precision received was less than 3, which could cause problems printing arcs.  Setting to 3.";
       p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_xyz_precision = 3;
     }
-    else if (args.default_xyz_precision > 6)
+    else if (xyz_precision > 6)
     {
       std::string message = "ParseArgs - The default XYZ precision received was greater than 6, which could can cause checksum errors depending on your firmware.  Setting to 6.";
       p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_xyz_precision = 6;
     }
+    else
+    {
+      args.default_xyz_precision = (unsigned char)xyz_precision;
+    }
   }
 #pragma endregion default_xyz_precision
 #pragma region default_e_precision
@@ -274,19 +340,27 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else {
-    args.default_e_precision = (unsigned char)gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_e_precision);
-    if (args.default_e_precision < 3)
+    double e_precision = gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_e_precision);
+    if (PyErr_Occurred())
+    {
+      return false;
+    }
+    if (!(e_precision >= 3))
     {
       std::string message = "ParseArgs - The default E precision received was less than 3, which could cause extrusion problems.  Setting to 3.";
       p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_e_precision = 3;
     }
-    else if (args.default_e_precision > 6)
+    else if (e_precision > 6)
     {
       std::string message = "ParseArgs - The default E precision received was greater than 6, which could can cause checksum errors depending on your firmware.  Setting to 6.";
       p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_e_precision = 6;
     }
+    else
+    {
+      args.default_e_precision = (unsigned char)e_precision;
+    }
   }
 #pragma endregion default_e_precision
 #pragma region extrusion_rate_variance_percent
@@ -300,6 +374,10 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   else
   {
     args.extrusion_rate_variance_percent = gcode_arc_converter::PyFloatOrInt_AsDouble(py_extrusion_rate_variance_percent);
+    if (PyErr_Occurred())
+    {
+      return false;
+    }
     if (args.extrusion_rate_variance_percent < 0)
     {
       args.extrusion_rate_variance_percent = DEFAULT_EXTRUSION_RATE_VARIANCE_PERCENT; // Set to the default if no resolution is provided, or if it is less than 0.
@@ -317,6 +395,10 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   else
   {
     args.path_tolerance_percent = gcode_arc_converter::PyFloatOrInt_AsDouble(py_path_tolerance_percent);
+    if (PyErr_Occurred())
+    {
+      return false;
+    }
     if (args.path_tolerance_percent < 0)
     {
       args.path_tolerance_percent = ARC_LENGTH_PERCENT_TOLERANCE_DEFAULT; // Set to the default if no resolution is provided, or if it is less than 0.
@@ -334,6 +416,10 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   else
   {
     args.max_radius_mm = gcode_arc_converter::PyFloatOrInt_AsDouble(py_max_radius_mm);
+    if (PyErr_Occurred())
+    {
+      return false;
+    }
     if (args.max_radius_mm > DEFAULT_MAX_RADIUS_MM)
     {
       args.max_radius_mm = DEFAULT_MAX_RADIUS_MM; // Set to the default if no resolution is provided, or if it is less than 0.
@@ -351,6 +437,10 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   else
   {
     args.mm_per_arc_segment = gcode_arc_converter::PyFloatOrInt_AsDouble(py_mm_per_arc_segment);
+    if (PyErr_Occurred())
+    {
+      return false;
+    }
     if (args.mm_per_arc_segment < 0)
     {
       args.mm_per_arc_segment = DEFAULT_MM_PER_ARC_SEGMENT;
@@ -368,6 +458,10 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   else
   {
     args.min_arc_segments = (int)gcode_arc_converter::PyIntOrLong_AsLong(py_min_arc_segments);
+    if (PyErr_Occurred())
+    {
+      return false;
+    }
     if (args.min_arc_segments < 0)
     {
       args.min_arc_segments = DEFAULT_MIN_ARC_SEGMENTS; // Set to the default if no resolution is provided, or if it is less than 0.
@@ -385,6 +479,10 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   else
   {
     args.max_gcode_length = (int)gcode_arc_converter::PyIntOrLong_AsLong(py_max_gcode_length);
+    if (PyErr_Occurred())
+    {
+      return false;
+    }
     if (args.max_gcode_length < 0)
     {
       args.max_gcode_length = DEFAULT_MAX_GCODE_LENGTH;
@@ -402,6 +500,10 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   else
   {
     args.allow_3d_arcs = PyLong_AsLong(py_allow_3d_arcs) > 0;
+    if (PyErr_Occurred())
+    {
+      return false;
+    }
   }
 #pragma endregion allow_3d_arcs
 #pragma region allow_travel_arcs
@@ -415,6 +517,10 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   else
   {
     args.allow_travel_arcs = PyLong_AsLong(py_allow_travel_arcs) > 0;
+    if (PyErr_Occurred())
+    {
+      return false;
+    }
   }
 #pragma endregion allow_travel_arcs
 #pragma region g90_g91_influences_extruder
@@ -429,6 +535,10 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   else
   {
     args.g90_g91_influences_extruder = PyLong_AsLong(py_g90_g91_influences_extruder) > 0;
+    if (PyErr_Occurred())
+    {
+      return false;
+    }
   }
 #pragma endregion g90_g91_influences_extruder
 #pragma region log_level
@@ -442,6 +552,10 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   else
   {
     int log_level_value = static_cast<int>(PyLong_AsLong(py_log_level));
+    if (PyErr_Occurred())
+    {
+      return false;
+    }
     // determine the log level as an index rather than as a value
     args.log_level = p_py_logger->get_log_level_for_value(log_level_value);
   }
diff --git a/PyArcWelder/py_arc_welder.h b/PyArcWelder/py_arc_welder.h
index 7fe6bc0..d65a2d1 100644
--- a/PyArcWelder/py_arc_welder.h
+++ b/PyArcWelder/py_arc_welder.h
@@ -57,15 +57,28 @@ public:
   {
 		guid_ = args.guid;
 		py_progress_callback_ = args.py_progress_callback;
+		callback_error_type_ = NULL;
+		callback_error_value_ = NULL;
+		callback_error_traceback_ = NULL;
 	}
 	virtual ~py_arc_welder() {
-		
+		Py_XDECREF(callback_error_type_);
+		Py_XDECREF(callback_error_value_);
+		Py_XDECREF(callback_error_traceback_);
 	}
+	/// <summary>
+	/// Raises the exception of the progress callback, if there was one.
+	/// </summary>
+	bool restore_callback_error();
 	static PyObject* build_py_progress(const arc_welder_progress& progress, std::string guid, bool include_detailed_statistics);
 protected:
 	std::string guid_;
 	virtual bool on_progress_(const arc_welder_progress& progress);
 private:
+	void fetch_callback_error_();
 	PyObject* py_progress_callback_;
+	PyObject* callback_error_type_;
+	PyObject* callback_error_value_;
+	PyObject* callback_error_traceback_;
 };
 
diff --git a/PyArcWelder/py_arc_welder_extension.cpp b/PyArcWelder/py_arc_welder_extension.cpp
index 4ad2518..9ae67dc 100644
--- a/PyArcWelder/py_arc_welder_extension.cpp
+++ b/PyArcWelder/py_arc_welder_extension.cpp
@@ -188,6 +188,7 @@ extern "C"
 		
 		if (!py_gcode_arc_args::parse_args(py_convert_file_args, p_py_logger, args, &py_progress_callback))
 		{
+			Py_XDECREF(py_progress_callback);
 			return NULL;
 		}
 		p_py_logger->set_log_level((log_levels)args.log_level);
@@ -203,6 +204,12 @@ extern "C"
 		arc_welder_results results;
 		results = arc_welder_obj.process();
 		
+		if (arc_welder_obj.restore_callback_error() || PyErr_Occurred())
+		{
+			Py_XDECREF(py_progress_callback);
+			return NULL;
+		}
+
 		message = "py_gcode_arc_converter.ConvertFile - Arc Conversion Complete.";
 		p_py_logger->log(GCODE_CONVERSION, log_levels::INFO, message);
 		Py_XDECREF(py_progress_callback);
@@ -210,7 +217,7 @@ extern "C"
 		PyObject* p_progress = py_arc_welder::build_py_progress(results.progress, args.guid, true);
 		
 		if (p_progress == NULL)
-			p_progress = Py_None;
+			return NULL;
 
 		PyObject* p_results = Py_BuildValue(
 			"{s:i,s:i,s:s,s:O}",
diff --git a/PyArcWelder/python_helpers.cpp b/PyArcWelder/python_helpers.cpp
index a77ff31..e41a0b9 100644
--- a/PyArcWelder/python_helpers.cpp
+++ b/PyArcWelder/python_helpers.cpp
@@ -83,14 +83,15 @@ namespace gcode_arc_converter {
 
 	double PyFloatOrInt_AsDouble(PyObject* py_double_or_int)
 	{
-		if (PyFloat_CheckExact(py_double_or_int))
+		if (PyFloat_Check(py_double_or_int))
 			return PyFloat_AsDouble(py_double_or_int);
 #if PY_MAJOR_VERSION < 3
-		else if (PyInt_CheckExact(py_double_or_int))
+		else if (PyInt_Check(py_double_or_int))
 			return static_cast<double>(PyInt_AsLong(py_double_or_int));
 #endif
-		else if (PyLong_CheckExact(py_double_or_int))
-			return static_cast<double>(PyLong_AsLong(py_double_or_int));
+		else if (PyLong_Check(py_double_or_int))
+			return PyLong_AsDouble(py_double_or_int);
+		PyErr_SetString(PyExc_TypeError, "A number is required.");
 		return 0;
 	}
 
-- 
2.43.0


From 6e86332803c1ab515ccae1a1ecde6a7625d3a508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:52 +0000
Subject: [PATCH 36/62] fix: progress must not go backwards at the end of a
 file without final line ending

---
 ArcWelder/arc_welder.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index fbfcc01..5d74ae3 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -411,6 +411,11 @@ bool arc_welder::on_progress_(const arc_welder_progress& progress)
 
 arc_welder_progress arc_welder::get_progress_(long source_file_position, double start_clock)
 {
+  if (source_file_position < 0)
+  {
+    // There is no position once the last line has been read, if it has no line ending
+    source_file_position = file_size_;
+  }
   arc_welder_progress progress;
   progress.gcodes_processed = gcodes_processed_;
   progress.lines_processed = lines_processed_;
@@ -421,10 +426,11 @@ arc_welder_progress arc_welder::get_progress_(long source_file_position, double
   progress.target_file_size = static_cast<long>(output_file_.tellp());
   progress.source_file_size = file_size_;
   long bytesRemaining = file_size_ - static_cast<long>(source_file_position);
-  progress.percent_complete = static_cast<double>(source_file_position) / static_cast<double>(file_size_) * 100.0;
+  // An empty file is always complete
+  progress.percent_complete = file_size_ > 0 ? static_cast<double>(source_file_position) / static_cast<double>(file_size_) * 100.0 : 100.0;
   progress.seconds_elapsed = get_time_elapsed(start_clock, clock());
   double bytesPerSecond = static_cast<double>(source_file_position) / progress.seconds_elapsed;
-  progress.seconds_remaining = bytesRemaining / bytesPerSecond;
+  progress.seconds_remaining = bytesPerSecond > 0 ? bytesRemaining / bytesPerSecond : 0;
   
   if (source_file_position > 0) {
     progress.compression_ratio = (static_cast<float>(source_file_position) / static_cast<float>(progress.target_file_size));
-- 
2.43.0


From e277dbe4341ab58ca303764be748bd509394ef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:08 +0000
Subject: [PATCH 37/62] fix: large numbers must not overflow the integers they
 are stored in

---
 ArcWelder/segmented_arc.cpp          |  4 ++--
 GcodeProcessorLib/gcode_parser.cpp   | 16 ++++++++++++----
 GcodeProcessorLib/gcode_position.cpp | 22 ++++++++++++++++------
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index a5491e7..1aae4d6 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -262,11 +262,11 @@ bool segmented_arc::try_add_point_internal_(printer_point p)
       // See how many arcs will be interpolated
       double circumference = 2.0 * PI_DOUBLE * current_arc_.radius;
       // TODO: Should this be ceil?
-      int num_segments = (int)utilities::floor(circumference / mm_per_arc_segment_);
+      double num_segments = utilities::floor(circumference / mm_per_arc_segment_);
       if (num_segments < min_arc_segments_) {
         //num_segments = (int)std::ceil(circumference/approximate_length) * (int)std::ceil(approximate_length / mm_per_arc_segment);
         // TODO: Should this be ceil?
-        num_segments = (int)utilities::floor(circumference / original_shape_length_);
+        num_segments = utilities::floor(circumference / original_shape_length_);
         if (num_segments < min_arc_segments_) {
           abort_arc = true;
           num_firmware_compensations_++; 
diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index 968c278..e336104 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -24,6 +24,7 @@
 #include "utilities.h"
 #include <cmath>
 #include <iostream>
+#include <limits>
 gcode_parser::gcode_parser()
 {
 	// doesn't work in the ancient version of c++ I am forced to use :(
@@ -404,7 +405,7 @@ bool gcode_parser::try_extract_at_command(char ** p_p_gcode, std::string * p_com
 
 bool gcode_parser::try_extract_unsigned_long(char ** p_p_gcode, unsigned long * p_value) {
 	char * p = *p_p_gcode;
-	unsigned int r = 0;
+	unsigned long r = 0;
 	bool found_numbers = false;
 	// skip any leading whitespace
 	while (*p == ' ')
@@ -414,7 +415,10 @@ bool gcode_parser::try_extract_unsigned_long(char ** p_p_gcode, unsigned long *
 		if (*p != ' ')
 		{
 			found_numbers = true;
-			r = static_cast<unsigned int>((r * 10.0) + (*p - '0'));
+			// Limit the value, it must fit into an int
+			const unsigned long max_value = std::numeric_limits<int>::max();
+			const unsigned long digit = *p - '0';
+			r = r > (max_value - digit) / 10 ? max_value : r * 10 + digit;
 		}
 		++p;
 	}
@@ -479,8 +483,12 @@ bool gcode_parser::try_extract_double(char ** p_p_gcode, double * p_double, unsi
 			if (*p != ' ')
 			{
 				found_numbers = true;
-				f = (f*10.0) + (*p - '0');
-				++n;
+				// More digits than this neither change the value nor fit into the precision
+				if (n < std::numeric_limits<unsigned char>::max())
+				{
+					f = (f*10.0) + (*p - '0');
+					++n;
+				}
 			}
 			++p;
 		}
diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index aa13ea3..087f3e5 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -25,6 +25,20 @@
 #include <algorithm>
 #include <iterator>
 #include <cmath>
+#include <limits>
+
+// Rounds to the nearest integer, limits the result to the range of int.
+static int round_to_int(double val)
+{
+	val = val + 0.5 - (val < 0);
+	if (val >= std::numeric_limits<int>::max())
+	{
+		return std::numeric_limits<int>::max();
+	}
+	// Negative numbers are not valid here, there is no need for precise limits.
+	return val > -1000000.0 ? static_cast<int>(val) : -1000000;
+}
+
 gcode_position_args::gcode_position_args(const gcode_position_args &pos_args)
 {
 	position_buffer_size = pos_args.position_buffer_size;
@@ -986,9 +1000,7 @@ void gcode_position::process_g10(position* pos, parsed_command& cmd)
 			}
 			else if (p_cur_param.value_type == 'F')
 			{
-				double val = p_cur_param.double_value;
-				val = val + 0.5 - (val < 0);
-				p = static_cast<int>(val);
+				p = round_to_int(p_cur_param.double_value);
 			}
 			else
 				has_p = false;
@@ -1334,9 +1346,7 @@ void gcode_position::process_m218(position* pos, parsed_command& cmd)
 			}
 			else if (p_cur_param.value_type == 'F')
 			{
-				double val = p_cur_param.double_value;
-				val = val + 0.5 - (val < 0);
-				t = static_cast<int>(val);
+				t = round_to_int(p_cur_param.double_value);
 			}
 			else
 				has_t = false;
-- 
2.43.0


From be329126bf81a9789b4314c14146a4578f80672d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:23 +0000
Subject: [PATCH 38/62] fix: start counting the arcs of the straightener at
 zero

---
 ArcWelderInverseProcessor/arc_interpolation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelderInverseProcessor/arc_interpolation.h b/ArcWelderInverseProcessor/arc_interpolation.h
index 53b4392..3db02ad 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.h
+++ b/ArcWelderInverseProcessor/arc_interpolation.h
@@ -88,7 +88,7 @@ class arc_interpolation
 			std::ofstream output_file_;
 			int lines_processed_ = 0;
 			firmware* p_current_firmware_;
-			int num_arc_commands_;
+			int num_arc_commands_ = 0;
   
 };
 
-- 
2.43.0


From d7bea1d91ab38a94949f6d6b646d0dc43f3956b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:40 +0000
Subject: [PATCH 39/62] fix: the console must exit normally when it refuses an
 argument

---
 ArcWelderConsole/ArcWelderConsole.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index 2b74494..d9fc2ce 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -345,7 +345,14 @@ int main(int argc, char* argv[])
   catch (TCLAP::ArgException& e)
   {
     // This will raise an exit exception
-    cmd.getOutput()->failure(cmd, e);
+    try
+    {
+      cmd.getOutput()->failure(cmd, e);
+    }
+    catch (TCLAP::ExitException& exit_exception)
+    {
+      return exit_exception.getExitStatus();
+    }
     return 1;
   }
   
-- 
2.43.0


From e535145611fd0cc32f4bde19be92ca0a4a05a4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:40 +0000
Subject: [PATCH 40/62] fix: the console must refuse precisions above 255

---
 ArcWelderConsole/ArcWelderConsole.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index d9fc2ce..cd9dcd7 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -264,22 +264,22 @@ int main(int argc, char* argv[])
         throw TCLAP::ArgException("You must also specify a non zero value for the " + mm_per_arc_segment_arg.toString() + " argument.", min_arc_segments_arg.toString());
     }
 
-    if (args.default_xyz_precision < 3)
+    if (default_xyz_precision_arg.getValue() < 3)
     {
         throw TCLAP::ArgException("The provided value is less than 3.", default_xyz_precision_arg.toString());
     }
 
-    if (args.default_e_precision < 3)
+    if (default_e_precision_arg.getValue() < 3)
     {
         throw TCLAP::ArgException("The provided value is less than 3.", default_e_precision_arg.toString());
     }
 
-    if (args.default_xyz_precision > 6)
+    if (default_xyz_precision_arg.getValue() > 6)
     {
         throw TCLAP::ArgException("The provided value is greater than 6.", default_xyz_precision_arg.toString());
     }
 
-    if (args.default_e_precision > 6)
+    if (default_e_precision_arg.getValue() > 6)
     {
         throw TCLAP::ArgException("The provided value is greater than 6.", default_e_precision_arg.toString());
     }
-- 
2.43.0


From 44e3b70f3239e978bb1658a75dcaf409c6589268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:24 +0000
Subject: [PATCH 41/62] fix: the straightener must exit normally when it
 refuses an argument

---
 ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 6299f85..300d9c2 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -517,7 +517,14 @@ int run_arc_straightener(int argc, char* argv[])
   catch (TCLAP::ArgException& e)
   {
     // This will raise an exit exception
-    cmd.getOutput()->failure(cmd, e);
+    try
+    {
+      cmd.getOutput()->failure(cmd, e);
+    }
+    catch (TCLAP::ExitException& exit_exception)
+    {
+      return exit_exception.getExitStatus();
+    }
     return 1;
   }
   catch (TCLAP::ExitException exc)
-- 
2.43.0


From 542d8334e7aa7827e3987a1c86824ebb9b3accdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:04 +0000
Subject: [PATCH 42/62] fix: G28 must home all of the axes it names

---
 GcodeProcessorLib/gcode_position.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 087f3e5..2773c9d 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -1091,6 +1091,13 @@ void gcode_position::process_g28(position* pos, parsed_command& cmd)
 			has_y = true;
 		else if (p_cur_param.name == "Z")
 			has_z = true;
+		if (p_cur_param.value_type == 'S')
+		{
+			// A parameter without a number holds the rest of the line, which names further axes in 'G28 X Y'
+			has_x = has_x || p_cur_param.string_value.find_first_of("Xx") != std::string::npos;
+			has_y = has_y || p_cur_param.string_value.find_first_of("Yy") != std::string::npos;
+			has_z = has_z || p_cur_param.string_value.find_first_of("Zz") != std::string::npos;
+		}
 	}
 	if (has_x)
 	{
-- 
2.43.0


From c198f39416deeb07374d962b898067860af21d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:08 +0000
Subject: [PATCH 43/62] fix: an arc must be written with the precision its
 length was checked with

---
 ArcWelder/segmented_arc.cpp | 22 +++++++++++++---------
 ArcWelder/segmented_arc.h   |  2 ++
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index 1aae4d6..d049de4 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -39,7 +39,8 @@ segmented_arc::segmented_arc() : segmented_shape(DEFAULT_MIN_SEGMENTS, DEFAULT_M
   max_gcode_length_ = DEFAULT_MAX_GCODE_LENGTH;
   num_gcode_length_exceptions_ = 0;
   num_firmware_compensations_ = 0;
-  
+  arc_xyz_precision_ = get_xyz_precision();
+  arc_e_precision_ = get_e_precision();
 }
 
 segmented_arc::segmented_arc(
@@ -78,8 +79,8 @@ segmented_arc::segmented_arc(
   }
   num_firmware_compensations_ = 0;
   num_gcode_length_exceptions_ = 0;
-  
-
+  arc_xyz_precision_ = get_xyz_precision();
+  arc_e_precision_ = get_e_precision();
 }
 
 segmented_arc::~segmented_arc()
@@ -299,6 +300,9 @@ bool segmented_arc::try_add_point_internal_(printer_point p)
       {
         set_is_shape(true);
       }
+      // The arc is written with the precision it was checked with, a later move may raise it
+      arc_xyz_precision_ = get_xyz_precision();
+      arc_e_precision_ = get_e_precision();
       return true;
     }
   }
@@ -334,15 +338,15 @@ std::string segmented_arc::get_shape_gcode() const
 
   // Add X, Y, I and J
   gcode += " X";
-  gcode += utilities::dtos(current_arc_.end_point.x, get_xyz_precision());
+  gcode += utilities::dtos(current_arc_.end_point.x, arc_xyz_precision_);
   
   gcode += " Y";
-  gcode += utilities::dtos(current_arc_.end_point.y, get_xyz_precision());
+  gcode += utilities::dtos(current_arc_.end_point.y, arc_xyz_precision_);
   
   if (has_z)
   {
     gcode += " Z";
-    gcode += utilities::dtos(current_arc_.end_point.z, get_xyz_precision());
+    gcode += utilities::dtos(current_arc_.end_point.z, arc_xyz_precision_);
   }
 
   // Output I and J, but do NOT check for 0.  
@@ -350,17 +354,17 @@ std::string segmented_arc::get_shape_gcode() const
   // and until it is fixed, it is not worth the hassle.
   double i = current_arc_.get_i();
   gcode += " I";
-  gcode += utilities::dtos(i, get_xyz_precision());
+  gcode += utilities::dtos(i, arc_xyz_precision_);
 
   double j = current_arc_.get_j();
   gcode += " J";
-  gcode += utilities::dtos(j, get_xyz_precision());
+  gcode += utilities::dtos(j, arc_xyz_precision_);
 
   // Add E if it appears
   if (has_e)
   {
     gcode += " E";
-    gcode += utilities::dtos(e, get_e_precision());
+    gcode += utilities::dtos(e, arc_e_precision_);
   }
 
   // Add F if it appears
diff --git a/ArcWelder/segmented_arc.h b/ArcWelder/segmented_arc.h
index 7e73781..57d88dc 100644
--- a/ArcWelder/segmented_arc.h
+++ b/ArcWelder/segmented_arc.h
@@ -68,5 +68,7 @@ private:
 	bool allow_3d_arcs_;
 	int max_gcode_length_;
 	int num_gcode_length_exceptions_;
+	unsigned char arc_xyz_precision_;
+	unsigned char arc_e_precision_;
 };															
 
-- 
2.43.0


From 2acb02736cd5e04a7c44f99bcf46ca065d05c1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:02 +0000
Subject: [PATCH 44/62] fix: indented or non-ASCII text must not be taken for a
 blank line

---
 GcodeProcessorLib/gcode_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index e336104..1b66bdb 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -135,9 +135,9 @@ bool gcode_parser::try_parse_gcode(const char * gcode, parsed_command & command,
 		while (true)
 		{
 			char c = *p_gcode;
-			if (c == '\0' || c == ';' || c == ' ' || c == '\t')
+			if (c == '\0' || c == ';')
 				break;
-			else if (c > 31)
+			else if (static_cast<unsigned char>(c) > 32)
 			{
 				command.is_empty = false;
 				break;
-- 
2.43.0


From e95ae08e8a07a97b174cd2d23dc8ba6d303977ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 45/62] fix: do not use positions after the position list has
 grown

---
 ArcWelder/arc_welder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 5d74ae3..3e10631 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -647,6 +647,9 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
       if (current_arc_.get_num_segments() + 2 > p_source_position_->get_max_positions())
       {
         p_source_position_->grow_max_positions(p_source_position_->get_max_positions() * 2);
+        // The positions have been moved
+        p_cur_pos = p_source_position_->get_current_position_ptr();
+        p_pre_pos = p_source_position_->get_previous_position_ptr();
       }
       if (!waiting_for_arc_)
       {
-- 
2.43.0


From 932ffd5a861b7b58dd34dee2f756e9facdfa34b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 46/62] fix: the time stamp of a log message must not fail
 after a long processor time

---
 GcodeProcessorLib/logger.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/logger.cpp b/GcodeProcessorLib/logger.cpp
index 7198f05..eafbf98 100644
--- a/GcodeProcessorLib/logger.cpp
+++ b/GcodeProcessorLib/logger.cpp
@@ -23,6 +23,7 @@
 #define _CRT_SECURE_NO_DEPRECATE
 #endif
 #include "logger.h"
+#include <cmath>
 logger::logger(std::vector<std::string> names, std::vector<int> levels) {
 	// set to true by default, but can be changed by inheritance to support mandatory innitialization (for python or other integrations)
 	loggers_created_ = true;
@@ -167,7 +168,8 @@ void logger::get_timestamp(std::string &timestamp)
 	
 	timestamp = buffer;
 	clock_t t = std::clock();
-	int ms = static_cast<int>((t / CLOCKS_PER_MS)) % 1000;
+	// The number of milliseconds may exceed the range of an int
+	int ms = static_cast<int>(std::fmod(t / CLOCKS_PER_MS, 1000.0));
 
 	std::string s_miliseconds;
 	sprintf(buffer, "%d", ms) ;// std::to_string(ms);
-- 
2.43.0


From e85602f8be443ff0611036bd6011e9253170f1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 47/62] fix: do not print a maximum radius warning when no
 extrusion rate variance is set

---
 ArcWelderConsole/ArcWelderConsole.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index cd9dcd7..252c2ca 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -303,12 +303,6 @@ int main(int argc, char* argv[])
         throw TCLAP::ArgException("The provided value is less than or equal to 0.", max_radius_arg.toString());
     }
 
-    if (args.extrusion_rate_variance_percent == 0)
-    {
-        // warning
-        std::cout << "warning: The provided path max radius of " << args.max_radius_mm << "mm is greater than 1000000 (1km), which is not recommended.\n";
-    }
-
     if (args.max_radius_mm > 1000000)
     {
         // warning
-- 
2.43.0


From 77300bab073b12cf23e577d078f049e4c892672b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 48/62] fix: list the extrusion rate variance with its decimals

---
 ArcWelder/arc_welder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.h b/ArcWelder/arc_welder.h
index 7535bf0..5747522 100644
--- a/ArcWelder/arc_welder.h
+++ b/ArcWelder/arc_welder.h
@@ -646,7 +646,7 @@ struct arc_welder_args
 			}
 			else
 			{
-				stream << extrusion_rate_variance_percent * 100.0 << "%";
+				stream << std::setprecision(3) << extrusion_rate_variance_percent * 100.0 << "%";
 			}
 			stream << "\n";
 
-- 
2.43.0


From 1efb9d3872e11de446dc1e7fced93ba436b4efc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 49/62] fix: the borders of statistics tables in UTF-8 were
 damaged by repeated replacement

---
 GcodeProcessorLib/utilities.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index d7aa28a..ccfb34b 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -101,14 +101,29 @@ namespace utilities {
 
 	void box_drawing::make_replacements(std::string &box)
 	{
-		for (int index = 0; index < 8; index++)
+		// Replace everything in a single pass, since the replacements may contain the bytes that are searched for
+		std::string replaced;
+		for (std::string::size_type pos = 0; pos < box.length(); pos++)
 		{
-			char c = table_elements_replacement[index];
-			std::string search;
-			search += c;
-			box = utilities::replace(box, search, table_elements_[index]);
+			int element = -1;
+			for (int index = 0; index < 8; index++)
+			{
+				if (box[pos] == table_elements_replacement[index])
+				{
+					element = index;
+					break;
+				}
+			}
+			if (element > -1)
+			{
+				replaced += table_elements_[element];
+			}
+			else
+			{
+				replaced += box[pos];
+			}
 		}
-
+		box = replaced;
 	}
 
 	
-- 
2.43.0


From f32b708b9c364e262d48b3602011aa8d600a1867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 50/62] fix: numbers printed by conversions in different
 threads must not share a buffer

---
 GcodeProcessorLib/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index ccfb34b..91846e2 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -752,7 +752,7 @@ void* utilities::memcpy(void* dest, const void* src, size_t n)
 
 std::string utilities::dtos(double x, unsigned char precision)
 {
-	static char buffer[FPCONV_BUFFER_LENGTH];
+	char buffer[FPCONV_BUFFER_LENGTH];
 	char* p = buffer;
 	double abs_x = utilities::abs(x);
 	if (abs_x >= 1e7 || (abs_x != 0 && abs_x < 1e-4) || precision > 6)
-- 
2.43.0


From 4da1c4eafd4ae04110c247541c85f8befee1a2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 51/62] fix: weld counter clockwise arcs whose middle point
 lies exactly at angle zero

The range check of the middle point excluded an angle of exactly zero when a
counter clockwise arc crosses zero, so an arc that is symmetrical to the X axis
was abandoned there.
---
 ArcWelder/segmented_shape.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ArcWelder/segmented_shape.cpp b/ArcWelder/segmented_shape.cpp
index e90da59..4afe31f 100644
--- a/ArcWelder/segmented_shape.cpp
+++ b/ArcWelder/segmented_shape.cpp
@@ -401,7 +401,7 @@ bool arc::try_create_arc(
     }
     else if (
       (0.0 <= polar_mid_theta && polar_mid_theta < polar_start_theta) ||
-      (polar_end_theta < polar_mid_theta && polar_mid_theta < (2.0 * PI_DOUBLE))
+      (polar_end_theta < polar_mid_theta && polar_mid_theta <= (2.0 * PI_DOUBLE))
       )
     {
       direction = DirectionEnum::CLOCKWISE;
@@ -411,8 +411,8 @@ bool arc::try_create_arc(
   else if (polar_start_theta > polar_end_theta)
   {
     if (
-      (polar_start_theta < polar_mid_theta && polar_mid_theta < (2.0 * PI_DOUBLE)) ||
-      (0.0 < polar_mid_theta && polar_mid_theta < polar_end_theta)
+      (polar_start_theta < polar_mid_theta && polar_mid_theta <= (2.0 * PI_DOUBLE)) ||
+      (0.0 <= polar_mid_theta && polar_mid_theta < polar_end_theta)
       )
     {
       direction = DirectionEnum::COUNTERCLOCKWISE;
-- 
2.43.0


From 12ab1f118665d0d4b958b8ec9a3d24708d8db0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:36 +0000
Subject: [PATCH 52/62] fix: write commands that no arc can include at once

Lines between two arcs were kept in memory until the next arc started, so a
file with long stretches without eligible moves (relative positioning, say)
was held completely.
---
 ArcWelder/arc_welder.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 3e10631..fbd1b38 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -828,7 +828,11 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
     // This might not work....
     //position* cur_pos = p_source_position_->get_current_position_ptr();
     unwritten_commands_.push_back(unwritten_command(cmd, is_previous_extruder_relative, is_extrusion, is_retraction, is_travel, movement_length_mm));
-
+    if (!waiting_for_arc_)
+    {
+      // No arc can include these commands, do not keep them in memory until the next arc starts
+      write_unwritten_gcodes_to_file();
+    }
   }
   else if (!waiting_for_arc_)
   {
-- 
2.43.0


From 973a7b519eaf1ddd9022b46ccae121cdd485e022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:04 +0000
Subject: [PATCH 53/62] fix: the Python module leaked the progress objects it
 builds

The guid and statistics of every progress update, and the progress dictionary
of the results, were never released.
---
 PyArcWelder/py_arc_welder.cpp           | 14 ++++++++++++++
 PyArcWelder/py_arc_welder_extension.cpp |  2 ++
 2 files changed, 16 insertions(+)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index da47d01..4a90973 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -41,12 +41,19 @@ PyObject* py_arc_welder::build_py_progress(const arc_welder_progress& progress,
   }
   PyObject* pyMessage = gcode_arc_converter::PyUnicode_SafeFromString(segment_statistics);
   if (pyMessage == NULL)
+  {
+    Py_DECREF(pyGuid);
     return NULL;
+  }
   double total_count_reduction_percent = progress.segment_statistics.get_total_count_reduction_percent();
   
   PyObject* pyTravelMessage = gcode_arc_converter::PyUnicode_SafeFromString(segment_travel_statistics);
   if (pyTravelMessage == NULL)
+  {
+    Py_DECREF(pyGuid);
+    Py_DECREF(pyMessage);
     return NULL;
+  }
   double total_travel_count_reduction_percent = progress.travel_statistics.get_total_count_reduction_percent();
   PyObject* py_progress = Py_BuildValue("{s:d,s:d,s:d,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:f,s:f,s:f,s:f,s:i,s:i,s:f,s:f,s:f,s:i,s:i,s:f}",
     "percent_complete",
@@ -104,6 +111,9 @@ PyObject* py_arc_welder::build_py_progress(const arc_welder_progress& progress,
 
   if (py_progress == NULL)
   {
+    Py_DECREF(pyGuid);
+    Py_DECREF(pyMessage);
+    Py_DECREF(pyTravelMessage);
     return NULL;
   }
   // Due to a CRAZY issue, I have to add this item after building the py_progress object,
@@ -112,6 +122,10 @@ PyObject* py_arc_welder::build_py_progress(const arc_welder_progress& progress,
   PyDict_SetItemString(py_progress, "segment_statistics_text", pyMessage);
   PyDict_SetItemString(py_progress, "segment_travel_statistics_text", pyTravelMessage);
   PyDict_SetItemString(py_progress, "guid", pyGuid);
+  // The dictionary holds references of its own
+  Py_DECREF(pyGuid);
+  Py_DECREF(pyMessage);
+  Py_DECREF(pyTravelMessage);
   return py_progress;
 }
 
diff --git a/PyArcWelder/py_arc_welder_extension.cpp b/PyArcWelder/py_arc_welder_extension.cpp
index 9ae67dc..223ac2c 100644
--- a/PyArcWelder/py_arc_welder_extension.cpp
+++ b/PyArcWelder/py_arc_welder_extension.cpp
@@ -230,6 +230,8 @@ extern "C"
 			"progress",
 			p_progress
 		);
+		// The results hold a reference of their own
+		Py_DECREF(p_progress);
 		return p_results;
 	}
 }
-- 
2.43.0


From 0eb35684b9702b17d71c92dfc38f975d6733eb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:38 +0000
Subject: [PATCH 54/62] fix: straightening a file must not change the standard
 streams of the process

sync_with_stdio is static: it replaced the buffers of std::cout, std::cin and
their relatives while other threads were using them (crash), and made later
output to std::cout from several threads a data race.
---
 ArcWelderInverseProcessor/arc_interpolation.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ArcWelderInverseProcessor/arc_interpolation.cpp b/ArcWelderInverseProcessor/arc_interpolation.cpp
index 7973bfa..b3ed055 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.cpp
+++ b/ArcWelderInverseProcessor/arc_interpolation.cpp
@@ -145,8 +145,6 @@ bool arc_interpolation::process()
   output_file_.open(args_.target_path.c_str());
   std::string line;
   int lines_with_no_commands = 0;
-  gcode_file.sync_with_stdio(false);
-  output_file_.sync_with_stdio(false);
   gcode_parser parser;
   int gcodes_processed = 0;
   if (gcode_file.is_open())
-- 
2.43.0


From d7eab996690206c9a2cb5d8a2e40b7e828f431f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:56 +0000
Subject: [PATCH 55/62] fix: numbers in gcode must not follow the locale of the
 program

Numbers that need a stream (small, large or very precise ones) were written
with the decimal separator of the global locale.
---
 GcodeProcessorLib/utilities.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index 91846e2..609efc0 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -759,6 +759,8 @@ std::string utilities::dtos(double x, unsigned char precision)
 	{
 		// The digits of this number either do not fit into the buffer, or fpconv_dtos cannot write them without an exponent.
 		std::ostringstream number_stream;
+		// The decimal separator of gcode is a point, whatever the locale of the program is
+		number_stream.imbue(std::locale::classic());
 		number_stream << std::fixed << std::setprecision(precision) << x;
 		return number_stream.str();
 	}
-- 
2.43.0


From b740e695578d7f098cfd91be14b58289e413a171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:43 +0000
Subject: [PATCH 56/62] fix: the library's messages must reach the Python
 logger

py_logger declared log with another type for the level, so it did not
override the library's function: the messages of a conversion were printed
on the standard output instead of going to the logger.  Now that they do go
there, an error that is pending (a log message follows a failed conversion)
must neither disturb the logger nor be lost, a logger that raises must not
lose it either, and G-code that is not UTF-8 must not raise an error.
---
 PyArcWelder/py_logger.cpp      | 32 +++++++++++---------------------
 PyArcWelder/py_logger.h        |  4 ++--
 PyArcWelder/python_helpers.cpp |  2 +-
 3 files changed, 14 insertions(+), 24 deletions(-)

diff --git a/PyArcWelder/py_logger.cpp b/PyArcWelder/py_logger.cpp
index da7b935..3a975e7 100644
--- a/PyArcWelder/py_logger.cpp
+++ b/PyArcWelder/py_logger.cpp
@@ -122,12 +122,12 @@ void py_logger::log_exception(const int logger_type, const std::string& message)
 	log(logger_type, log_levels::ERROR, message, true);
 }
 
-void py_logger::log(const int logger_type, const int log_level, const std::string& message)
+void py_logger::log(const int logger_type, log_levels log_level, const std::string& message)
 {
 	log(logger_type, log_level, message, false);
 }
 
-void py_logger::log(const int logger_type, const int log_level, const std::string& message, bool is_exception)
+void py_logger::log(const int logger_type, log_levels log_level, const std::string& message, bool is_exception)
 {
 	if (!loggers_created_)
 		return;
@@ -162,21 +162,14 @@ void py_logger::log(const int logger_type, const int log_level, const std::strin
 	PyObject* error_type = NULL;
 	PyObject* error_value = NULL;
 	PyObject* error_traceback = NULL;
-	bool error_occurred = false;
 	if (is_exception)
 	{
 		// if an error has occurred, use the exception function to log the entire error
 		pyFunctionName = py_error_function_name;
-		if (PyErr_Occurred())
-		{
-			error_occurred = true;
-			PyErr_Fetch(&error_type, &error_value, &error_traceback);
-			PyErr_NormalizeException(&error_type, &error_value, &error_traceback);
-		}
 	}
 	else
 	{
-		switch ((log_levels)log_level)
+		switch (log_level)
 		{
 		case log_levels::INFO:
 			pyFunctionName = py_info_function_name;
@@ -214,6 +207,9 @@ void py_logger::log(const int logger_type, const int log_level, const std::strin
 		return;
 	}
 	PyGILState_STATE state = PyGILState_Ensure();
+	// An error that is pending already must not get in the way of the logger, and must not be lost
+	bool error_occurred = PyErr_Occurred() != NULL;
+	PyErr_Fetch(&error_type, &error_value, &error_traceback);
 	PyObject* ret_val = PyObject_CallMethodObjArgs(py_logger, pyFunctionName, pyMessage, NULL);
 	// We need to decref our message so that the GC can remove it.  Maybe?
 	Py_DECREF(pyMessage);
@@ -237,16 +233,10 @@ void py_logger::log(const int logger_type, const int log_level, const std::strin
 			PyErr_Clear();
 		}
 	}
-	else
-	{
-		// Set the exception if we are doing exception logging.
-		if (is_exception)
-		{
-			if (error_occurred)
-				PyErr_Restore(error_type, error_value, error_traceback);
-			else
-				PyErr_SetString(PyExc_Exception, message.c_str());
-		}
-	}
+	// Set the exception if we are doing exception logging, and keep the one that was pending.
+	if (error_occurred)
+		PyErr_Restore(error_type, error_value, error_traceback);
+	else if (is_exception)
+		PyErr_SetString(PyExc_Exception, message.c_str());
 	Py_XDECREF(ret_val);
 }
diff --git a/PyArcWelder/py_logger.h b/PyArcWelder/py_logger.h
index cf74e7b..6168b37 100644
--- a/PyArcWelder/py_logger.h
+++ b/PyArcWelder/py_logger.h
@@ -45,8 +45,8 @@ public:
 	}
 	void initialize_loggers();
 	void set_internal_log_levels(bool check_real_time);
-	virtual void log(const int logger_type, const int log_level, const std::string& message);
-	virtual void log(const int logger_type, const int log_level, const std::string& message, bool is_exception);
+	virtual void log(const int logger_type, log_levels log_level, const std::string& message);
+	virtual void log(const int logger_type, log_levels log_level, const std::string& message, bool is_exception);
 	virtual void log_exception(const int logger_type, const std::string& message);
 private:
 	bool check_log_levels_real_time;
diff --git a/PyArcWelder/python_helpers.cpp b/PyArcWelder/python_helpers.cpp
index e41a0b9..5868a73 100644
--- a/PyArcWelder/python_helpers.cpp
+++ b/PyArcWelder/python_helpers.cpp
@@ -53,7 +53,7 @@ namespace gcode_arc_converter {
 	PyObject* PyUnicode_SafeFromString(std::string str)
 	{
 #if PY_MAJOR_VERSION >= 3
-		return PyUnicode_FromString(str.c_str());
+		return PyUnicode_DecodeUTF8(str.c_str(), static_cast<Py_ssize_t>(str.length()), "replace");
 #else
 		// TODO:  try PyUnicode_DecodeUnicodeEscape maybe?
 		//return PyUnicode_DecodeUTF8(str.c_str(), NULL, "replace");
-- 
2.43.0


From 7812cd5b2f0a42fad04e7463243476f647aa5260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 57/62] fix: importing the Python module without its logger
 must raise the ImportError

The error was set, but the module was returned all the same, which Python
reports as a SystemError that no 'except ImportError' of the plugin catches.
---
 PyArcWelder/py_arc_welder_extension.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/PyArcWelder/py_arc_welder_extension.cpp b/PyArcWelder/py_arc_welder_extension.cpp
index 223ac2c..4910884 100644
--- a/PyArcWelder/py_arc_welder_extension.cpp
+++ b/PyArcWelder/py_arc_welder_extension.cpp
@@ -159,6 +159,14 @@ extern "C" void initPyArcWelder(void)
 	logger_levels.push_back(log_levels::CRITICAL);
 	p_py_logger = new py_logger(logger_names, logger_levels);
 	p_py_logger->initialize_loggers();
+	if (PyErr_Occurred())
+	{
+		// Without its logger the module cannot be used, the import has to fail with the error that was set
+#if PY_MAJOR_VERSION >= 3
+		Py_DECREF(module);
+#endif
+		INITERROR;
+	}
 	p_py_logger->set_log_level(INFO);
 	std::cout << " Initialization Complete\r\n";
 
-- 
2.43.0


From 91ce2d9203b71ef8cc1cb7649c0322954a07bb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:57 +0000
Subject: [PATCH 58/62] fix: a lift of the nozzle ends when it comes back down

---
 GcodeProcessorLib/gcode_position.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 2773c9d..e27a08d 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -704,6 +704,11 @@ void gcode_position::update(parsed_command& command, const long file_line_number
 			}
 
 		}
+		else
+		{
+			// We are not above the last extrusion, so any lift has been undone
+			p_current_pos->is_zhop = false;
+		}
 
 		
 
-- 
2.43.0


From 4252389fab9dbeb49ebbc4b6bec8511a6d661dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:57 +0000
Subject: [PATCH 59/62] fix: a travel with the filament retracted is not the
 start of a retraction

---
 GcodeProcessorLib/gcode_position.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index e27a08d..ec5c926 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -593,8 +593,8 @@ void gcode_position::update(parsed_command& command, const long file_line_number
 				// Note that it's ok to use the previous pos current extruder since we've  made sure the current tool is identical
 				p_current_pos->get_current_extruder().is_extruding_start = utilities::greater_than(p_current_pos->get_current_extruder().extrusion_length, 0) && !p_previous_pos->get_current_extruder().is_extruding;
 				p_current_pos->get_current_extruder().is_extruding = utilities::greater_than(p_current_pos->get_current_extruder().extrusion_length, 0);
-				p_current_pos->get_current_extruder().is_retracting_start = !p_previous_pos->get_current_extruder().is_retracting && utilities::greater_than(p_current_pos->get_current_extruder().retraction_length, 0);
 				p_current_pos->get_current_extruder().is_retracting = utilities::greater_than(p_current_pos->get_current_extruder().retraction_length, p_previous_pos->get_current_extruder().retraction_length);
+				p_current_pos->get_current_extruder().is_retracting_start = !p_previous_pos->get_current_extruder().is_retracting && p_current_pos->get_current_extruder().is_retracting;
 				p_current_pos->get_current_extruder().is_deretracting = utilities::greater_than(p_current_pos->get_current_extruder().deretraction_length, p_previous_pos->get_current_extruder().deretraction_length);
 				p_current_pos->get_current_extruder().is_deretracting_start = utilities::greater_than(p_current_pos->get_current_extruder().deretraction_length, 0) && !p_previous_pos->get_current_extruder().is_deretracting;
 			}
-- 
2.43.0


From 0280164cfa073eaa20336bcae652f71b1af69c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:57 +0000
Subject: [PATCH 60/62] fix: every move that undoes part of a retraction is
 deretracting

---
 GcodeProcessorLib/gcode_position.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index ec5c926..095c972 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -595,7 +595,7 @@ void gcode_position::update(parsed_command& command, const long file_line_number
 				p_current_pos->get_current_extruder().is_extruding = utilities::greater_than(p_current_pos->get_current_extruder().extrusion_length, 0);
 				p_current_pos->get_current_extruder().is_retracting = utilities::greater_than(p_current_pos->get_current_extruder().retraction_length, p_previous_pos->get_current_extruder().retraction_length);
 				p_current_pos->get_current_extruder().is_retracting_start = !p_previous_pos->get_current_extruder().is_retracting && p_current_pos->get_current_extruder().is_retracting;
-				p_current_pos->get_current_extruder().is_deretracting = utilities::greater_than(p_current_pos->get_current_extruder().deretraction_length, p_previous_pos->get_current_extruder().deretraction_length);
+				p_current_pos->get_current_extruder().is_deretracting = utilities::greater_than(p_current_pos->get_current_extruder().deretraction_length, 0);
 				p_current_pos->get_current_extruder().is_deretracting_start = utilities::greater_than(p_current_pos->get_current_extruder().deretraction_length, 0) && !p_previous_pos->get_current_extruder().is_deretracting;
 			}
 			else
-- 
2.43.0


From ff675c11424bdc912852b6040b91670d2bd34654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:54 +0000
Subject: [PATCH 61/62] fix: find the centre of an arc relative to its first
 point

The centre was computed from the squares of the absolute coordinates, whose
rounding moved it by up to some hundredths of a millimetre for shallow arcs
that lie far from the origin.
---
 ArcWelder/segmented_shape.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/ArcWelder/segmented_shape.cpp b/ArcWelder/segmented_shape.cpp
index 4afe31f..2c03c8a 100644
--- a/ArcWelder/segmented_shape.cpp
+++ b/ArcWelder/segmented_shape.cpp
@@ -159,12 +159,13 @@ bool circle::try_create_circle(const point& p1, const point& p2, const point& p3
   {
     return false;
   }
-  double x1 = p1.x;
-  double y1 = p1.y;
-  double x2 = p2.x;
-  double y2 = p2.y;
-  double x3 = p3.x;
-  double y3 = p3.y;
+  // Work relative to the first point, the squares of the absolute coordinates would cost too much precision
+  double x1 = 0;
+  double y1 = 0;
+  double x2 = p2.x - p1.x;
+  double y2 = p2.y - p1.y;
+  double x3 = p3.x - p1.x;
+  double y3 = p3.y - p1.y;
 
   double a = x1 * (y2 - y3) - y1 * (x2 - x3) + x2 * y3 - x3 * y2;
   //  Take out to figure out how we handle very small values for a
@@ -187,8 +188,8 @@ bool circle::try_create_circle(const point& p1, const point& p2, const point& p3
   if (radius > max_radius)
     return false;
 
-  new_circle.center.x = x;
-  new_circle.center.y = y;
+  new_circle.center.x = p1.x + x;
+  new_circle.center.y = p1.y + y;
   new_circle.center.z = p1.z;
   new_circle.radius = radius;
 
-- 
2.43.0


From 06fe3f893093b65481ec0b6116021861e9189e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:44 +0000
Subject: [PATCH 62/62] fix: correct the arc after as many segments as
 n_arc_correction says, also above 127

---
 ArcWelderInverseProcessor/marlin_1.cpp     | 2 +-
 ArcWelderInverseProcessor/marlin_2.cpp     | 4 ++--
 ArcWelderInverseProcessor/prusa.cpp        | 6 +++---
 ArcWelderInverseProcessor/repetier.cpp     | 4 ++--
 ArcWelderInverseProcessor/smoothieware.cpp | 2 +-
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/ArcWelderInverseProcessor/marlin_1.cpp b/ArcWelderInverseProcessor/marlin_1.cpp
index e9f21fb..2156107 100644
--- a/ArcWelderInverseProcessor/marlin_1.cpp
+++ b/ArcWelderInverseProcessor/marlin_1.cpp
@@ -222,7 +222,7 @@ void marlin_1::plan_arc_1_1_9_1(const float(&cart)[MARLIN_XYZE], // Destination
 
 	const float fr_mm_s = MMS_SCALED(feedrate_mm_s);
 
-	int8_t arc_recalc_count = 0;
+	int arc_recalc_count = 0;
 	if (args_.n_arc_correction > 1)
 	{
 		arc_recalc_count = args_.n_arc_correction;
diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index e974ee2..91cf2e0 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -277,7 +277,7 @@ void marlin_2::plan_arc_2_0_9_1(
   // Initialize the extruder axis
   raw[E_AXIS] = current_position[E_AXIS];
 
-  int8_t arc_recalc_count = args_.n_arc_correction;
+  int arc_recalc_count = args_.n_arc_correction;
 
   for (uint16_t i = 1; i < segments; i++) { // Iterate (segments-1) times
 
@@ -495,7 +495,7 @@ void marlin_2::plan_arc_2_0_9_2(
   // Initialize the extruder axis
   raw[E_AXIS] = current_position[E_AXIS];
 
-  int8_t arc_recalc_count = args_.n_arc_correction;
+  int arc_recalc_count = args_.n_arc_correction;
 
   for (uint16_t i = 1; i < segments; i++) { // Iterate (segments-1) times
 
diff --git a/ArcWelderInverseProcessor/prusa.cpp b/ArcWelderInverseProcessor/prusa.cpp
index e0ed42b..03f441b 100644
--- a/ArcWelderInverseProcessor/prusa.cpp
+++ b/ArcWelderInverseProcessor/prusa.cpp
@@ -236,7 +236,7 @@ void prusa::mc_arc_3_10_0(float* position, float* target, float* offset, float f
   float cos_Ti;
   float r_axisi;
   uint16_t i;
-  int8_t count = 0;
+  int count = 0;
 
   // Initialize the linear axis
   arc_target[axis_linear] = position[axis_linear];
@@ -323,7 +323,7 @@ void prusa::mc_arc_3_11_0(float* position, float* target, float* offset, float f
   // 20200419 - Add a variable that will be used to hold the arc segment length
   float mm_per_arc_segment = static_cast<float>(args_.mm_per_arc_segment);
   // 20210109 - Add a variable to hold the n_arc_correction value
-  uint8_t n_arc_correction = args_.n_arc_correction;
+  int n_arc_correction = args_.n_arc_correction;
 
   // CCW angle between position and target from circle center. Only one atan2() trig computation required.
   float angular_travel_total = (float)utilities::atan2((double)r_axis_x * rt_y - (double)r_axis_y * rt_x, (double)r_axis_x * rt_x + (double)r_axis_y * rt_y);
@@ -408,7 +408,7 @@ void prusa::mc_arc_3_11_0(float* position, float* target, float* offset, float f
     // Loop through all but one of the segments.  The last one can be done simply
     // by moving to the target.
     for (uint16_t i = 1; i < segments; i++) {
-      if (n_arc_correction-- == 0) {
+      if (n_arc_correction-- <= 0) {
         // Calculate the actual position for r_axis_x and r_axis_y
         const float cos_Ti = (float)utilities::cos(i * (double)theta_per_segment), sin_Ti = (float)utilities::sin(i * (double)theta_per_segment);
         r_axis_x = -offset[X_AXIS] * cos_Ti + offset[Y_AXIS] * sin_Ti;
diff --git a/ArcWelderInverseProcessor/repetier.cpp b/ArcWelderInverseProcessor/repetier.cpp
index 6e278ee..dd4db0d 100644
--- a/ArcWelderInverseProcessor/repetier.cpp
+++ b/ArcWelderInverseProcessor/repetier.cpp
@@ -258,7 +258,7 @@ void repetier::arc_1_0_5(float* position, float* target, float* offset, float ra
   float cos_Ti;
   float r_axisi;
   uint16_t i;
-  int8_t count = 0;
+  int count = 0;
 
   // Initialize the linear axis
   arc_target[Z_AXIS] = position[Z_AXIS];
@@ -397,7 +397,7 @@ void repetier::arc_1_0_4(float* position, float* target, float* offset, float ra
   float cos_Ti;
   float r_axisi;
   uint16_t i;
-  int8_t count = 0;
+  int count = 0;
 
   // Initialize the linear axis
   //arc_target[axis_linear] = position[axis_linear];
diff --git a/ArcWelderInverseProcessor/smoothieware.cpp b/ArcWelderInverseProcessor/smoothieware.cpp
index 8d626de..7a6fc4b 100644
--- a/ArcWelderInverseProcessor/smoothieware.cpp
+++ b/ArcWelderInverseProcessor/smoothieware.cpp
@@ -235,7 +235,7 @@ bool smoothieware::append_arc_2021_06_19(SmoothiewareGcode* gcode, const float t
     float cos_Ti;
     float r_axisi;
     uint16_t i;
-    int8_t count = 0;
+    int count = 0;
 
     // init array for all axis
     utilities::memcpy(arc_target, machine_position, n_motors * sizeof(float));
-- 
2.43.0

