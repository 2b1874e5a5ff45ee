From cd6bb6fd2c5d63e6bfbbce494ca90c5bc1522fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 01/86] fix: never weld moves of different types (extrusion,
 retraction, travel) into one arc

---
 ArcWelder/segmented_arc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index bc17ef8..8fe9e04 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -155,8 +155,8 @@ bool segmented_arc::try_add_point(printer_point p)
       return false;
     }
 
-    // If we have more than 2 points, we need to make sure the current and previous moves are all of the same type.
-    if (points_.count() > 2)
+    // If we have more than 1 point, we need to make sure the current and previous moves are all of the same type.
+    if (points_.count() > 1)
     {
       // TODO:  Do we need this?
       // We already have at least an initial point and a second point.  Make cure the current point and the previous are either both
-- 
2.43.0


From f2ea1a7f2ff23fd5cb11c0e5cf9c773d044a1785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 02/86] fix: include the last segment and large coordinates
 when measuring the length of an arc command

---
 ArcWelder/segmented_arc.cpp     | 14 +++++++++++---
 GcodeProcessorLib/utilities.cpp |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index 8fe9e04..4a8a30e 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -232,10 +232,18 @@ bool segmented_arc::try_add_point_internal_(printer_point p)
   if (arc::try_create_arc(points_, current_arc_, original_shape_length_, max_radius_mm_, resolution_mm_, path_tolerance_percent_, min_arc_segments_, mm_per_arc_segment_, get_xyz_tolerance(), allow_3d_arcs_))
   {
     bool abort_arc = false;
-    if (max_gcode_length_ > 0 && get_shape_gcode_length() > max_gcode_length_)
+    if (max_gcode_length_ > 0)
     {
-      abort_arc = true;
-      num_gcode_length_exceptions_++;
+      // The extrusion of the new point is only added to e_relative_ once the point is accepted,
+      // but it is part of the gcode we are about to measure.
+      double previous_e_relative = e_relative_;
+      e_relative_ += p.e_relative;
+      if (get_shape_gcode_length() > max_gcode_length_)
+      {
+        abort_arc = true;
+        num_gcode_length_exceptions_++;
+      }
+      e_relative_ = previous_e_relative;
     }
     if (min_arc_segments_ > 0 && mm_per_arc_segment_ > 0)
     {
diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index d16f8f4..7e52d57 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -402,7 +402,7 @@ int utilities::get_num_digits(int x)
 int utilities::get_num_digits(double x, int precision)
 {
 	return get_num_digits(
-		(int)utilities::ceil(x * utilities::pow(10, precision) - .4999999999999)
+		utilities::ceil(x * utilities::pow(10, precision) - .4999999999999)
 		/ utilities::pow(10, precision)
 	);
 }
-- 
2.43.0


From 239be98cb166d6b953aeb5216df9d4a8e77841ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 03/86] fix: do not drop Z changes smaller than the xyz
 precision from 3D arcs

---
 ArcWelder/segmented_arc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index 4a8a30e..0107528 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -305,7 +305,7 @@ std::string segmented_arc::get_shape_gcode() const
   bool has_e = e_relative_ != 0;
   bool has_f = utilities::greater_than_or_equal(f, 1);
   bool has_z = allow_3d_arcs_ && !utilities::is_equal(
-    current_arc_.start_point.z, current_arc_.end_point.z, get_xyz_tolerance()
+    current_arc_.start_point.z, current_arc_.end_point.z
   );
   gcode.reserve(96);
 
@@ -370,7 +370,7 @@ int segmented_arc::get_shape_gcode_length()
   bool has_e = e_relative_ != 0;
   bool has_f = utilities::greater_than_or_equal(f, 1);
   bool has_z = allow_3d_arcs_ && !utilities::is_equal(
-    current_arc_.start_point.z, current_arc_.end_point.z, get_xyz_tolerance()
+    current_arc_.start_point.z, current_arc_.end_point.z
   );
   
   int xyz_precision = get_xyz_precision();
-- 
2.43.0


From f91ecfdb64f2452add455d67a20a844f712fdc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 04/86] fix: firmware compensation counts segments with
 mm_per_arc_segment

---
 ArcWelder/segmented_arc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index 0107528..f16a2d9 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -251,7 +251,7 @@ bool segmented_arc::try_add_point_internal_(printer_point p)
       // See how many arcs will be interpolated
       double circumference = 2.0 * PI_DOUBLE * current_arc_.radius;
       // TODO: Should this be ceil?
-      int num_segments = (int)utilities::floor(circumference / min_arc_segments_);
+      int num_segments = (int)utilities::floor(circumference / mm_per_arc_segment_);
       if (num_segments < min_arc_segments_) {
         //num_segments = (int)std::ceil(circumference/approximate_length) * (int)std::ceil(approximate_length / mm_per_arc_segment);
         // TODO: Should this be ceil?
-- 
2.43.0


From 56aaf5af23400be828f7d005a93064ad412b608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 05/86] fix: an empty line must not reset the extrusion rate of
 the current arc

---
 ArcWelder/arc_welder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index c68fdc0..94c688e 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -730,8 +730,11 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
       }
     }
 
-    // Reset the previous extrusion rate
-    previous_extrusion_rate_ = 0;
+    // Reset the previous extrusion rate, unless this is an empty line, which doesn't end the current arc
+    if (!(cmd.is_empty && cmd.comment.length() == 0))
+    {
+      previous_extrusion_rate_ = 0;
+    }
   }
 
   if (!arc_added && !(cmd.is_empty && cmd.comment.length() == 0))
-- 
2.43.0


From 4b008de86ea7ff36b54fd9cb5f8739f2867c0fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 06/86] fix: keep all of the comments of an arc that contains
 empty lines

---
 ArcWelder/arc_welder.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 94c688e..0aeb1d6 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -875,7 +875,17 @@ std::string arc_welder::get_comment_for_arc()
 {
   // build a comment string from the commands making up the arc
         // We need to start with the first command entered.
-  int comment_index = unwritten_commands_.count() - (current_arc_.get_num_segments() - 1);
+  // Note that empty lines may be mixed with the commands of the arc, so only count movements.
+  int num_segments = current_arc_.get_num_segments() - 1;
+  int comment_index = unwritten_commands_.count();
+  while (num_segments > 0 && comment_index > 0)
+  {
+    comment_index--;
+    if (unwritten_commands_[comment_index].is_g0_g1)
+    {
+      num_segments--;
+    }
+  }
   std::string comment;
   for (; comment_index < unwritten_commands_.count(); comment_index++)
   {
-- 
2.43.0


From 54a5ea2d8570cbb4b8962e84fe5ec7c8d78b30d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 07/86] fix: keep the E position of shared extruders over a
 tool change

---
 GcodeProcessorLib/gcode_position.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 3c60868..aa1108a 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -493,7 +493,9 @@ void gcode_position::update(parsed_command& command, const long file_line_number
 		const pos_function_type func = gcode_functions_iterator_->second;
 		(this->*func)(p_current_pos, command);
 		// calculate z and e relative distances
-		p_current_pos->get_current_extruder().e_relative = (p_current_pos->get_current_extruder().e - p_previous_pos->get_extruder(p_current_pos->current_tool).e);
+		// note that shared extruders use a single E axis, so the E position of the previous tool is the reference
+		const double previous_e = shared_extruder_ ? p_previous_pos->get_current_extruder().e : p_previous_pos->get_extruder(p_current_pos->current_tool).e;
+		p_current_pos->get_current_extruder().e_relative = (p_current_pos->get_current_extruder().e - previous_e);
 		p_current_pos->z_relative = (p_current_pos->z - p_previous_pos->z);
 		// Have the XYZ positions changed after processing a command ?
 
@@ -1385,6 +1387,8 @@ void gcode_position::process_t(position* pos, parsed_command& cmd)
 		parsed_command_parameter p_cur_param = cmd.parameters[index];
 		if (p_cur_param.name == "T" && p_cur_param.value_type == 'U')
 		{
+			const double previous_e = pos->get_current_extruder().e;
+			const double previous_e_offset = pos->get_current_extruder().e_offset;
 			pos->current_tool = static_cast<int>(p_cur_param.unsigned_long_value);
 			if (!zero_based_extruder_)
 			{
@@ -1398,6 +1402,12 @@ void gcode_position::process_t(position* pos, parsed_command& cmd)
 			{
 				pos->current_tool = num_extruders_ - 1;
 			}
+			if (shared_extruder_)
+			{
+				// All tools share the same E axis, so the E position survives the tool change
+				pos->get_current_extruder().e = previous_e;
+				pos->get_current_extruder().e_offset = previous_e_offset;
+			}
 			
 			break;
 		}
-- 
2.43.0


From 00dfda412d42efcd031b4e8968fa42ea28b1f533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 08/86] fix: 3D arcs must follow the Z of every point,
 including the last segment

---
 ArcWelder/segmented_shape.cpp | 28 ++++++++++++++++++++++++++++
 ArcWelder/segmented_shape.h   |  2 ++
 2 files changed, 30 insertions(+)

diff --git a/ArcWelder/segmented_shape.cpp b/ArcWelder/segmented_shape.cpp
index 3da264c..afe0abc 100644
--- a/ArcWelder/segmented_shape.cpp
+++ b/ArcWelder/segmented_shape.cpp
@@ -201,6 +201,11 @@ bool circle::try_create_circle(const array_list<printer_point>& points, const do
   int middle_index = count / 2;
   int end_index = count - 1;
   
+  // The firmware moves Z linearly over a 3D arc, make sure the original path does so as well.
+  if (allow_3d_arcs && circle::is_over_z_deviation(points, resolution_mm))
+  {
+    return false;
+  }
 
   
   if (circle::try_create_circle(points[0], points[middle_index], points[end_index], max_radius, new_circle) && !new_circle.is_over_deviation(points, resolution_mm, xyz_tolerance, allow_3d_arcs))
@@ -316,6 +321,29 @@ bool circle::get_deviation_sum_squared(const array_list<printer_point>& points,
   return true;
 }
 
+bool circle::is_over_z_deviation(const array_list<printer_point>& points, const double resolution_mm)
+{
+  const int end_index = points.count() - 1;
+  // Note that the distance of the first point does not belong to the path
+  double total_distance = 0;
+  for (int index = 1; index <= end_index; index++)
+  {
+    total_distance += points[index].distance;
+  }
+  const double z_change = points[end_index].z - points[0].z;
+  double distance = 0;
+  for (int index = 1; index < end_index; index++)
+  {
+    distance += points[index].distance;
+    const double expected_z = points[0].z + z_change * (distance / total_distance);
+    if (utilities::abs(points[index].z - expected_z) > resolution_mm)
+    {
+      return true;
+    }
+  }
+  return false;
+}
+
 bool circle::is_over_deviation(const array_list<printer_point>& points, const double resolution_mm, const double xyz_tolerance, const bool allow_3d_arcs)
 {
   // We need to ensure that the Z steps are constand per linear travel unit
diff --git a/ArcWelder/segmented_shape.h b/ArcWelder/segmented_shape.h
index d466a42..a215d28 100644
--- a/ArcWelder/segmented_shape.h
+++ b/ArcWelder/segmented_shape.h
@@ -129,6 +129,8 @@ struct circle {
 
 	point get_closest_point(const point& p) const;
 
+	static bool is_over_z_deviation(const array_list<printer_point>& points, const double resolution_mm);
+
 	bool is_over_deviation(const array_list<printer_point>& points, const double resolution_mm, const double xyz_tolerance, const bool allow_3d_arcs);
 	
 	bool get_deviation_sum_squared(const array_list<printer_point>& points, const double resolution_mm, const double xyz_tolerance, const bool allow_3d_arcs, double& sum_deviation);
-- 
2.43.0


From 0f00032044cd2749c8057d985ae87f9c3a5ee6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:06 +0000
Subject: [PATCH 09/86] fix: initialize the extruder count before allocating
 the extruders of a position

---
 GcodeProcessorLib/position.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GcodeProcessorLib/position.cpp b/GcodeProcessorLib/position.cpp
index d9cd3a8..25575fd 100644
--- a/GcodeProcessorLib/position.cpp
+++ b/GcodeProcessorLib/position.cpp
@@ -214,6 +214,7 @@ position::position(int extruder_count)
 	is_in_bounds = true;
 	current_tool = 0;
 	p_extruders = NULL;
+	num_extruders = 0;
 	set_num_extruders(extruder_count);
 	
 }
-- 
2.43.0


From e22ec84f02dbb6782a17c66d0de74e837c497644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:51 +0000
Subject: [PATCH 10/86] fix: an indented unknown command is not an empty line

---
 GcodeProcessorLib/gcode_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index 1a4b928..ad49378 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -134,9 +134,9 @@ bool gcode_parser::try_parse_gcode(const char * gcode, parsed_command & command,
 		while (true)
 		{
 			char c = *p_gcode;
-			if (c == '\0' || c == ';' || c == ' ' || c == '\t')
+			if (c == '\0' || c == ';')
 				break;
-			else if (c > 31)
+			else if (c < 0 || c > 32)
 			{
 				command.is_empty = false;
 				break;
-- 
2.43.0


From 0a1a9a4e56abd3ce8f72a63ed705628f046203d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:51 +0000
Subject: [PATCH 11/86] fix: recognize commands with leading zeros in the
 address

---
 GcodeProcessorLib/gcode_parser.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index ad49378..59d7905 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -299,7 +299,15 @@ bool gcode_parser::try_extract_gcode_command(char ** p_p_gcode, std::string * p_
 				if (*p != ' ')
 				{
 					found_command = true;
-					(*p_command).push_back(*p++);
+					// Leading zeros aren't significant (G01 and G1 are the same command)
+					if (p_command->length() == 2 && (*p_command)[1] == '0')
+					{
+						(*p_command)[1] = *p++;
+					}
+					else
+					{
+						(*p_command).push_back(*p++);
+					}
 				}
 				else if (found_command)
 				{
-- 
2.43.0


From 11bc7521b5d1b8991ed051e84d1e8bb626169075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:51 +0000
Subject: [PATCH 12/86] fix: never start an arc at an unknown position

---
 ArcWelder/arc_welder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 0aeb1d6..7228e15 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -578,6 +578,8 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
       utilities::is_equal(p_cur_pos->z_firmware_offset, p_pre_pos->z_firmware_offset) &&
       (previous_extrusion_rate_ == 0 || utilities::less_than_or_equal(extrusion_rate_change_percent, extrusion_rate_variance_percent_)) &&
       !p_cur_pos->is_relative &&
+      // The starting point of an arc must be known
+      !p_pre_pos->x_null && !p_pre_pos->y_null && (!allow_3d_arcs_ || !p_pre_pos->z_null) &&
       (
         !waiting_for_arc_ ||
         extruder_current.is_extruding ||
-- 
2.43.0


From 0352f141b3ed8c47ecff52675cb8ce7a85badbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 13/86] fix: the position of an axis is unknown after homing
 when the home position is unknown

---
 GcodeProcessorLib/gcode_position.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index aa1108a..9e3e549 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -1106,18 +1106,33 @@ void gcode_position::process_g28(position* pos, parsed_command& cmd)
 		pos->x = home_x_;
 		pos->x_null = false;
 	}
+	else if (set_x_home)
+	{
+		// We don't know where the X axis is after homing
+		pos->x_null = true;
+	}
 	// todo: set error flag on else
 	if (set_y_home && !home_y_none_)
 	{
 		pos->y = home_y_;
 		pos->y_null = false;
 	}
+	else if (set_y_home)
+	{
+		// We don't know where the Y axis is after homing
+		pos->y_null = true;
+	}
 	// todo: set error flag on else
 	if (set_z_home && !home_z_none_)
 	{
 		pos->z = home_z_;
 		pos->z_null = false;
 	}
+	else if (set_z_home)
+	{
+		// We don't know where the Z axis is after homing
+		pos->z_null = true;
+	}
 	// todo: set error flag on else
 }
 
-- 
2.43.0


From 262761c71ca76afd7088ae9a9d575c4cbc2cbf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 14/86] fix: home every axis of a G28 command that lists axes
 without values

---
 GcodeProcessorLib/gcode_position.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 9e3e549..6e25da5 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -1069,11 +1069,15 @@ void gcode_position::process_g28(position* pos, parsed_command& cmd)
 	for (unsigned int index = 0; index < cmd.parameters.size(); index++)
 	{
 		parsed_command_parameter p_cur_param = cmd.parameters[index];
-		if (p_cur_param.name == "X")
+		// An axis without a value is parsed as a text parameter, which also contains any axis that follows (G28 X Y)
+		std::string axes = p_cur_param.name;
+		if (p_cur_param.value_type == 'S')
+			axes += p_cur_param.string_value;
+		if (axes.find_first_of("Xx") != std::string::npos)
 			has_x = true;
-		else if (p_cur_param.name == "Y")
+		if (axes.find_first_of("Yy") != std::string::npos)
 			has_y = true;
-		else if (p_cur_param.name == "Z")
+		if (axes.find_first_of("Zz") != std::string::npos)
 			has_z = true;
 	}
 	if (has_x)
-- 
2.43.0


From df67cd4ab959276c6f373d29dab41bcbdc2d74a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 15/86] fix: do not lose precision when fitting circles far
 from the origin

---
 ArcWelder/segmented_shape.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/ArcWelder/segmented_shape.cpp b/ArcWelder/segmented_shape.cpp
index afe0abc..73748dd 100644
--- a/ArcWelder/segmented_shape.cpp
+++ b/ArcWelder/segmented_shape.cpp
@@ -159,12 +159,13 @@ bool circle::try_create_circle(const point& p1, const point& p2, const point& p3
   {
     return false;
   }
-  double x1 = p1.x;
-  double y1 = p1.y;
-  double x2 = p2.x;
-  double y2 = p2.y;
-  double x3 = p3.x;
-  double y3 = p3.y;
+  // Use coordinates relative to the first point, else precision is lost if the points are far from the origin.
+  double x1 = 0;
+  double y1 = 0;
+  double x2 = p2.x - p1.x;
+  double y2 = p2.y - p1.y;
+  double x3 = p3.x - p1.x;
+  double y3 = p3.y - p1.y;
 
   double a = x1 * (y2 - y3) - y1 * (x2 - x3) + x2 * y3 - x3 * y2;
   //  Take out to figure out how we handle very small values for a
@@ -180,10 +181,10 @@ bool circle::try_create_circle(const point& p1, const point& p2, const point& p3
     + (x2 * x2 + y2 * y2) * (x3 - x1)
     + (x3 * x3 + y3 * y3) * (x1 - x2);
 
-  double x = -b / (2.0 * a);
-  double y = -c / (2.0 * a);
+  double x = p1.x - b / (2.0 * a);
+  double y = p1.y - c / (2.0 * a);
 
-  double radius = utilities::get_cartesian_distance(x, y, x1, y1);
+  double radius = utilities::get_cartesian_distance(x, y, p1.x, p1.y);
   if (radius > max_radius)
     return false;
 
-- 
2.43.0


From 7cd0df371b94583f38676d0878385a78e70eadaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 16/86] fix: recognize the UltiGCode marker in files with CRLF
 line endings

---
 ArcWelder/arc_welder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 7228e15..af172ac 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -280,7 +280,7 @@ arc_welder_results arc_welder::process()
 // This comment MUST be preserved as the first line for ultimakers, else things won't work
     if (lines_processed_ == 1)
     {
-      bool isUltiGCode = line == ";FLAVOR:UltiGCode";
+      bool isUltiGCode = line == ";FLAVOR:UltiGCode" || line == ";FLAVOR:UltiGCode\r";
       bool isPrusaSlicer = line.rfind("; generated by PrusaSlicer", 0) == 0;
       if (isUltiGCode || isPrusaSlicer)
       {
-- 
2.43.0


From 795b874efbd58cde8beb84f3b6861cd1d030d145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 17/86] fix: do not replace the source with an incomplete file
 when processing in place is cancelled

---
 ArcWelder/arc_welder.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index af172ac..ea78e9d 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -356,7 +356,13 @@ arc_welder_results arc_welder::process()
   output_file_.close();
   gcodeFile.close();
 
-  if (overwrite_source_file)
+  if (overwrite_source_file && !continue_processing)
+  {
+    // The temporary file is incomplete, do not touch the source.
+    p_logger_->log(logger_type_, log_levels::DEBUG, "Processing was cancelled, deleting the temporary file.");
+    std::remove(target_path_.c_str());
+  }
+  else if (overwrite_source_file)
   {
     stream.clear();
     stream.str("");
-- 
2.43.0


From c803046e45913da912313f50e871091e6a1873e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 18/86] fix: keep the target path when processing in place, so
 that a second call still updates the source

---
 ArcWelder/arc_welder.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index ea78e9d..5455800 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -220,6 +220,7 @@ arc_welder_results arc_welder::process()
   // Determine if we need to overwrite the source file
   bool overwrite_source_file = false;
   std::string temp_file_path;
+  std::string output_file_path = target_path_;
   if (source_path_ == target_path_)
   {
     overwrite_source_file = true;
@@ -235,7 +236,7 @@ arc_welder_results arc_welder::process()
     stream.str("");
     stream << "Source and target path are the same.  The source file will be overwritten.  Temporary file path: " << temp_file_path;
     p_logger_->log(logger_type_, log_levels::DEBUG, stream.str());
-    target_path_ = temp_file_path;
+    output_file_path = temp_file_path;
   }
 
   // Create the source file read stream and target write stream
@@ -253,7 +254,7 @@ arc_welder_results arc_welder::process()
 
   p_logger_->log(logger_type_, log_levels::DEBUG, "Opening the target file for writing.");
 
-  output_file_.open(target_path_.c_str(), std::ios_base::binary | std::ios_base::out);
+  output_file_.open(output_file_path.c_str(), std::ios_base::binary | std::ios_base::out);
   if (!output_file_.is_open())
   {
     results.success = false;
@@ -360,7 +361,7 @@ arc_welder_results arc_welder::process()
   {
     // The temporary file is incomplete, do not touch the source.
     p_logger_->log(logger_type_, log_levels::DEBUG, "Processing was cancelled, deleting the temporary file.");
-    std::remove(target_path_.c_str());
+    std::remove(output_file_path.c_str());
   }
   else if (overwrite_source_file)
   {
@@ -371,9 +372,9 @@ arc_welder_results arc_welder::process()
     stream.clear();
     stream.str("");
     std::remove(source_path_.c_str());
-    stream << "Renaming temporary file at '" << target_path_ << "' to '" << source_path_ << "'.";
+    stream << "Renaming temporary file at '" << output_file_path << "' to '" << source_path_ << "'.";
     p_logger_->log(0, log_levels::DEBUG, stream.str());
-    std::rename(target_path_.c_str(), source_path_.c_str());
+    std::rename(output_file_path.c_str(), source_path_.c_str());
   }
 
   results.success = continue_processing;
-- 
2.43.0


From 0bbe3c993b9e6797e3f86e821b5c6243a941e124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 19/86] fix: report read and write errors, and keep the source
 when processing in place fails

---
 ArcWelder/arc_welder.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 5455800..ca5f668 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -354,13 +354,21 @@ arc_welder_results arc_welder::process()
   on_progress_(final_progress);
 
   p_logger_->log(logger_type_, log_levels::DEBUG, "Closing source and target files.");
+  const bool read_failed = gcodeFile.bad();
   output_file_.close();
+  const bool write_failed = output_file_.fail();
   gcodeFile.close();
 
-  if (overwrite_source_file && !continue_processing)
+  if (read_failed || write_failed)
+  {
+    results.message = read_failed ? "Unable to read the source file." : "Unable to write the target file.";
+    p_logger_->log_exception(logger_type_, results.message);
+  }
+
+  if (overwrite_source_file && (!continue_processing || read_failed || write_failed))
   {
     // The temporary file is incomplete, do not touch the source.
-    p_logger_->log(logger_type_, log_levels::DEBUG, "Processing was cancelled, deleting the temporary file.");
+    p_logger_->log(logger_type_, log_levels::DEBUG, "Processing did not complete, deleting the temporary file.");
     std::remove(output_file_path.c_str());
   }
   else if (overwrite_source_file)
@@ -377,7 +385,7 @@ arc_welder_results arc_welder::process()
     std::rename(output_file_path.c_str(), source_path_.c_str());
   }
 
-  results.success = continue_processing;
+  results.success = continue_processing && !read_failed && !write_failed;
   results.cancelled = !continue_processing;
   results.progress = final_progress;
   p_logger_->log(logger_type_, log_levels::DEBUG, "Returning processing results.");
-- 
2.43.0


From bfb86f4957c058c7565010a2c5ff1f86d3ff8210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 20/86] fix: replace the source atomically when processing in
 place, and report if that fails

---
 ArcWelder/arc_welder.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index ca5f668..897cae2 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -365,6 +365,7 @@ arc_welder_results arc_welder::process()
     p_logger_->log_exception(logger_type_, results.message);
   }
 
+  bool replace_failed = false;
   if (overwrite_source_file && (!continue_processing || read_failed || write_failed))
   {
     // The temporary file is incomplete, do not touch the source.
@@ -375,17 +376,24 @@ arc_welder_results arc_welder::process()
   {
     stream.clear();
     stream.str("");
-    stream << "Deleting the original source file at '" << source_path_ << "'.";
-    p_logger_->log(logger_type_, log_levels::DEBUG, stream.str());
-    stream.clear();
-    stream.str("");
-    std::remove(source_path_.c_str());
     stream << "Renaming temporary file at '" << output_file_path << "' to '" << source_path_ << "'.";
     p_logger_->log(0, log_levels::DEBUG, stream.str());
-    std::rename(output_file_path.c_str(), source_path_.c_str());
+#ifdef _WIN32
+    // Only POSIX systems replace an existing file
+    std::remove(source_path_.c_str());
+#endif
+    if (std::rename(output_file_path.c_str(), source_path_.c_str()) != 0)
+    {
+      replace_failed = true;
+      results.message = "Unable to replace the source file.";
+      p_logger_->log_exception(logger_type_, results.message);
+#ifndef _WIN32
+      std::remove(output_file_path.c_str());
+#endif
+    }
   }
 
-  results.success = continue_processing && !read_failed && !write_failed;
+  results.success = continue_processing && !read_failed && !write_failed && !replace_failed;
   results.cancelled = !continue_processing;
   results.progress = final_progress;
   p_logger_->log(logger_type_, log_levels::DEBUG, "Returning processing results.");
-- 
2.43.0


From 5c3d4367c63ab50b188c6438aadf0f2b44551eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:25 +0000
Subject: [PATCH 21/86] fix: create unique temporary file names, so that
 concurrent processes do not share a temporary file

---
 GcodeProcessorLib/utilities.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index 7e52d57..f51d5bf 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -21,6 +21,7 @@
 ////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 
 #include "utilities.h"
+#include <random>
 
 namespace utilities {
 	// Box Drawing Consts
@@ -455,10 +456,12 @@ bool utilities::get_file_path(const std::string& file_path, std::string& path)
 
 std::string utilities::create_uuid() {
 	std::string res;
+	// Do not use rand() here: it isn't seeded, so every process would create the same ids.
+	std::random_device random;
 	for (int i = 0; i < 16; i++) {
 		if (GUID_DASHES[i]) res += "-";
-		res += GUID_RANGE[(int)(rand() % 16)];
-		res += GUID_RANGE[(int)(rand() % 16)];
+		res += GUID_RANGE[(int)(random() % 16)];
+		res += GUID_RANGE[(int)(random() % 16)];
 	}
 	return res;
 }
-- 
2.43.0


From 7c700c37dfee5a9685ed3db81bd555df22af9a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:25 +0000
Subject: [PATCH 22/86] fix: do not share the number formatting buffer between
 threads

---
 GcodeProcessorLib/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index f51d5bf..f9d6c47 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -682,7 +682,7 @@ void* utilities::memcpy(void* dest, const void* src, size_t n)
 
 std::string utilities::dtos(double x, unsigned char precision)
 {
-	static char buffer[FPCONV_BUFFER_LENGTH];
+	char buffer[FPCONV_BUFFER_LENGTH];
 	char* p = buffer;
 	buffer[fpconv_dtos(x, buffer, precision)] = '\0';
 	/* This is code that can be used to compare the output of the
-- 
2.43.0


From 21c3b87a8c2544edb456daf80b5802412f1abb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:25 +0000
Subject: [PATCH 23/86] fix: do not truncate the source if source and target
 are different paths to the same file

---
 ArcWelder/arc_welder.cpp        | 10 +++++-----
 GcodeProcessorLib/utilities.cpp | 20 ++++++++++++++++++++
 GcodeProcessorLib/utilities.h   |  3 +++
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 897cae2..3e56d79 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -221,10 +221,10 @@ arc_welder_results arc_welder::process()
   bool overwrite_source_file = false;
   std::string temp_file_path;
   std::string output_file_path = target_path_;
-  if (source_path_ == target_path_)
+  if (utilities::is_same_file(source_path_, target_path_))
   {
     overwrite_source_file = true;
-    if (!utilities::get_temp_file_path_for_file(source_path_, temp_file_path))
+    if (!utilities::get_temp_file_path_for_file(target_path_, temp_file_path))
     {
       results.success = false;
       results.message = "The source and target path are the same, but a temporary file path could not be created.  Are the paths empty?";
@@ -376,13 +376,13 @@ arc_welder_results arc_welder::process()
   {
     stream.clear();
     stream.str("");
-    stream << "Renaming temporary file at '" << output_file_path << "' to '" << source_path_ << "'.";
+    stream << "Renaming temporary file at '" << output_file_path << "' to '" << target_path_ << "'.";
     p_logger_->log(0, log_levels::DEBUG, stream.str());
 #ifdef _WIN32
     // Only POSIX systems replace an existing file
-    std::remove(source_path_.c_str());
+    std::remove(target_path_.c_str());
 #endif
-    if (std::rename(output_file_path.c_str(), source_path_.c_str()) != 0)
+    if (std::rename(output_file_path.c_str(), target_path_.c_str()) != 0)
     {
       replace_failed = true;
       results.message = "Unable to replace the source file.";
diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index f9d6c47..9258b1b 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -22,6 +22,9 @@
 
 #include "utilities.h"
 #include <random>
+#ifndef _WIN32
+#include <sys/stat.h>
+#endif
 
 namespace utilities {
 	// Box Drawing Consts
@@ -479,6 +482,23 @@ bool utilities::get_temp_file_path_for_file(const std::string& file_path, std::s
 	return true;
 }
 
+bool utilities::is_same_file(const std::string& file_path_1, const std::string& file_path_2)
+{
+	if (file_path_1 == file_path_2)
+	{
+		return true;
+	}
+#ifndef _WIN32
+	// Different paths (./a and a, or links) can refer to the same file
+	struct stat stat_1, stat_2;
+	if (stat(file_path_1.c_str(), &stat_1) == 0 && stat(file_path_2.c_str(), &stat_2) == 0)
+	{
+		return stat_1.st_dev == stat_2.st_dev && stat_1.st_ino == stat_2.st_ino;
+	}
+#endif
+	return false;
+}
+
 bool utilities::does_file_exist(const std::string& file_path)
 {
 	FILE* file;
diff --git a/GcodeProcessorLib/utilities.h b/GcodeProcessorLib/utilities.h
index f1f4ede..f5fd08d 100644
--- a/GcodeProcessorLib/utilities.h
+++ b/GcodeProcessorLib/utilities.h
@@ -105,6 +105,9 @@ namespace utilities{
 
 	std::string create_uuid();
 
+	// true if both paths refer to the same file
+	bool is_same_file(const std::string& file_path_1, const std::string& file_path_2);
+
 	bool does_file_exist(const std::string& file_path);
 
 	bool get_temp_file_path_for_file(const std::string& file_path, std::string& temp_file_path);
-- 
2.43.0


From 9175ba0c41f6e02e55ecbdf23579300f2aab0641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 24/86] fix: ArcWelder exits with a non zero status if
 processing fails

---
 ArcWelderConsole/ArcWelderConsole.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index 50e2b93..3564357 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -430,7 +430,7 @@ int main(int argc, char* argv[])
   }
 
   delete p_arc_welder;
-  return 0;
+  return results.success ? 0 : 1;
 }
 
 bool on_progress_full(arc_welder_progress progress, logger* p_logger, int logger_type)
-- 
2.43.0


From 76bfb6c876e0bee5f6addd6b3eb5e0b45009efbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 25/86] fix: ArcStraightener exits with a non zero status if
 the arguments are invalid

---
 ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 9a82f76..ea3b86e 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -56,7 +56,7 @@
 int main(int argc, char* argv[])
 {
   try {
-    run_arc_straightener(argc, argv);
+    return run_arc_straightener(argc, argv);
   }
   catch (TCLAP::ArgException *e) {
     std::cout << (*e).what() << " - " << (*e).typeDescription() << "\n";
@@ -370,7 +370,7 @@ int run_arc_straightener(int argc, char* argv[])
     if (!isSourceIncluded)
     {
         std::cout << "The <source> parameter is required.  Please specify a file to convert.";
-        return 0;
+        return 1;
     }
     // Get the value parsed by each arg. 
     args.source_path = source_arg.getValue();
-- 
2.43.0


From 011eb403b5f2cce2521417aad119d6250141de73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 26/86] fix: ArcStraightener reports read and write errors, and
 keeps the source when converting in place fails

---
 .../ArcWelderInverseProcessor.cpp                 | 11 ++++++++++-
 ArcWelderInverseProcessor/arc_interpolation.cpp   | 15 +++++++++++++--
 ArcWelderInverseProcessor/arc_interpolation.h     |  3 ++-
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index ea3b86e..427d478 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -578,7 +578,16 @@ int run_arc_straightener(int argc, char* argv[])
   p_logger->log(0, log_levels::INFO, log_messages.str());
 
   p_logger->log(0, log_levels::INFO, "Running interpolation...");
-  interpolator.process();
+  if (!interpolator.process())
+  {
+    p_logger->log(0, log_levels::INFO, "File processing failed.");
+    if (overwrite_source_file)
+    {
+      // The temporary file is incomplete, do not touch the source.
+      std::remove(args.target_path.c_str());
+    }
+    return 1;
+  }
   p_logger->log(0, log_levels::INFO, "Interpolation Complete.");
 
   log_messages.clear();
diff --git a/ArcWelderInverseProcessor/arc_interpolation.cpp b/ArcWelderInverseProcessor/arc_interpolation.cpp
index feb045b..66d5af0 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.cpp
+++ b/ArcWelderInverseProcessor/arc_interpolation.cpp
@@ -114,7 +114,7 @@ arc_interpolation::~arc_interpolation()
  
 }
 
-void arc_interpolation::process()
+bool arc_interpolation::process()
 {
   // Create a stringstream we can use for messaging.
   std::stringstream stream;
@@ -141,7 +141,12 @@ void arc_interpolation::process()
   // Create the source file read stream and target write stream
   std::ifstream gcode_file;
   gcode_file.open(args_.source_path.c_str());
-  output_file_.open(args_.target_path.c_str());
+  bool success = false;
+  // Do not create the target file if there is nothing to read
+  if (gcode_file.is_open())
+  {
+    output_file_.open(args_.target_path.c_str());
+  }
   std::string line;
   int lines_with_no_commands = 0;
   gcode_file.sync_with_stdio(false);
@@ -249,6 +254,11 @@ void arc_interpolation::process()
 
       }
       output_file_.close();
+      success = !gcode_file.bad() && !output_file_.fail();
+      if (!success)
+      {
+        std::cout << "Unable to read the gcode file or to write the output file.\n";
+      }
     }
     else
     {
@@ -273,6 +283,7 @@ void arc_interpolation::process()
   stream << "\tArc Segments Generated: " << p_current_firmware_->get_num_arc_segments_generated() << "\r\n";
   stream << "\tTotal Seconds         : " << total_seconds << "\r\n";
   std::cout << stream.str();
+  return success;
 }
 
 std::string arc_interpolation::get_firmware_arguments_description(std::string separator, std::string argument_prefix, std::string replacement_string, std::string replacement_value) const
diff --git a/ArcWelderInverseProcessor/arc_interpolation.h b/ArcWelderInverseProcessor/arc_interpolation.h
index e1eed16..96d34a6 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.h
+++ b/ArcWelderInverseProcessor/arc_interpolation.h
@@ -69,7 +69,8 @@ class arc_interpolation
 		arc_interpolation();
 		arc_interpolation(arc_interpolation_args args);
 		virtual ~arc_interpolation();
-		void process();
+		// returns false if the source file could not be read completely, or if the target file could not be written
+	bool process();
 		/// <summary>
 		/// Outputs a string description of the firmware arguments.
 		/// </summary>
-- 
2.43.0


From d29849ff277816390323e96eb130008069a5531c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 27/86] fix: ArcStraightener replaces the source atomically
 when converting in place, and reports if that fails

---
 .../ArcWelderInverseProcessor.cpp              | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 427d478..4b79c02 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -598,14 +598,20 @@ int run_arc_straightener(int argc, char* argv[])
   {
     log_messages.clear();
     log_messages.str("");
-    log_messages << "Deleting the original source file at '" << args.source_path << "'.";
-    p_logger->log(0, log_levels::INFO, log_messages.str());
-    log_messages.clear();
-    log_messages.str("");
-    std::remove(args.source_path.c_str());
     log_messages << "Renaming temporary file at '" << args.target_path << "' to '" << args.source_path << "'.";
     p_logger->log(0, log_levels::INFO, log_messages.str());
-    std::rename(args.target_path.c_str(), args.source_path.c_str());
+#ifdef _WIN32
+    // Only POSIX systems replace an existing file
+    std::remove(args.source_path.c_str());
+#endif
+    if (std::rename(args.target_path.c_str(), args.source_path.c_str()) != 0)
+    {
+      p_logger->log(0, log_levels::INFO, "Unable to replace the source file.");
+#ifndef _WIN32
+      std::remove(args.target_path.c_str());
+#endif
+      return 1;
+    }
   }
 
   log_messages.clear();
-- 
2.43.0


From 613fad7dc0e572906cd97d8d658887331a05b482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 28/86] fix: ArcStraightener does not truncate the source if
 source and target are different paths to the same file

---
 .../ArcWelderInverseProcessor.cpp                     | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 4b79c02..8ad71ce 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -534,10 +534,11 @@ int run_arc_straightener(int argc, char* argv[])
   std::stringstream log_messages;
   std::string temp_file_path = "";
   log_messages << std::fixed << std::setprecision(DEFAULT_ARG_DOUBLE_PRECISION);
-  if (args.source_path == args.target_path)
+  const std::string target_path = args.target_path;
+  if (utilities::is_same_file(args.source_path, args.target_path))
   {
     overwrite_source_file = true;
-    if (!utilities::get_temp_file_path_for_file(args.source_path, temp_file_path))
+    if (!utilities::get_temp_file_path_for_file(target_path, temp_file_path))
     {
       log_messages << "The source and target path are the same, but a temporary file path could not be created.  Is the path empty?";
       p_logger->log(0, log_levels::INFO, log_messages.str());
@@ -598,13 +599,13 @@ int run_arc_straightener(int argc, char* argv[])
   {
     log_messages.clear();
     log_messages.str("");
-    log_messages << "Renaming temporary file at '" << args.target_path << "' to '" << args.source_path << "'.";
+    log_messages << "Renaming temporary file at '" << args.target_path << "' to '" << target_path << "'.";
     p_logger->log(0, log_levels::INFO, log_messages.str());
 #ifdef _WIN32
     // Only POSIX systems replace an existing file
-    std::remove(args.source_path.c_str());
+    std::remove(target_path.c_str());
 #endif
-    if (std::rename(args.target_path.c_str(), args.source_path.c_str()) != 0)
+    if (std::rename(args.target_path.c_str(), target_path.c_str()) != 0)
     {
       p_logger->log(0, log_levels::INFO, "Unable to replace the source file.");
 #ifndef _WIN32
-- 
2.43.0


From 0b72f9fcf86d02cc60c8299f486cc2aff843ef9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 29/86] fix: use the values and the direction of I and J for
 the length of source arcs in the statistics

---
 ArcWelder/arc_welder.cpp        | 6 +++---
 GcodeProcessorLib/utilities.cpp | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 3e56d79..fb9bd06 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -494,14 +494,14 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
         switch ((*it).name[0])
         {
         case 'I':
-          i = (*it).double_precision;
+          i = (*it).double_value;
           break;
         case 'J':
-          j = (*it).double_precision;
+          j = (*it).double_value;
           break;
           // Note that the R form isn't fully implemented!
         case 'R':
-          r = (*it).double_precision;
+          r = (*it).double_value;
           break;
         }
       }
diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index 9258b1b..98dbd41 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -216,13 +216,14 @@ double utilities::get_cartesian_distance(double x1, double y1, double z1, double
 
 double utilities::get_arc_distance(double x1, double y1, double z1, double x2, double y2, double z2, double i, double j, double r, bool is_clockwise)
 {
-	double center_x = x1 - i;
-	double center_y = y1 - j;
+	// i and j are the offset from the start of the arc to its center
+	double center_x = x1 + i;
+	double center_y = y1 + j;
 	double radius = utilities::hypot(i, j);
 	double z_dist = z2 - z1;
 	double rt_x = x2 - center_x;
 	double rt_y = y2 - center_y;
-	double angular_travel_total = utilities::atan2(i * rt_y - j * rt_x, i * rt_x + j * rt_y);
+	double angular_travel_total = utilities::atan2(j * rt_x - i * rt_y, -i * rt_x - j * rt_y);
 	if (angular_travel_total < 0) { angular_travel_total += 2.0 * PI_DOUBLE; }
 	// Adjust the angular travel if the direction is clockwise
 	if (is_clockwise) { angular_travel_total -= 2.0 * PI_DOUBLE; }
-- 
2.43.0


From 5ded90cf84ca64e651643c6d8133af0a1baff604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 30/86] fix: never report infinite or undefined progress values

---
 ArcWelder/arc_welder.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index fb9bd06..dcd0337 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -427,12 +427,12 @@ arc_welder_progress arc_welder::get_progress_(long source_file_position, double
   progress.target_file_size = static_cast<long>(output_file_.tellp());
   progress.source_file_size = file_size_;
   long bytesRemaining = file_size_ - static_cast<long>(source_file_position);
-  progress.percent_complete = static_cast<double>(source_file_position) / static_cast<double>(file_size_) * 100.0;
+  progress.percent_complete = file_size_ > 0 ? static_cast<double>(source_file_position) / static_cast<double>(file_size_) * 100.0 : 100.0;
   progress.seconds_elapsed = get_time_elapsed(start_clock, clock());
-  double bytesPerSecond = static_cast<double>(source_file_position) / progress.seconds_elapsed;
-  progress.seconds_remaining = bytesRemaining / bytesPerSecond;
+  // seconds per byte is always finite once something was read
+  progress.seconds_remaining = source_file_position > 0 ? bytesRemaining * (progress.seconds_elapsed / static_cast<double>(source_file_position)) : 0;
   
-  if (source_file_position > 0) {
+  if (source_file_position > 0 && progress.target_file_size > 0) {
     progress.compression_ratio = (static_cast<float>(source_file_position) / static_cast<float>(progress.target_file_size));
     progress.compression_percent = (1.0 - (static_cast<float>(progress.target_file_size) / static_cast<float>(source_file_position))) * 100.0f;
   }
-- 
2.43.0


From 49da85d48f1270150d09f5a30f79d5f568bc9ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 31/86] fix: initialize the number of arc commands processed by
 ArcStraightener

---
 ArcWelderInverseProcessor/arc_interpolation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelderInverseProcessor/arc_interpolation.h b/ArcWelderInverseProcessor/arc_interpolation.h
index 96d34a6..c20c1d0 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.h
+++ b/ArcWelderInverseProcessor/arc_interpolation.h
@@ -85,7 +85,7 @@ class arc_interpolation
 			std::ofstream output_file_;
 			int lines_processed_ = 0;
 			firmware* p_current_firmware_;
-			int num_arc_commands_;
+			int num_arc_commands_ = 0;
   
 };
 
-- 
2.43.0


From fb034e1dabab63077a80f2cb690cdf7e5050c9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 32/86] fix: ArcWelder exits normally after reporting invalid
 arguments

---
 ArcWelderConsole/ArcWelderConsole.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index 3564357..30a9e0e 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -344,8 +344,15 @@ int main(int argc, char* argv[])
   // catch argument exceptions
   catch (TCLAP::ArgException& e)
   {
-    // This will raise an exit exception
-    cmd.getOutput()->failure(cmd, e);
+    try
+    {
+      // This will raise an exit exception
+      cmd.getOutput()->failure(cmd, e);
+    }
+    catch (TCLAP::ExitException& exit_exception)
+    {
+      return exit_exception.getExitStatus();
+    }
     return 1;
   }
   
-- 
2.43.0


From e1c0f32c746a80632900079a68d0f90ab09dd29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 33/86] fix: ArcStraightener exits normally after reporting
 invalid arguments

---
 ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 8ad71ce..0b95d74 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -58,6 +58,10 @@ int main(int argc, char* argv[])
   try {
     return run_arc_straightener(argc, argv);
   }
+  catch (TCLAP::ExitException& e) {
+    // The error was reported already
+    return e.getExitStatus();
+  }
   catch (TCLAP::ArgException *e) {
     std::cout << (*e).what() << " - " << (*e).typeDescription() << "\n";
     return -1;
-- 
2.43.0


From 9ff54480e78377a8635f7a66828829f7d96893ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:49 +0000
Subject: [PATCH 34/86] fix: ArcStraightener must track the position between
 the segments of a Marlin 2 arc

---
 ArcWelderInverseProcessor/marlin_2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index e70c043..54af4e5 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -604,5 +604,7 @@ bool marlin_2::buffer_line(const float(&cart)[MARLIN_2_XYZE], double fr_mm_s, in
   // Generate the gcode
   gcodes_ += g1_command(target);
 
+  // update the current position
+  set_current_position(target);
   return true;
 }
-- 
2.43.0


From 893a4ef2464bed86589e2e04dc345e810f068bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:49 +0000
Subject: [PATCH 35/86] fix: ArcStraightener must not drop the Z movement of
 Marlin 2 arcs

---
 ArcWelderInverseProcessor/marlin_2.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index 54af4e5..c5064d8 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -307,7 +307,7 @@ void marlin_2::plan_arc_2_0_9_1(
     // Update raw location
     raw[p_axis] = center_P + rvec[0];
     raw[q_axis] = center_Q + rvec[1];
-    raw[l_axis] = start_L, raw[l_axis] + linear_per_segment;
+    raw[l_axis] += linear_per_segment;
 
     raw[E_AXIS] += extruder_per_segment;
 
@@ -321,14 +321,12 @@ void marlin_2::plan_arc_2_0_9_1(
 
   // Ensure last segment arrives at target location.
   COPY(raw, cart);
-  raw[l_axis] = start_L;
 
   apply_motion_limits(raw);
 
 
   buffer_line(raw, scaled_fr_mm_s, 0);
 
-  raw[l_axis] = start_L;
   COPY(current_position, raw);
 }
 
@@ -527,7 +525,7 @@ void marlin_2::plan_arc_2_0_9_2(
     // Update raw location
     raw[p_axis] = center_P + rvec[0];
     raw[q_axis] = center_Q + rvec[1];
-    raw[l_axis] = start_L, raw[l_axis] + per_segment_L;
+    raw[l_axis] += per_segment_L;
     raw[E_AXIS] += extruder_per_segment;
 
     apply_motion_limits(raw);
@@ -540,14 +538,12 @@ void marlin_2::plan_arc_2_0_9_2(
 
   // Ensure last segment arrives at target location.
   COPY(raw, cart);
-  raw[l_axis] = start_L;
 
   apply_motion_limits(raw);
 
 
   buffer_line(raw, scaled_fr_mm_s, 0);
 
-  raw[l_axis] = start_L;
   COPY(current_position, raw);
 }
 // Marlin Function Defs
-- 
2.43.0


From ce0edff6ed7a9c2562e594949e94d1af2ac27294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:49 +0000
Subject: [PATCH 36/86] fix: release arrays with delete[]

---
 ArcWelderInverseProcessor/marlin_1.cpp | 2 +-
 ArcWelderInverseProcessor/marlin_2.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ArcWelderInverseProcessor/marlin_1.cpp b/ArcWelderInverseProcessor/marlin_1.cpp
index 3bdf86f..a295f73 100644
--- a/ArcWelderInverseProcessor/marlin_1.cpp
+++ b/ArcWelderInverseProcessor/marlin_1.cpp
@@ -42,7 +42,7 @@ marlin_1::marlin_1(firmware_arguments args) : firmware(args) {
 
 marlin_1::~marlin_1()
 {
-	delete current_position;
+	delete[] current_position;
 }
 
 void marlin_1::apply_arguments()
diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index c5064d8..7e8a129 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -41,7 +41,7 @@ marlin_2::marlin_2(firmware_arguments args) : firmware(args) {
 
 marlin_2::~marlin_2()
 {
-  delete current_position;
+  delete[] current_position;
 }
 
 void marlin_2::apply_arguments()
-- 
2.43.0


From d956ea45ddacbbbd7ed24bab93e520239c1292a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:56 +0000
Subject: [PATCH 37/86] fix: report the end of the source file as progress once
 it was reached

---
 ArcWelder/arc_welder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index dcd0337..a809086 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -418,6 +418,11 @@ bool arc_welder::on_progress_(const arc_welder_progress& progress)
 arc_welder_progress arc_welder::get_progress_(long source_file_position, double start_clock)
 {
   arc_welder_progress progress;
+  // The stream has no position once the end of the file was reached.
+  if (source_file_position < 0)
+  {
+    source_file_position = file_size_;
+  }
   progress.gcodes_processed = gcodes_processed_;
   progress.lines_processed = lines_processed_;
   progress.points_compressed = points_compressed_;
-- 
2.43.0


From 4af6db01a0d8d3501d18563926dcbdbf6ac1b9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:03 +0000
Subject: [PATCH 38/86] fix: smoothieware tracks the position between arc
 segments

---
 ArcWelderInverseProcessor/smoothieware.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ArcWelderInverseProcessor/smoothieware.cpp b/ArcWelderInverseProcessor/smoothieware.cpp
index 43b8c3c..e1573da 100644
--- a/ArcWelderInverseProcessor/smoothieware.cpp
+++ b/ArcWelderInverseProcessor/smoothieware.cpp
@@ -302,6 +302,9 @@ bool smoothieware::append_milestone(const float target[], double rate_mm_s)
   // Generate the gcode
   gcodes_ += g1_command(gcode_target);
 
+  // update the current position
+  set_current_position(gcode_target);
+
   return true;
   return true;
 }
-- 
2.43.0


From 035a7be03e91d012fe902bc35e01216e3c3bae73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:03 +0000
Subject: [PATCH 39/86] fix: --g90-g91-influences-extruder=DEFAULT keeps the
 firmware's behavior

---
 ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 0b95d74..26340dd 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -434,7 +434,11 @@ int run_arc_straightener(int argc, char* argv[])
       {
         throw TCLAP::ArgException("The argument does not apply to the " + firmware_type_string + " " + firmware_version_arg.getValue() + " firmware.  Only the following parameters are supported: " + available_arguments_string, g90_arg.toString());
       }
-      args.firmware_args.g90_g91_influences_extruder = g90_arg.getValue() == "TRUE";
+      // DEFAULT keeps the behavior of the firmware
+      if (g90_arg.getValue() != g90_g91_influences_extruder_default_value)
+      {
+        args.firmware_args.g90_g91_influences_extruder = g90_arg.getValue() == "TRUE";
+      }
     }
     if (n_arc_correction_arg.isSet())
     {
-- 
2.43.0


From a588e11fb5d644d501c37ba3e8feba92b36f8496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:37 +0000
Subject: [PATCH 40/86] fix: Marlin 2 arc segments per second takes the
 feedrate in mm/min into account

---
 ArcWelderInverseProcessor/marlin_2.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index 7e8a129..970d568 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -225,7 +225,8 @@ void marlin_2::plan_arc_2_0_9_1(
   }
   else if (args_.arc_segments_per_sec > 0)
   {
-    seg_length = utilities::maxf(scaled_fr_mm_s * utilities::reciprocalf((float)args_.arc_segments_per_sec), (float)args_.mm_per_arc_segment);
+    // the feedrate of gcode is in mm/min
+    seg_length = utilities::maxf(scaled_fr_mm_s / 60.0f * utilities::reciprocalf((float)args_.arc_segments_per_sec), (float)args_.mm_per_arc_segment);
   }
 
   // Divide total travel by nominal segment length
@@ -429,7 +430,8 @@ void marlin_2::plan_arc_2_0_9_2(
   // Get the nominal segment length based on settings
   float nominal_segment_mm;
   if (args_.arc_segments_per_sec > 0) {
-    nominal_segment_mm = utilities::constrainf(scaled_fr_mm_s * utilities::reciprocalf((float)args_.arc_segments_per_sec), (float)args_.min_arc_segment_mm, (float)args_.max_arc_segment_mm);
+    // the feedrate of gcode is in mm/min
+    nominal_segment_mm = utilities::constrainf(scaled_fr_mm_s / 60.0f * utilities::reciprocalf((float)args_.arc_segments_per_sec), (float)args_.min_arc_segment_mm, (float)args_.max_arc_segment_mm);
   }
   else {
     nominal_segment_mm = (float)args_.max_arc_segment_mm;
-- 
2.43.0


From 8b1ea8eda6ecae8da31ded0c6a9c1f16390f769e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:47 +0000
Subject: [PATCH 41/86] fix: Repetier 1.0.5 arcs must not truncate the angle to
 whole radians

---
 ArcWelderInverseProcessor/repetier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelderInverseProcessor/repetier.cpp b/ArcWelderInverseProcessor/repetier.cpp
index f3feb61..8b5ead2 100644
--- a/ArcWelderInverseProcessor/repetier.cpp
+++ b/ArcWelderInverseProcessor/repetier.cpp
@@ -192,7 +192,7 @@ void repetier::arc_1_0_5(float* position, float* target, float* offset, float ra
   }
 
   // Determine the number of mm of total travel
-  float millimeters_of_travel = abs(angular_travel) * radius;
+  float millimeters_of_travel = utilities::absf(angular_travel) * radius;
   if (linear_travel)
   {
     // If we have any Z motion, add this to the total mm of travel.
-- 
2.43.0


From 5a95e92beb53dbdd6d9e45771a16a6ceaa1e6f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:03 +0000
Subject: [PATCH 42/86] fix: arcs must not run around the circle opposite to
 the source path

---
 ArcWelder/segmented_shape.cpp | 26 +++++++++++++++++++++++++-
 ArcWelder/segmented_shape.h   |  1 +
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/ArcWelder/segmented_shape.cpp b/ArcWelder/segmented_shape.cpp
index 73748dd..050ce58 100644
--- a/ArcWelder/segmented_shape.cpp
+++ b/ArcWelder/segmented_shape.cpp
@@ -564,7 +564,7 @@ bool arc::try_create_arc(
     return false;
   }
 
-  if (arc::are_points_within_slice(test_arc, points))
+  if (arc::are_points_within_slice(test_arc, points) && arc::is_travel_direction_correct(test_arc, points))
   {
     target_arc = test_arc;
     return true;
@@ -687,6 +687,30 @@ bool arc::are_points_within_slice(const arc& test_arc, const array_list<printer_
   return true;
 }
 
+// The points must travel around the center in the same direction, and as far, as the arc does.
+bool arc::is_travel_direction_correct(const arc& test_arc, const array_list<printer_point>& points)
+{
+  double points_radians = 0;
+  for (int index = 1; index < points.count(); index++)
+  {
+    double x1 = points[index - 1].x - test_arc.center.x, y1 = points[index - 1].y - test_arc.center.y;
+    double x2 = points[index].x - test_arc.center.x, y2 = points[index].y - test_arc.center.y;
+    points_radians += utilities::atan2(x1 * y2 - y1 * x2, x1 * x2 + y1 * y2);
+  }
+
+  double arc_radians = test_arc.polar_end_theta - test_arc.polar_start_theta;
+  if (test_arc.direction == DirectionEnum::COUNTERCLOCKWISE)
+  {
+    if (arc_radians < 0) arc_radians += 2.0 * PI_DOUBLE;
+  }
+  else if (arc_radians > 0)
+  {
+    arc_radians -= 2.0 * PI_DOUBLE;
+  }
+  // Both have the same endpoints, so they can only differ by whole turns.
+  return utilities::abs(points_radians - arc_radians) < PI_DOUBLE;
+}
+
 // return the distance of ray origin to intersection point
 bool arc::ray_intersects_segment(const point rayOrigin, const point rayDirection, const printer_point point1, const printer_point point2)
 {
diff --git a/ArcWelder/segmented_shape.h b/ArcWelder/segmented_shape.h
index a215d28..049758a 100644
--- a/ArcWelder/segmented_shape.h
+++ b/ArcWelder/segmented_shape.h
@@ -186,6 +186,7 @@ struct arc : circle
 		double xyz_tolerance = DEFAULT_XYZ_TOLERANCE,
 		bool allow_3d_arcs = DEFAULT_ALLOW_3D_ARCS);
 	static bool are_points_within_slice(const arc& test_arc, const array_list<printer_point>& points);
+	static bool is_travel_direction_correct(const arc& test_arc, const array_list<printer_point>& points);
 	static bool ray_intersects_segment(const point rayOrigin, const point rayDirection, const printer_point point1, const printer_point point2);
 	private:
 		static bool try_create_arc(
-- 
2.43.0


From 2ea9b89db6001dd59beb278ac3817e3349733115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:59 +0000
Subject: [PATCH 43/86] fix: precision arguments above 255 must be refused, not
 wrapped

---
 ArcWelderConsole/ArcWelderConsole.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index 30a9e0e..de85d95 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -264,22 +264,23 @@ int main(int argc, char* argv[])
         throw TCLAP::ArgException("You must also specify a non zero value for the " + mm_per_arc_segment_arg.toString() + " argument.", min_arc_segments_arg.toString());
     }
 
-    if (args.default_xyz_precision < 3)
+    // The precision must be checked before it is truncated to a char
+    if (default_xyz_precision_arg.getValue() < 3)
     {
         throw TCLAP::ArgException("The provided value is less than 3.", default_xyz_precision_arg.toString());
     }
 
-    if (args.default_e_precision < 3)
+    if (default_e_precision_arg.getValue() < 3)
     {
         throw TCLAP::ArgException("The provided value is less than 3.", default_e_precision_arg.toString());
     }
 
-    if (args.default_xyz_precision > 6)
+    if (default_xyz_precision_arg.getValue() > 6)
     {
         throw TCLAP::ArgException("The provided value is greater than 6.", default_xyz_precision_arg.toString());
     }
 
-    if (args.default_e_precision > 6)
+    if (default_e_precision_arg.getValue() > 6)
     {
         throw TCLAP::ArgException("The provided value is greater than 6.", default_e_precision_arg.toString());
     }
-- 
2.43.0


From 2b36ddd2073ba4106130219233311c894a1442cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:32 +0000
Subject: [PATCH 44/86] fix: number formatting must not overflow its buffer or
 turn large numbers into 0.000

---
 GcodeProcessorLib/fpconv.cpp  | 15 ++++++++-------
 GcodeProcessorLib/fpconv.h    |  6 +++++-
 GcodeProcessorLib/utilities.h |  2 +-
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/GcodeProcessorLib/fpconv.cpp b/GcodeProcessorLib/fpconv.cpp
index 9c2b8ee..5940bdc 100644
--- a/GcodeProcessorLib/fpconv.cpp
+++ b/GcodeProcessorLib/fpconv.cpp
@@ -334,10 +334,9 @@ static int emit_digits(char* digits, int ndigits, char* dest, int K, bool neg)
 
 static int emit_digits_decimal(char* digits, int ndigits, char* dest, int K, bool neg, unsigned char precision)
 {
-  int exp = absv(K + ndigits - 1);
-  unsigned char length = 0;
+  int length = 0;
   /* write plain integer */
-  if (K >= 0 && (exp < (ndigits + 7))) {
+  if (K >= 0) {
     memcpy(dest, digits, ndigits);
     memset(dest + ndigits, '0', K);
     // pad with 0s if we need to 
@@ -360,10 +359,14 @@ static int emit_digits_decimal(char* digits, int ndigits, char* dest, int K, boo
   int offset = ndigits - absv(K);
   
   // round the number in dest
-  unsigned char terminator_location;
+  int terminator_location;
   /* fp < 1.0 -> write leading zero */
   if (offset <= 0) {
     offset = -offset;
+    if (offset > precision + 1) {
+      // Every digit up to and including the one that decides the rounding is 0, so more zeros can't matter
+      offset = precision + 1;
+    }
     dest[0] = '0';
     dest[1] = '.';
     memset(dest + 2, '0', offset);
@@ -390,8 +393,6 @@ static int emit_digits_decimal(char* digits, int ndigits, char* dest, int K, boo
     }
   }
   
-  
-  if (terminator_location < 24)
   {
     // Get the character at the terminator location
     // we will use this to determine if we need to round
@@ -502,7 +503,7 @@ int fpconv_dtoa(double d, char dest[24])
   return str_len;
 }
 
-int fpconv_dtos(double d, char dest[24], unsigned char precision)
+int fpconv_dtos(double d, char dest[FPCONV_DTOS_LENGTH], unsigned char precision)
 {
   char digits[18];
 
diff --git a/GcodeProcessorLib/fpconv.h b/GcodeProcessorLib/fpconv.h
index 29af997..1387b21 100644
--- a/GcodeProcessorLib/fpconv.h
+++ b/GcodeProcessorLib/fpconv.h
@@ -81,7 +81,11 @@ WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
  */
 
 int fpconv_dtoa(double fp, char dest[24]);
-int fpconv_dtos(double fp, char dest[24], unsigned char precision);
+
+/* The longest string fpconv_dtos can generate:  a sign, the 309 digits of the largest double,
+ * a decimal point and up to 255 decimals.  The string will not be null terminated. */
+#define FPCONV_DTOS_LENGTH (1 + 309 + 1 + 255)
+int fpconv_dtos(double fp, char dest[FPCONV_DTOS_LENGTH], unsigned char precision);
 
 #endif
 
diff --git a/GcodeProcessorLib/utilities.h b/GcodeProcessorLib/utilities.h
index f5fd08d..cacade1 100644
--- a/GcodeProcessorLib/utilities.h
+++ b/GcodeProcessorLib/utilities.h
@@ -33,7 +33,7 @@
 #include <cstring>
 #include "fpconv.h"
 
-#define FPCONV_BUFFER_LENGTH 25
+#define FPCONV_BUFFER_LENGTH (FPCONV_DTOS_LENGTH + 1)
 // Had to increase the zero tolerance because prusa slicer doesn't always 
 // retract enough while wiping.
 #define ZERO_TOLERANCE 0.000005
-- 
2.43.0


From a46af3e2ab52427c06f979c27f5b09c7b991dcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:27 +0000
Subject: [PATCH 45/86] fix: don't use position pointers that growing the
 position buffer has freed

---
 ArcWelder/arc_welder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index a809086..3f9e162 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -652,6 +652,9 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
       if (current_arc_.get_num_segments() + 2 > p_source_position_->get_max_positions())
       {
         p_source_position_->grow_max_positions(p_source_position_->get_max_positions() * 2);
+        // The positions have been moved
+        p_cur_pos = p_source_position_->get_current_position_ptr();
+        p_pre_pos = p_source_position_->get_previous_position_ptr();
       }
       if (!waiting_for_arc_)
       {
-- 
2.43.0


From 9c8eb7394e821e977ca7c71c183f40c94b188f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:26 +0000
Subject: [PATCH 46/86] fix: count the digits of numbers that do not fit into
 an int

---
 GcodeProcessorLib/utilities.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index 98dbd41..de2c771 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -414,7 +414,14 @@ int utilities::get_num_digits(double x, int precision)
 
 int utilities::get_num_digits(double x)
 {
-	return get_num_digits((int)x);
+	// Large values do not fit into an int
+	x = utilities::abs(x);
+	int num_digits = 1;
+	for (double limit = 10; x >= limit && num_digits < 309; limit *= 10)
+	{
+		num_digits++;
+	}
+	return num_digits;
 }
 
 // Nice utility function found here: https://stackoverflow.com/questions/8520560/get-a-file-name-from-a-path
-- 
2.43.0


From 3b6062a1ec3e0b8189ce0b1e8c773aa10efb3e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 47/86] fix: converting several files with one arc_welder must
 not carry over state

---
 ArcWelder/arc_welder.cpp      | 12 ++++++++++++
 ArcWelder/segmented_arc.cpp   |  8 ++++++++
 ArcWelder/segmented_arc.h     |  1 +
 ArcWelder/segmented_shape.cpp |  6 ++++--
 ArcWelder/segmented_shape.h   |  2 ++
 5 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 3f9e162..9bcb013 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -167,7 +167,19 @@ void arc_welder::reset()
   file_size_ = 0;
   points_compressed_ = 0;
   arcs_created_ = 0;
+  arcs_aborted_by_flow_rate_ = 0;
   waiting_for_arc_ = false;
+  previous_feedrate_ = -1;
+  previous_extrusion_rate_ = 0;
+  // Nothing of an earlier file may influence the next one
+  unwritten_commands_.clear();
+  current_arc_.reset();
+  segment_statistics_ = source_target_segment_statistics(segment_statistic_lengths, segment_statistic_lengths_count, p_logger_);
+  segment_retraction_statistics_ = source_target_segment_statistics(segment_statistic_lengths, segment_statistic_lengths_count, p_logger_);
+  travel_statistics_ = source_target_segment_statistics(segment_statistic_lengths, segment_statistic_lengths_count, p_logger_);
+  delete p_source_position_;
+  p_source_position_ = NULL;
+  p_source_position_ = new gcode_position(gcode_position_args_);
 }
 
 long arc_welder::get_file_size(const std::string& file_path)
diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index f16a2d9..458f8ef 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -86,6 +86,14 @@ segmented_arc::~segmented_arc()
 {
 }
 
+void segmented_arc::reset()
+{
+  clear();
+  reset_precision();
+  num_firmware_compensations_ = 0;
+  num_gcode_length_exceptions_ = 0;
+}
+
 printer_point segmented_arc::pop_front(double e_relative)
 {
   e_relative_ -= e_relative;
diff --git a/ArcWelder/segmented_arc.h b/ArcWelder/segmented_arc.h
index 7e73781..17ed375 100644
--- a/ArcWelder/segmented_arc.h
+++ b/ArcWelder/segmented_arc.h
@@ -58,6 +58,7 @@ public:
 	double get_mm_per_arc_segment() const;
 	int get_num_firmware_compensations() const;
 	int get_num_gcode_length_exceptions() const;
+	void reset();
 private:
 	bool try_add_point_internal_(printer_point p);
 	arc current_arc_;
diff --git a/ArcWelder/segmented_shape.cpp b/ArcWelder/segmented_shape.cpp
index 050ce58..84dbf4e 100644
--- a/ArcWelder/segmented_shape.cpp
+++ b/ArcWelder/segmented_shape.cpp
@@ -738,6 +738,8 @@ segmented_shape::segmented_shape(int min_segments, int max_segments, double reso
 
   set_xyz_precision(default_xyz_precision);
   e_precision_ = default_e_precision;
+  default_xyz_precision_ = default_xyz_precision;
+  default_e_precision_ = default_e_precision;
   max_segments_ = max_segments;
   path_tolerance_percent_ = path_tolerance_percnet;
   resolution_mm_ = resolution_mm / 2.0; // divide by 2 because it is + or - 1/2 of the desired resolution.
@@ -784,8 +786,8 @@ void segmented_shape::set_xyz_tolerance_from_precision()
 
 void segmented_shape::reset_precision()
 {
-  set_xyz_precision(DEFAULT_XYZ_PRECISION);
-  e_precision_ = DEFAULT_E_PRECISION;
+  set_xyz_precision(default_xyz_precision_);
+  e_precision_ = default_e_precision_;
 }
 
 void segmented_shape::update_xyz_precision(unsigned char precision)
diff --git a/ArcWelder/segmented_shape.h b/ArcWelder/segmented_shape.h
index 049758a..fa594a1 100644
--- a/ArcWelder/segmented_shape.h
+++ b/ArcWelder/segmented_shape.h
@@ -255,6 +255,8 @@ private:
 	unsigned char xyz_precision_;
 	double xyz_tolerance_;
 	unsigned char e_precision_;
+	unsigned char default_xyz_precision_;
+	unsigned char default_e_precision_;
 	void set_xyz_tolerance_from_precision();
 	void set_xyz_precision(unsigned char precision);
 	
-- 
2.43.0


From a2fd76c54e71c0c7712dadce9e787a029696fb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 48/86] fix: no max radius warning for an extrusion rate
 variance of 0

---
 ArcWelderConsole/ArcWelderConsole.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index de85d95..4500518 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -304,12 +304,6 @@ int main(int argc, char* argv[])
         throw TCLAP::ArgException("The provided value is less than or equal to 0.", max_radius_arg.toString());
     }
 
-    if (args.extrusion_rate_variance_percent == 0)
-    {
-        // warning
-        std::cout << "warning: The provided path max radius of " << args.max_radius_mm << "mm is greater than 1000000 (1km), which is not recommended.\n";
-    }
-
     if (args.max_radius_mm > 1000000)
     {
         // warning
-- 
2.43.0


From d1f91787238808b73b0d22913315083bc4925737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 49/86] fix: loggers of several threads must not share the
 broken-down time

---
 GcodeProcessorLib/logger.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/GcodeProcessorLib/logger.cpp b/GcodeProcessorLib/logger.cpp
index 7198f05..9b8a0b0 100644
--- a/GcodeProcessorLib/logger.cpp
+++ b/GcodeProcessorLib/logger.cpp
@@ -158,12 +158,17 @@ void logger::log(const int logger_type, log_levels log_level, const std::string&
 void logger::get_timestamp(std::string &timestamp)
 {
 	std::time_t rawtime;
-	std::tm* timeinfo;
+	std::tm timeinfo;
 	char buffer[80];
 
 	std::time(&rawtime);
-	timeinfo = std::localtime(&rawtime);
-	std::strftime(buffer, 80, "%Y-%m-%d %H:%M:%S.", timeinfo);
+	// std::localtime returns a pointer to an object all threads share
+#ifdef _WIN32
+	localtime_s(&timeinfo, &rawtime);
+#else
+	localtime_r(&rawtime, &timeinfo);
+#endif
+	std::strftime(buffer, 80, "%Y-%m-%d %H:%M:%S.", &timeinfo);
 	
 	timestamp = buffer;
 	clock_t t = std::clock();
-- 
2.43.0


From a592396d8d6d24feeb067fd323efabd89aa1fc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 50/86] fix: Python module: a missing optional argument must
 not end in a SystemError

---
 PyArcWelder/py_arc_welder.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 65dabc9..7a85a7d 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -254,13 +254,13 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     if (args.default_xyz_precision < 3)
     {
       std::string message = "ParseArgs - The default XYZ precision received was less than 3, which could cause problems printing arcs.  Setting to 3.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_xyz_precision = 3;
     }
     else if (args.default_xyz_precision > 6)
     {
       std::string message = "ParseArgs - The default XYZ precision received was greater than 6, which could can cause checksum errors depending on your firmware.  Setting to 6.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_xyz_precision = 6;
     }
   }
@@ -271,20 +271,20 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_default_e_precision == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'default_e_precision parameter' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else {
     args.default_e_precision = (unsigned char)gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_e_precision);
     if (args.default_e_precision < 3)
     {
       std::string message = "ParseArgs - The default E precision received was less than 3, which could cause extrusion problems.  Setting to 3.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_e_precision = 3;
     }
     else if (args.default_e_precision > 6)
     {
       std::string message = "ParseArgs - The default E precision received was greater than 6, which could can cause checksum errors depending on your firmware.  Setting to 6.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_e_precision = 6;
     }
   }
@@ -295,7 +295,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_extrusion_rate_variance_percent == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'extrusion_rate_variance_percent' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -312,7 +312,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_path_tolerance_percent == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'path_tolerance_percent' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -329,7 +329,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_max_radius_mm == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'max_radius_mm' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -346,7 +346,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_mm_per_arc_segment == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'mm_per_arc_segment' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -363,7 +363,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_min_arc_segments == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'min_arc_segments' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -380,7 +380,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_max_gcode_length == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'max_gcode_length' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -397,7 +397,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_allow_3d_arcs == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'allow_3d_arcs' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -410,7 +410,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_allow_travel_arcs == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'allow_travel_arcs' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -424,7 +424,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_g90_g91_influences_extruder == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'g90_g91_influences_extruder' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -437,7 +437,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_log_level == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'log_level' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
-- 
2.43.0


From 5ab049048c8dceae60552728c935d417ae924d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 51/86] fix: Python module: precisions outside the range of a
 byte must not wrap around

---
 PyArcWelder/py_arc_welder.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 7a85a7d..72b718c 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -250,19 +250,24 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else {
-    args.default_xyz_precision = (unsigned char)gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_xyz_precision);
-    if (args.default_xyz_precision < 3)
+    // Check the range before the conversion, which would wrap around
+    double default_xyz_precision = gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_xyz_precision);
+    if (!(default_xyz_precision >= 3))
     {
       std::string message = "ParseArgs - The default XYZ precision received was less than 3, which could cause problems printing arcs.  Setting to 3.";
       p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_xyz_precision = 3;
     }
-    else if (args.default_xyz_precision > 6)
+    else if (default_xyz_precision >= 7)
     {
       std::string message = "ParseArgs - The default XYZ precision received was greater than 6, which could can cause checksum errors depending on your firmware.  Setting to 6.";
       p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_xyz_precision = 6;
     }
+    else
+    {
+      args.default_xyz_precision = (unsigned char)default_xyz_precision;
+    }
   }
 #pragma endregion default_xyz_precision
 #pragma region default_e_precision
@@ -274,19 +279,24 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else {
-    args.default_e_precision = (unsigned char)gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_e_precision);
-    if (args.default_e_precision < 3)
+    // Check the range before the conversion, which would wrap around
+    double default_e_precision = gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_e_precision);
+    if (!(default_e_precision >= 3))
     {
       std::string message = "ParseArgs - The default E precision received was less than 3, which could cause extrusion problems.  Setting to 3.";
       p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_e_precision = 3;
     }
-    else if (args.default_e_precision > 6)
+    else if (default_e_precision >= 7)
     {
       std::string message = "ParseArgs - The default E precision received was greater than 6, which could can cause checksum errors depending on your firmware.  Setting to 6.";
       p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_e_precision = 6;
     }
+    else
+    {
+      args.default_e_precision = (unsigned char)default_e_precision;
+    }
   }
 #pragma endregion default_e_precision
 #pragma region extrusion_rate_variance_percent
-- 
2.43.0


From ba9747efdce489dc30f343ad902dda1dce32bbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 52/86] fix: Python module: a path or guid that is no string
 must not kill the interpreter

---
 PyArcWelder/py_arc_welder.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 72b718c..f5b0f21 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -173,7 +173,14 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log_exception(GCODE_CONVERSION, message);
     return false;
   }
-  args.guid = gcode_arc_converter::PyUnicode_SafeAsString(py_guid);
+  const char* guid = gcode_arc_converter::PyUnicode_SafeAsString(py_guid);
+  if (guid == NULL)
+  {
+    std::string message = "ParseArgs - Unable to convert the parameter 'guid' to a string.";
+    p_py_logger->log_exception(GCODE_CONVERSION, message);
+    return false;
+  }
+  args.guid = guid;
 #pragma endregion guid
 #pragma region source_path
   // Extract the source file path
@@ -184,7 +191,14 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log_exception(GCODE_CONVERSION, message);
     return false;
   }
-  args.source_path = gcode_arc_converter::PyUnicode_SafeAsString(py_source_path);
+  const char* source_path = gcode_arc_converter::PyUnicode_SafeAsString(py_source_path);
+  if (source_path == NULL)
+  {
+    std::string message = "ParseArgs - Unable to convert the parameter 'source_path' to a string.";
+    p_py_logger->log_exception(GCODE_CONVERSION, message);
+    return false;
+  }
+  args.source_path = source_path;
 #pragma endregion source_path
 #pragma region target_path
   // Extract the target file path
@@ -195,7 +209,14 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log_exception(GCODE_CONVERSION, message);
     return false;
   }
-  args.target_path = gcode_arc_converter::PyUnicode_SafeAsString(py_target_path);
+  const char* target_path = gcode_arc_converter::PyUnicode_SafeAsString(py_target_path);
+  if (target_path == NULL)
+  {
+    std::string message = "ParseArgs - Unable to convert the parameter 'target_path' to a string.";
+    p_py_logger->log_exception(GCODE_CONVERSION, message);
+    return false;
+  }
+  args.target_path = target_path;
 #pragma endregion target_path
 #pragma region on_progress_received
   // on_progress_received
-- 
2.43.0


From 001978a4cbb7140e8a114a53e94554a822167450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 53/86] fix: Python module: an optional argument of the wrong
 type must raise its own exception

---
 PyArcWelder/py_arc_welder.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index f5b0f21..7efe5d0 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -479,5 +479,14 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
 #pragma endregion log_level
 #pragma endregion Optional_Arguments
 
+  if (PyErr_Occurred())
+  {
+    // An optional argument could not be converted
+    p_py_logger->log_exception(GCODE_CONVERSION, "ParseArgs - Unable to convert an optional parameter.");
+    Py_XDECREF(*py_progress_callback);
+    *py_progress_callback = NULL;
+    return false;
+  }
+
   return true;
 }
\ No newline at end of file
-- 
2.43.0


From 5550879062b8e75edbab28fce040c2772490e2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 54/86] fix: Python module: an exception of the progress
 callback must not end in a SystemError

---
 PyArcWelder/py_arc_welder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 7efe5d0..80fd391 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -138,6 +138,8 @@ bool py_arc_welder::on_progress_(const arc_welder_progress& progress)
   if (pContinueProcessing == NULL)
   {
     // no return value was supply, assume true, but without decrefing pContinueProcessing
+    // The exception of the callback must not stay set
+    PyErr_WriteUnraisable(py_progress_callback_);
     continue_processing = true;
   }
   else
@@ -149,6 +151,10 @@ bool py_arc_welder::on_progress_(const arc_welder_progress& progress)
     else
     {
       continue_processing = PyLong_AsLong(pContinueProcessing) > 0;
+      if (PyErr_Occurred())
+      {
+        PyErr_WriteUnraisable(py_progress_callback_);
+      }
     }
     Py_DECREF(pContinueProcessing);
   }
-- 
2.43.0


From d688374828b0b643a7d87e735dd3048318828f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 55/86] fix: Python module: progress reports must not leak
 their strings and dictionaries

---
 PyArcWelder/py_arc_welder.cpp           | 4 ++++
 PyArcWelder/py_arc_welder_extension.cpp | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 80fd391..8194524 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -112,6 +112,10 @@ PyObject* py_arc_welder::build_py_progress(const arc_welder_progress& progress,
   PyDict_SetItemString(py_progress, "segment_statistics_text", pyMessage);
   PyDict_SetItemString(py_progress, "segment_travel_statistics_text", pyTravelMessage);
   PyDict_SetItemString(py_progress, "guid", pyGuid);
+  // The dictionary has its own references
+  Py_DECREF(pyMessage);
+  Py_DECREF(pyTravelMessage);
+  Py_DECREF(pyGuid);
   return py_progress;
 }
 
diff --git a/PyArcWelder/py_arc_welder_extension.cpp b/PyArcWelder/py_arc_welder_extension.cpp
index 4ad2518..a3d7c04 100644
--- a/PyArcWelder/py_arc_welder_extension.cpp
+++ b/PyArcWelder/py_arc_welder_extension.cpp
@@ -210,10 +210,14 @@ extern "C"
 		PyObject* p_progress = py_arc_welder::build_py_progress(results.progress, args.guid, true);
 		
 		if (p_progress == NULL)
+		{
+			PyErr_Clear();
+			Py_INCREF(Py_None);
 			p_progress = Py_None;
+		}
 
 		PyObject* p_results = Py_BuildValue(
-			"{s:i,s:i,s:s,s:O}",
+			"{s:i,s:i,s:s,s:N}",
 			"success",
 			(long int)(results.success ? 1 : 0),
 			"is_cancelled",
-- 
2.43.0


From d3c2900f7d5e7849aa9bc7fca770114e46626a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 56/86] fix: Python module: a failed conversion must return its
 results instead of a SystemError

---
 PyArcWelder/py_arc_welder_extension.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyArcWelder/py_arc_welder_extension.cpp b/PyArcWelder/py_arc_welder_extension.cpp
index a3d7c04..2876585 100644
--- a/PyArcWelder/py_arc_welder_extension.cpp
+++ b/PyArcWelder/py_arc_welder_extension.cpp
@@ -202,7 +202,9 @@ extern "C"
 		py_arc_welder arc_welder_obj(args);
 		arc_welder_results results;
 		results = arc_welder_obj.process();
-		
+		// A failure was logged as an exception.  It is reported by the results.
+		PyErr_Clear();
+
 		message = "py_gcode_arc_converter.ConvertFile - Arc Conversion Complete.";
 		p_py_logger->log(GCODE_CONVERSION, log_levels::INFO, message);
 		Py_XDECREF(py_progress_callback);
-- 
2.43.0


From 5ebe30e7de44b77a2134d493d6ed2fa4db608d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 57/86] fix: Python module: file positions and sizes beyond 2
 GB must not be cut off

---
 PyArcWelder/py_arc_welder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 8194524..2fde5be 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -48,7 +48,7 @@ PyObject* py_arc_welder::build_py_progress(const arc_welder_progress& progress,
   if (pyTravelMessage == NULL)
     return NULL;
   double total_travel_count_reduction_percent = progress.travel_statistics.get_total_count_reduction_percent();
-  PyObject* py_progress = Py_BuildValue("{s:d,s:d,s:d,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:f,s:f,s:f,s:f,s:i,s:i,s:f,s:f,s:f,s:i,s:i,s:f}",
+  PyObject* py_progress = Py_BuildValue("{s:d,s:d,s:d,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:l,s:l,s:l,s:f,s:f,s:f,s:f,s:i,s:i,s:f,s:f,s:f,s:i,s:i,s:f}",
     "percent_complete",
     progress.percent_complete,												//1
     "seconds_elapsed",
-- 
2.43.0


From 46b9ddb64ad7e1cd3ddfe6531a789c9431b4e7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 58/86] fix: Python module: running out of memory must raise an
 exception instead of killing the interpreter

---
 PyArcWelder/py_arc_welder_extension.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/PyArcWelder/py_arc_welder_extension.cpp b/PyArcWelder/py_arc_welder_extension.cpp
index 2876585..1d644e2 100644
--- a/PyArcWelder/py_arc_welder_extension.cpp
+++ b/PyArcWelder/py_arc_welder_extension.cpp
@@ -172,6 +172,10 @@ extern "C"
 	static PyObject* ConvertFile(PyObject* self, PyObject* py_args)
 	{
 		PyObject* py_convert_file_args;
+		PyObject* py_progress_callback = NULL;
+		// C++ exceptions (out of memory, for example) must not reach the interpreter
+		try
+		{
 		if (!PyArg_ParseTuple(
 			py_args,
 			"O",
@@ -184,8 +188,7 @@ extern "C"
 		}
 
 		py_gcode_arc_args args;
-		PyObject* py_progress_callback = NULL;
-		
+
 		if (!py_gcode_arc_args::parse_args(py_convert_file_args, p_py_logger, args, &py_progress_callback))
 		{
 			return NULL;
@@ -207,7 +210,7 @@ extern "C"
 
 		message = "py_gcode_arc_converter.ConvertFile - Arc Conversion Complete.";
 		p_py_logger->log(GCODE_CONVERSION, log_levels::INFO, message);
-		Py_XDECREF(py_progress_callback);
+		Py_CLEAR(py_progress_callback);
 		// return the arguments
 		PyObject* p_progress = py_arc_welder::build_py_progress(results.progress, args.guid, true);
 		
@@ -230,6 +233,13 @@ extern "C"
 			p_progress
 		);
 		return p_results;
+		}
+		catch (const std::exception& e)
+		{
+			Py_XDECREF(py_progress_callback);
+			PyErr_SetString(PyExc_RuntimeError, e.what());
+			return NULL;
+		}
 	}
 }
 
-- 
2.43.0


From 1825980b556b82d046aeeca37cf0a05f6951701e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:46 +0000
Subject: [PATCH 59/86] fix: Python module: an exception must be raised even if
 it cannot be logged

---
 PyArcWelder/py_logger.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/PyArcWelder/py_logger.cpp b/PyArcWelder/py_logger.cpp
index da7b935..3dbbbe2 100644
--- a/PyArcWelder/py_logger.cpp
+++ b/PyArcWelder/py_logger.cpp
@@ -237,16 +237,13 @@ void py_logger::log(const int logger_type, const int log_level, const std::strin
 			PyErr_Clear();
 		}
 	}
-	else
+	// Set the exception if we are doing exception logging, even if it could not be logged.
+	if (is_exception)
 	{
-		// Set the exception if we are doing exception logging.
-		if (is_exception)
-		{
-			if (error_occurred)
-				PyErr_Restore(error_type, error_value, error_traceback);
-			else
-				PyErr_SetString(PyExc_Exception, message.c_str());
-		}
+		if (error_occurred)
+			PyErr_Restore(error_type, error_value, error_traceback);
+		else
+			PyErr_SetString(PyExc_Exception, message.c_str());
 	}
 	Py_XDECREF(ret_val);
 }
-- 
2.43.0


From 833bddbaea4c194e92dc670d9dae0853c2969eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 60/86] fix: running out of memory while the header is built
 must not drop the header

---
 ArcWelder/arc_welder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 9bcb013..dba3da2 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -1011,6 +1011,8 @@ void arc_welder::add_arcwelder_comment_to_target()
 {
   p_logger_->log(logger_type_, log_levels::DEBUG, "Adding ArcWelder comment to the target file.");
   std::stringstream stream;
+  // Running out of memory must not drop a part of the header
+  stream.exceptions(std::ios_base::badbit);
   stream << std::fixed;
   stream << "; Postprocessed by [ArcWelder](https://github.com/FormerLurker/ArcWelderLib)\n";
   stream << "; Copyright(C) 2021 - Brad Hochgesang\n";
-- 
2.43.0


From 862ce2c57406c2104ab4af5d562e953c94d85f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 61/86] fix: G92 at an unknown position must take the firmware
 offset of the tool into account

---
 GcodeProcessorLib/gcode_position.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 6e25da5..c21a4db 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -1246,7 +1246,7 @@ void gcode_position::process_g92(position* pos, parsed_command& cmd)
 				pos->x_offset = pos->x - x + pos->x_firmware_offset;
 			else
 			{
-				pos->x = x;
+				pos->x = x - pos->x_firmware_offset;
 				pos->x_offset = 0;
 				pos->x_null = false;
 			}
@@ -1257,7 +1257,7 @@ void gcode_position::process_g92(position* pos, parsed_command& cmd)
 				pos->y_offset = pos->y - y + pos->y_firmware_offset;
 			else
 			{
-				pos->y = y;
+				pos->y = y - pos->y_firmware_offset;
 				pos->y_offset = 0;
 				pos->y_null = false;
 			}
@@ -1268,7 +1268,7 @@ void gcode_position::process_g92(position* pos, parsed_command& cmd)
 				pos->z_offset = pos->z - z + pos->z_firmware_offset;
 			else
 			{
-				pos->z = z;
+				pos->z = z - pos->z_firmware_offset;
 				pos->z_offset = 0;
 				pos->z_null = false;
 			}
-- 
2.43.0


From aaa4b44d5194ad761e65fd7453512a78bb4bfa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 62/86] fix: homing an axis must remove the offset that was set
 by G92

---
 GcodeProcessorLib/gcode_position.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index c21a4db..dbd4eba 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -1105,6 +1105,14 @@ void gcode_position::process_g28(position* pos, parsed_command& cmd)
 		set_z_home = true;
 	}
 
+	// Homing an axis removes the offset that was set by G92
+	if (set_x_home)
+		pos->x_offset = 0;
+	if (set_y_home)
+		pos->y_offset = 0;
+	if (set_z_home)
+		pos->z_offset = 0;
+
 	if (set_x_home && !home_x_none_)
 	{
 		pos->x = home_x_;
-- 
2.43.0


From 7c88f46c3cec29699302e90baabd05bb400a61a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:48 +0000
Subject: [PATCH 63/86] fix: a zhop ends when the nozzle is back at the last
 extrusion height

---
 GcodeProcessorLib/gcode_position.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index dbd4eba..d265feb 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -628,6 +628,8 @@ void gcode_position::update(parsed_command& command, const long file_line_number
 		// calculate last_extrusion_height and height
 		// If we are extruding on a higher level, or if retract is enabled and the nozzle is primed
 		// adjust the last extrusion height
+		// A position that is not above the last extrusion height is no zhop
+		p_current_pos->is_zhop = false;
 		if (utilities::greater_than(p_current_pos->z, p_current_pos->last_extrusion_height))
 		{
 			if (!p_current_pos->z_null)
-- 
2.43.0


From 906c94e3aa4cb89fc493cedf5d4c92166c3559a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:48 +0000
Subject: [PATCH 64/86] fix: a move of a retracted extruder is no start of a
 retraction

---
 GcodeProcessorLib/gcode_position.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index d265feb..ff782f9 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -575,7 +575,7 @@ void gcode_position::update(parsed_command& command, const long file_line_number
 				// Note that it's ok to use the previous pos current extruder since we've  made sure the current tool is identical
 				p_current_pos->get_current_extruder().is_extruding_start = utilities::greater_than(p_current_pos->get_current_extruder().extrusion_length, 0) && !p_previous_pos->get_current_extruder().is_extruding;
 				p_current_pos->get_current_extruder().is_extruding = utilities::greater_than(p_current_pos->get_current_extruder().extrusion_length, 0);
-				p_current_pos->get_current_extruder().is_retracting_start = !p_previous_pos->get_current_extruder().is_retracting && utilities::greater_than(p_current_pos->get_current_extruder().retraction_length, 0);
+				p_current_pos->get_current_extruder().is_retracting_start = !p_previous_pos->get_current_extruder().is_retracting && utilities::greater_than(p_current_pos->get_current_extruder().retraction_length, p_previous_pos->get_current_extruder().retraction_length);
 				p_current_pos->get_current_extruder().is_retracting = utilities::greater_than(p_current_pos->get_current_extruder().retraction_length, p_previous_pos->get_current_extruder().retraction_length);
 				p_current_pos->get_current_extruder().is_deretracting = utilities::greater_than(p_current_pos->get_current_extruder().deretraction_length, p_previous_pos->get_current_extruder().deretraction_length);
 				p_current_pos->get_current_extruder().is_deretracting_start = utilities::greater_than(p_current_pos->get_current_extruder().deretraction_length, 0) && !p_previous_pos->get_current_extruder().is_deretracting;
-- 
2.43.0


From 11c6a97da11ddd48e3e9ab95e415f26aba6bebf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:48 +0000
Subject: [PATCH 65/86] fix: a second, shorter deretraction is a deretraction,
 too

---
 GcodeProcessorLib/gcode_position.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index ff782f9..40b7634 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -577,7 +577,7 @@ void gcode_position::update(parsed_command& command, const long file_line_number
 				p_current_pos->get_current_extruder().is_extruding = utilities::greater_than(p_current_pos->get_current_extruder().extrusion_length, 0);
 				p_current_pos->get_current_extruder().is_retracting_start = !p_previous_pos->get_current_extruder().is_retracting && utilities::greater_than(p_current_pos->get_current_extruder().retraction_length, p_previous_pos->get_current_extruder().retraction_length);
 				p_current_pos->get_current_extruder().is_retracting = utilities::greater_than(p_current_pos->get_current_extruder().retraction_length, p_previous_pos->get_current_extruder().retraction_length);
-				p_current_pos->get_current_extruder().is_deretracting = utilities::greater_than(p_current_pos->get_current_extruder().deretraction_length, p_previous_pos->get_current_extruder().deretraction_length);
+				p_current_pos->get_current_extruder().is_deretracting = utilities::greater_than(p_current_pos->get_current_extruder().deretraction_length, 0);
 				p_current_pos->get_current_extruder().is_deretracting_start = utilities::greater_than(p_current_pos->get_current_extruder().deretraction_length, 0) && !p_previous_pos->get_current_extruder().is_deretracting;
 			}
 			else
-- 
2.43.0


From 08b24b6380857bf6568321e9ca7d9967e029f395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:14 +0000
Subject: [PATCH 66/86] fix: a counterclockwise arc may have its mid point at
 the angle 0

---
 ArcWelder/segmented_shape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/segmented_shape.cpp b/ArcWelder/segmented_shape.cpp
index 84dbf4e..fcd968b 100644
--- a/ArcWelder/segmented_shape.cpp
+++ b/ArcWelder/segmented_shape.cpp
@@ -445,7 +445,7 @@ bool arc::try_create_arc(
   {
     if (
       (polar_start_theta < polar_mid_theta && polar_mid_theta < (2.0 * PI_DOUBLE)) ||
-      (0.0 < polar_mid_theta && polar_mid_theta < polar_end_theta)
+      (0.0 <= polar_mid_theta && polar_mid_theta < polar_end_theta)
       )
     {
       direction = DirectionEnum::COUNTERCLOCKWISE;
-- 
2.43.0


From c4a238cfac553f2a79b50f9e90201a8d84843dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:44 +0000
Subject: [PATCH 67/86] fix: an empty last line must not cost the arc in front
 of it

---
 ArcWelder/arc_welder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index dba3da2..cae0d10 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -782,7 +782,7 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
     }
   }
 
-  if (!arc_added && !(cmd.is_empty && cmd.comment.length() == 0))
+  if (!arc_added && (is_end || !(cmd.is_empty && cmd.comment.length() == 0)))
   {
     if (current_arc_.get_num_segments() < current_arc_.get_min_segments()) {
       if (debug_logging_enabled_ && !cmd.is_empty)
-- 
2.43.0


From ec4185c5ba204ac84fe941f17cad636654ceeca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 68/86] fix: the relative moves of a straightened arc must add
 up to the arc

---
 ArcWelderInverseProcessor/firmware.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ArcWelderInverseProcessor/firmware.cpp b/ArcWelderInverseProcessor/firmware.cpp
index bab3968..3fb2791 100644
--- a/ArcWelderInverseProcessor/firmware.cpp
+++ b/ArcWelderInverseProcessor/firmware.cpp
@@ -69,6 +69,12 @@ int firmware::get_num_arc_segments_generated()
   return num_arc_segments_generated_;
 }
 
+// The distance between two coordinates as they are printed, so that relative moves add up without drifting
+static double get_printed_distance(double from, double to, double steps_per_unit)
+{
+  return (utilities::floor(to * steps_per_unit + 0.5) - utilities::floor(from * steps_per_unit + 0.5)) / steps_per_unit;
+}
+
 std::string firmware::g1_command(firmware_position& target)
 {
   num_arc_segments_generated_++;
@@ -84,28 +90,28 @@ std::string firmware::g1_command(firmware_position& target)
   if (has_x)
   {
     gcode += is_first_parameter ? "X" : " X";
-    gcode += utilities::dtos(state_.is_relative ? target.x - position_.x : target.x, 3);
+    gcode += utilities::dtos(state_.is_relative ? get_printed_distance(position_.x, target.x, 1000.0) : target.x, 3);
     is_first_parameter = false;
   }
 
   if (has_y)
   {
     gcode += is_first_parameter ? "Y" : " Y";
-    gcode += utilities::dtos(state_.is_relative ? target.y - position_.y : target.y, 3);
+    gcode += utilities::dtos(state_.is_relative ? get_printed_distance(position_.y, target.y, 1000.0) : target.y, 3);
     is_first_parameter = false;
   }
 
   if (has_z)
   {
     gcode += is_first_parameter ? "Z" : " Z";
-    gcode += utilities::dtos(state_.is_relative ? target.z - position_.z : target.z, 3);
+    gcode += utilities::dtos(state_.is_relative ? get_printed_distance(position_.z, target.z, 1000.0) : target.z, 3);
     is_first_parameter = false;
   }
 
   if (has_e)
   {
     gcode += is_first_parameter ? "E" : " E";
-    gcode += utilities::dtos(state_.is_extruder_relative ? target.e - position_.e : target.e, 5);
+    gcode += utilities::dtos(state_.is_extruder_relative ? get_printed_distance(position_.e, target.e, 100000.0) : target.e, 5);
     is_first_parameter = false;
   }
 
-- 
2.43.0


From 405d8b385e0dd8533c5edad5c8e4e54d3f5e56f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 69/86] fix: arcs in R form must not be dropped by the
 straightener and the statistics

---
 ArcWelder/arc_welder.cpp                      |  8 +++----
 .../arc_interpolation.cpp                     | 11 +++++----
 GcodeProcessorLib/utilities.cpp               | 24 +++++++++++++++++++
 GcodeProcessorLib/utilities.h                 |  3 +++
 4 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index cae0d10..bfdc054 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -516,18 +516,18 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
         case 'J':
           j = (*it).double_value;
           break;
-          // Note that the R form isn't fully implemented!
         case 'R':
           r = (*it).double_value;
           break;
         }
       }
 
-      // Calculate R
-      if (r == 0)
+      // The R form does not contain the center of the arc, calculate it
+      if (r != 0)
       {
-        r = utilities::sqrt(i * i + j * j);
+        utilities::get_arc_center_offset(p_pre_pos->x, p_pre_pos->y, p_cur_pos->x, p_cur_pos->y, r, p_cur_pos->command.command == "G2", i, j);
       }
+      r = utilities::sqrt(i * i + j * j);
       // Now we know the radius and the chord length;
       movement_length_mm = utilities::get_arc_distance(p_pre_pos->x, p_pre_pos->y, p_pre_pos->z, p_cur_pos->x, p_cur_pos->y, p_cur_pos->z, i, j, r, p_cur_pos->command.command == "G2");
 
diff --git a/ArcWelderInverseProcessor/arc_interpolation.cpp b/ArcWelderInverseProcessor/arc_interpolation.cpp
index 66d5af0..9e35a7d 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.cpp
+++ b/ArcWelderInverseProcessor/arc_interpolation.cpp
@@ -228,13 +228,14 @@ bool arc_interpolation::process()
             }
           }
 
-          // If r is 0, calculate the radius
-          if(r==0)
+          is_clockwise = cmd.command == "G2" ? 1 : 0;
+          // The R form does not contain the center of the arc, calculate it
+          if (r != 0)
           {
-            r = utilities::hypot(i, j);
+            utilities::get_arc_center_offset(current.x, current.y, target.x, target.y, r, is_clockwise, i, j);
           }
-          
-          is_clockwise = cmd.command == "G2" ? 1 : 0;
+          r = utilities::hypot(i, j);
+
           is_relative = p_cur_pos->is_extruder_relative;
           offset_absolute_e = p_pre_pos->get_current_extruder().get_offset_e();
 
diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index de2c771..4efd955 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -214,6 +214,30 @@ double utilities::get_cartesian_distance(double x1, double y1, double z1, double
 	return utilities::sqrt(dist_squared);
 }
 
+void utilities::get_arc_center_offset(double x1, double y1, double x2, double y2, double r, bool is_clockwise, double& i, double& j)
+{
+	i = 0;
+	j = 0;
+	const double dx = x2 - x1;
+	const double dy = y2 - y1;
+	const double chord = utilities::hypot(dx, dy);
+	if (chord == 0)
+	{
+		// There are infinitely many circles, the R form does not describe an arc
+		return;
+	}
+	// The distance of the center from the chord.  A radius that is too small describes a half circle.
+	const double height_squared = (r - chord / 2.0) * (r + chord / 2.0);
+	double height = height_squared > 0 ? utilities::sqrt(height_squared) : 0;
+	// The center is right of the chord for short clockwise arcs, a negative radius means the long arc
+	if (is_clockwise != (r < 0))
+	{
+		height = -height;
+	}
+	i = dx / 2.0 - dy / chord * height;
+	j = dy / 2.0 + dx / chord * height;
+}
+
 double utilities::get_arc_distance(double x1, double y1, double z1, double x2, double y2, double z2, double i, double j, double r, bool is_clockwise)
 {
 	// i and j are the offset from the start of the arc to its center
diff --git a/GcodeProcessorLib/utilities.h b/GcodeProcessorLib/utilities.h
index cacade1..b6b2b29 100644
--- a/GcodeProcessorLib/utilities.h
+++ b/GcodeProcessorLib/utilities.h
@@ -73,6 +73,9 @@ namespace utilities{
 
 	double get_cartesian_distance(double x1, double y1, double z1, double x2, double y2, double z2);
 
+	// Calculates the offset from the start of an arc in R form to its center
+	void get_arc_center_offset(double x1, double y1, double x2, double y2, double r, bool is_clockwise, double& i, double& j);
+
 	double get_arc_distance(double x1, double y1, double z1, double x2, double y2, double z2, double i, double j, double r, bool is_clockwise);
 	std::string to_string(double value);
 
-- 
2.43.0


From e6157c6f28f15baa07f705aad140b6e40fa83a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 70/86] fix: full circles of the source count in the statistics

---
 ArcWelder/arc_welder.cpp        | 8 ++++++--
 GcodeProcessorLib/utilities.cpp | 4 ++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index bfdc054..5819c53 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -495,7 +495,8 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
   bool is_travel = !(is_extrusion || is_retraction) && (is_g0_g1 || is_g2_g3);
   
   // Update the source file statistics
-  if (p_cur_pos->has_xy_position_changed)
+  // Note that a full circle ends where it starts
+  if (p_cur_pos->has_xy_position_changed || is_g2_g3)
   {
     // If this is a g2/g3 command, we need to do a bit more to get the length of the arc.
       // The movement_length_mm variable will contain the chord length, which we will need
@@ -529,7 +530,10 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
       }
       r = utilities::sqrt(i * i + j * j);
       // Now we know the radius and the chord length;
-      movement_length_mm = utilities::get_arc_distance(p_pre_pos->x, p_pre_pos->y, p_pre_pos->z, p_cur_pos->x, p_cur_pos->y, p_cur_pos->z, i, j, r, p_cur_pos->command.command == "G2");
+      if (r > 0)
+      {
+        movement_length_mm = utilities::get_arc_distance(p_pre_pos->x, p_pre_pos->y, p_pre_pos->z, p_cur_pos->x, p_cur_pos->y, p_cur_pos->z, i, j, r, p_cur_pos->command.command == "G2");
+      }
 
     }
     else if (allow_3d_arcs_) {
diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index 4efd955..acf8ca4 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -252,9 +252,9 @@ double utilities::get_arc_distance(double x1, double y1, double z1, double x2, d
 	// Adjust the angular travel if the direction is clockwise
 	if (is_clockwise) { angular_travel_total -= 2.0 * PI_DOUBLE; }
 	// Full circle fix.
-	if (x1 == x2 && y1 == y2 && angular_travel_total == 0)
+	if (utilities::is_equal(x1, x2) && utilities::is_equal(y1, y2))
 	{
-		angular_travel_total += 2.0 * PI_DOUBLE;
+		angular_travel_total = 2.0 * PI_DOUBLE;
 	}
 
 	// 20200417 - FormerLurker - rename millimeters_of_travel to millimeters_of_travel_arc to better describe what we are
-- 
2.43.0


From dc592da0526cf601852dbda2d9f59de4f836b5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 71/86] fix: the straightener must not accept negative values

---
 .../ArcWelderInverseProcessor.cpp             | 42 +++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 26340dd..5022480 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -500,6 +500,48 @@ int run_arc_straightener(int argc, char* argv[])
         args.firmware_args.arc_segments_per_r = arc_segments_per_r_arg.getValue();
     }
 
+    // Negative values are not supported by any firmware, their arcs would not be followed
+    if (mm_per_arc_segment_arg.getValue() < 0)
+    {
+      throw TCLAP::ArgException("The provided value is negative.", mm_per_arc_segment_arg.toString());
+    }
+    if (min_mm_per_arc_segment_arg.getValue() < 0)
+    {
+      throw TCLAP::ArgException("The provided value is negative.", min_mm_per_arc_segment_arg.toString());
+    }
+    if (min_arc_segments_arg.getValue() < 0)
+    {
+      throw TCLAP::ArgException("The provided value is negative.", min_arc_segments_arg.toString());
+    }
+    if (arc_segments_per_sec_arg.getValue() < 0)
+    {
+      throw TCLAP::ArgException("The provided value is negative.", arc_segments_per_sec_arg.toString());
+    }
+    if (n_arc_correction_arg.getValue() < 0)
+    {
+      throw TCLAP::ArgException("The provided value is negative.", n_arc_correction_arg.toString());
+    }
+    if (mm_max_arc_error_arg.getValue() < 0)
+    {
+      throw TCLAP::ArgException("The provided value is negative.", mm_max_arc_error_arg.toString());
+    }
+    if (min_circle_segments_arg.getValue() < 0)
+    {
+      throw TCLAP::ArgException("The provided value is negative.", min_circle_segments_arg.toString());
+    }
+    if (min_arc_segment_mm_arg.getValue() < 0)
+    {
+      throw TCLAP::ArgException("The provided value is negative.", min_arc_segment_mm_arg.toString());
+    }
+    if (max_arc_segment_mm_arg.getValue() < 0)
+    {
+      throw TCLAP::ArgException("The provided value is negative.", max_arc_segment_mm_arg.toString());
+    }
+    if (arc_segments_per_r_arg.getValue() < 0)
+    {
+      throw TCLAP::ArgException("The provided value is negative.", arc_segments_per_r_arg.toString());
+    }
+
     log_level_string = log_level_arg.getValue();
     log_level_value = -1;
 
-- 
2.43.0


From 37268ff5432a60bd8238e8eca6507a93f32fdffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 72/86] fix: keep the comment of an @OCTOLAPSE line without
 parameters

---
 GcodeProcessorLib/gcode_parser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index 59d7905..d8dd0c1 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -186,13 +186,13 @@ bool gcode_parser::try_parse_gcode(const char * gcode, parsed_command & command,
 			
 			parsed_command_parameter octolapse_parameter;
 
-			if (!try_extract_octolapse_parameter(&p, &octolapse_parameter))
+			const bool has_octolapse_parameter = try_extract_octolapse_parameter(&p, &octolapse_parameter);
+			if (has_octolapse_parameter)
 			{
-				return true;
+				command.parameters.push_back(octolapse_parameter);
 			}
-			command.parameters.push_back(octolapse_parameter);
 			// Extract any additional parameters the old way
-			while (true)
+			while (has_octolapse_parameter)
 			{
 				//std::cout << "GcodeParser.try_parse_gcode - Trying to extract parameters.\r\n";
 				parsed_command_parameter param;
-- 
2.43.0


From 34942f2e52ad8f09838f56faf060895ac25b8be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 73/86] fix: oversized tool numbers must not overflow

---
 GcodeProcessorLib/gcode_parser.cpp   | 5 ++++-
 GcodeProcessorLib/gcode_position.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index d8dd0c1..8f86e22 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -22,6 +22,7 @@
 
 #include "gcode_parser.h"
 #include "utilities.h"
+#include <climits>
 #include <cmath>
 #include <iostream>
 gcode_parser::gcode_parser()
@@ -417,7 +418,9 @@ bool gcode_parser::try_extract_unsigned_long(char ** p_p_gcode, unsigned long *
 		if (*p != ' ')
 		{
 			found_numbers = true;
-			r = static_cast<unsigned int>((r * 10.0) + (*p - '0'));
+			const unsigned int digit = *p - '0';
+			// Numbers that are too large to be represented get the largest value
+			r = r > (UINT_MAX - digit) / 10 ? UINT_MAX : r * 10 + digit;
 		}
 		++p;
 	}
diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 40b7634..e5cfc2b 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -23,6 +23,7 @@
 #include "gcode_position.h"
 #include "utilities.h"
 #include <algorithm>
+#include <climits>
 #include <iterator>
 #include <cmath>
 gcode_position_args::gcode_position_args(const gcode_position_args &pos_args)
@@ -986,7 +987,7 @@ void gcode_position::process_g10(position* pos, parsed_command& cmd)
 			{
 				double val = p_cur_param.double_value;
 				val = val + 0.5 - (val < 0);
-				p = static_cast<int>(val);
+				p = static_cast<int>(std::max(-1e9, std::min(1e9, val)));
 			}
 			else
 				has_p = false;
@@ -1346,7 +1347,7 @@ void gcode_position::process_m218(position* pos, parsed_command& cmd)
 			{
 				double val = p_cur_param.double_value;
 				val = val + 0.5 - (val < 0);
-				t = static_cast<int>(val);
+				t = static_cast<int>(std::max(-1e9, std::min(1e9, val)));
 			}
 			else
 				has_t = false;
@@ -1418,7 +1419,7 @@ void gcode_position::process_t(position* pos, parsed_command& cmd)
 		{
 			const double previous_e = pos->get_current_extruder().e;
 			const double previous_e_offset = pos->get_current_extruder().e_offset;
-			pos->current_tool = static_cast<int>(p_cur_param.unsigned_long_value);
+			pos->current_tool = p_cur_param.unsigned_long_value > INT_MAX ? INT_MAX : static_cast<int>(p_cur_param.unsigned_long_value);
 			if (!zero_based_extruder_)
 			{
 				pos->current_tool--;
-- 
2.43.0


From 5660e7f885c5516601800fb3ab736562cee7a61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 74/86] fix: a very small mm-per-arc-segment must not overflow
 the number of segments

---
 ArcWelder/segmented_arc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index 458f8ef..0b7c911 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -259,11 +259,11 @@ bool segmented_arc::try_add_point_internal_(printer_point p)
       // See how many arcs will be interpolated
       double circumference = 2.0 * PI_DOUBLE * current_arc_.radius;
       // TODO: Should this be ceil?
-      int num_segments = (int)utilities::floor(circumference / mm_per_arc_segment_);
+      double num_segments = utilities::floor(circumference / mm_per_arc_segment_);
       if (num_segments < min_arc_segments_) {
         //num_segments = (int)std::ceil(circumference/approximate_length) * (int)std::ceil(approximate_length / mm_per_arc_segment);
         // TODO: Should this be ceil?
-        num_segments = (int)utilities::floor(circumference / original_shape_length_);
+        num_segments = utilities::floor(circumference / original_shape_length_);
         if (num_segments < min_arc_segments_) {
           abort_arc = true;
           num_firmware_compensations_++; 
-- 
2.43.0


From 43523391809b726a358982e2798b18274edd7e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 75/86] fix: a number of segments that does not fit must not be
 undefined

---
 ArcWelderInverseProcessor/firmware.h       | 11 +++++++++++
 ArcWelderInverseProcessor/marlin_1.cpp     |  2 +-
 ArcWelderInverseProcessor/marlin_2.cpp     |  8 ++++----
 ArcWelderInverseProcessor/prusa.cpp        |  2 +-
 ArcWelderInverseProcessor/repetier.cpp     |  4 ++--
 ArcWelderInverseProcessor/smoothieware.cpp |  2 +-
 6 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/ArcWelderInverseProcessor/firmware.h b/ArcWelderInverseProcessor/firmware.h
index 3113539..d992530 100644
--- a/ArcWelderInverseProcessor/firmware.h
+++ b/ArcWelderInverseProcessor/firmware.h
@@ -531,4 +531,15 @@ protected:
   int num_arc_segments_generated_;
 
   virtual firmware_arguments arguments_changed(firmware_arguments current_args, firmware_arguments new_args);
+
+  /// <summary>
+  /// Converts a calculated number of segments to the 16 bit type used by the firmware.  Values that do not fit wrap
+  /// around like they do on the hardware, and infinite values (a segment length of 0) give 0 segments.
+  /// </summary>
+  /// <param name="count"></param>
+  /// <returns></returns>
+  static uint16_t to_segment_count(double count)
+  {
+    return count > -2147483648.0 && count < 2147483648.0 ? (uint16_t)(int32_t)count : (uint16_t)0;
+  }
 };
diff --git a/ArcWelderInverseProcessor/marlin_1.cpp b/ArcWelderInverseProcessor/marlin_1.cpp
index a295f73..e9f21fb 100644
--- a/ArcWelderInverseProcessor/marlin_1.cpp
+++ b/ArcWelderInverseProcessor/marlin_1.cpp
@@ -177,7 +177,7 @@ void marlin_1::plan_arc_1_1_9_1(const float(&cart)[MARLIN_XYZE], // Destination
 		mm_of_travel = linear_travel ? utilities::hypotf(flat_mm, linear_travel) : utilities::absf(flat_mm);
 	if (mm_of_travel < 0.001f) return;
 
-	uint16_t segments = (uint16_t)utilities::floorf(mm_of_travel / (float)(args_.mm_per_arc_segment));
+	uint16_t segments = to_segment_count(utilities::floorf(mm_of_travel / (float)(args_.mm_per_arc_segment)));
 	NOLESS(segments, 1);
 
 	/**
diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index 970d568..0b830a5 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -202,7 +202,7 @@ void marlin_2::plan_arc_2_0_9_1(
 
     if (args_.min_arc_segments > 1)
     {
-      min_segments = (uint16_t)utilities::ceilf(min_segments * utilities::absf(angular_travel) / utilities::radiansf(360.0f));
+      min_segments = to_segment_count(utilities::ceilf(min_segments * utilities::absf(angular_travel) / utilities::radiansf(360.0f)));
       NOLESS(min_segments, 1U);
     }
   }
@@ -230,7 +230,7 @@ void marlin_2::plan_arc_2_0_9_1(
   }
 
   // Divide total travel by nominal segment length
-  uint16_t segments = (uint16_t)utilities::floorf(mm_of_travel / seg_length);
+  uint16_t segments = to_segment_count(utilities::floorf(mm_of_travel / seg_length));
   //uint16_t segments = utilities::floorf(mm_of_travel / seg_length);
   NOLESS(segments, min_segments);         // At least some segments
   seg_length = mm_of_travel / segments;
@@ -412,7 +412,7 @@ void marlin_2::plan_arc_2_0_9_2(
 
     // Apply minimum segments to the arc
     const float portion_of_circle = abs_angular_travel / utilities::radiansf(360.0f);  // Portion of a complete circle (0 < N < 1)
-    min_segments = (uint16_t)utilities::ceilf((min_circle_segments)*portion_of_circle);     // Minimum segments for the arc
+    min_segments = to_segment_count(utilities::ceilf((min_circle_segments)*portion_of_circle));     // Minimum segments for the arc
   }
 
   float travel_L = cart[Z_AXIS] - start_L;
@@ -443,7 +443,7 @@ void marlin_2::plan_arc_2_0_9_2(
   const float segment_mm = utilities::constrainf(flat_mm / nominal_segments, (float)args_.min_arc_segment_mm, (float)args_.max_arc_segment_mm);
 
   // The number of whole segments in the arc, ignoring the remainder
-  uint16_t segments = (uint16_t)utilities::floorf(flat_mm / segment_mm);
+  uint16_t segments = to_segment_count(utilities::floorf(flat_mm / segment_mm));
 
   // Are the segments now too few to reach the destination?
   const float segmented_length = segment_mm * segments;
diff --git a/ArcWelderInverseProcessor/prusa.cpp b/ArcWelderInverseProcessor/prusa.cpp
index 085977e..870fb83 100644
--- a/ArcWelderInverseProcessor/prusa.cpp
+++ b/ArcWelderInverseProcessor/prusa.cpp
@@ -190,7 +190,7 @@ void prusa::mc_arc_3_10_0(float* position, float* target, float* offset, float f
 
   float millimeters_of_travel = (float)utilities::hypot((double)angular_travel * radius, utilities::absf(linear_travel));
   if (millimeters_of_travel < 0.001) { return; }
-  uint16_t segments = (uint16_t)utilities::floorf(millimeters_of_travel / static_cast<float>(args_.mm_per_arc_segment));
+  uint16_t segments = to_segment_count(utilities::floorf(millimeters_of_travel / static_cast<float>(args_.mm_per_arc_segment)));
   if (segments == 0) segments = 1;
 
   /*
diff --git a/ArcWelderInverseProcessor/repetier.cpp b/ArcWelderInverseProcessor/repetier.cpp
index 8b5ead2..7efebc7 100644
--- a/ArcWelderInverseProcessor/repetier.cpp
+++ b/ArcWelderInverseProcessor/repetier.cpp
@@ -211,7 +211,7 @@ void repetier::arc_1_0_5(float* position, float* target, float* offset, float ra
   // Example, assume millimeters_of_travel = 1.999.  In this case segments will be 1,
   // the interpolation loop will be skipped, and the segment drawn will be of length
   // 1.999, which is not great.
-  uint16_t segments = (uint16_t)utilities::ceil(millimeters_of_travel / (float)args_.mm_per_arc_segment);
+  uint16_t segments = to_segment_count(utilities::ceil(millimeters_of_travel / (float)args_.mm_per_arc_segment));
   
   if (segments == 0)
     segments = 1;
@@ -353,7 +353,7 @@ void repetier::arc_1_0_4(float* position, float* target, float* offset, float ra
   }
   //uint16_t segments = (radius>=BIG_ARC_RADIUS ? floor(millimeters_of_travel/MM_PER_ARC_SEGMENT_BIG) : floor(millimeters_of_travel/MM_PER_ARC_SEGMENT));
   // Increase segment size if printing faster then computation speed allows
-  uint16_t segments = (uint16_t)(feedrate > 60.0f ? utilities::floorf(millimeters_of_travel / utilities::minf(static_cast<float>(args_.mm_per_arc_segment), feedrate * 0.01666f * static_cast<float>(args_.mm_per_arc_segment))) : utilities::floorf(millimeters_of_travel / static_cast<float>(args_.mm_per_arc_segment)));
+  uint16_t segments = to_segment_count(feedrate > 60.0f ? utilities::floorf(millimeters_of_travel / utilities::minf(static_cast<float>(args_.mm_per_arc_segment), feedrate * 0.01666f * static_cast<float>(args_.mm_per_arc_segment))) : utilities::floorf(millimeters_of_travel / static_cast<float>(args_.mm_per_arc_segment)));
   if (segments == 0)
     segments = 1;
   /*
diff --git a/ArcWelderInverseProcessor/smoothieware.cpp b/ArcWelderInverseProcessor/smoothieware.cpp
index e1573da..107d53c 100644
--- a/ArcWelderInverseProcessor/smoothieware.cpp
+++ b/ArcWelderInverseProcessor/smoothieware.cpp
@@ -191,7 +191,7 @@ bool smoothieware::append_arc_2021_06_19(SmoothiewareGcode* gcode, const float t
 
   // Figure out how many segments for this gcode
   // TODO for deltas we need to make sure we are at least as many segments as requested, also if mm_per_line_segment is set we need to use the
-  uint16_t segments = (uint16_t)utilities::floorf(millimeters_of_travel / arc_segment);
+  uint16_t segments = to_segment_count(utilities::floorf(millimeters_of_travel / arc_segment));
   bool moved = false;
 
   if (segments > 1) {
-- 
2.43.0


From d136e89ef2a43f3084812e96825c98d0f488997c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 76/86] fix: a number of segments of the Prusa 3.11.0 arcs that
 does not fit must not be undefined

---
 ArcWelderInverseProcessor/prusa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelderInverseProcessor/prusa.cpp b/ArcWelderInverseProcessor/prusa.cpp
index 870fb83..e0ed42b 100644
--- a/ArcWelderInverseProcessor/prusa.cpp
+++ b/ArcWelderInverseProcessor/prusa.cpp
@@ -373,7 +373,7 @@ void prusa::mc_arc_3_11_0(float* position, float* target, float* offset, float f
   if (millimeters_of_travel_arc < 0.001) { return; }
 
   // Calculate the number of arc segments
-  uint16_t segments = static_cast<uint16_t>(utilities::ceilf(millimeters_of_travel_arc / mm_per_arc_segment));
+  uint16_t segments = to_segment_count(utilities::ceilf(millimeters_of_travel_arc / mm_per_arc_segment));
 
   /* Vector rotation by transformation matrix: r is the original vector, r_T is the rotated vector,
      and phi is the angle of rotation. Based on the solution approach by Jens Geisler.
-- 
2.43.0


From 806af6659b64f04ce23deb8dcef7295b08d76aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:56 +0000
Subject: [PATCH 77/86] fix: recognize feature comments with a blank in front

---
 GcodeProcessorLib/gcode_comment_processor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/gcode_comment_processor.cpp b/GcodeProcessorLib/gcode_comment_processor.cpp
index 54ba1bb..f33c320 100644
--- a/GcodeProcessorLib/gcode_comment_processor.cpp
+++ b/GcodeProcessorLib/gcode_comment_processor.cpp
@@ -20,6 +20,7 @@
 // FormerLurker@pm.me
 ////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 #include "gcode_comment_processor.h"
+#include "utilities.h"
 
 gcode_comment_processor::gcode_comment_processor()
 {
@@ -55,8 +56,10 @@ void gcode_comment_processor::update(position& pos)
 	
 }
 
-bool gcode_comment_processor::update_feature_for_slic3r_pe_comment(position& pos, std::string &comment) const
+bool gcode_comment_processor::update_feature_for_slic3r_pe_comment(position& pos, std::string &line_comment) const
 {
+	// The slicer writes a space between the semicolon and the feature
+	const std::string comment = utilities::trim(line_comment);
 	if (comment == "perimeter" || comment == "move to first perimeter point")
 	{
 		pos.feature_type_tag = feature_type_unknown_perimeter_feature;
-- 
2.43.0


From f4e434c18cefc35b93a6da99efc32a5eff9d006e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:53 +0000
Subject: [PATCH 78/86] fix: running out of memory must not drop the header of
 the straightener

---
 ArcWelderInverseProcessor/firmware.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ArcWelderInverseProcessor/firmware.h b/ArcWelderInverseProcessor/firmware.h
index d992530..9d25285 100644
--- a/ArcWelderInverseProcessor/firmware.h
+++ b/ArcWelderInverseProcessor/firmware.h
@@ -245,6 +245,8 @@ public:
   {
       std::string comment_start = "; ";
       std::stringstream stream;
+      // Running out of memory must not drop a part of the header
+      stream.exceptions(std::ios_base::badbit);
       stream << comment_start << "Postprocessed by [ArcStraightener](https://github.com/FormerLurker/ArcWelderLib)\n";
       stream << comment_start << "Copyright(C) " << COPYRIGHT_DATE << " - " << AUTHOR << "\n";
       stream << comment_start << "Version: " << GIT_TAGGED_VERSION << ", Branch: " << GIT_BRANCH << ", BuildDate: " << BUILD_DATE << "\n";
-- 
2.43.0


From bd2fde9665fee49dcd803a92880ee155b751ff72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 79/86] fix: the milliseconds of a log message must not
 overflow after 24 days

---
 GcodeProcessorLib/logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/logger.cpp b/GcodeProcessorLib/logger.cpp
index 9b8a0b0..d2fb22f 100644
--- a/GcodeProcessorLib/logger.cpp
+++ b/GcodeProcessorLib/logger.cpp
@@ -172,7 +172,7 @@ void logger::get_timestamp(std::string &timestamp)
 	
 	timestamp = buffer;
 	clock_t t = std::clock();
-	int ms = static_cast<int>((t / CLOCKS_PER_MS)) % 1000;
+	int ms = static_cast<int>(static_cast<long long>(t / CLOCKS_PER_MS) % 1000);
 
 	std::string s_miliseconds;
 	sprintf(buffer, "%d", ms) ;// std::to_string(ms);
-- 
2.43.0


From 71953a6eb419cb6951d3cf6cbc3c9224910196e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:04 +0000
Subject: [PATCH 80/86] fix: Python module: the messages of a conversion must
 reach the host's logger

---
 PyArcWelder/py_logger.cpp | 51 +++++++++++++++++++++------------------
 PyArcWelder/py_logger.h   |  4 +--
 2 files changed, 30 insertions(+), 25 deletions(-)

diff --git a/PyArcWelder/py_logger.cpp b/PyArcWelder/py_logger.cpp
index 3dbbbe2..28c4627 100644
--- a/PyArcWelder/py_logger.cpp
+++ b/PyArcWelder/py_logger.cpp
@@ -122,15 +122,18 @@ void py_logger::log_exception(const int logger_type, const std::string& message)
 	log(logger_type, log_levels::ERROR, message, true);
 }
 
-void py_logger::log(const int logger_type, const int log_level, const std::string& message)
+void py_logger::log(const int logger_type, log_levels log_level, const std::string& message)
 {
 	log(logger_type, log_level, message, false);
 }
 
-void py_logger::log(const int logger_type, const int log_level, const std::string& message, bool is_exception)
+void py_logger::log(const int logger_type, log_levels log_level, const std::string& message, bool is_exception)
 {
 	if (!loggers_created_)
 		return;
+	// An exception has to be set even if it is not logged
+	if (!is_exception && !is_log_level_enabled(logger_type, log_level))
+		return;
 
 	// Get the appropriate logger
 	PyObject* py_logger;
@@ -151,7 +154,7 @@ void py_logger::log(const int logger_type, const int log_level, const std::strin
 	{
 		//std::cout << "Current Log Level: " << current_log_level << " requested:" << log_level;
 		// For speed we are going to check the log levels here before attempting to send any logging info to Python.
-		if (current_log_level > log_level)
+		if (!is_exception && current_log_level > get_log_level_value(log_level))
 		{
 			return;
 		}
@@ -167,16 +170,10 @@ void py_logger::log(const int logger_type, const int log_level, const std::strin
 	{
 		// if an error has occurred, use the exception function to log the entire error
 		pyFunctionName = py_error_function_name;
-		if (PyErr_Occurred())
-		{
-			error_occurred = true;
-			PyErr_Fetch(&error_type, &error_value, &error_traceback);
-			PyErr_NormalizeException(&error_type, &error_value, &error_traceback);
-		}
 	}
 	else
 	{
-		switch ((log_levels)log_level)
+		switch (log_level)
 		{
 		case log_levels::INFO:
 			pyFunctionName = py_info_function_name;
@@ -203,14 +200,26 @@ void py_logger::log(const int logger_type, const int log_level, const std::strin
 			return;
 		}
 	}
-	//PyObject* pyMessage = gcode_arc_converter::PyBytesOrString_FromString(message);
-	PyObject* pyMessage = gcode_arc_converter::PyUnicode_SafeFromString(message);
+	// A pending exception must survive the logging
+	if (PyErr_Occurred())
+	{
+		error_occurred = true;
+		PyErr_Fetch(&error_type, &error_value, &error_traceback);
+		PyErr_NormalizeException(&error_type, &error_value, &error_traceback);
+	}
+	// The message may quote gcode that is not UTF-8
+	PyObject* pyMessage = PyUnicode_DecodeUTF8(message.c_str(), (Py_ssize_t)message.length(), "replace");
 	
 	if (pyMessage == NULL)
 	{
 		std::cout << "Unable to convert the log message '" << message.c_str() << "' to a PyString/Unicode message.\r\n";
-		PyErr_Format(PyExc_ValueError,
-			"Unable to convert the log message '%s' to a PyString/Unicode message.", message.c_str());
+		if (error_occurred)
+			PyErr_Restore(error_type, error_value, error_traceback);
+		else if (is_exception)
+			PyErr_Format(PyExc_ValueError,
+				"Unable to convert the log message '%s' to a PyString/Unicode message.", message.c_str());
+		else
+			PyErr_Clear();
 		return;
 	}
 	PyGILState_STATE state = PyGILState_Ensure();
@@ -223,7 +232,6 @@ void py_logger::log(const int logger_type, const int log_level, const std::strin
 		if (!PyErr_Occurred())
 		{
 			std::cout << "Logging.arc_welder_log - null was returned from the specified logger.\r\n";
-			PyErr_SetString(PyExc_ValueError, "Logging.arc_welder_log - null was returned from the specified logger.");
 		}
 		else
 		{
@@ -237,13 +245,10 @@ void py_logger::log(const int logger_type, const int log_level, const std::strin
 			PyErr_Clear();
 		}
 	}
-	// Set the exception if we are doing exception logging, even if it could not be logged.
-	if (is_exception)
-	{
-		if (error_occurred)
-			PyErr_Restore(error_type, error_value, error_traceback);
-		else
-			PyErr_SetString(PyExc_Exception, message.c_str());
-	}
+	// Restore the pending exception, or set it if we are doing exception logging, even if it could not be logged.
+	if (error_occurred)
+		PyErr_Restore(error_type, error_value, error_traceback);
+	else if (is_exception)
+		PyErr_SetString(PyExc_Exception, message.c_str());
 	Py_XDECREF(ret_val);
 }
diff --git a/PyArcWelder/py_logger.h b/PyArcWelder/py_logger.h
index cf74e7b..6168b37 100644
--- a/PyArcWelder/py_logger.h
+++ b/PyArcWelder/py_logger.h
@@ -45,8 +45,8 @@ public:
 	}
 	void initialize_loggers();
 	void set_internal_log_levels(bool check_real_time);
-	virtual void log(const int logger_type, const int log_level, const std::string& message);
-	virtual void log(const int logger_type, const int log_level, const std::string& message, bool is_exception);
+	virtual void log(const int logger_type, log_levels log_level, const std::string& message);
+	virtual void log(const int logger_type, log_levels log_level, const std::string& message, bool is_exception);
 	virtual void log_exception(const int logger_type, const std::string& message);
 private:
 	bool check_log_levels_real_time;
-- 
2.43.0


From 603b0b1163924a3cdfc1a8734b6f31f24410556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:53 +0000
Subject: [PATCH 81/86] fix: compare the extrusion rates of retracting moves
 too

---
 ArcWelder/arc_welder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 5819c53..139d1bc 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -574,7 +574,7 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
       if (movement_length_mm > 0 && (is_extrusion || is_retraction))
       {
           mm_extruded_per_mm_travel = extruder_current.e_relative / movement_length_mm;
-          if (previous_extrusion_rate_ > 0)
+          if (previous_extrusion_rate_ != 0)
           {
               extrusion_rate_change_percent = utilities::abs(utilities::get_percent_change(previous_extrusion_rate_, mm_extruded_per_mm_travel));
           }
-- 
2.43.0


From 645f0f0a181da81b722f73c6e0d28060bd1f991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:57 +0000
Subject: [PATCH 82/86] fix: show the extrusion rate variance with its decimals

The listing of the arguments rounded it to whole percents, so that a
variance of 0.4% was shown as 0%.
---
 ArcWelder/arc_welder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.h b/ArcWelder/arc_welder.h
index 7535bf0..5747522 100644
--- a/ArcWelder/arc_welder.h
+++ b/ArcWelder/arc_welder.h
@@ -646,7 +646,7 @@ struct arc_welder_args
 			}
 			else
 			{
-				stream << extrusion_rate_variance_percent * 100.0 << "%";
+				stream << std::setprecision(3) << extrusion_rate_variance_percent * 100.0 << "%";
 			}
 			stream << "\n";
 
-- 
2.43.0


From dad21c9d27d0cac7380908b89cbe5f6ccb68efd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:57 +0000
Subject: [PATCH 83/86] fix: list hidden progress updates as hidden

With --progress-type=NONE the listing of the arguments showed
'Hide Progress Updates: False'.
---
 ArcWelderConsole/ArcWelderConsole.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index 4500518..cf3de9d 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -366,7 +366,8 @@ int main(int argc, char* argv[])
   if (progress_type == PROGRESS_TYPE_NONE)
   {
     p_logger->log(0, log_levels::INFO, "Suppressing progress messages.");
-    args.callback = on_progress_suppress;
+    // No callback, so that the progress is listed as hidden
+    args.callback = NULL;
   }
   else if (progress_type == PROGRESS_TYPE_FULL)
   {
@@ -385,6 +386,10 @@ int main(int argc, char* argv[])
   log_messages << args.str();
   p_logger->log(0, log_levels::INFO, log_messages.str());
 
+  if (progress_type == PROGRESS_TYPE_NONE)
+  {
+    args.callback = on_progress_suppress;
+  }
   // Set the box encoding
   args.box_encoding = args.box_encoding = utilities::box_drawing::ASCII;
 
-- 
2.43.0


From 038b1afc9b24d1feb4196417b90082fe739b3cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:57 +0000
Subject: [PATCH 84/86] fix: list a target that is the source under another
 name as overwritten

---
 ArcWelder/arc_welder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.h b/ArcWelder/arc_welder.h
index 5747522..9ca79d3 100644
--- a/ArcWelder/arc_welder.h
+++ b/ArcWelder/arc_welder.h
@@ -615,7 +615,7 @@ struct arc_welder_args
 			stream << "Arc Welder Arguments\n";
 			stream << std::fixed << std::setprecision(2);
 			stream << "\tSource File Path             : " << source_path << "\n";
-			if (source_path == target_path)
+			if (utilities::is_same_file(source_path, target_path))
 			{
 				stream << "\tTarget File Path (overwrite) : " << target_path << "\n";
 			}
-- 
2.43.0


From ca043459f2d7de81067bfdba3b94b11c58b5e005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:48 +0000
Subject: [PATCH 85/86] fix: no negative remaining time if the size of the
 source is unknown

---
 ArcWelder/arc_welder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 139d1bc..7750ca4 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -443,7 +443,8 @@ arc_welder_progress arc_welder::get_progress_(long source_file_position, double
   progress.source_file_position = source_file_position;
   progress.target_file_size = static_cast<long>(output_file_.tellp());
   progress.source_file_size = file_size_;
-  long bytesRemaining = file_size_ - static_cast<long>(source_file_position);
+  // the size is 0 if it could not be determined
+  long bytesRemaining = file_size_ > source_file_position ? file_size_ - source_file_position : 0;
   progress.percent_complete = file_size_ > 0 ? static_cast<double>(source_file_position) / static_cast<double>(file_size_) * 100.0 : 100.0;
   progress.seconds_elapsed = get_time_elapsed(start_clock, clock());
   // seconds per byte is always finite once something was read
-- 
2.43.0


From c7985b4bc912f5f934282e2285e1e2683bde2392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:36 +0000
Subject: [PATCH 86/86] fix: an arc does not exceed the maximum gcode length
 due to the precision of the command behind it

---
 ArcWelder/arc_welder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 7750ca4..7f79e2b 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -591,6 +591,8 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
   // We need to make sure the printer is using absolute xyz, is extruding, and the extruder axis mode is the same as that of the previous position
   // TODO: Handle relative XYZ axis.  This is possible, but maybe not so important.
   
+  const unsigned char previous_xyz_precision = current_arc_.get_xyz_precision();
+  const unsigned char previous_e_precision = current_arc_.get_e_precision();
   if (allow_dynamic_precision_ && is_g0_g1)
   {
     for (std::vector<parsed_command_parameter>::iterator it = cmd.parameters.begin(); it != cmd.parameters.end(); ++it)
@@ -809,6 +811,10 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
         // update our statistics
         points_compressed_ += current_arc_.get_num_segments() - 1;
         arcs_created_++; // increment the number of generated arcs
+        // The current command isn't part of the arc.  Do not use its precision, else the gcode could get too long.
+        current_arc_.reset_precision();
+        current_arc_.update_xyz_precision(previous_xyz_precision);
+        current_arc_.update_e_precision(previous_e_precision);
         write_arc_gcodes(p_pre_pos->f);
         // Now clear the arc and flag the processor as not waiting for an arc
         waiting_for_arc_ = false;
-- 
2.43.0

