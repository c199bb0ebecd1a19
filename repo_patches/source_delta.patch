From 13358b0849040e8ffcaf02390dc256a2d1c2edf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 01/15] fix: report malformed, truncated and unreadable MSH
 input instead of looping or returning partial data

A failed extraction left load_msh spinning on a stream that never reaches
eof, and a missing end marker or header was silently accepted.
---
 src/load_msh.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/load_msh.cpp b/src/load_msh.cpp
index 1c65163..f932e9f 100644
--- a/src/load_msh.cpp
+++ b/src/load_msh.cpp
@@ -1,4 +1,5 @@
 #include <mshio/MshSpec.h>
+#include <mshio/exception.h>
 
 #include "load_msh_curves.h"
 #include "load_msh_data.h"
@@ -21,8 +22,11 @@ namespace mshio {
 void forward_to(std::istream& in, const std::string& flag)
 {
     std::string buf;
-    while (!in.eof() && buf != flag) {
+    while (buf != flag) {
         in >> buf;
+        if (in.fail()) {
+            throw InvalidFormat("Missing section end marker: " + flag);
+        }
     }
 }
 
@@ -30,14 +34,16 @@ MshSpec load_msh(std::istream& in)
 {
     MshSpec spec;
     std::string buf, end_str;
+    bool has_mesh_format = false;
 
-    while (!in.eof()) {
+    while (in.good()) {
         buf.clear();
         in >> buf;
         if (buf.size() == 0 || buf[0] != '$') continue;
         end_str = "$End" + buf.substr(1);
         if (buf == "$MeshFormat") {
             load_mesh_format(in, spec);
+            has_mesh_format = true;
         } else if (buf == "$Entities") {
             load_entities(in, spec);
         } else if (buf == "$PhysicalNames") {
@@ -61,8 +67,17 @@ MshSpec load_msh(std::istream& in)
         } else {
             std::cerr << "Warning: skipping section \"" << buf << "\"" << std::endl;
         }
+        if (in.fail()) {
+            throw InvalidFormat("Invalid or incomplete data in section " + buf);
+        }
         forward_to(in, end_str);
     }
+    if (in.bad()) {
+        throw InvalidFormat("Unable to read MSH data!");
+    }
+    if (!has_mesh_format) {
+        throw InvalidFormat("Missing section $MeshFormat");
+    }
 
     load_msh_post_process(spec);
     return spec;
-- 
2.43.0


From 3411aef6e35f9d34d7d7d341b04e108413b6cb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:54 +0000
Subject: [PATCH 02/15] fix: do not index node tables by raw tags when
 regrouping v2.2 nodes

An element that refers to an undefined node wrote out of bounds, and sparse
node tags allocated tables as large as the tag range.
---
 src/load_msh_post_process.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/load_msh_post_process.cpp b/src/load_msh_post_process.cpp
index 77d9dc3..164fc7f 100644
--- a/src/load_msh_post_process.cpp
+++ b/src/load_msh_post_process.cpp
@@ -5,6 +5,8 @@
 
 #include <cassert>
 #include <limits>
+#include <unordered_map>
+#include <utility>
 
 namespace mshio {
 namespace v22 {
@@ -14,19 +16,16 @@ void regroup_nodes_into_blocks(MshSpec& spec)
     auto& nodes = spec.nodes;
     auto& elements = spec.elements;
 
-    std::vector<size_t> entity_dims(nodes.max_node_tag - nodes.min_node_tag + 1, 0);
-    std::vector<size_t> entity_tags(nodes.max_node_tag - nodes.min_node_tag + 1, 0);
-    auto node_index = [&](size_t node_tag) {
-        return static_cast<size_t>(node_tag - nodes.min_node_tag);
-    };
+    // Node tag -> (entity dim, entity tag).  Node tags may be sparse, and an element may refer to a
+    // node that is not defined.
+    std::unordered_map<size_t, std::pair<size_t, size_t>> node_entities;
 
     for (const auto& block : elements.entity_blocks) {
         const auto n = nodes_per_element(block.element_type);
         for (size_t i = 0; i < block.num_elements_in_block; i++) {
             for (size_t j = 0; j < n; j++) {
-                size_t idx = node_index(block.data[i * (n + 1) + j + 1]);
-                entity_dims[idx] = block.entity_dim;
-                entity_tags[idx] = block.entity_tag;
+                node_entities[block.data[i * (n + 1) + j + 1]] = {
+                    block.entity_dim, block.entity_tag};
             }
         }
     }
@@ -38,9 +37,12 @@ void regroup_nodes_into_blocks(MshSpec& spec)
     size_t curr_dim = INVALID, curr_tag = INVALID;
     for (auto& block : nodes.entity_blocks) {
         for (size_t i = 0; i < block.num_nodes_in_block; i++) {
-            size_t idx = node_index(block.tags[i]);
-            size_t dim = entity_dims[idx];
-            size_t tag = entity_tags[idx];
+            size_t dim = 0, tag = 0;
+            auto it = node_entities.find(block.tags[i]);
+            if (it != node_entities.end()) {
+                dim = it->second.first;
+                tag = it->second.second;
+            }
 
             if (dim != curr_dim || tag != curr_tag) {
                 node_blocks.emplace_back();
-- 
2.43.0


From 595cfc003cf27d5d21253c2a14103a311471aa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:59 +0000
Subject: [PATCH 03/15] fix: reset the minimum tag when a v2.2 file declares no
 nodes or no elements

The loaded spec was rejected by validate_spec (min tag > max tag).
---
 src/load_msh_post_process.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/load_msh_post_process.cpp b/src/load_msh_post_process.cpp
index 164fc7f..9b81ee2 100644
--- a/src/load_msh_post_process.cpp
+++ b/src/load_msh_post_process.cpp
@@ -107,6 +107,8 @@ void regroup_elements_into_blocks(MshSpec& spec)
 void load_msh_post_process(MshSpec& spec)
 {
     if (spec.mesh_format.version == "2.2") {
+        if (spec.nodes.num_nodes == 0) spec.nodes.min_node_tag = 0;
+        if (spec.elements.num_elements == 0) spec.elements.min_element_tag = 0;
         v22::regroup_nodes_into_blocks(spec);
         v22::regroup_elements_into_blocks(spec);
     }
-- 
2.43.0


From 252cfb14d4cff2e3e0612d61864bbd36fee1d430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 04/15] fix: check the stream before using counts read from it

The readers sized arrays and ran loops from uninitialised or stale counts
when a read failed; the only checks were asserts, absent in release builds
and aborting in debug builds.
---
 src/io_utils.cpp                 |  9 ++++
 src/io_utils.h                   |  3 ++
 src/load_msh_curves.cpp          |  6 ++-
 src/load_msh_data.cpp            | 12 +++---
 src/load_msh_elements.cpp        | 21 +++++----
 src/load_msh_entities.cpp        | 73 +++++++++++++++++---------------
 src/load_msh_nodes.cpp           | 26 ++++++------
 src/load_msh_patches.cpp         |  6 ++-
 src/load_msh_physical_groups.cpp |  5 ++-
 9 files changed, 95 insertions(+), 66 deletions(-)

diff --git a/src/io_utils.cpp b/src/io_utils.cpp
index 56ef54a..1b49220 100644
--- a/src/io_utils.cpp
+++ b/src/io_utils.cpp
@@ -1,5 +1,7 @@
 #include "io_utils.h"
 
+#include <mshio/exception.h>
+
 #include <istream>
 
 namespace mshio {
@@ -18,5 +20,12 @@ void eat_white_space(std::istream& in, size_t count)
     }
 }
 
+void check_stream(std::istream& in)
+{
+    if (in.fail()) {
+        throw InvalidFormat("Invalid or incomplete data in MSH file!");
+    }
+}
+
 } // namespace mshio
 
diff --git a/src/io_utils.h b/src/io_utils.h
index a8255cb..a4e20b7 100644
--- a/src/io_utils.h
+++ b/src/io_utils.h
@@ -7,5 +7,8 @@ namespace mshio {
 
 void eat_white_space(std::istream& in, size_t count = std::numeric_limits<size_t>::max());
 
+// Throws InvalidFormat if an earlier read from the stream failed.
+void check_stream(std::istream& in);
+
 } // namespace mshio
 
diff --git a/src/load_msh_curves.cpp b/src/load_msh_curves.cpp
index 9e21d15..ec7baf3 100644
--- a/src/load_msh_curves.cpp
+++ b/src/load_msh_curves.cpp
@@ -9,7 +9,7 @@ void load_curves_ascii(std::istream& in, MshSpec& spec)
 {
 #ifdef MSHIO_EXT_NANOSPLINE
     auto& curves = spec.curves;
-    size_t num_curves;
+    size_t num_curves = 0;
     in >> num_curves;
 
     curves.resize(num_curves);
@@ -21,6 +21,7 @@ void load_curves_ascii(std::istream& in, MshSpec& spec)
         in >> curve.num_control_points;
         in >> curve.num_knots;
         in >> curve.with_weights;
+        check_stream(in);
 
         size_t num_entries =
             curve.num_control_points * ((curve.with_weights > 0) ? 4 : 3) + curve.num_knots;
@@ -36,7 +37,7 @@ void load_curves_binary(std::istream& in, MshSpec& spec)
 {
 #ifdef MSHIO_EXT_NANOSPLINE
     auto& curves = spec.curves;
-    size_t num_curves;
+    size_t num_curves = 0;
     in >> num_curves;
 
     curves.resize(num_curves);
@@ -48,6 +49,7 @@ void load_curves_binary(std::istream& in, MshSpec& spec)
         in >> curve.num_control_points;
         in >> curve.num_knots;
         in >> curve.with_weights;
+        check_stream(in);
 
         eat_white_space(in, 1);
         size_t num_entries =
diff --git a/src/load_msh_data.cpp b/src/load_msh_data.cpp
index 9063532..1c799ee 100644
--- a/src/load_msh_data.cpp
+++ b/src/load_msh_data.cpp
@@ -15,7 +15,7 @@ namespace internal {
 
 void load_data_header(std::istream& in, DataHeader& header)
 {
-    size_t num_string_tags, num_real_tags, num_int_tags;
+    size_t num_string_tags = 0, num_real_tags = 0, num_int_tags = 0;
 
     in >> num_string_tags;
     header.string_tags.resize(num_string_tags);
@@ -34,7 +34,7 @@ void load_data_header(std::istream& in, DataHeader& header)
     for (size_t i = 0; i < num_int_tags; i++) {
         in >> header.int_tags[i];
     }
-    assert(in.good());
+    check_stream(in);
 }
 
 namespace v41 {
@@ -45,7 +45,7 @@ void load_data_entry(
     // Based on trial and error, it seems Gmsh 4.7.1 still expect 32
     // bits tag, which is inconsistent with their spec.  Maybe
     // report a bug?
-    int32_t tag_32;
+    int32_t tag_32 = 0;
     in.read(reinterpret_cast<char*>(&tag_32), 4);
     entry.tag = static_cast<size_t>(tag_32);
     // in.read(reinterpret_cast<char*>(&entry.tag), sizeof(size_t));
@@ -64,11 +64,11 @@ namespace v22 {
 void load_data_entry(
     std::istream& in, DataEntry& entry, size_t fields_per_entry, bool is_element_node_data)
 {
-    int32_t tag_32;
+    int32_t tag_32 = 0;
     in.read(reinterpret_cast<char*>(&tag_32), 4);
     entry.tag = static_cast<size_t>(tag_32);
     if (is_element_node_data) {
-        int32_t num_nodes_per_element;
+        int32_t num_nodes_per_element = 0;
         in.read(reinterpret_cast<char*>(&num_nodes_per_element), 4);
         entry.num_nodes_per_element = static_cast<int>(num_nodes_per_element);
         entry.data.resize(fields_per_entry * static_cast<size_t>(entry.num_nodes_per_element));
@@ -129,7 +129,7 @@ void load_data(std::istream& in,
             }
         }
     }
-    assert(in.good());
+    check_stream(in);
 }
 
 } // namespace internal
diff --git a/src/load_msh_elements.cpp b/src/load_msh_elements.cpp
index 9ec3bc6..2140a2f 100644
--- a/src/load_msh_elements.cpp
+++ b/src/load_msh_elements.cpp
@@ -27,7 +27,7 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
     in >> elements.num_elements;
     in >> elements.min_element_tag;
     in >> elements.max_element_tag;
-    assert(in.good());
+    check_stream(in);
 
     elements.entity_blocks.resize(elements.num_entity_blocks);
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
@@ -37,6 +37,7 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
         in >> block.entity_tag;
         in >> block.element_type;
         in >> block.num_elements_in_block;
+        check_stream(in);
 
         const size_t n = nodes_per_element(block.element_type);
         block.data.resize(block.num_elements_in_block * (n + 1));
@@ -45,7 +46,7 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
                 in >> block.data[j * (n + 1) + k];
             }
         }
-        assert(in.good());
+        check_stream(in);
     }
 }
 
@@ -57,7 +58,7 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
     in.read(reinterpret_cast<char*>(&elements.num_elements), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&elements.min_element_tag), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&elements.max_element_tag), sizeof(size_t));
-    assert(in.good());
+    check_stream(in);
 
     elements.entity_blocks.resize(elements.num_entity_blocks);
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
@@ -67,12 +68,13 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&block.entity_tag), sizeof(int));
         in.read(reinterpret_cast<char*>(&block.element_type), sizeof(int));
         in.read(reinterpret_cast<char*>(&block.num_elements_in_block), sizeof(size_t));
+        check_stream(in);
 
         const size_t n = nodes_per_element(block.element_type);
         block.data.resize(block.num_elements_in_block * (n + 1));
         in.read(reinterpret_cast<char*>(block.data.data()),
             static_cast<std::streamsize>(sizeof(size_t) * block.data.size()));
-        assert(in.good());
+        check_stream(in);
     }
 }
 } // namespace v41
@@ -97,7 +99,7 @@ void create_entities(
 void load_elements_ascii(std::istream& in, MshSpec& spec)
 {
     Elements& elements = spec.elements;
-    size_t num_elements;
+    size_t num_elements = 0;
     in >> num_elements;
 
     // Due to v2.2 constraints, each element is parsed as a separate block, and
@@ -105,8 +107,8 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
     elements.num_entity_blocks += num_elements;
     elements.num_elements += num_elements;
 
-    int element_num, element_type;
-    int num_tags;
+    int element_num = 0, element_type = 0;
+    int num_tags = 0;
     std::vector<int> tags;
     std::vector<int> node_ids;
 
@@ -116,6 +118,7 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
         in >> element_num;
         in >> element_type;
         in >> num_tags;
+        check_stream(in);
         tags.resize(static_cast<size_t>(num_tags));
         for (int j = 0; j < num_tags; j++) {
             in >> tags[static_cast<size_t>(j)];
@@ -183,10 +186,11 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
     int32_t max_tag = 0;
     size_t num_processed_elements = 0;
     while (num_processed_elements != elements.num_elements) {
-        int32_t element_type, num_elements_in_block, num_tags, element_id;
+        int32_t element_type = 0, num_elements_in_block = 0, num_tags = 0, element_id = 0;
         in.read(reinterpret_cast<char*>(&element_type), 4);
         in.read(reinterpret_cast<char*>(&num_elements_in_block), 4);
         in.read(reinterpret_cast<char*>(&num_tags), 4);
+        check_stream(in);
 
         tags.resize(static_cast<size_t>(num_tags));
 
@@ -199,6 +203,7 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
             in.read(reinterpret_cast<char*>(&element_id), 4);
             in.read(reinterpret_cast<char*>(tags.data()), 4 * num_tags);
             in.read(reinterpret_cast<char*>(node_ids.data()), static_cast<int>(4 * n));
+            check_stream(in);
 
             min_tag = std::min(min_tag, element_id);
             max_tag = std::max(max_tag, element_id);
diff --git a/src/load_msh_entities.cpp b/src/load_msh_entities.cpp
index 83f0cc1..bed82c2 100644
--- a/src/load_msh_entities.cpp
+++ b/src/load_msh_entities.cpp
@@ -12,12 +12,12 @@ namespace v41 {
 
 void load_entities_ascii(std::istream& in, MshSpec& spec)
 {
-    size_t num_points, num_curves, num_surfaces, num_volumes;
+    size_t num_points = 0, num_curves = 0, num_surfaces = 0, num_volumes = 0;
     in >> num_points;
     in >> num_curves;
     in >> num_surfaces;
     in >> num_volumes;
-    assert(in.good());
+    check_stream(in);
 
     Entities& entities = spec.entities;
     entities.points.resize(num_points);
@@ -31,8 +31,9 @@ void load_entities_ascii(std::istream& in, MshSpec& spec)
         in >> point.x;
         in >> point.y;
         in >> point.z;
-        size_t num_physical_groups;
+        size_t num_physical_groups = 0;
         in >> num_physical_groups;
+        check_stream(in);
         point.physical_group_tags.resize(num_physical_groups);
         for (size_t j = 0; j < num_physical_groups; j++) {
             in >> point.physical_group_tags[j];
@@ -48,14 +49,16 @@ void load_entities_ascii(std::istream& in, MshSpec& spec)
         in >> curve.max_x;
         in >> curve.max_y;
         in >> curve.max_z;
-        size_t num_physical_groups;
+        size_t num_physical_groups = 0;
         in >> num_physical_groups;
+        check_stream(in);
         curve.physical_group_tags.resize(num_physical_groups);
         for (size_t j = 0; j < num_physical_groups; j++) {
             in >> curve.physical_group_tags[j];
         }
-        size_t num_boundary_points;
+        size_t num_boundary_points = 0;
         in >> num_boundary_points;
+        check_stream(in);
         curve.boundary_point_tags.resize(num_boundary_points);
         for (size_t j = 0; j < num_boundary_points; j++) {
             in >> curve.boundary_point_tags[j];
@@ -71,14 +74,16 @@ void load_entities_ascii(std::istream& in, MshSpec& spec)
         in >> surface.max_x;
         in >> surface.max_y;
         in >> surface.max_z;
-        size_t num_physical_groups;
+        size_t num_physical_groups = 0;
         in >> num_physical_groups;
+        check_stream(in);
         surface.physical_group_tags.resize(num_physical_groups);
         for (size_t j = 0; j < num_physical_groups; j++) {
             in >> surface.physical_group_tags[j];
         }
-        size_t num_boundary_curves;
+        size_t num_boundary_curves = 0;
         in >> num_boundary_curves;
+        check_stream(in);
         surface.boundary_curve_tags.resize(num_boundary_curves);
         for (size_t j = 0; j < num_boundary_curves; j++) {
             in >> surface.boundary_curve_tags[j];
@@ -94,32 +99,34 @@ void load_entities_ascii(std::istream& in, MshSpec& spec)
         in >> volume.max_x;
         in >> volume.max_y;
         in >> volume.max_z;
-        size_t num_physical_groups;
+        size_t num_physical_groups = 0;
         in >> num_physical_groups;
+        check_stream(in);
         volume.physical_group_tags.resize(num_physical_groups);
         for (size_t j = 0; j < num_physical_groups; j++) {
             in >> volume.physical_group_tags[j];
         }
-        size_t num_boundary_surfaces;
+        size_t num_boundary_surfaces = 0;
         in >> num_boundary_surfaces;
+        check_stream(in);
         volume.boundary_surface_tags.resize(num_boundary_surfaces);
         for (size_t j = 0; j < num_boundary_surfaces; j++) {
             in >> volume.boundary_surface_tags[j];
         }
     }
 
-    assert(in.good());
+    check_stream(in);
 }
 
 void load_entities_binary(std::istream& in, MshSpec& spec)
 {
     eat_white_space(in, 1);
-    size_t num_points, num_curves, num_surfaces, num_volumes;
+    size_t num_points = 0, num_curves = 0, num_surfaces = 0, num_volumes = 0;
     in.read(reinterpret_cast<char*>(&num_points), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&num_curves), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&num_surfaces), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&num_volumes), sizeof(size_t));
-    assert(in.good());
+    check_stream(in);
 
     Entities& entities = spec.entities;
     entities.points.resize(num_points);
@@ -133,14 +140,14 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&point.x), sizeof(double));
         in.read(reinterpret_cast<char*>(&point.y), sizeof(double));
         in.read(reinterpret_cast<char*>(&point.z), sizeof(double));
-        size_t num_physical_groups;
+        size_t num_physical_groups = 0;
         in.read(reinterpret_cast<char*>(&num_physical_groups), sizeof(size_t));
-        assert(in.good());
+        check_stream(in);
 
         point.physical_group_tags.resize(num_physical_groups);
         in.read(reinterpret_cast<char*>(point.physical_group_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_physical_groups));
-        assert(in.good());
+        check_stream(in);
     }
 
     for (size_t i = 0; i < num_curves; i++) {
@@ -152,23 +159,23 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&curve.max_x), sizeof(double));
         in.read(reinterpret_cast<char*>(&curve.max_y), sizeof(double));
         in.read(reinterpret_cast<char*>(&curve.max_z), sizeof(double));
-        size_t num_physical_groups;
+        size_t num_physical_groups = 0;
         in.read(reinterpret_cast<char*>(&num_physical_groups), sizeof(size_t));
-        assert(in.good());
+        check_stream(in);
 
         curve.physical_group_tags.resize(num_physical_groups);
         in.read(reinterpret_cast<char*>(curve.physical_group_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_physical_groups));
-        assert(in.good());
+        check_stream(in);
 
-        size_t num_boundary_points;
+        size_t num_boundary_points = 0;
         in.read(reinterpret_cast<char*>(&num_boundary_points), sizeof(size_t));
-        assert(in.good());
+        check_stream(in);
 
         curve.boundary_point_tags.resize(num_boundary_points);
         in.read(reinterpret_cast<char*>(curve.boundary_point_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_boundary_points));
-        assert(in.good());
+        check_stream(in);
     }
 
     for (size_t i = 0; i < num_surfaces; i++) {
@@ -180,23 +187,23 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&surface.max_x), sizeof(double));
         in.read(reinterpret_cast<char*>(&surface.max_y), sizeof(double));
         in.read(reinterpret_cast<char*>(&surface.max_z), sizeof(double));
-        size_t num_physical_groups;
+        size_t num_physical_groups = 0;
         in.read(reinterpret_cast<char*>(&num_physical_groups), sizeof(size_t));
-        assert(in.good());
+        check_stream(in);
 
         surface.physical_group_tags.resize(num_physical_groups);
         in.read(reinterpret_cast<char*>(surface.physical_group_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_physical_groups));
-        assert(in.good());
+        check_stream(in);
 
-        size_t num_boundary_curves;
+        size_t num_boundary_curves = 0;
         in.read(reinterpret_cast<char*>(&num_boundary_curves), sizeof(size_t));
-        assert(in.good());
+        check_stream(in);
 
         surface.boundary_curve_tags.resize(num_boundary_curves);
         in.read(reinterpret_cast<char*>(surface.boundary_curve_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_boundary_curves));
-        assert(in.good());
+        check_stream(in);
     }
 
     for (size_t i = 0; i < num_volumes; i++) {
@@ -208,23 +215,23 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&volume.max_x), sizeof(double));
         in.read(reinterpret_cast<char*>(&volume.max_y), sizeof(double));
         in.read(reinterpret_cast<char*>(&volume.max_z), sizeof(double));
-        size_t num_physical_groups;
+        size_t num_physical_groups = 0;
         in.read(reinterpret_cast<char*>(&num_physical_groups), sizeof(size_t));
-        assert(in.good());
+        check_stream(in);
 
         volume.physical_group_tags.resize(num_physical_groups);
         in.read(reinterpret_cast<char*>(volume.physical_group_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_physical_groups));
-        assert(in.good());
+        check_stream(in);
 
-        size_t num_boundary_surfaces;
+        size_t num_boundary_surfaces = 0;
         in.read(reinterpret_cast<char*>(&num_boundary_surfaces), sizeof(size_t));
-        assert(in.good());
+        check_stream(in);
 
         volume.boundary_surface_tags.resize(num_boundary_surfaces);
         in.read(reinterpret_cast<char*>(volume.boundary_surface_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_boundary_surfaces));
-        assert(in.good());
+        check_stream(in);
     }
 }
 
diff --git a/src/load_msh_nodes.cpp b/src/load_msh_nodes.cpp
index f6c4627..c05e8db 100644
--- a/src/load_msh_nodes.cpp
+++ b/src/load_msh_nodes.cpp
@@ -21,7 +21,7 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
     in >> nodes.num_nodes;
     in >> nodes.min_node_tag;
     in >> nodes.max_node_tag;
-    assert(in.good());
+    check_stream(in);
     nodes.entity_blocks.resize(nodes.num_entity_blocks);
     for (size_t i = 0; i < nodes.num_entity_blocks; i++) {
         NodeBlock& block = nodes.entity_blocks[i];
@@ -29,13 +29,13 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
         in >> block.entity_tag;
         in >> block.parametric;
         in >> block.num_nodes_in_block;
-        assert(in.good());
+        check_stream(in);
 
         block.tags.resize(block.num_nodes_in_block);
         for (size_t j = 0; j < block.num_nodes_in_block; j++) {
             in >> block.tags[j];
         }
-        assert(in.good());
+        check_stream(in);
 
         assert(block.parametric >= 0 && block.parametric <= 3);
         const size_t entries_per_node =
@@ -46,7 +46,7 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
                 in >> block.data[j * entries_per_node + k];
             }
         }
-        assert(in.good());
+        check_stream(in);
     }
 }
 
@@ -58,7 +58,7 @@ void load_nodes_binary(std::istream& in, MshSpec& spec)
     in.read(reinterpret_cast<char*>(&nodes.num_nodes), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&nodes.min_node_tag), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&nodes.max_node_tag), sizeof(size_t));
-    assert(in.good());
+    check_stream(in);
     nodes.entity_blocks.resize(nodes.num_entity_blocks);
     for (size_t i = 0; i < nodes.num_entity_blocks; i++) {
         NodeBlock& block = nodes.entity_blocks[i];
@@ -66,12 +66,12 @@ void load_nodes_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&block.entity_tag), sizeof(int));
         in.read(reinterpret_cast<char*>(&block.parametric), sizeof(int));
         in.read(reinterpret_cast<char*>(&block.num_nodes_in_block), sizeof(size_t));
-        assert(in.good());
+        check_stream(in);
 
         block.tags.resize(block.num_nodes_in_block);
         in.read(reinterpret_cast<char*>(block.tags.data()),
             static_cast<std::streamsize>(sizeof(size_t) * block.num_nodes_in_block));
-        assert(in.good());
+        check_stream(in);
 
         const size_t entries_per_node =
             static_cast<size_t>(3 + ((block.parametric == 1) ? block.entity_dim : 0));
@@ -79,7 +79,7 @@ void load_nodes_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(block.data.data()),
             static_cast<std::streamsize>(
                 sizeof(double) * block.num_nodes_in_block * entries_per_node));
-        assert(in.good());
+        check_stream(in);
     }
 }
 
@@ -98,7 +98,7 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
     block.entity_tag = 0; // Same as above.
     block.parametric = 0;
     in >> block.num_nodes_in_block;
-    assert(in.good());
+    check_stream(in);
     nodes.num_nodes += block.num_nodes_in_block;
 
     block.tags.resize(block.num_nodes_in_block);
@@ -108,7 +108,7 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
         in >> block.data[i * 3];
         in >> block.data[i * 3 + 1];
         in >> block.data[i * 3 + 2];
-        assert(in.good());
+        check_stream(in);
     }
 
     if (block.num_nodes_in_block > 0) {
@@ -130,15 +130,15 @@ void load_nodes_binary(std::istream& in, MshSpec& spec)
     block.entity_tag = 0; // Same as above.
     block.parametric = 0;
     in >> block.num_nodes_in_block;
-    assert(in.good());
+    check_stream(in);
     nodes.num_nodes += block.num_nodes_in_block;
 
     block.tags.resize(block.num_nodes_in_block);
     block.data.resize(block.num_nodes_in_block * 3);
     eat_white_space(in, 1);
     for (size_t i = 0; i < block.num_nodes_in_block; i++) {
-        assert(in.good());
-        int tag;
+        check_stream(in);
+        int tag = 0;
         in.read(reinterpret_cast<char*>(&tag), sizeof(int));
         block.tags[i] = static_cast<size_t>(tag);
         in.read(reinterpret_cast<char*>(block.data.data() + i * 3), sizeof(double) * 3);
diff --git a/src/load_msh_patches.cpp b/src/load_msh_patches.cpp
index 161c679..d69ec0b 100644
--- a/src/load_msh_patches.cpp
+++ b/src/load_msh_patches.cpp
@@ -9,7 +9,7 @@ void load_patches_ascii(std::istream& in, MshSpec& spec)
 {
 #ifdef MSHIO_EXT_NANOSPLINE
     auto& patches = spec.patches;
-    size_t num_patches;
+    size_t num_patches = 0;
     in >> num_patches;
     patches.resize(num_patches);
 
@@ -23,6 +23,7 @@ void load_patches_ascii(std::istream& in, MshSpec& spec)
         in >> patch.num_u_knots;
         in >> patch.num_v_knots;
         in >> patch.with_weights;
+        check_stream(in);
 
         const size_t dim = (patch.with_weights > 0) ? 4 : 3;
         const size_t num_entries =
@@ -40,7 +41,7 @@ void load_patches_binary(std::istream& in, MshSpec& spec)
 {
 #ifdef MSHIO_EXT_NANOSPLINE
     auto& patches = spec.patches;
-    size_t num_patches;
+    size_t num_patches = 0;
     in >> num_patches;
     patches.resize(num_patches);
 
@@ -54,6 +55,7 @@ void load_patches_binary(std::istream& in, MshSpec& spec)
         in >> patch.num_u_knots;
         in >> patch.num_v_knots;
         in >> patch.with_weights;
+        check_stream(in);
 
         const size_t dim = (patch.with_weights > 0) ? 4 : 3;
         const size_t num_entries =
diff --git a/src/load_msh_physical_groups.cpp b/src/load_msh_physical_groups.cpp
index c857d4a..9e6a593 100644
--- a/src/load_msh_physical_groups.cpp
+++ b/src/load_msh_physical_groups.cpp
@@ -1,4 +1,5 @@
 #include "load_msh_physical_groups.h"
+#include "io_utils.h"
 
 #include <mshio/MshSpec.h>
 
@@ -12,7 +13,7 @@ namespace mshio {
 void load_physical_groups(std::istream& in, MshSpec& spec)
 {
     auto& groups = spec.physical_groups;
-    int num_groups;
+    int num_groups = 0;
     in >> num_groups;
     spec.physical_groups.resize(num_groups);
     for (int i = 0; i < num_groups; i++) {
@@ -21,7 +22,7 @@ void load_physical_groups(std::istream& in, MshSpec& spec)
         in >> group.tag;
         in >> std::quoted(group.name);
     }
-    assert(in.good());
+    check_stream(in);
 }
 
 } // namespace mshio
-- 
2.43.0


From e9355efc595eb760b6374cdd25948fb9e01e648b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:58 +0000
Subject: [PATCH 05/15] fix: refuse negative and overflowing counts when
 loading

Element, data, node and spline counts from the file could overflow the size
of the array they describe (out-of-bounds writes) or drive endless loops.
---
 src/load_msh_curves.cpp   | 10 ++++++++++
 src/load_msh_data.cpp     | 17 +++++++++++++++++
 src/load_msh_elements.cpp |  8 +++++++-
 src/load_msh_nodes.cpp    | 13 ++++++++++++-
 src/load_msh_patches.cpp  | 12 ++++++++++++
 5 files changed, 58 insertions(+), 2 deletions(-)

diff --git a/src/load_msh_curves.cpp b/src/load_msh_curves.cpp
index ec7baf3..700372a 100644
--- a/src/load_msh_curves.cpp
+++ b/src/load_msh_curves.cpp
@@ -1,6 +1,10 @@
 #include "load_msh_curves.h"
 #include "io_utils.h"
 
+#include <mshio/exception.h>
+
+#include <algorithm>
+
 namespace mshio {
 
 namespace {
@@ -22,6 +26,9 @@ void load_curves_ascii(std::istream& in, MshSpec& spec)
         in >> curve.num_knots;
         in >> curve.with_weights;
         check_stream(in);
+        if (std::max(curve.num_control_points, curve.num_knots) > curve.data.max_size() / 8) {
+            throw InvalidFormat("Invalid curve size!");
+        }
 
         size_t num_entries =
             curve.num_control_points * ((curve.with_weights > 0) ? 4 : 3) + curve.num_knots;
@@ -50,6 +57,9 @@ void load_curves_binary(std::istream& in, MshSpec& spec)
         in >> curve.num_knots;
         in >> curve.with_weights;
         check_stream(in);
+        if (std::max(curve.num_control_points, curve.num_knots) > curve.data.max_size() / 8) {
+            throw InvalidFormat("Invalid curve size!");
+        }
 
         eat_white_space(in, 1);
         size_t num_entries =
diff --git a/src/load_msh_data.cpp b/src/load_msh_data.cpp
index 1c799ee..28201e8 100644
--- a/src/load_msh_data.cpp
+++ b/src/load_msh_data.cpp
@@ -37,6 +37,14 @@ void load_data_header(std::istream& in, DataHeader& header)
     check_stream(in);
 }
 
+void check_num_nodes_per_element(std::istream& in, const DataEntry& entry)
+{
+    check_stream(in);
+    if (entry.num_nodes_per_element < 0) {
+        throw InvalidFormat("Invalid number of nodes per element in data entry.");
+    }
+}
+
 namespace v41 {
 void load_data_entry(
     std::istream& in, DataEntry& entry, size_t fields_per_entry, bool is_element_node_data)
@@ -47,10 +55,12 @@ void load_data_entry(
     // report a bug?
     int32_t tag_32 = 0;
     in.read(reinterpret_cast<char*>(&tag_32), 4);
+    check_stream(in);
     entry.tag = static_cast<size_t>(tag_32);
     // in.read(reinterpret_cast<char*>(&entry.tag), sizeof(size_t));
     if (is_element_node_data) {
         in.read(reinterpret_cast<char*>(&entry.num_nodes_per_element), sizeof(int));
+        check_num_nodes_per_element(in, entry);
         entry.data.resize(fields_per_entry * static_cast<size_t>(entry.num_nodes_per_element));
     } else {
         entry.data.resize(fields_per_entry);
@@ -66,11 +76,13 @@ void load_data_entry(
 {
     int32_t tag_32 = 0;
     in.read(reinterpret_cast<char*>(&tag_32), 4);
+    check_stream(in);
     entry.tag = static_cast<size_t>(tag_32);
     if (is_element_node_data) {
         int32_t num_nodes_per_element = 0;
         in.read(reinterpret_cast<char*>(&num_nodes_per_element), 4);
         entry.num_nodes_per_element = static_cast<int>(num_nodes_per_element);
+        check_num_nodes_per_element(in, entry);
         entry.data.resize(fields_per_entry * static_cast<size_t>(entry.num_nodes_per_element));
     } else {
         entry.data.resize(fields_per_entry);
@@ -91,6 +103,9 @@ void load_data(std::istream& in,
     if (data.header.int_tags.size() < 3) {
         throw InvalidFormat("Data requires at least 3 int tags.");
     }
+    if (data.header.int_tags[1] < 0 || data.header.int_tags[2] < 0) {
+        throw InvalidFormat("Invalid number of data fields or entries.");
+    }
 
     size_t fields_per_entry = static_cast<size_t>(data.header.int_tags[1]);
     size_t num_entries = static_cast<size_t>(data.header.int_tags[2]);
@@ -111,10 +126,12 @@ void load_data(std::istream& in,
         }
     } else {
         for (size_t i = 0; i < num_entries; i++) {
+            check_stream(in);
             DataEntry& entry = data.entries[i];
             in >> entry.tag;
             if (is_element_node_data) {
                 in >> entry.num_nodes_per_element;
+                check_num_nodes_per_element(in, entry);
                 entry.data.resize(fields_per_entry * entry.num_nodes_per_element);
                 for (size_t j = 0; j < entry.num_nodes_per_element; j++) {
                     for (size_t k = 0; k < fields_per_entry; k++) {
diff --git a/src/load_msh_elements.cpp b/src/load_msh_elements.cpp
index 2140a2f..99e1101 100644
--- a/src/load_msh_elements.cpp
+++ b/src/load_msh_elements.cpp
@@ -40,6 +40,9 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
         check_stream(in);
 
         const size_t n = nodes_per_element(block.element_type);
+        if (block.num_elements_in_block > block.data.max_size() / (n + 1)) {
+            throw InvalidFormat("Invalid number of elements in block!");
+        }
         block.data.resize(block.num_elements_in_block * (n + 1));
         for (size_t j = 0; j < block.num_elements_in_block; j++) {
             for (size_t k = 0; k <= n; k++) {
@@ -71,6 +74,9 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
         check_stream(in);
 
         const size_t n = nodes_per_element(block.element_type);
+        if (block.num_elements_in_block > block.data.max_size() / (n + 1)) {
+            throw InvalidFormat("Invalid number of elements in block!");
+        }
         block.data.resize(block.num_elements_in_block * (n + 1));
         in.read(reinterpret_cast<char*>(block.data.data()),
             static_cast<std::streamsize>(sizeof(size_t) * block.data.size()));
@@ -201,7 +207,7 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
         // a regrouping will happen at post-processing time.
         for (size_t i = 0; i < num_elements_in_block; i++) {
             in.read(reinterpret_cast<char*>(&element_id), 4);
-            in.read(reinterpret_cast<char*>(tags.data()), 4 * num_tags);
+            in.read(reinterpret_cast<char*>(tags.data()), static_cast<std::streamsize>(4 * tags.size()));
             in.read(reinterpret_cast<char*>(node_ids.data()), static_cast<int>(4 * n));
             check_stream(in);
 
diff --git a/src/load_msh_nodes.cpp b/src/load_msh_nodes.cpp
index c05e8db..fa559b2 100644
--- a/src/load_msh_nodes.cpp
+++ b/src/load_msh_nodes.cpp
@@ -14,6 +14,16 @@
 namespace mshio {
 namespace v41 {
 
+namespace {
+void check_node_block(const NodeBlock& block)
+{
+    if (block.parametric < 0 || block.parametric > 3 ||
+        (block.parametric == 1 && (block.entity_dim < 0 || block.entity_dim > 3))) {
+        throw InvalidFormat("Invalid node block header!");
+    }
+}
+} // namespace
+
 void load_nodes_ascii(std::istream& in, MshSpec& spec)
 {
     Nodes& nodes = spec.nodes;
@@ -30,6 +40,7 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
         in >> block.parametric;
         in >> block.num_nodes_in_block;
         check_stream(in);
+        check_node_block(block);
 
         block.tags.resize(block.num_nodes_in_block);
         for (size_t j = 0; j < block.num_nodes_in_block; j++) {
@@ -37,7 +48,6 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
         }
         check_stream(in);
 
-        assert(block.parametric >= 0 && block.parametric <= 3);
         const size_t entries_per_node =
             static_cast<size_t>(3 + ((block.parametric == 1) ? block.entity_dim : 0));
         block.data.resize(block.num_nodes_in_block * entries_per_node);
@@ -67,6 +77,7 @@ void load_nodes_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&block.parametric), sizeof(int));
         in.read(reinterpret_cast<char*>(&block.num_nodes_in_block), sizeof(size_t));
         check_stream(in);
+        check_node_block(block);
 
         block.tags.resize(block.num_nodes_in_block);
         in.read(reinterpret_cast<char*>(block.tags.data()),
diff --git a/src/load_msh_patches.cpp b/src/load_msh_patches.cpp
index d69ec0b..4489a7d 100644
--- a/src/load_msh_patches.cpp
+++ b/src/load_msh_patches.cpp
@@ -1,6 +1,10 @@
 #include "load_msh_patches.h"
 #include "io_utils.h"
 
+#include <mshio/exception.h>
+
+#include <algorithm>
+
 namespace mshio {
 
 namespace {
@@ -24,6 +28,10 @@ void load_patches_ascii(std::istream& in, MshSpec& spec)
         in >> patch.num_v_knots;
         in >> patch.with_weights;
         check_stream(in);
+        if (std::max({patch.num_control_points, patch.num_u_knots, patch.num_v_knots}) >
+            patch.data.max_size() / 8) {
+            throw InvalidFormat("Invalid patch size!");
+        }
 
         const size_t dim = (patch.with_weights > 0) ? 4 : 3;
         const size_t num_entries =
@@ -56,6 +64,10 @@ void load_patches_binary(std::istream& in, MshSpec& spec)
         in >> patch.num_v_knots;
         in >> patch.with_weights;
         check_stream(in);
+        if (std::max({patch.num_control_points, patch.num_u_knots, patch.num_v_knots}) >
+            patch.data.max_size() / 8) {
+            throw InvalidFormat("Invalid patch size!");
+        }
 
         const size_t dim = (patch.with_weights > 0) ? 4 : 3;
         const size_t num_entries =
-- 
2.43.0


From b4ef06479307ecee14defc914ac14d1d4fddab68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 06/15] fix: report write failures when saving to a file

A full disk or I/O error left a truncated file and a normal return.
---
 src/save_msh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/save_msh.cpp b/src/save_msh.cpp
index 8f90b88..78f6dbb 100644
--- a/src/save_msh.cpp
+++ b/src/save_msh.cpp
@@ -12,6 +12,7 @@
 
 #include <cassert>
 #include <fstream>
+#include <stdexcept>
 
 namespace mshio {
 
@@ -57,6 +58,10 @@ void save_msh(const std::string& filename, const MshSpec& spec)
         throw std::runtime_error("Unable to open output file to write!");
     }
     save_msh(fout, spec);
+    fout.close();
+    if (fout.fail()) {
+        throw std::runtime_error("Unable to write output file!");
+    }
 }
 
 } // namespace mshio
-- 
2.43.0


From 7571e26bcef4a856556d7ed82421c750dda77374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 07/15] fix: refuse to save unsupported versions and element
 types

Specs without nodes or elements were saved with any version string, and v4.1
binary wrote unsupported element types; neither file can be loaded.
---
 src/save_msh.cpp          | 6 ++++++
 src/save_msh_elements.cpp | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/save_msh.cpp b/src/save_msh.cpp
index 78f6dbb..7844562 100644
--- a/src/save_msh.cpp
+++ b/src/save_msh.cpp
@@ -1,4 +1,5 @@
 #include <mshio/MshSpec.h>
+#include <mshio/exception.h>
 
 #include "save_msh_curves.h"
 #include "save_msh_data.h"
@@ -18,6 +19,11 @@ namespace mshio {
 
 void save_msh(std::ostream& out, const MshSpec& spec)
 {
+    const std::string& version = spec.mesh_format.version;
+    if (version != "2.2" && version != "4.1") {
+        throw UnsupportedFeature("Unsupported MSH version: " + version);
+    }
+
     save_mesh_format(out, spec);
     if (spec.physical_groups.size() > 0) {
         save_physical_groups(out, spec);
diff --git a/src/save_msh_elements.cpp b/src/save_msh_elements.cpp
index af91257..ccfaa6d 100644
--- a/src/save_msh_elements.cpp
+++ b/src/save_msh_elements.cpp
@@ -52,6 +52,7 @@ void save_elements_binary(std::ostream& out, const MshSpec& spec)
 
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
         const ElementBlock& block = elements.entity_blocks[i];
+        assert_element_is_supported(block.element_type);
 
         out.write(reinterpret_cast<const char*>(&block.entity_dim), sizeof(int));
         out.write(reinterpret_cast<const char*>(&block.entity_tag), sizeof(int));
-- 
2.43.0


From dde7ebabaf31fa73441398bc0caa8976bed41dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 08/15] fix: keep tags above 2^31 or refuse them, never
 truncate

Binary v2.2 records and all binary data records silently truncated tags to
32 bits; ASCII v2.2 could save large element tags but not load them.
---
 src/io_utils.h            | 12 ++++++++++++
 src/load_msh_elements.cpp | 13 +++++++------
 src/save_msh_data.cpp     |  5 +++--
 src/save_msh_elements.cpp |  6 +++---
 src/save_msh_nodes.cpp    |  3 ++-
 5 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/io_utils.h b/src/io_utils.h
index a4e20b7..46c3e90 100644
--- a/src/io_utils.h
+++ b/src/io_utils.h
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <mshio/exception.h>
+
+#include <cstdint>
 #include <istream>
 #include <limits>
 
@@ -10,5 +13,14 @@ void eat_white_space(std::istream& in, size_t count = std::numeric_limits<size_t
 // Throws InvalidFormat if an earlier read from the stream failed.
 void check_stream(std::istream& in);
 
+// Narrows a tag or count to the 32-bit integer used by the file format.
+inline int32_t to_int32(size_t value)
+{
+    if (value > static_cast<size_t>(std::numeric_limits<int32_t>::max())) {
+        throw UnsupportedFeature("Value does not fit the 32-bit field of the MSH format!");
+    }
+    return static_cast<int32_t>(value);
+}
+
 } // namespace mshio
 
diff --git a/src/load_msh_elements.cpp b/src/load_msh_elements.cpp
index 99e1101..de7fb30 100644
--- a/src/load_msh_elements.cpp
+++ b/src/load_msh_elements.cpp
@@ -113,10 +113,11 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
     elements.num_entity_blocks += num_elements;
     elements.num_elements += num_elements;
 
-    int element_num = 0, element_type = 0;
+    size_t element_num = 0;
+    int element_type = 0;
     int num_tags = 0;
     std::vector<int> tags;
-    std::vector<int> node_ids;
+    std::vector<size_t> node_ids;
 
     std::array<std::map<int, std::set<int>>, 4> entity_tag_to_physical_tags;
 
@@ -137,9 +138,9 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
         }
 
         elements.min_element_tag =
-            std::min(elements.min_element_tag, static_cast<size_t>(element_num));
+            std::min(elements.min_element_tag, element_num);
         elements.max_element_tag =
-            std::max(elements.max_element_tag, static_cast<size_t>(element_num));
+            std::max(elements.max_element_tag, element_num);
 
         elements.entity_blocks.emplace_back();
         auto& block = elements.entity_blocks.back();
@@ -166,9 +167,9 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
         block.element_type = element_type;
         block.data.resize(n + 1);
 
-        block.data[0] = static_cast<size_t>(element_num);
+        block.data[0] = element_num;
         for (size_t j = 0; j < n; j++) {
-            block.data[j + 1] = static_cast<size_t>(node_ids[j]);
+            block.data[j + 1] = node_ids[j];
         }
     }
 
diff --git a/src/save_msh_data.cpp b/src/save_msh_data.cpp
index eb35260..9e737c5 100644
--- a/src/save_msh_data.cpp
+++ b/src/save_msh_data.cpp
@@ -1,4 +1,5 @@
 #include "save_msh_data.h"
+#include "io_utils.h"
 
 #include <mshio/MshSpec.h>
 #include <mshio/exception.h>
@@ -41,7 +42,7 @@ void save_data(std::ostream& out,
                 // Based on trial and error, it seems Gmsh 4.7.1 still expect 32
                 // bits tag, which is inconsistent with their spec.  Maybe
                 // report a bug?
-                tag = static_cast<int32_t>(entry.tag);
+                tag = to_int32(entry.tag);
                 out.write(reinterpret_cast<const char*>(&tag), 4);
                 // out.write(reinterpret_cast<const char*>(&entry.tag), sizeof(size_t));
                 if (is_element_node_data) {
@@ -54,7 +55,7 @@ void save_data(std::ostream& out,
         } else if (version == "2.2") {
             int32_t tag, num_nodes_per_element;
             for (const DataEntry& entry : data.entries) {
-                tag = static_cast<int32_t>(entry.tag);
+                tag = to_int32(entry.tag);
                 out.write(reinterpret_cast<const char*>(&tag), 4);
                 if (is_element_node_data) {
                     num_nodes_per_element = static_cast<int32_t>(entry.num_nodes_per_element);
diff --git a/src/save_msh_elements.cpp b/src/save_msh_elements.cpp
index ccfaa6d..c5bab04 100644
--- a/src/save_msh_elements.cpp
+++ b/src/save_msh_elements.cpp
@@ -102,7 +102,7 @@ void save_elements_binary(std::ostream& out, const MshSpec& spec)
         const ElementBlock& block = elements.entity_blocks[i];
         const int32_t element_type = block.element_type;
         constexpr int32_t num_tags = 1;
-        const int32_t num_element_in_block = static_cast<int32_t>(block.num_elements_in_block);
+        const int32_t num_element_in_block = to_int32(block.num_elements_in_block);
         out.write(reinterpret_cast<const char*>(&element_type), 4);
         out.write(reinterpret_cast<const char*>(&num_element_in_block), 4);
         out.write(reinterpret_cast<const char*>(&num_tags), 4);
@@ -111,11 +111,11 @@ void save_elements_binary(std::ostream& out, const MshSpec& spec)
         const int32_t tag = static_cast<int32_t>(block.entity_tag);
 
         for (size_t j = 0; j < block.num_elements_in_block; j++) {
-            const int32_t element_number = static_cast<int32_t>(block.data[j * (n + 1)]);
+            const int32_t element_number = to_int32(block.data[j * (n + 1)]);
             out.write(reinterpret_cast<const char*>(&element_number), 4);
             out.write(reinterpret_cast<const char*>(&tag), 4);
             for (size_t k = 0; k < n; k++) {
-                const int32_t node_id = static_cast<int32_t>(block.data[j * (n + 1) + k + 1]);
+                const int32_t node_id = to_int32(block.data[j * (n + 1) + k + 1]);
                 out.write(reinterpret_cast<const char*>(&node_id), 4);
             }
         }
diff --git a/src/save_msh_nodes.cpp b/src/save_msh_nodes.cpp
index f08fbca..69e7dff 100644
--- a/src/save_msh_nodes.cpp
+++ b/src/save_msh_nodes.cpp
@@ -1,4 +1,5 @@
 #include "save_msh_nodes.h"
+#include "io_utils.h"
 
 #include <mshio/MshSpec.h>
 #include <mshio/exception.h>
@@ -95,7 +96,7 @@ void save_nodes_binary(std::ostream& out, const MshSpec& spec)
         const size_t entries_per_node =
             static_cast<size_t>(3 + ((block.parametric == 1) ? block.entity_dim : 0));
         for (size_t j = 0; j < block.num_nodes_in_block; j++) {
-            const int32_t node_id = static_cast<int32_t>(block.tags[j]);
+            const int32_t node_id = to_int32(block.tags[j]);
             out.write(reinterpret_cast<const char*>(&node_id), 4);
             out.write(reinterpret_cast<const char*>(block.data.data() + j * entries_per_node),
                 static_cast<std::streamsize>(sizeof(double) * 3));
-- 
2.43.0


From dd981788e97f72ee7601756632026d357846a042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 09/15] fix: write the physical tag of v2.2 elements

Elements were saved with the entity tag only, so their physical groups were
lost, and the only tag stood where readers expect the physical tag.
---
 src/save_msh_elements.cpp | 42 +++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/save_msh_elements.cpp b/src/save_msh_elements.cpp
index c5bab04..96abc65 100644
--- a/src/save_msh_elements.cpp
+++ b/src/save_msh_elements.cpp
@@ -10,6 +10,7 @@
 #include <fstream>
 #include <sstream>
 #include <string>
+#include <vector>
 
 
 namespace mshio {
@@ -68,6 +69,32 @@ void save_elements_binary(std::ostream& out, const MshSpec& spec)
 
 namespace v22 {
 
+namespace {
+template <typename Entity>
+std::vector<int> find_element_tags(const std::vector<Entity>& entities, int entity_tag)
+{
+    for (const Entity& entity : entities) {
+        if (entity.tag == entity_tag && !entity.physical_group_tags.empty()) {
+            // Version 2.2 stores a single physical tag per element.
+            return {entity.physical_group_tags.front(), entity_tag};
+        }
+    }
+    return {entity_tag};
+}
+
+// Tags of the elements in a block: [physical tag, entity tag], or [entity tag] if the entity
+// belongs to no physical group.
+std::vector<int> get_element_tags(const MshSpec& spec, const ElementBlock& block)
+{
+    switch (get_element_dim(block.element_type)) {
+    case 0: return find_element_tags(spec.entities.points, block.entity_tag);
+    case 1: return find_element_tags(spec.entities.curves, block.entity_tag);
+    case 2: return find_element_tags(spec.entities.surfaces, block.entity_tag);
+    default: return find_element_tags(spec.entities.volumes, block.entity_tag);
+    }
+}
+} // namespace
+
 void save_elements_ascii(std::ostream& out, const MshSpec& spec)
 {
     const Elements& elements = spec.elements;
@@ -77,11 +104,13 @@ void save_elements_ascii(std::ostream& out, const MshSpec& spec)
         const ElementBlock& block = elements.entity_blocks[i];
         int element_type = block.element_type;
         const size_t n = nodes_per_element(element_type);
-        constexpr int num_tags = 1;
+        const std::vector<int> tags = get_element_tags(spec, block);
         for (size_t j = 0; j < block.num_elements_in_block; j++) {
             size_t element_number = block.data[j * (n + 1)];
-            out << element_number << " " << element_type << " " << num_tags << " "
-                << block.entity_tag << " ";
+            out << element_number << " " << element_type << " " << tags.size() << " ";
+            for (const int tag : tags) {
+                out << tag << " ";
+            }
             for (size_t k = 0; k < n; k++) {
                 out << block.data[j * (n + 1) + k + 1];
                 if (k == n - 1) {
@@ -101,19 +130,20 @@ void save_elements_binary(std::ostream& out, const MshSpec& spec)
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
         const ElementBlock& block = elements.entity_blocks[i];
         const int32_t element_type = block.element_type;
-        constexpr int32_t num_tags = 1;
+        const std::vector<int> tags = get_element_tags(spec, block);
+        const int32_t num_tags = static_cast<int32_t>(tags.size());
         const int32_t num_element_in_block = to_int32(block.num_elements_in_block);
         out.write(reinterpret_cast<const char*>(&element_type), 4);
         out.write(reinterpret_cast<const char*>(&num_element_in_block), 4);
         out.write(reinterpret_cast<const char*>(&num_tags), 4);
 
         const size_t n = nodes_per_element(element_type);
-        const int32_t tag = static_cast<int32_t>(block.entity_tag);
 
         for (size_t j = 0; j < block.num_elements_in_block; j++) {
             const int32_t element_number = to_int32(block.data[j * (n + 1)]);
             out.write(reinterpret_cast<const char*>(&element_number), 4);
-            out.write(reinterpret_cast<const char*>(&tag), 4);
+            out.write(reinterpret_cast<const char*>(tags.data()),
+                static_cast<std::streamsize>(4 * tags.size()));
             for (size_t k = 0; k < n; k++) {
                 const int32_t node_id = to_int32(block.data[j * (n + 1) + k + 1]);
                 out.write(reinterpret_cast<const char*>(&node_id), 4);
-- 
2.43.0


From ab58f63576a9c7e69693897fcf43f4c70f8114ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 10/15] fix: write floating point numbers with full precision
 in ASCII

The default stream precision kept six digits of every coordinate and value.
---
 src/io_utils.h   | 19 +++++++++++++++++++
 src/save_msh.cpp |  2 ++
 2 files changed, 21 insertions(+)

diff --git a/src/io_utils.h b/src/io_utils.h
index 46c3e90..4d0a7b3 100644
--- a/src/io_utils.h
+++ b/src/io_utils.h
@@ -22,5 +22,24 @@ inline int32_t to_int32(size_t value)
     return static_cast<int32_t>(value);
 }
 
+// Sets the precision that writes floating point numbers exactly, and restores it when done.
+class StreamFormatGuard
+{
+public:
+    explicit StreamFormatGuard(std::ios& stream)
+        : m_stream(stream)
+        , m_precision(stream.precision(std::numeric_limits<double>::max_digits10))
+    {}
+
+    ~StreamFormatGuard() { m_stream.precision(m_precision); }
+
+    StreamFormatGuard(const StreamFormatGuard&) = delete;
+    StreamFormatGuard& operator=(const StreamFormatGuard&) = delete;
+
+private:
+    std::ios& m_stream;
+    std::streamsize m_precision;
+};
+
 } // namespace mshio
 
diff --git a/src/save_msh.cpp b/src/save_msh.cpp
index 7844562..1632a61 100644
--- a/src/save_msh.cpp
+++ b/src/save_msh.cpp
@@ -1,6 +1,7 @@
 #include <mshio/MshSpec.h>
 #include <mshio/exception.h>
 
+#include "io_utils.h"
 #include "save_msh_curves.h"
 #include "save_msh_data.h"
 #include "save_msh_elements.h"
@@ -24,6 +25,7 @@ void save_msh(std::ostream& out, const MshSpec& spec)
         throw UnsupportedFeature("Unsupported MSH version: " + version);
     }
 
+    const StreamFormatGuard guard(out);
     save_mesh_format(out, spec);
     if (spec.physical_groups.size() > 0) {
         save_physical_groups(out, spec);
-- 
2.43.0


From 1e89d6db184aa254bbde41a6065b094e5b319efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 11/15] fix: read and write independently of locale and stream
 formatting

A global locale with digit grouping or a decimal comma, or a stream left in
hex or noskipws mode, produced and required corrupt files.
---
 src/io_utils.h   | 19 +++++++++++++++++--
 src/load_msh.cpp |  2 ++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/io_utils.h b/src/io_utils.h
index 4d0a7b3..9750157 100644
--- a/src/io_utils.h
+++ b/src/io_utils.h
@@ -5,6 +5,7 @@
 #include <cstdint>
 #include <istream>
 #include <limits>
+#include <locale>
 
 namespace mshio {
 
@@ -22,23 +23,37 @@ inline int32_t to_int32(size_t value)
     return static_cast<int32_t>(value);
 }
 
-// Sets the precision that writes floating point numbers exactly, and restores it when done.
+// Sets the plain formatting state that MSH files are read and written with (classic locale,
+// decimal integers, floating point numbers with full precision) whatever the state of the stream
+// is, and restores that state when done.
 class StreamFormatGuard
 {
 public:
     explicit StreamFormatGuard(std::ios& stream)
         : m_stream(stream)
+        , m_locale(stream.imbue(std::locale::classic()))
+        , m_flags(stream.flags(std::ios::dec | std::ios::skipws))
         , m_precision(stream.precision(std::numeric_limits<double>::max_digits10))
+        , m_width(stream.width(0))
     {}
 
-    ~StreamFormatGuard() { m_stream.precision(m_precision); }
+    ~StreamFormatGuard()
+    {
+        m_stream.width(m_width);
+        m_stream.precision(m_precision);
+        m_stream.flags(m_flags);
+        m_stream.imbue(m_locale);
+    }
 
     StreamFormatGuard(const StreamFormatGuard&) = delete;
     StreamFormatGuard& operator=(const StreamFormatGuard&) = delete;
 
 private:
     std::ios& m_stream;
+    std::locale m_locale;
+    std::ios::fmtflags m_flags;
     std::streamsize m_precision;
+    std::streamsize m_width;
 };
 
 } // namespace mshio
diff --git a/src/load_msh.cpp b/src/load_msh.cpp
index f932e9f..07c6e24 100644
--- a/src/load_msh.cpp
+++ b/src/load_msh.cpp
@@ -1,6 +1,7 @@
 #include <mshio/MshSpec.h>
 #include <mshio/exception.h>
 
+#include "io_utils.h"
 #include "load_msh_curves.h"
 #include "load_msh_data.h"
 #include "load_msh_elements.h"
@@ -32,6 +33,7 @@ void forward_to(std::istream& in, const std::string& flag)
 
 MshSpec load_msh(std::istream& in)
 {
+    const StreamFormatGuard guard(in);
     MshSpec spec;
     std::string buf, end_str;
     bool has_mesh_format = false;
-- 
2.43.0


From 0bf870fd0cfec1864a2712250ea3074416a4254c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 12/15] fix: find the end marker of a skipped section right
 after binary data

A build without the nanospline extension missed the end of the binary
sections written by a build with it, and lost whatever followed.
---
 src/load_msh.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/load_msh.cpp b/src/load_msh.cpp
index 07c6e24..0dd6615 100644
--- a/src/load_msh.cpp
+++ b/src/load_msh.cpp
@@ -23,7 +23,9 @@ namespace mshio {
 void forward_to(std::istream& in, const std::string& flag)
 {
     std::string buf;
-    while (buf != flag) {
+    // The marker may directly follow the binary data of a section whose content is skipped.
+    while (buf.size() < flag.size() ||
+           buf.compare(buf.size() - flag.size(), flag.size(), flag) != 0) {
         in >> buf;
         if (in.fail()) {
             throw InvalidFormat("Missing section end marker: " + flag);
-- 
2.43.0


From c8acd87c1db45ff5e78877a3ba5869ead50caee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 13/15] fix: expose DataEntry.num_nodes_per_element in Python
 under its documented name

---
 python/pymshio.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pymshio.cpp b/python/pymshio.cpp
index 19b7ec5..3084552 100644
--- a/python/pymshio.cpp
+++ b/python/pymshio.cpp
@@ -92,6 +92,8 @@ NB_MODULE(pymshio, m)
     nb::class_<mshio::DataEntry>(m, "DataEntry")
         .def(nb::init<>())
         .def_rw("tag", &mshio::DataEntry::tag)
+        .def_rw("num_nodes_per_element", &mshio::DataEntry::num_nodes_per_element)
+        // Misspelled name kept for compatibility.
         .def_rw("num_nodes_per_elements", &mshio::DataEntry::num_nodes_per_element)
         .def_rw("data", &mshio::DataEntry::data)
         .def("__repr__", [](const mshio::DataEntry& self) {
-- 
2.43.0


From a5733cc2cc3472d8efa36e9ae0802e9990f3bac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:23 +0000
Subject: [PATCH 14/15] fix: load 2.2 files in memory proportional to their
 size

Every node block reserved room for all nodes of the file, so that a mesh with many node blocks needed memory quadratic in its size.
---
 src/load_msh_post_process.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/load_msh_post_process.cpp b/src/load_msh_post_process.cpp
index 9b81ee2..811216c 100644
--- a/src/load_msh_post_process.cpp
+++ b/src/load_msh_post_process.cpp
@@ -47,8 +47,6 @@ void regroup_nodes_into_blocks(MshSpec& spec)
             if (dim != curr_dim || tag != curr_tag) {
                 node_blocks.emplace_back();
                 auto& curr_block = node_blocks.back();
-                curr_block.tags.reserve(block.num_nodes_in_block);
-                curr_block.data.reserve(block.num_nodes_in_block * 3);
                 curr_block.entity_dim = static_cast<int>(dim);
                 curr_block.entity_tag = static_cast<int>(tag);
                 curr_dim = dim;
-- 
2.43.0


From 2fce6023041a867138c497061a37b3b378c6860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:05 +0000
Subject: [PATCH 15/15] fix: save 2.2 elements in time proportional to the mesh

The entities were searched again for every element block.
---
 src/save_msh_elements.cpp | 41 ++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/save_msh_elements.cpp b/src/save_msh_elements.cpp
index 96abc65..e8b54a2 100644
--- a/src/save_msh_elements.cpp
+++ b/src/save_msh_elements.cpp
@@ -6,10 +6,12 @@
 #include <mshio/exception.h>
 
 #include <algorithm>
+#include <array>
 #include <cassert>
 #include <fstream>
 #include <sstream>
 #include <string>
+#include <unordered_map>
 #include <vector>
 
 
@@ -70,41 +72,53 @@ void save_elements_binary(std::ostream& out, const MshSpec& spec)
 namespace v22 {
 
 namespace {
+// Entity tag -> physical tag, for the entities of one dimension that belong to a physical group.
+using PhysicalTags = std::unordered_map<int, int>;
+
 template <typename Entity>
-std::vector<int> find_element_tags(const std::vector<Entity>& entities, int entity_tag)
+PhysicalTags get_physical_tags(const std::vector<Entity>& entities)
 {
+    PhysicalTags physical_tags;
     for (const Entity& entity : entities) {
-        if (entity.tag == entity_tag && !entity.physical_group_tags.empty()) {
+        if (!entity.physical_group_tags.empty()) {
             // Version 2.2 stores a single physical tag per element.
-            return {entity.physical_group_tags.front(), entity_tag};
+            physical_tags.emplace(entity.tag, entity.physical_group_tags.front());
         }
     }
-    return {entity_tag};
+    return physical_tags;
+}
+
+// Physical tags of the entities of each dimension.
+std::array<PhysicalTags, 4> get_physical_tags(const Entities& entities)
+{
+    return {get_physical_tags(entities.points), get_physical_tags(entities.curves),
+        get_physical_tags(entities.surfaces), get_physical_tags(entities.volumes)};
 }
 
 // Tags of the elements in a block: [physical tag, entity tag], or [entity tag] if the entity
 // belongs to no physical group.
-std::vector<int> get_element_tags(const MshSpec& spec, const ElementBlock& block)
+std::vector<int> get_element_tags(
+    const std::array<PhysicalTags, 4>& physical_tags, const ElementBlock& block)
 {
-    switch (get_element_dim(block.element_type)) {
-    case 0: return find_element_tags(spec.entities.points, block.entity_tag);
-    case 1: return find_element_tags(spec.entities.curves, block.entity_tag);
-    case 2: return find_element_tags(spec.entities.surfaces, block.entity_tag);
-    default: return find_element_tags(spec.entities.volumes, block.entity_tag);
-    }
+    const PhysicalTags& tags =
+        physical_tags[static_cast<size_t>(get_element_dim(block.element_type))];
+    const auto it = tags.find(block.entity_tag);
+    if (it == tags.end()) return {block.entity_tag};
+    return {it->second, block.entity_tag};
 }
 } // namespace
 
 void save_elements_ascii(std::ostream& out, const MshSpec& spec)
 {
     const Elements& elements = spec.elements;
+    const auto physical_tags = get_physical_tags(spec.entities);
     out << elements.num_elements << std::endl;
 
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
         const ElementBlock& block = elements.entity_blocks[i];
         int element_type = block.element_type;
         const size_t n = nodes_per_element(element_type);
-        const std::vector<int> tags = get_element_tags(spec, block);
+        const std::vector<int> tags = get_element_tags(physical_tags, block);
         for (size_t j = 0; j < block.num_elements_in_block; j++) {
             size_t element_number = block.data[j * (n + 1)];
             out << element_number << " " << element_type << " " << tags.size() << " ";
@@ -126,11 +140,12 @@ void save_elements_ascii(std::ostream& out, const MshSpec& spec)
 void save_elements_binary(std::ostream& out, const MshSpec& spec)
 {
     const Elements& elements = spec.elements;
+    const auto physical_tags = get_physical_tags(spec.entities);
     out << elements.num_elements << std::endl;
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
         const ElementBlock& block = elements.entity_blocks[i];
         const int32_t element_type = block.element_type;
-        const std::vector<int> tags = get_element_tags(spec, block);
+        const std::vector<int> tags = get_element_tags(physical_tags, block);
         const int32_t num_tags = static_cast<int32_t>(tags.size());
         const int32_t num_element_in_block = to_int32(block.num_elements_in_block);
         out.write(reinterpret_cast<const char*>(&element_type), 4);
-- 
2.43.0

