From b70a2ad51d0991507df89d98ad76ca49dbcb6ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:49 +0000
Subject: [PATCH 1/4] fix: clamp negative min_holes_size in multipolygons

A negative lower bound for holes count is warned about and treated as zero by
polygons and mixes, but multipolygons passed it on, which failed with an
assertion on prime grid size or skipped hole-less layouts.
---
 hypothesis_geometry/planar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis_geometry/planar.py b/hypothesis_geometry/planar.py
index c110b71..0971f62 100644
--- a/hypothesis_geometry/planar.py
+++ b/hypothesis_geometry/planar.py
@@ -1650,7 +1650,7 @@ def multipolygons(
         max_size=max_size,
         min_border_size=min_border_size,
         max_border_size=max_border_size,
-        min_hole_count=min_holes_size,
+        min_hole_count=max(min_holes_size, 0),
         max_hole_count=max_holes_size,
         min_hole_size=min_hole_size,
         max_hole_size=max_hole_size,
-- 
2.43.0


From 77adf5404d706255f362487c6423170c3ba5ec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:18 +0000
Subject: [PATCH 2/4] fix: keep visible reflex vertices in star contours

The angle between the neighbours that was tested is never the reflex one,
so every vertex with a reflex interior angle was dropped and only convex
contours were generated.
---
 hypothesis_geometry/_core/factories.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/hypothesis_geometry/_core/factories.py b/hypothesis_geometry/_core/factories.py
index faa937a..2435911 100644
--- a/hypothesis_geometry/_core/factories.py
+++ b/hypothesis_geometry/_core/factories.py
@@ -23,7 +23,6 @@ from locus import segmental
 
 from .constants import MIN_CONTOUR_SIZE
 from .contracts import (
-    angle_contains_point,
     has_horizontal_lowermost_segment,
     has_vertical_leftmost_segment,
 )
@@ -252,12 +251,14 @@ def to_star_contour_vertices(
             centroid = region_centroid_constructor(contour_cls(result))
             index = 0
             while max(index, 2) < len(result):
-                if not angle_contains_point(
-                    result[index],
-                    result[index - 1],
-                    result[(index + 1) % len(result)],
-                    centroid,
-                    orienteer=orienteer,
+                if not (
+                    orienteer(result[index - 1], result[index], centroid)
+                    is orienteer(
+                        result[index],
+                        result[(index + 1) % len(result)],
+                        centroid,
+                    )
+                    is Orientation.COUNTERCLOCKWISE
                 ):
                     del result[index]
                 index += 1
-- 
2.43.0


From e51a25317b6ed224d5b25e15cbbf7fd059183ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:06 +0000
Subject: [PATCH 3/4] fix: let sizes up to a non-prime upper bound occur

---
 hypothesis_geometry/_core/base.py      | 15 +++++++++++++--
 hypothesis_geometry/_core/constants.py |  1 +
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/hypothesis_geometry/_core/base.py b/hypothesis_geometry/_core/base.py
index 7e5f410..1ddeb47 100644
--- a/hypothesis_geometry/_core/base.py
+++ b/hypothesis_geometry/_core/base.py
@@ -21,7 +21,11 @@ from ground.hints import (
 )
 from hypothesis import strategies as st
 
-from .constants import MIN_CONTOUR_SIZE, MinContourSize
+from .constants import (
+    MAX_SEARCHED_GRID_SIZE,
+    MIN_CONTOUR_SIZE,
+    MinContourSize,
+)
 from .contracts import (
     are_segments_non_crossing_non_overlapping,
     are_vertices_non_convex,
@@ -938,7 +942,14 @@ def to_point_sequence_in_general_position_strategy(
 ) -> st.SearchStrategy[Sequence[Point[ScalarT]]]:
     grid_size_lower_bound = to_next_prime(min_size)
     grid_size_upper_bound = (
-        max_size if max_size is None else max(max_size, grid_size_lower_bound)
+        max_size
+        if max_size is None
+        else max(
+            max_size,
+            grid_size_lower_bound,
+            # prime search is slow for sizes that are out of reach anyway
+            to_next_prime(min(max_size, MAX_SEARCHED_GRID_SIZE)),
+        )
     )
 
     def coordinate_sequence_pair_to_point_sequence_strategy(
diff --git a/hypothesis_geometry/_core/constants.py b/hypothesis_geometry/_core/constants.py
index 435cdfb..04cacf7 100644
--- a/hypothesis_geometry/_core/constants.py
+++ b/hypothesis_geometry/_core/constants.py
@@ -7,6 +7,7 @@ class MinContourSize(IntEnum):
     CONVEX = 3
 
 
+MAX_SEARCHED_GRID_SIZE = 1 << 16
 MIN_CONTOUR_SIZE = min(MinContourSize)
 MIN_MULTIPOINT_SIZE = 1
 MIN_MULTICONTOUR_SIZE = MIN_MULTIPOLYGON_SIZE = MIN_MULTISEGMENT_SIZE = 2
-- 
2.43.0


From 1648ce0dd4d103865689bb2c73f55c553c830de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 4/4] fix: cut ears only when their fans can be flipped away

---
 hypothesis_geometry/_core/factories.py | 30 ++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/hypothesis_geometry/_core/factories.py b/hypothesis_geometry/_core/factories.py
index 2435911..cd37570 100644
--- a/hypothesis_geometry/_core/factories.py
+++ b/hypothesis_geometry/_core/factories.py
@@ -536,11 +536,14 @@ def _to_vertex_sequence(
         for _ in range(len(candidates)):
             candidate = candidates.popmax()
             if not _is_ear(candidate):
-                ears_candidates.remove(candidate)
+                ears_candidates.discard(candidate)
                 continue
             actual_increment = _ear_to_increment(candidate)
             if actual_increment == target_increment:
-                break
+                if _detach_ear(candidate):
+                    break
+                ears_candidates.remove(candidate)
+                continue
             (
                 ears_increments[actual_increment + MAX_EAR_DECREMENT].add(
                     candidate
@@ -549,18 +552,33 @@ def _to_vertex_sequence(
         else:
             ears_increments = _to_ears_increments(ears_candidates)
             continue
-        while candidate.left_from_end is not candidate.right_from_end:
-            candidate.left_from_end.flip()
         assert actual_increment == target_increment
         left_increment -= actual_increment
         ears_candidates.remove(candidate)
-        ear_base = candidate.left_from_start
+        ear_base, ear_side = (
+            candidate.left_from_start,
+            candidate.right_from_end,
+        )
         triangulation.delete(candidate)
-        candidate.right_from_end.flip()
+        if triangulation.left_side is ear_side:
+            triangulation.left_side = ear_base
+        if triangulation.right_side is ear_side.opposite:
+            triangulation.right_side = ear_base.opposite
+        triangulation.delete(ear_side)
+        ears_candidates.discard(ear_side)
         ears_candidates.add(ear_base)
     return _triangulation_to_border_vertices(triangulation)
 
 
+def _detach_ear(edge: QuadEdge[ScalarT], /) -> bool:
+    while edge.left_from_end is not edge.right_from_end:
+        diagonal = edge.left_from_end
+        if not _is_convex_quadrilateral_diagonal(diagonal):
+            return False
+        diagonal.flip()
+    return True
+
+
 def _edge_key(
     edge: QuadEdge[ScalarT], /
 ) -> tuple[int, Point[ScalarT], Point[ScalarT]]:
-- 
2.43.0

