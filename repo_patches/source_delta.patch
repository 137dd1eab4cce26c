From 2c5361dc23204e2b5ce86f1430d59aafd4e96f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 01/57] fix: locate a vertex by the triangle that holds it
 before looking at circumcircles

A vertex could be assigned to a ghost triangle of a hole or to a triangle
across a boundary or segment, whose cavity is not star shaped.
---
 .../triangulation_procedures/vertices.rs      | 59 ++++++++++++++++---
 1 file changed, 50 insertions(+), 9 deletions(-)

diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index ea0780a..38bd789 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -1,6 +1,6 @@
 use crate::elements::{edge::*, polyline::*, triangle::*, vertex::*};
 use crate::planar::{triangulation::*, triangulation_procedures};
-use crate::properties::continence::*;
+use crate::properties::{continence::*, orientation::*};
 
 use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
@@ -23,6 +23,13 @@ pub fn include(
         .collect();
 
     let mut conflict_map: HashMap<Rc<Triangle>, Vec<Rc<Vertex>>> = HashMap::new();
+
+    /* The triangle that holds the vertex is always a valid conflict */
+    for possible_triangle in triangulation.triangles.iter().filter(|t| !t.is_ghost()) {
+        distribute_contained(possible_triangle, &mut conflict_map, &mut vertices);
+    }
+
+    /* Vertices out of the existing triangles */
     for possible_triangle in triangulation.triangles.iter() {
         if vertices.is_empty() {
             break;
@@ -98,6 +105,8 @@ pub fn solve_conflicts(
             remaining_vertices.append(&mut conflicting_vertices);
         }
 
+        let mut new_triangles: Vec<Rc<Triangle>> = Vec::new();
+
         while !pending_cavities.is_empty() {
             let edge: Rc<Edge> = pending_cavities.pop().unwrap();
             let edge_to_outer_triangle: Rc<Edge> = Rc::new(edge.opposite());
@@ -172,21 +181,53 @@ pub fn solve_conflicts(
                 }
                 triangulation.include_triangle(&new_triangle);
                 included_triangles.insert(Rc::clone(&new_triangle));
-
-                distribute_conflicts(
-                    &new_triangle,
-                    conflict_map,
-                    remaining_vertices,
-                    boundary,
-                    holes,
-                );
+                new_triangles.push(new_triangle);
             }
         } /* end - while pending edges */
+
+        for new_triangle in new_triangles.iter().filter(|t| !t.is_ghost()) {
+            distribute_contained(new_triangle, conflict_map, remaining_vertices);
+        }
+        for new_triangle in new_triangles.iter() {
+            distribute_conflicts(
+                new_triangle,
+                conflict_map,
+                remaining_vertices,
+                boundary,
+                holes,
+            );
+        }
     } /* end - distributing vertices */
 
     return (included_triangles, removed_triangles);
 }
 
+/**
+ * Includes into the conflict_map the available vertices that belong to the
+ * given solid triangle. The triangle that holds the vertex can't be apart
+ * from it by any boundary, hole or segment.
+ */
+fn distribute_contained(
+    triangle: &Rc<Triangle>,
+    conflict_map: &mut HashMap<Rc<Triangle>, Vec<Rc<Vertex>>>,
+    vertices: &mut Vec<Rc<Vertex>>,
+) {
+    let (contained, remaining): (Vec<Rc<Vertex>>, Vec<Rc<Vertex>>) =
+        vertices.drain(..).partition(|v| {
+            orientation(&triangle.v1, &triangle.v2, v) != Orientation::Clockwise
+                && orientation(&triangle.v2, &triangle.v3, v) != Orientation::Clockwise
+                && orientation(&triangle.v3, &triangle.v1, v) != Orientation::Clockwise
+        });
+    vertices.extend(remaining);
+
+    if !contained.is_empty() {
+        conflict_map
+            .entry(Rc::clone(triangle))
+            .or_insert_with(Vec::new)
+            .extend(contained);
+    }
+} /* end - distribute contained */
+
 /**
  * Includes into the conflit_map the conflicts between the given triangle
  * and the available vertices. The conflict will be avoided if it violates
-- 
2.43.0


From c6076f5b1b2495cb8f81dee3f455ef2ac54c3ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 02/57] fix: include segments by flipping the crossing edges

Retriangulating the hull of the conflicting triangles panicked or produced
overlapping triangles when the hull was not simple or not Delaunay.
---
 .../triangulation_procedures/segment.rs       | 227 ++++++++++--------
 1 file changed, 128 insertions(+), 99 deletions(-)

diff --git a/src/planar/triangulation_procedures/segment.rs b/src/planar/triangulation_procedures/segment.rs
index c6efc8d..e2a5dfc 100644
--- a/src/planar/triangulation_procedures/segment.rs
+++ b/src/planar/triangulation_procedures/segment.rs
@@ -1,129 +1,158 @@
-use crate::elements::{edge::*, polyline::*, triangle::*, vertex::*};
+use crate::elements::{edge::*, triangle::*, vertex::*};
 use crate::planar::triangulation::*;
 use crate::properties::{continence::*, orientation::*};
 
 use crate::planar::triangulation_procedures;
 
-use std::collections::HashSet;
+use std::collections::{HashSet, VecDeque};
 use std::rc::Rc;
 
 /**
  * Includes Segment.
- * Takes all triangles that intercept the segment or whose circumcircle encircles
- * one of its end vertices, retriangulates the vertices of the triangle around the
- * segment having the segment as constraint. Reinserts the taken triangulation into
- * the main triangulation.
+ * Inserts the missing end vertices, flips every edge that crosses the segment
+ * until the segment is an edge of the triangulation, then restores the Delaunay
+ * condition of the unconstrained edges around the flipped ones.
  */
 pub fn include(
     triangulation: &mut Triangulation,
     segment: &Rc<Edge>,
     segment_constraints: &HashSet<Rc<Edge>>,
 ) {
-    let conflicting_triangles: HashSet<Rc<Triangle>> = triangulation
-        .triangles
-        .iter()
-        .filter(|t| !t.is_ghost())
-        .filter(|triangle| {
-            let polyline = triangle.as_polyline().unwrap();
-            let segment_polyline = segment.as_polyline().unwrap();
-
-            let contains_segment = Polyline::continence(&polyline, &segment_polyline)
-                != Some((Continence::Outside, BoundaryInclusion::Open));
-
-            let conflicts_v1 = triangle.encircles(&segment.v1) != Continence::Outside;
-            let conflicts_v2 = triangle.encircles(&segment.v2) != Continence::Outside;
-
-            return conflicts_v1 || conflicts_v2 || contains_segment;
-        })
-        .filter(|triangle| {
-            let (e1, e2, e3) = triangle.outer_edges();
-            let is_constrained = vec![e1, e2, e3]
-                .iter()
-                .filter(|&edge| {
-                    segment_constraints.contains(edge)
-                        || segment_constraints.contains(&edge.opposite())
-                })
-                .fold(false, |acc, edge| {
-                    if acc == true {
-                        return true;
-                    }
-                    let faces_v1 = orientation(&edge.v1, &edge.v2, &segment.v1)
-                        == Orientation::Counterclockwise;
-                    let faces_v2 = orientation(&edge.v1, &edge.v2, &segment.v2)
-                        == Orientation::Counterclockwise;
-
-                    return faces_v1 || faces_v2;
-                });
-            return !is_constrained;
-        })
-        .cloned()
-        .collect();
+    triangulation_procedures::vertices::include(
+        triangulation,
+        vec![Rc::clone(&segment.v1), Rc::clone(&segment.v2)],
+        segment_constraints,
+        &None,
+        &HashSet::new(),
+    );
 
-    // Uncomment to debug
-    // println!("\n\nSolid Triangles");
-    // for t in triangulation.triangles.iter().filter(|t| !t.is_ghost()) {
-    //     println!("{}", t);
-    // }
-    // println!("\nConflicting Triangles against {}", segment);
-    // for t in conflicting_triangles.iter() {
-    //     println!("{}", t);
-    // }
-
-    for conflicting_triangle in conflicting_triangles.iter() {
-        triangulation.remove_triangle(conflicting_triangle);
+    /* Each crossing edge is adjacent to two solid triangles, one of each side */
+    let mut crossing_edges: VecDeque<Rc<Edge>> = VecDeque::new();
+    for edge in triangulation.edges().iter() {
+        if crosses(segment, edge) && !crossing_edges.contains(&Rc::new(edge.opposite())) {
+            crossing_edges.push_back(Rc::clone(edge));
+        }
     }
 
-    let triangles_boundary: Rc<Polyline> =
-        Rc::new(Polyline::triangles_hull(&conflicting_triangles).unwrap());
+    let mut flipped_edges: Vec<Rc<Edge>> = Vec::new();
+    let mut blocked_flips: usize = 0;
+    while let Some(edge) = crossing_edges.pop_front() {
+        match flip(triangulation, &edge, false) {
+            Some(flipped_edge) => {
+                blocked_flips = 0;
+                if crosses(segment, &flipped_edge) {
+                    crossing_edges.push_back(flipped_edge);
+                } else {
+                    flipped_edges.push(flipped_edge);
+                }
+            }
+            None => {
+                crossing_edges.push_back(edge);
+                blocked_flips += 1;
+                if blocked_flips >= crossing_edges.len() {
+                    /* out of the triangulated domain */
+                    break;
+                }
+            }
+        }
+    }
 
-    let conflicting_vertices: HashSet<Rc<Vertex>> = conflicting_triangles
-        .iter()
-        .map(|triangle| {
-            vec![
-                Rc::clone(&triangle.v1),
-                Rc::clone(&triangle.v2),
-                Rc::clone(&triangle.v3),
-            ]
-        })
-        .flatten()
-        .collect();
+    /* Restores Delaunay condition */
+    while let Some(edge) = flipped_edges.pop() {
+        let is_constrained = [Rc::clone(&edge), Rc::new(edge.opposite())]
+            .iter()
+            .any(|e| e == segment || **e == segment.opposite() || segment_constraints.contains(e));
 
-    let mut segment_triangulation = Triangulation::from_initial_segment((&segment.v1, &segment.v2));
+        if is_constrained {
+            continue;
+        }
 
-    let new_segment_constraint: HashSet<Rc<Edge>> =
-        vec![Rc::clone(&segment)].iter().cloned().collect();
+        if let Some(flipped_edge) = flip(triangulation, &edge, true) {
+            let t1 = Rc::clone(triangulation.adjacency.get(&flipped_edge).unwrap());
+            let t2 = Rc::clone(
+                triangulation
+                    .adjacency
+                    .get(&Rc::new(flipped_edge.opposite()))
+                    .unwrap(),
+            );
+            for t in vec![t1, t2].iter() {
+                let (e1, e2, e3) = t.inner_edges();
+                flipped_edges.extend(
+                    vec![e1, e2, e3]
+                        .into_iter()
+                        .filter(|e| *e != flipped_edge && **e != flipped_edge.opposite()),
+                );
+            }
+        }
+    }
+} /* end - include segment */
 
-    triangulation_procedures::boundary::include(
-        &mut segment_triangulation,
-        &triangles_boundary,
-        &new_segment_constraint,
-    );
+/**
+ * Checks if the interiors of the segment and the edge cross each other
+ */
+fn crosses(segment: &Edge, edge: &Edge) -> bool {
+    if edge.v1.is_ghost || edge.v2.is_ghost {
+        return false;
+    }
 
-    triangulation_procedures::vertices::include(
-        &mut segment_triangulation,
-        conflicting_vertices.iter().cloned().collect(),
-        &new_segment_constraint,
-        &Some(Rc::clone(&triangles_boundary)),
-        &HashSet::new(),
-    );
+    fn splits(e1: &Edge, e2: &Edge) -> bool {
+        match orientation(&e1.v1, &e1.v2, &e2.v1) {
+            Orientation::Colinear => false,
+            Orientation::Clockwise => {
+                orientation(&e1.v1, &e1.v2, &e2.v2) == Orientation::Counterclockwise
+            }
+            Orientation::Counterclockwise => {
+                orientation(&e1.v1, &e1.v2, &e2.v2) == Orientation::Clockwise
+            }
+        }
+    }
 
-    let new_solid_triangles: HashSet<Rc<Triangle>> = segment_triangulation
-        .triangles
-        .iter()
-        .filter(|t| !t.is_ghost())
-        .cloned()
-        .collect();
+    return splits(segment, edge) && splits(edge, segment);
+}
 
-    // Uncomment to debug
-    // println!("\nNew Solid Triangles");
-    // for t in new_solid_triangles.iter() {
-    //     println!("{}", t);
-    // }
+/**
+ * Replaces the edge by the opposite diagonal of its two adjacent triangles
+ * and returns the new edge. Returns None if they don't form a convex
+ * quadrilateral, or if only_conflicting and the edge is already Delaunay.
+ */
+fn flip(
+    triangulation: &mut Triangulation,
+    edge: &Rc<Edge>,
+    only_conflicting: bool,
+) -> Option<Rc<Edge>> {
+    let opposite_edge = Rc::new(edge.opposite());
+    let t1 = Rc::clone(triangulation.adjacency.get(edge)?);
+    let t2 = Rc::clone(triangulation.adjacency.get(&opposite_edge)?);
+    if t1.is_ghost() || t2.is_ghost() {
+        return None;
+    }
+
+    let v1 = t1.opposite_vertex(edge).unwrap();
+    let v2 = t2.opposite_vertex(&opposite_edge).unwrap();
 
-    for new_triangle in new_solid_triangles.iter() {
-        triangulation.include_triangle(new_triangle);
+    if orientation(&edge.v1, &v2, &v1) != Orientation::Counterclockwise
+        || orientation(&edge.v2, &v1, &v2) != Orientation::Counterclockwise
+    {
+        return None;
     }
-} /* end - include segment */
+
+    let new_t1 = Rc::new(Triangle::new(&edge.v1, &v2, &v1));
+    let new_t2 = Rc::new(Triangle::new(&edge.v2, &v1, &v2));
+
+    if only_conflicting
+        && (t1.encircles(&v2) != Continence::Inside
+            || new_t1.encircles(&edge.v2) == Continence::Inside)
+    {
+        return None;
+    }
+
+    triangulation.remove_triangle(&t1);
+    triangulation.remove_triangle(&t2);
+    triangulation.include_triangle(&new_t1);
+    triangulation.include_triangle(&new_t2);
+
+    return Some(Rc::new(Edge::new(&v1, &v2)));
+}
 
 #[cfg(test)]
 mod include_segment {
-- 
2.43.0


From 47ba95f4bfc733e4dc758f506d69ad4bd236ea19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 03/57] fix: insert the boundary segments missing from the
 vertices triangulation

---
 .../triangulation_procedures/boundary.rs      | 31 +++++++++----------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/planar/triangulation_procedures/boundary.rs b/src/planar/triangulation_procedures/boundary.rs
index d7b9639..18221bd 100644
--- a/src/planar/triangulation_procedures/boundary.rs
+++ b/src/planar/triangulation_procedures/boundary.rs
@@ -31,22 +31,21 @@ pub fn include(
     );
 
     /* Inserts missing segments */
-    // let existing_segments: HashSet<Rc<Edge>> = triangulation.edges();
-    // let missing_segments: HashSet<Rc<Edge>> = boundary_segments
-    //     .iter()
-    //     .filter(|&e| !existing_segments.contains(e))
-    //     .cloned()
-    //     .collect();
-
-    // let segment_contraints = segment_constraints
-    //     .iter()
-    //     .chain(boundary_segments.iter())
-    //     .cloned()
-    //     .collect();
-
-    // for segment in missing_segments.iter() {
-    //     Self::include_segment(triangulation, segment, &segment_contraints);
-    // }
+    let segment_constraints: HashSet<Rc<Edge>> = segment_constraints
+        .iter()
+        .chain(boundary_segments.iter())
+        .cloned()
+        .collect();
+
+    for boundary_edge in boundary.into_edges().iter() {
+        if !triangulation.edges().contains(boundary_edge) {
+            triangulation_procedures::segment::include(
+                triangulation,
+                boundary_edge,
+                &segment_constraints,
+            );
+        }
+    }
 
     /* Inserting outer hole */
     let mut pending_edges: Vec<Rc<Edge>> = Vec::new();
-- 
2.43.0


From 00b760d8254e9944a5e306843a54ea010f113084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 04/57] fix: insert each missing hole segment once

The loop did not end when a segment inclusion dropped another hole segment.
---
 src/planar/triangulation_procedures/hole.rs | 34 +++++----------------
 1 file changed, 7 insertions(+), 27 deletions(-)

diff --git a/src/planar/triangulation_procedures/hole.rs b/src/planar/triangulation_procedures/hole.rs
index 697e862..f611f8e 100644
--- a/src/planar/triangulation_procedures/hole.rs
+++ b/src/planar/triangulation_procedures/hole.rs
@@ -34,35 +34,15 @@ pub fn include(
         .cloned()
         .collect();
 
-    // Uncomment to debug
-    // let existing_segments: HashSet<Rc<Edge>> = triangulation.edges();
-    // let missing_segments: Vec<Rc<Edge>> = hole_segments
-    //     .iter()
-    //     .filter(|&e| !existing_segments.contains(e))
-    //     .cloned()
-    //     .collect();
-
-    // println!("\n\nMissing segments");
-    // for e in missing_segments.iter() {
-    //     println!("{}", e);
-    // }
-
     /* Inserts missing segments */
-    loop {
-        let existing_segments: HashSet<Rc<Edge>> = triangulation.edges();
-        let missing_segment = hole_segments
-            .iter()
-            .find(|&e| !existing_segments.contains(e));
-
-        if missing_segment.is_none() {
-            break;
+    for hole_edge in hole_segments.iter() {
+        if !triangulation.edges().contains(hole_edge) {
+            triangulation_procedures::segment::include(
+                triangulation,
+                hole_edge,
+                &segment_constraints,
+            );
         }
-
-        triangulation_procedures::segment::include(
-            triangulation,
-            missing_segment.unwrap(),
-            &segment_constraints,
-        );
     }
 
     /* Inserting ghost triangles into holes */
-- 
2.43.0


From 0ae8b3206e7fece2ee930e4c69fcf14834dec930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 05/57] fix: keep refining a triangle that survived the
 splitting of the encroached segments

It was dropped from the pending sets, and its quality or area bound missed.
---
 src/planar/refine_procedures/triangle_split.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/planar/refine_procedures/triangle_split.rs b/src/planar/refine_procedures/triangle_split.rs
index ab2a047..fcecf3e 100644
--- a/src/planar/refine_procedures/triangle_split.rs
+++ b/src/planar/refine_procedures/triangle_split.rs
@@ -164,6 +164,15 @@ pub fn split_irregular(
                         large_triangles.remove(old_triangle);
                     }
                 }
+
+                /* The triangle may have survived the segments splitting */
+                if triangulation.triangles.contains(&triangle) {
+                    if is_irregular_triangle(&triangle, params) {
+                        irregular_triangles.insert(triangle);
+                    } else {
+                        large_triangles.insert(triangle);
+                    }
+                }
             }
         }
     }
-- 
2.43.0


From 24b452c14e61cd5d52bf7b19b7f8364e0a9c5cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 06/57] fix: write the coordinates in the order the triangles
 index them

---
 src/json_serializar/models/output.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/json_serializar/models/output.rs b/src/json_serializar/models/output.rs
index 17e1a76..5acd2c6 100644
--- a/src/json_serializar/models/output.rs
+++ b/src/json_serializar/models/output.rs
@@ -71,8 +71,8 @@ impl TriangulationOutput {
             id: input.id,
             name: input.name.clone(),
             date: input.date.clone(),
-            coordinates: vertices_map
-                .keys()
+            coordinates: vertices_vec
+                .iter()
                 .map(|v| point::Point::from_vertex(v))
                 .collect(),
             triangles: triangulator
-- 
2.43.0


From de66f5f50e5999eaa2746c2c6dce48af6a56af6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 07/57] fix: sort vertices by x against x

---
 src/elements/vertex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elements/vertex.rs b/src/elements/vertex.rs
index a95cf75..4883dcd 100644
--- a/src/elements/vertex.rs
+++ b/src/elements/vertex.rs
@@ -122,7 +122,7 @@ impl Vertex {
     pub fn sort(vertex_list: &mut Vec<Rc<Vertex>>) {
         vertex_list.sort_by(|v1, v2| match v1.x.partial_cmp(&v2.x) {
             Some(Ordering::Equal) => v1.y.partial_cmp(&v2.y).unwrap(),
-            _ => v1.x.partial_cmp(&v2.y).unwrap(),
+            _ => v1.x.partial_cmp(&v2.x).unwrap(),
         });
     }
 }
-- 
2.43.0


From 821b49c0b0f9a27ee7d0ef9e2a906237012d8bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 08/57] fix: hash -0.0 as 0.0, since they are equal

---
 src/elements/vertex.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/elements/vertex.rs b/src/elements/vertex.rs
index 4883dcd..941df75 100644
--- a/src/elements/vertex.rs
+++ b/src/elements/vertex.rs
@@ -17,12 +17,13 @@ pub struct Vertex {
 
 impl Hash for Vertex {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        let (m, e, s) = Float::integer_decode(self.x);
+        /* adding zero drops the sign of -0.0, which equals 0.0 */
+        let (m, e, s) = Float::integer_decode(self.x + 0.0);
         m.hash(state);
         e.hash(state);
         s.hash(state);
 
-        let (m, e, s) = Float::integer_decode(self.y);
+        let (m, e, s) = Float::integer_decode(self.y + 0.0);
         m.hash(state);
         e.hash(state);
         s.hash(state);
-- 
2.43.0


From 0be0253852b41af47a471b196f290e409e2676d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 09/57] fix: hash equal triangles alike, whichever vertex they
 start at

---
 src/elements/triangle.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/elements/triangle.rs b/src/elements/triangle.rs
index d30539d..26c8a4b 100644
--- a/src/elements/triangle.rs
+++ b/src/elements/triangle.rs
@@ -4,16 +4,26 @@ use crate::properties::{area::*, circumcenter::*, continence::*, distance::*, or
 use std::cmp::Eq;
 use std::fmt;
 use std::fmt::Debug;
-use std::hash::Hash;
+use std::hash::{Hash, Hasher};
 use std::rc::Rc;
 
-#[derive(Hash, Debug)]
+#[derive(Debug)]
 pub struct Triangle {
     pub v1: Rc<Vertex>,
     pub v2: Rc<Vertex>,
     pub v3: Rc<Vertex>,
 }
 
+impl Hash for Triangle {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        /* equal triangles may start at different vertices */
+        let mut vertices = [&self.v1, &self.v2, &self.v3];
+        vertices.sort();
+        vertices.sort_by_key(|v| v.is_ghost);
+        vertices.hash(state);
+    }
+}
+
 impl PartialEq for Triangle {
     fn eq(&self, other: &Self) -> bool {
         self.v1 == other.v1 && self.v2 == other.v2 && self.v3 == other.v3
-- 
2.43.0


From 414b6e2fb9e5eeb02f11aab290513a3ef2fda3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 10/57] fix: evaluate the in-circle determinant relative to the
 tested vertex

Cocircular vertices were reported inside or outside by cancellation.
---
 src/properties/continence.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/properties/continence.rs b/src/properties/continence.rs
index 5d8767a..853af6f 100644
--- a/src/properties/continence.rs
+++ b/src/properties/continence.rs
@@ -1,9 +1,5 @@
-extern crate nalgebra;
-
 use crate::elements::vertex::*;
 
-use nalgebra::Matrix4;
-
 #[derive(PartialEq, Debug)]
 pub enum Continence {
     Inside,
@@ -22,13 +18,14 @@ pub enum BoundaryInclusion {
  * Vertices a, b and c must be in counterclockwise order.
  */
 pub fn continence(a: &Vertex, b: &Vertex, c: &Vertex, d: &Vertex) -> Continence {
-    let matrix = Matrix4::new(
-        a.x, a.y, a.x.powi(2) + a.y.powi(2), 1.0,
-        b.x, b.y, b.x.powi(2) + b.y.powi(2), 1.0,
-        c.x, c.y, c.x.powi(2) + c.y.powi(2), 1.0,
-        d.x, d.y, d.x.powi(2) + d.y.powi(2), 1.0,
-    );
-    let det = matrix.determinant();
+    /* d as origin keeps the determinant precise away from the coordinates origin */
+    let (ax, ay) = (a.x - d.x, a.y - d.y);
+    let (bx, by) = (b.x - d.x, b.y - d.y);
+    let (cx, cy) = (c.x - d.x, c.y - d.y);
+
+    let det = (ax.powi(2) + ay.powi(2)) * (bx * cy - cx * by)
+        + (bx.powi(2) + by.powi(2)) * (cx * ay - ax * cy)
+        + (cx.powi(2) + cy.powi(2)) * (ax * by - bx * ay);
 
     if float_cmp::approx_eq!(f64, det, 0.0, epsilon = 1.0E-14f64) {
         return Continence::Boundary;
-- 
2.43.0


From b2dba0b66402f3d7821acfe007bcac4004987d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 11/57] fix: clamp the cosine before acos, angle was NaN for
 flat angles

---
 src/properties/angle.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/properties/angle.rs b/src/properties/angle.rs
index 88a0ee8..a0de2aa 100644
--- a/src/properties/angle.rs
+++ b/src/properties/angle.rs
@@ -14,7 +14,8 @@ pub fn angle(a: &Vertex, b: &Vertex, c: &Vertex) -> Option<f64> {
     let bc: Vector2<f64> = Vector2::new(c.x - b.x, c.y - b.y);
 
     let cos_theta = ba.dot(&bc) / (ba.norm() * bc.norm());
-    let theta = cos_theta.acos();
+    /* rounding may take the cosine of a flat angle out of acos domain */
+    let theta = cos_theta.max(-1.0).min(1.0).acos();
 
     if orientation(a, b, c) == Orientation::Clockwise {
         return Some(2.0 * std::f64::consts::PI - theta);
-- 
2.43.0


From 4ca684fc832f067155c57a0c74e60ab18a33c5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 12/57] fix: split segments at their end vertices and overlaps
 first

---
 src/elements/polyline.rs | 68 ++++++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 23 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 4592e97..a2a5b60 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -854,6 +854,37 @@ pub fn vertex_pairs(vertex_list: &Vec<Rc<Vertex>>, opened: bool) -> Vec<(Rc<Vert
     return pair_list;
 }
 
+/**
+ * Determines the vertex that belongs to both segments and splits at least one
+ * of them. An existing end vertex is returned, if it is contained by the other
+ * segment. Returns None if no segment is split.
+ */
+fn split_vertex(
+    (v1, v2): &(Rc<Vertex>, Rc<Vertex>),
+    (v3, v4): &(Rc<Vertex>, Rc<Vertex>),
+) -> Option<Rc<Vertex>> {
+    let e1 = Edge::new(v1, v2);
+    let e2 = Edge::new(v3, v4);
+
+    for (edge, end) in vec![(&e1, v3), (&e1, v4), (&e2, v1), (&e2, v2)] {
+        if end != &edge.v1 && end != &edge.v2 && edge.contains(end) {
+            return Some(Rc::clone(end));
+        }
+    }
+
+    if v1 == v3 || v1 == v4 || v2 == v3 || v2 == v4 || parallel(v1, v2, v3, v4) {
+        return None;
+    }
+
+    let vertex = Rc::new(intersection(v1, v2, v3, v4)?);
+    for end in vec![v1, v2, v3, v4] {
+        if end == &vertex {
+            return Some(Rc::clone(end));
+        }
+    }
+    return Some(vertex);
+}
+
 pub fn split_intersections(
     segments: &Vec<(Rc<Vertex>, Rc<Vertex>)>,
 ) -> Vec<(Rc<Vertex>, Rc<Vertex>)> {
@@ -862,30 +893,21 @@ pub fn split_intersections(
 
     while !aux_set.is_empty() {
         let (v1, v2) = aux_set.pop().unwrap();
-        if let Some(index) = splited_segments.iter().position(|(v3, v4)| {
-            if !intersection(&v1, &v2, &v3, &v4).is_none() {
-                return &v1 != v3
-                    && &v1 != v4
-                    && &v2 != v3
-                    && &v2 != v4
-                    && !parallel(&v1, &v2, &v3, &v4);
-            }
-            return false;
-        }) {
+        let pair = (Rc::clone(&v1), Rc::clone(&v2));
+        let conflict = splited_segments
+            .iter()
+            .enumerate()
+            .find_map(|(index, other)| Some((index, split_vertex(&pair, other)?)));
+
+        if let Some((index, split_vertex)) = conflict {
             let (v3, v4) = splited_segments.remove(index);
-            let intersection_vertex = intersection(&v1, &v2, &v3, &v4).unwrap();
-            let intersection_vertex = Rc::new(intersection_vertex);
-            if v3 != intersection_vertex {
-                aux_set.push((Rc::clone(&v3), Rc::clone(&intersection_vertex)));
-            }
-            if v4 != intersection_vertex {
-                aux_set.push((Rc::clone(&intersection_vertex), Rc::clone(&v4)));
-            }
-            if v1 != intersection_vertex {
-                aux_set.push((Rc::clone(&v1), Rc::clone(&intersection_vertex)));
-            }
-            if v2 != intersection_vertex {
-                aux_set.push((Rc::clone(&intersection_vertex), Rc::clone(&v2)));
+            for (head, tail) in vec![(v3, v4), (v1, v2)] {
+                if head == split_vertex || tail == split_vertex {
+                    aux_set.push((head, tail));
+                } else {
+                    aux_set.push((head, Rc::clone(&split_vertex)));
+                    aux_set.push((Rc::clone(&split_vertex), tail));
+                }
             }
         } else {
             /* no intersection, just segment continuation */
-- 
2.43.0


From d5a40b53c9037bd82c9837df16ced3905b674782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 13/57] fix: drop only identical opposed segments in polyline
 intersection and subtraction

---
 src/elements/polyline.rs | 86 ++++------------------------------------
 1 file changed, 8 insertions(+), 78 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index a2a5b60..121a8b6 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -239,50 +239,15 @@ impl Polyline {
             read_segments.push(possible_segments.pop().unwrap());
             while !possible_segments.is_empty() {
                 let (v1, v2) = possible_segments.pop().unwrap();
-                match read_segments.iter().position(|(v3, v4)| {
-                    if !intersection(&v1, &v2, v3, v4).is_none() {
-                        let is_parallel = parallel(&v1, &v2, v3, v4);
-                        let have_opposite_directions = dot(&v1, &v2, v3, v4) < 0.0;
-
-                        let is_polyline_continuation = &v1 == v4 || &v2 == v3;
-                        let is_outside = p1.contains(&v1).unwrap() == Continence::Outside
-                            || p2.contains(&v1).unwrap() == Continence::Outside
-                            || p1.contains(&v2).unwrap() == Continence::Outside
-                            || p2.contains(&v2).unwrap() == Continence::Outside
-                            || p1.contains(&v3).unwrap() == Continence::Outside
-                            || p2.contains(&v3).unwrap() == Continence::Outside
-                            || p1.contains(&v4).unwrap() == Continence::Outside
-                            || p2.contains(&v4).unwrap() == Continence::Outside;
-
-                        return is_parallel
-                            && have_opposite_directions
-                            && (is_polyline_continuation || is_outside);
-                    }
-                    return false;
-                }) {
+                match read_segments
+                    .iter()
+                    .position(|(v3, v4)| &v1 == v4 && &v2 == v3)
+                {
                     Some(index) => {
                         let (v3, v4) = read_segments.remove(index);
 
                         unused_segments.insert((Rc::clone(&v1), Rc::clone(&v2)));
                         unused_segments.insert((Rc::clone(&v3), Rc::clone(&v4)));
-                        if v2 != v3
-                            && (v1 == v4
-                                || p1.contains(&v1).unwrap() == Continence::Outside
-                                || p2.contains(&v1).unwrap() == Continence::Outside
-                                || p1.contains(&v4).unwrap() == Continence::Outside
-                                || p2.contains(&v4).unwrap() == Continence::Outside)
-                        {
-                            possible_segments.push((Rc::clone(&v3), Rc::clone(&v2)));
-                        }
-                        if v1 != v4
-                            && (v2 == v3
-                                || p1.contains(&v2).unwrap() == Continence::Outside
-                                || p2.contains(&v2).unwrap() == Continence::Outside
-                                || p1.contains(&v3).unwrap() == Continence::Outside
-                                || p2.contains(&v3).unwrap() == Continence::Outside)
-                        {
-                            possible_segments.push((Rc::clone(&v1), Rc::clone(&v4)));
-                        }
                     }
                     None => {
                         read_segments.push((v1, v2));
@@ -550,50 +515,15 @@ impl Polyline {
         read_segments.push(possible_segments.pop().unwrap());
         while !possible_segments.is_empty() {
             let (v1, v2) = possible_segments.pop().unwrap();
-            match read_segments.iter().position(|(v3, v4)| {
-                if intersection(&v1, &v2, v3, v4).is_none() {
-                    return false;
-                }
-                let is_parallel = parallel(&v1, &v2, v3, v4);
-                let have_opposite_directions = dot(&v1, &v2, v3, v4) < 0.0;
-
-                let is_polyline_continuation = &v1 == v4 || &v2 == v3;
-                let is_outside = p1.contains(&v1).unwrap() == Continence::Outside
-                    || p2.contains(&v1).unwrap() == Continence::Outside
-                    || p1.contains(&v2).unwrap() == Continence::Outside
-                    || p2.contains(&v2).unwrap() == Continence::Outside
-                    || p1.contains(&v3).unwrap() == Continence::Outside
-                    || p2.contains(&v3).unwrap() == Continence::Outside
-                    || p1.contains(&v4).unwrap() == Continence::Outside
-                    || p2.contains(&v4).unwrap() == Continence::Outside;
-
-                return is_parallel
-                    && have_opposite_directions
-                    && (is_polyline_continuation || is_outside);
-            }) {
+            match read_segments
+                .iter()
+                .position(|(v3, v4)| &v1 == v4 && &v2 == v3)
+            {
                 Some(index) => {
                     let (v3, v4) = read_segments.remove(index);
 
                     unused_segments.insert((Rc::clone(&v1), Rc::clone(&v2)));
                     unused_segments.insert((Rc::clone(&v3), Rc::clone(&v4)));
-                    if v2 != v3
-                        && (v1 == v4
-                            || p1.contains(&v1).unwrap() == Continence::Outside
-                            || p2.contains(&v1).unwrap() == Continence::Outside
-                            || p1.contains(&v4).unwrap() == Continence::Outside
-                            || p2.contains(&v4).unwrap() == Continence::Outside)
-                    {
-                        possible_segments.push((Rc::clone(&v3), Rc::clone(&v2)));
-                    }
-                    if v1 != v4
-                        && (v2 == v3
-                            || p1.contains(&v2).unwrap() == Continence::Outside
-                            || p2.contains(&v2).unwrap() == Continence::Outside
-                            || p1.contains(&v3).unwrap() == Continence::Outside
-                            || p2.contains(&v3).unwrap() == Continence::Outside)
-                    {
-                        possible_segments.push((Rc::clone(&v1), Rc::clone(&v4)));
-                    }
                 }
                 None => {
                     read_segments.push((v1, v2));
-- 
2.43.0


From b8a838761ffa74ea9511711df01ead256b27ecf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 14/57] fix: polyline union keeps shared sides and is none for
 disjoint polylines

---
 src/elements/polyline.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 121a8b6..49253c7 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -367,6 +367,12 @@ impl Polyline {
             return None;
         }
 
+        let outside: Option<(Continence, BoundaryInclusion)> =
+            Some((Continence::Outside, BoundaryInclusion::Open));
+        if Self::continence(p1, p2) == outside && Self::continence(p2, p1) == outside {
+            return None;
+        }
+
         /* splits segments at the beginning makes it easy to avoid outer boundary  */
         let p1_segments = vertex_pairs(&p1.vertices, p1.opened);
         let p2_segments = vertex_pairs(&p2.vertices, p2.opened);
@@ -379,6 +385,20 @@ impl Polyline {
         );
         let mut read_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = Vec::new();
 
+        /* Sides shared by both polylines, with their inner spaces at the same side */
+        let shared_segments: HashSet<(Rc<Vertex>, Rc<Vertex>)> = possible_segments
+            .iter()
+            .filter(|(v1, v2)| {
+                let midpoint = midpoint(v1, v2);
+                return p1.contains(&midpoint).unwrap() == Continence::Boundary
+                    && p2.contains(&midpoint).unwrap() == Continence::Boundary
+                    && !possible_segments
+                        .iter()
+                        .any(|(v3, v4)| v1 == v4 && v2 == v3);
+            })
+            .cloned()
+            .collect();
+
         /* Filters by continence */
         while !possible_segments.is_empty() {
             let (v1, v2) = possible_segments.pop().unwrap();
@@ -387,7 +407,7 @@ impl Polyline {
             let dont_contains_mid = p1.contains(&midpoint).unwrap() == Continence::Outside
                 || p2.contains(&midpoint).unwrap() == Continence::Outside;
 
-            if dont_contains_mid {
+            if dont_contains_mid || shared_segments.contains(&(Rc::clone(&v1), Rc::clone(&v2))) {
                 read_segments.push((v1, v2));
             } else {
                 unused_segments.insert((v1, v2));
-- 
2.43.0


From 015bc2dcdd53c293e6baa5e6f08889cdebf46879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:35 +0000
Subject: [PATCH 15/57] fix: polyline contains locates vertices on vertical
 sides within tolerance

---
 src/elements/polyline.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 49253c7..3987425 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -156,7 +156,8 @@ impl Polyline {
         for (v1, v2) in segments {
             let is_vertical_segment = v1.x == v2.x;
             if is_vertical_segment {
-                let points_to_vertex = v1.x == vertex.x;
+                /* same tolerance that applies to the equality of vertices */
+                let points_to_vertex = (v1.x - vertex.x).abs() <= 1.0E-14f64;
                 let contains_vertex_in_vertical_interval = (v1.y <= vertex.y && vertex.y <= v2.y)
                     || (v2.y <= vertex.y && vertex.y <= v1.y);
 
-- 
2.43.0


From f783e7ea0e0eacbd3346272068a464fbecbd31fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 16/57] fix: drop the import left unused in polyline

---
 src/elements/polyline.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 3987425..07bb27f 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -3,7 +3,6 @@ use crate::elements::{bounding_box::*, edge::*, triangle::*, vertex::*};
 use crate::properties::angle::*;
 use crate::properties::area::area_segments;
 use crate::properties::continence::*;
-use crate::properties::dot::*;
 use crate::properties::intersection::*;
 use crate::properties::midpoint::*;
 use crate::properties::orientation::*;
-- 
2.43.0


From b533a18701ef841ac433069f115c01717a560709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 17/57] fix: reject malformed polylines, circles and segments
 instead of panicking

---
 src/triangulator_interface/interpreter/circle_parser.rs   | 2 +-
 src/triangulator_interface/interpreter/polyline_parser.rs | 2 +-
 src/triangulator_interface/interpreter/segments_parser.rs | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/triangulator_interface/interpreter/circle_parser.rs b/src/triangulator_interface/interpreter/circle_parser.rs
index c3c66af..d910baf 100644
--- a/src/triangulator_interface/interpreter/circle_parser.rs
+++ b/src/triangulator_interface/interpreter/circle_parser.rs
@@ -23,7 +23,7 @@ pub fn parse(action: &Action) -> Result<Polyline, ()> {
             vertices.push(Rc::new(vertex));
         }
 
-        return Ok(Polyline::new_closed(vertices).unwrap());
+        return Polyline::new_closed(vertices).ok_or(());
     }
     return Err(());
 }
diff --git a/src/triangulator_interface/interpreter/polyline_parser.rs b/src/triangulator_interface/interpreter/polyline_parser.rs
index 19783b1..734b681 100644
--- a/src/triangulator_interface/interpreter/polyline_parser.rs
+++ b/src/triangulator_interface/interpreter/polyline_parser.rs
@@ -25,7 +25,7 @@ pub fn parse(action: &Action) -> Result<Polyline, ()> {
         return Err(());
     }
 
-    return Ok(Polyline::new_closed(vertices).unwrap());
+    return Polyline::new_closed(vertices).ok_or(());
 } /* end - parse */
 
 fn point_to_vertex(point: &Point) -> Vertex {
diff --git a/src/triangulator_interface/interpreter/segments_parser.rs b/src/triangulator_interface/interpreter/segments_parser.rs
index bd26c42..c1f720b 100644
--- a/src/triangulator_interface/interpreter/segments_parser.rs
+++ b/src/triangulator_interface/interpreter/segments_parser.rs
@@ -16,8 +16,8 @@ pub fn parse(action: &Action) -> Result<HashSet<Rc<Edge>>, ()> {
             let p1_index: usize = *set.get(0).unwrap();
             let p2_index: usize = *set.get(1).unwrap();
 
-            let p1 = action.points.get(p1_index).unwrap();
-            let p2 = action.points.get(p2_index).unwrap();
+            let p1 = action.points.get(p1_index).ok_or(())?;
+            let p2 = action.points.get(p2_index).ok_or(())?;
 
             let v1 = Rc::new(point_to_vertex(p1));
             let v2 = Rc::new(point_to_vertex(p2));
-- 
2.43.0


From 84f76f5c3cd91ddfc688397c4dd0a6d1f0836f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 18/57] fix: replace united holes by their union

---
 src/triangulator_interface/domain_evaluator.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/triangulator_interface/domain_evaluator.rs b/src/triangulator_interface/domain_evaluator.rs
index 28edcad..231d171 100644
--- a/src/triangulator_interface/domain_evaluator.rs
+++ b/src/triangulator_interface/domain_evaluator.rs
@@ -80,15 +80,20 @@ pub fn holes(boundary: &Rc<Polyline>, removes: &Vec<Rc<Polyline>>) -> HashSet<Rc
             continue;
         }
 
-        for existing_hole in holes.iter().cloned() {
-            if let Some((union, _)) = Polyline::union(&existing_hole, &possible_removal) {
+        let possible_union = holes.iter().find_map(|existing_hole| {
+            let (union, _) = Polyline::union(existing_hole, &possible_removal)?;
+            return Some((Rc::clone(existing_hole), union));
+        });
+
+        match possible_union {
+            Some((existing_hole, union)) => {
                 holes.remove(&existing_hole);
                 removes.push(Rc::new(union));
-                break;
+            }
+            None => {
+                holes.insert(possible_removal);
             }
         }
-
-        holes.insert(possible_removal);
     }
 
     return holes;
-- 
2.43.0


From c4faafd9fd4002b1d7c41d200fc89d8e26e999d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 19/57] fix: subtract removals that only meet the boundary left
 by other removals

---
 .../domain_evaluator.rs                       | 31 +++++++++++++------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/triangulator_interface/domain_evaluator.rs b/src/triangulator_interface/domain_evaluator.rs
index 231d171..2c12a73 100644
--- a/src/triangulator_interface/domain_evaluator.rs
+++ b/src/triangulator_interface/domain_evaluator.rs
@@ -40,18 +40,29 @@ pub fn boundary(
         return Err(());
     }
 
-    for possible_removal in removes.iter() {
-        let (subtraction_list, _) = Polyline::subtraction(&boundary, possible_removal);
-        
-        if subtraction_list.len() > 1 {
-            /* divided union in more than 1 */
-            return Err(());
+    let mut possible_removals: Vec<Rc<Polyline>> = removes.iter().cloned().collect();
+    loop {
+        let mut has_subtracted = false;
+        for possible_removal in possible_removals.iter() {
+            let (subtraction_list, _) = Polyline::subtraction(&boundary, possible_removal);
+
+            if subtraction_list.len() > 1 {
+                /* divided union in more than 1 */
+                return Err(());
+            }
+            if subtraction_list.len() == 1 {
+                boundary = Rc::clone(subtraction_list.get(0).unwrap());
+                has_subtracted = true;
+                continue;
+            }
+            unused_removals.push(Rc::clone(possible_removal));
         }
-        if subtraction_list.len() == 1 {
-            boundary = Rc::clone(subtraction_list.get(0).unwrap());
-            continue;
+
+        if !has_subtracted {
+            break;
         }
-        unused_removals.push(Rc::clone(possible_removal));
+        /* removals left unused may intersect the new boundary */
+        possible_removals = unused_removals.drain(..).collect();
     }
 
     return Ok((boundary, unused_removals));
-- 
2.43.0


From d965573f0c8dbc54c2a83839b7673fe70ac90819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 20/57] fix: keep a segment whole when an existing vertex is
 its end

---
 src/planar/triangulator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index 8962f84..df32cea 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -155,6 +155,7 @@ impl Triangulator {
                 if &segment.v1 == vertex || &segment.v2 == vertex {
                     /* Ignore vertices if they are an end vertex */
                     self.vertices.remove(vertex);
+                    continue;
                 }
                 if segment.contains(vertex) {
                     /* splits segment if contained */
-- 
2.43.0


From 035b29e9ebcb84fd887173c8001ad8ffdf0971cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 21/57] fix: reject a hole that surrounds an existing hole

---
 src/planar/triangulator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index df32cea..1f484a6 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -216,7 +216,9 @@ impl Triangulator {
 
         for existing_hole in self.holes.iter() {
             let is_hole_outside_existing_hole = Polyline::continence(existing_hole, hole)
-                == Some((Continence::Outside, BoundaryInclusion::Open));
+                == Some((Continence::Outside, BoundaryInclusion::Open))
+                && Polyline::continence(hole, existing_hole)
+                    == Some((Continence::Outside, BoundaryInclusion::Open));
 
             if !is_hole_outside_existing_hole {
                 conflicting_vertices = conflicting_vertices
-- 
2.43.0


From 375922c2c1d1447b6415de2e0d469f8d404f0f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 22/57] fix: remove the existing vertices that belong to an
 inserted hole

---
 src/planar/triangulator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index 1f484a6..e5905f0 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -248,6 +248,8 @@ impl Triangulator {
             return Err(conflicting_vertices);
         }
 
+        self.vertices
+            .retain(|vertex| hole.contains(vertex) == Some(Continence::Outside));
         self.holes.insert(Rc::clone(hole));
         return Ok(self);
     }
-- 
2.43.0


From 633b5361c619287920cb1a31fad8b67955934e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 23/57] fix: reject removals of the whole domain

---
 src/triangulator_interface/domain_evaluator.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/triangulator_interface/domain_evaluator.rs b/src/triangulator_interface/domain_evaluator.rs
index 2c12a73..927743d 100644
--- a/src/triangulator_interface/domain_evaluator.rs
+++ b/src/triangulator_interface/domain_evaluator.rs
@@ -50,6 +50,15 @@ pub fn boundary(
                 /* divided union in more than 1 */
                 return Err(());
             }
+            if subtraction_list.is_empty() {
+                match Polyline::continence(possible_removal, &boundary) {
+                    /* removes the whole union */
+                    Some((Continence::Inside, _)) | Some((Continence::Boundary, _)) => {
+                        return Err(());
+                    }
+                    _ => {}
+                }
+            }
             if subtraction_list.len() == 1 {
                 boundary = Rc::clone(subtraction_list.get(0).unwrap());
                 has_subtracted = true;
-- 
2.43.0


From ba165f6658fd6e3c444df76b7c95779bdb28fc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 24/57] fix: polyline continence sees vertices of p1 in the
 middle of p2 edges

---
 src/elements/polyline.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 07bb27f..45dc32f 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -680,6 +680,15 @@ impl Polyline {
         let p1_pairs = vertex_pairs(&p1.vertices, p1.opened);
         let p2_pairs = vertex_pairs(&p2.vertices, p2.opened);
 
+        /* p2 may touch a vertex of p1 in the middle of its edges */
+        let touches_p1_vertex = p2
+            .into_edges()
+            .iter()
+            .any(|edge| p1.vertices.iter().any(|vertex| edge.contains(vertex)));
+        if touches_p1_vertex {
+            possible_boundary = BoundaryInclusion::Closed;
+        }
+
         let splited_edges = Edge::from_vertex_pairs(split_intersections(
             &p1_pairs.iter().chain(p2_pairs.iter()).cloned().collect(),
         ));
-- 
2.43.0


From af9159a8501047357f193fda8a13f715c684f590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:12 +0000
Subject: [PATCH 25/57] fix: intersection finds segments that only touch away
 from the origin

---
 src/properties/intersection.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/properties/intersection.rs b/src/properties/intersection.rs
index 6e1244a..87691b2 100644
--- a/src/properties/intersection.rs
+++ b/src/properties/intersection.rs
@@ -23,16 +23,7 @@ pub fn intersection(
 ) -> Option<Vertex> {
     if let Some(bbox) = intersection_region(v1, v2, v3, v4) {
         if let Some(vertex) = intersection_vertex(v1, v2, v3, v4, &bbox) {
-            let in_interval_x = (vertex.x >= bbox.origin.x && vertex.x <= bbox.destin.x)
-                || float_cmp::approx_eq!(f64, bbox.origin.x, vertex.x, epsilon = 1.0E-14f64)
-                || float_cmp::approx_eq!(f64, bbox.destin.x, vertex.x, epsilon = 1.0E-14f64);
-            let in_interval_y = (vertex.y >= bbox.origin.y && vertex.y <= bbox.destin.y)
-                || float_cmp::approx_eq!(f64, bbox.origin.y, vertex.y, epsilon = 1.0E-14f64)
-                || float_cmp::approx_eq!(f64, bbox.destin.y, vertex.y, epsilon = 1.0E-14f64);
-
-            if in_interval_x && in_interval_y {
-                return Some(vertex);
-            }
+            return Some(vertex);
         }
     }
 
@@ -58,7 +49,7 @@ fn intersection_region(
 }
 
 /**
- * Determines the exact intersection vertex between lines
+ * Determines the exact intersection vertex between segments
  */
 fn intersection_vertex(
     v1: &Rc<Vertex>,
@@ -109,14 +100,23 @@ fn intersection_vertex(
         return None;
     }
 
-    let matrix_a_inv = matrix_a.try_inverse().unwrap();
+    /*
+        Positions of the intersection along each segment, relative to v1,
+        so that they are precise away from the coordinates origin
+    */
+    let det = (x2 - x1) * (y4 - y3) - (y2 - y1) * (x4 - x3);
+    let position_1 = ((x3 - x1) * (y4 - y3) - (y3 - y1) * (x4 - x3)) / det;
+    let position_2 = ((x3 - x1) * (y2 - y1) - (y3 - y1) * (x2 - x1)) / det;
 
-    let intersection_matrix = matrix_a_inv * matrix_b;
-
-    let intersection_x = intersection_matrix[0];
-    let intersection_y = intersection_matrix[1];
+    let is_inside = |position: f64| position >= -1.0E-14f64 && position <= 1.0 + 1.0E-14f64;
+    if !is_inside(position_1) || !is_inside(position_2) {
+        return None;
+    }
 
-    return Some(Vertex::new(intersection_x, intersection_y));
+    return Some(Vertex::new(
+        x1 + position_1 * (x2 - x1),
+        y1 + position_1 * (y2 - y1),
+    ));
 }
 
 #[cfg(test)]
-- 
2.43.0


From e239105123c525364e979f584841acca16d92ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:02 +0000
Subject: [PATCH 26/57] fix: polyline continence sees the end of an opened
 polyline

---
 src/elements/polyline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 45dc32f..c5adbc2 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -658,7 +658,7 @@ impl Polyline {
         for critial_vertex in p2
             .into_edges()
             .iter()
-            .map(|e| vec![Rc::new(e.midpoint()), Rc::clone(&e.v1)])
+            .map(|e| vec![Rc::new(e.midpoint()), Rc::clone(&e.v1), Rc::clone(&e.v2)])
             .flatten()
         {
             let continence = p1.contains(&critial_vertex).unwrap();
-- 
2.43.0


From b7683f45d59ca914850ef65ce7ba81ca3b84b2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 27/57] fix: do not arrange an opened chain of edges as a
 polygon

---
 src/elements/polyline.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index c5adbc2..2f0de0b 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -93,10 +93,12 @@ impl Polyline {
         let head: Rc<Vertex> = Rc::clone(hash_edges.keys().next().unwrap());
         let mut tail: Rc<Vertex> = Rc::clone(&head);
         arranged_vertices.push(Rc::clone(&head));
+        let mut is_closed: bool = false;
 
         loop {
             if let Some(next) = hash_edges.get(&tail) {
                 if next == &head {
+                    is_closed = true;
                     break;
                 }
                 arranged_vertices.push(Rc::clone(next));
@@ -106,7 +108,7 @@ impl Polyline {
             break;
         }
 
-        if arranged_vertices.len() == edges.len() {
+        if is_closed && arranged_vertices.len() == edges.len() {
             return Some(Polyline::new_closed(arranged_vertices).unwrap());
         }
 
-- 
2.43.0


From 10e5bdd403c4b78fa77357ca525e0bc061d94123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:09 +0000
Subject: [PATCH 28/57] fix: evaluate the orientation determinant relative to a
 vertex

---
 src/properties/orientation.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/properties/orientation.rs b/src/properties/orientation.rs
index 37fa199..f66cfdb 100644
--- a/src/properties/orientation.rs
+++ b/src/properties/orientation.rs
@@ -1,9 +1,7 @@
 #![macro_use]
 extern crate float_cmp;
-extern crate nalgebra;
 
 use crate::elements::vertex::*;
-use nalgebra::Matrix3;
 
 #[derive(PartialEq, Debug)]
 pub enum Orientation {
@@ -17,8 +15,8 @@ pub enum Orientation {
  * in the circumcircle they define.
  */
 pub fn orientation(a: &Vertex, b: &Vertex, c: &Vertex) -> Orientation {
-    let matrix = Matrix3::new(a.x, a.y, 1.0, b.x, b.y, 1.0, c.x, c.y, 1.0);
-    let det: f64 = matrix.determinant();
+    /* c as origin keeps the determinant precise away from the coordinates origin */
+    let det: f64 = (a.x - c.x) * (b.y - c.y) - (a.y - c.y) * (b.x - c.x);
 
     if float_cmp::approx_eq!(f64, det, 0.0, epsilon = 1.0E-14f64) {
         return Orientation::Colinear;
-- 
2.43.0


From 774b13f4d66ef3880baac2a257ba3db39a629b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:10 +0000
Subject: [PATCH 29/57] fix: evaluate the triangle area relative to a vertex

---
 src/properties/area.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/properties/area.rs b/src/properties/area.rs
index e15661f..d8a8b5f 100644
--- a/src/properties/area.rs
+++ b/src/properties/area.rs
@@ -1,5 +1,4 @@
 use crate::elements::vertex::*;
-use nalgebra::Matrix3;
 use std::rc::Rc;
 
 pub fn area_segments(segments_list: &Vec<(Rc<Vertex>, Rc<Vertex>)>) -> f64 {
@@ -9,17 +8,11 @@ pub fn area_segments(segments_list: &Vec<(Rc<Vertex>, Rc<Vertex>)>) -> f64 {
 }
 
 pub fn area_triangle(v1: &Vertex, v2: &Vertex, v3: &Vertex) -> f64 {
-    let x1 = v1.x;
-    let y1 = v1.y;
+    /* v1 as origin keeps the area precise away from the coordinates origin */
+    let (x2, y2) = (v2.x - v1.x, v2.y - v1.y);
+    let (x3, y3) = (v3.x - v1.x, v3.y - v1.y);
 
-    let x2 = v2.x;
-    let y2 = v2.y;
-
-    let x3 = v3.x;
-    let y3 = v3.y;
-
-    let matrix = Matrix3::new(x1, y1, 1.0, x2, y2, 1.0, x3, y3, 1.0);
-    return matrix.determinant() / 2.0;
+    return (x2 * y3 - x3 * y2) / 2.0;
 }
 
 #[cfg(test)]
-- 
2.43.0


From bcf9881eccfc51b7e73e9f21bdb4e5000995cdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:03 +0000
Subject: [PATCH 30/57] fix: polyline continence sees edges that leave the
 boundary between critical vertices

---
 src/elements/polyline.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 2f0de0b..d5446bf 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -701,6 +701,10 @@ impl Polyline {
             if continence == Continence::Boundary {
                 continue;
             }
+            if possible_continence.is_none() {
+                possible_continence = Some(continence);
+                continue;
+            }
             if Some(continence) != possible_continence {
                 return None;
             }
-- 
2.43.0


From c732fae642a9a908432786bf4f2194d941f537fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:58 +0000
Subject: [PATCH 31/57] fix: report the triangles included while removing
 encroachments

---
 src/planar/refine_procedures/encroachment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/planar/refine_procedures/encroachment.rs b/src/planar/refine_procedures/encroachment.rs
index 469c39d..cc8d6a0 100644
--- a/src/planar/refine_procedures/encroachment.rs
+++ b/src/planar/refine_procedures/encroachment.rs
@@ -50,7 +50,7 @@ pub fn unencroach(
         included_triangles = included_triangles
             .iter()
             .chain(new_triangles.iter())
-            .filter(|&t| old_triangles.contains(t))
+            .filter(|&t| !old_triangles.contains(t))
             .cloned()
             .collect();
 
-- 
2.43.0


From 027fb0505d1644b5857b342c477bc126a2b29aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:57 +0000
Subject: [PATCH 32/57] fix: a triangle inside any hole may not be replaced,
 whichever hole comes last

---
 src/planar/triangulation_procedures/vertices.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index 38bd789..8af9a7e 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -337,7 +337,7 @@ fn may_insert_triangle(
 
     for hole in holes.iter() {
         if let Some((continence, _)) = Polyline::continence(&hole, &p2) {
-            is_outside_holes = continence != Continence::Inside;
+            is_outside_holes = is_outside_holes && continence != Continence::Inside;
         } else {
             is_outside_holes = false;
         }
-- 
2.43.0


From 59ddc5754df8acec86a62537efbfae9206741576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 33/57] fix: keep the pieces of split segments as constraints
 while removing encroachments

---
 src/planar/refine_procedures/encroachment.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/planar/refine_procedures/encroachment.rs b/src/planar/refine_procedures/encroachment.rs
index cc8d6a0..97c05fc 100644
--- a/src/planar/refine_procedures/encroachment.rs
+++ b/src/planar/refine_procedures/encroachment.rs
@@ -21,11 +21,13 @@ pub fn unencroach(
     let mut included_triangles: HashSet<Rc<Triangle>> = HashSet::new();
     let mut removed_triangles: HashSet<Rc<Triangle>> = HashSet::new();
 
+    let mut segment_contraints: HashSet<Rc<Edge>> = segment_contraints.iter().cloned().collect();
+
     let mut split_map: HashMap<Rc<Edge>, Rc<Edge>> = HashMap::new();
     let mut encroach_map: HashMap<Rc<Edge>, HashSet<Rc<Vertex>>> = HashMap::new();
 
     distribute_encroachments(
-        segment_contraints,
+        &segment_contraints,
         &triangulation.vertices(),
         &mut encroach_map,
     );
@@ -38,12 +40,14 @@ pub fn unencroach(
             triangulation,
             &encroached_edge,
             &mut encroaching_vertices,
-            segment_contraints,
+            &segment_contraints,
             boundary,
             holes,
         );
 
+        segment_contraints.remove(&encroached_edge);
         for e in new_edges.iter() {
+            segment_contraints.insert(Rc::clone(e));
             split_map.insert(Rc::clone(e), Rc::clone(&encroached_edge));
         }
 
-- 
2.43.0


From 0ca6bedd8c38d5befc9c6a7b5f05c512e8fa5037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:14 +0000
Subject: [PATCH 34/57] fix: keep encroaching vertices until no piece of the
 segment is left to split

---
 src/planar/refine_procedures/encroachment.rs | 45 ++++++--------------
 1 file changed, 14 insertions(+), 31 deletions(-)

diff --git a/src/planar/refine_procedures/encroachment.rs b/src/planar/refine_procedures/encroachment.rs
index 97c05fc..fc027cf 100644
--- a/src/planar/refine_procedures/encroachment.rs
+++ b/src/planar/refine_procedures/encroachment.rs
@@ -116,40 +116,23 @@ pub fn unencroach_segment(
             .cloned()
             .collect();
 
-        let mut is_h1_encroached = false;
-        let mut is_h2_encroached = false;
-
-        for v in encroaching_vertices
-            .iter()
-            .cloned()
-            .collect::<HashSet<Rc<Vertex>>>()
-            .iter()
-        {
-            let mut v_encroaches_any = false;
-            if h1.encroach(&v) == Continence::Inside {
-                is_h1_encroached = true;
-                v_encroaches_any = true;
-            }
-            if h2.encroach(&v) == Continence::Inside {
-                is_h2_encroached = true;
-                v_encroaches_any = true;
-            }
-            if !v_encroaches_any {
-                encroaching_vertices.remove(v);
+        for half in vec![h1, h2] {
+            let is_encroached = encroaching_vertices
+                .iter()
+                .any(|v| half.encroach(v) == Continence::Inside);
+            if is_encroached {
+                pending_edges.push(half);
+            } else {
+                new_edges.insert(half);
             }
         }
 
-        if is_h1_encroached {
-            pending_edges.push(h1);
-        } else {
-            new_edges.insert(h1);
-        }
-
-        if is_h2_encroached {
-            pending_edges.push(h2);
-        } else {
-            new_edges.insert(h2);
-        }
+        /* a vertex may encroach upon a piece that is still to be split */
+        encroaching_vertices.retain(|v| {
+            pending_edges
+                .iter()
+                .any(|e| e.encroach(v) == Continence::Inside)
+        });
     } /* end - for pending edges */
 
     return (new_edges, included_triangles, removed_triangles);
-- 
2.43.0


From d6ca16843cfb7ce913312d3dfb27a6e0cff03be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:29 +0000
Subject: [PATCH 35/57] fix: split the segment between a triangle and its
 circumcenter

The circumcenter of a triangle next to a narrow gap lies beyond a constraint,
and including it turned over triangles or was given up, missing the bounds.
---
 .../refine_procedures/triangle_split.rs       | 30 ++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/planar/refine_procedures/triangle_split.rs b/src/planar/refine_procedures/triangle_split.rs
index fcecf3e..ea066dd 100644
--- a/src/planar/refine_procedures/triangle_split.rs
+++ b/src/planar/refine_procedures/triangle_split.rs
@@ -4,7 +4,7 @@ use crate::planar::{
     triangulation_procedures,
 };
 
-use crate::properties::continence::*;
+use crate::properties::{continence::*, distance::*, intersection::*};
 
 use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
@@ -143,6 +143,7 @@ pub fn split_irregular(
                         );
 
                     segment_contraints.remove(encroached_edge);
+                    segment_contraints.remove(&Rc::new(encroached_edge.opposite()));
                     split_map.remove(encroached_edge);
                     for subsegment in new_edges.iter() {
                         split_map.insert(Rc::clone(subsegment), Rc::clone(encroached_edge));
@@ -197,6 +198,33 @@ fn try_circumcenter_insertion(
     let circumcenter = Rc::new(triangle.circumcenter().unwrap());
     let mut conflict_map: HashMap<Rc<Triangle>, Vec<Rc<Vertex>>> = HashMap::new();
 
+    /* Splits the segment that keeps the circumcenter apart from the triangle */
+    let center = Rc::new(triangle.center());
+    let nearest_segment = segment_constraints
+        .iter()
+        .filter_map(|e| {
+            intersection(&center, &circumcenter, &e.v1, &e.v2)
+                .map(|vertex| (distance(&center, &vertex), e))
+        })
+        .min_by(|(d1, _), (d2, _)| d1.partial_cmp(d2).unwrap());
+    if let Some((_, segment)) = nearest_segment {
+        /* Splitting can't improve the triangle between segments that meet at a sharp angle */
+        let is_sharp = vec![&triangle.v1, &triangle.v2, &triangle.v3]
+            .iter()
+            .filter(|v| segment.encroach(v) == Continence::Inside)
+            .any(|v| {
+                vec![&segment.v1, &segment.v2].iter().any(|end| {
+                    let edge = Rc::new(Edge::new(end, v));
+                    segment_constraints.contains(&edge)
+                        || segment_constraints.contains(&Rc::new(edge.opposite()))
+                })
+            });
+        if is_sharp {
+            return Ok((HashSet::new(), HashSet::new()));
+        }
+        return Err(vec![Rc::clone(segment)].into_iter().collect());
+    }
+
     triangulation_procedures::vertices::distribute_conflicts_over_triangulation(
         triangulation,
         Some(Rc::clone(triangle)),
-- 
2.43.0


From f516dd672c094b25938cfdf1284d77c2abf9d89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:04 +0000
Subject: [PATCH 36/57] fix: split every segment that contains an inserted
 vertex

---
 src/planar/triangulator.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index e5905f0..91d5511 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -77,7 +77,7 @@ impl Triangulator {
                 if &segment.v1 == vertex || &segment.v2 == vertex {
                     /* Ignore vertices if they are and end vertex */
                     should_insert = false;
-                    break;
+                    continue;
                 }
                 if segment.contains(vertex) {
                     /* splits segment if contained */
@@ -87,7 +87,6 @@ impl Triangulator {
                     self.segments
                         .insert(Rc::new(Edge::new(vertex, &segment.v2)));
                     should_insert = false;
-                    break;
                 }
             }
             if should_insert {
-- 
2.43.0


From a07eac10f93522a2153e549e755dad52c6922261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 37/57] fix: polygons drawn clockwise are turned
 counterclockwise

---
 .../interpreter/polyline_parser.rs                   | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/triangulator_interface/interpreter/polyline_parser.rs b/src/triangulator_interface/interpreter/polyline_parser.rs
index 734b681..4defd02 100644
--- a/src/triangulator_interface/interpreter/polyline_parser.rs
+++ b/src/triangulator_interface/interpreter/polyline_parser.rs
@@ -1,10 +1,13 @@
 use crate::json_serializar::models::{action::Action, point::Point};
 use std::rc::Rc;
 
-use nlsn_delaunay::elements::{polyline::*, vertex::*};
+use nlsn_delaunay::{
+    elements::{polyline::*, vertex::*},
+    properties::area::*,
+};
 
 pub fn parse(action: &Action) -> Result<Polyline, ()> {
-    let vertices: Vec<Rc<Vertex>> = action
+    let mut vertices: Vec<Rc<Vertex>> = action
         .points
         .iter()
         .map(|p| point_to_vertex(p))
@@ -25,6 +28,11 @@ pub fn parse(action: &Action) -> Result<Polyline, ()> {
         return Err(());
     }
 
+    /* Polygons are counterclockwise, however they are drawn */
+    if area_segments(&segments) > 0.0 {
+        vertices.reverse();
+    }
+
     return Polyline::new_closed(vertices).ok_or(());
 } /* end - parse */
 
-- 
2.43.0


From 45b4672b3b6809953f1ace960219ef7de5313690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 38/57] fix: outlines may repeat points in a row, and are
 rejected when empty or meeting themselves at a vertex

---
 .../interpreter/polyline_parser.rs            | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/triangulator_interface/interpreter/polyline_parser.rs b/src/triangulator_interface/interpreter/polyline_parser.rs
index 4defd02..d7e3e27 100644
--- a/src/triangulator_interface/interpreter/polyline_parser.rs
+++ b/src/triangulator_interface/interpreter/polyline_parser.rs
@@ -1,4 +1,5 @@
 use crate::json_serializar::models::{action::Action, point::Point};
+use std::collections::HashSet;
 use std::rc::Rc;
 
 use nlsn_delaunay::{
@@ -18,6 +19,18 @@ pub fn parse(action: &Action) -> Result<Polyline, ()> {
         return Err(());
     }
 
+    /* Repeated points, as in outlines closed by their first point, make no side */
+    vertices.dedup();
+    if vertices.len() > 1 && vertices.first() == vertices.last() {
+        vertices.pop();
+    }
+
+    let unique_vertices: HashSet<&Rc<Vertex>> = vertices.iter().collect();
+    if unique_vertices.len() < vertices.len() {
+        /* Corrupted data, the outline meets itself at a vertex */
+        return Err(());
+    }
+
     let segments = vertex_pairs(&vertices, false);
     let split_segments = split_intersections(&segments);
     if split_segments.len() > segments.len() {
@@ -28,8 +41,14 @@ pub fn parse(action: &Action) -> Result<Polyline, ()> {
         return Err(());
     }
 
+    let area = area_segments(&segments);
+    if area == 0.0 {
+        /* Corrupted data, encloses nothing */
+        return Err(());
+    }
+
     /* Polygons are counterclockwise, however they are drawn */
-    if area_segments(&segments) > 0.0 {
+    if area > 0.0 {
         vertices.reverse();
     }
 
-- 
2.43.0


From 523b31c0342da216272fe12ed54288364a9dcc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 39/57] fix: reject circles too small to tell their vertices
 apart

---
 src/triangulator_interface/interpreter/circle_parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/triangulator_interface/interpreter/circle_parser.rs b/src/triangulator_interface/interpreter/circle_parser.rs
index d910baf..52fe40a 100644
--- a/src/triangulator_interface/interpreter/circle_parser.rs
+++ b/src/triangulator_interface/interpreter/circle_parser.rs
@@ -1,4 +1,5 @@
 use crate::json_serializar::models::{action::Action, point::Point};
+use std::collections::HashSet;
 use std::rc::Rc;
 
 use nlsn_delaunay::{
@@ -23,6 +24,12 @@ pub fn parse(action: &Action) -> Result<Polyline, ()> {
             vertices.push(Rc::new(vertex));
         }
 
+        let unique_vertices: HashSet<&Rc<Vertex>> = vertices.iter().collect();
+        if unique_vertices.len() < vertices.len() {
+            /* Radius too small to tell vertices apart */
+            return Err(());
+        }
+
         return Polyline::new_closed(vertices).ok_or(());
     }
     return Err(());
-- 
2.43.0


From ed20b50f5bf69208bbfc8ad8d847482e97889b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 40/57] fix: reject segments that have no length

---
 src/planar/triangulator.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index 91d5511..13aeeb4 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -114,6 +114,12 @@ impl Triangulator {
         /* Accumulate conflicting segments */
         let mut conflicting_segments: HashSet<Rc<Edge>> = HashSet::new();
         for segment in segments.iter() {
+            if segment.v1 == segment.v2 {
+                /* has no length */
+                conflicting_segments.insert(Rc::clone(segment));
+                continue;
+            }
+
             let segment_polyline: Polyline =
                 Polyline::new_opened(vec![Rc::clone(&segment.v1), Rc::clone(&segment.v2)]).unwrap();
 
-- 
2.43.0


From 0408916618fae85dc44ba976df61b513bd8d72c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:14 +0000
Subject: [PATCH 41/57] fix: opened polylines stay opened when straight corners
 are dropped

---
 src/elements/polyline.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index d5446bf..8288fd7 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -140,6 +140,8 @@ impl Polyline {
         if self.opened {
             minified.insert(0, Rc::clone(&head));
             minified.push(Rc::clone(&tail));
+
+            return Polyline::new_opened(minified).unwrap();
         }
 
         return Polyline::new_closed(minified).unwrap();
-- 
2.43.0


From 17ed13dea89ac017103fea60bc413752c9715cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 42/57] fix: arranging ends when the chain of edges loops
 without its first vertex

---
 src/elements/polyline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 8288fd7..f8337fd 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -95,7 +95,7 @@ impl Polyline {
         arranged_vertices.push(Rc::clone(&head));
         let mut is_closed: bool = false;
 
-        loop {
+        while arranged_vertices.len() <= edges.len() {
             if let Some(next) = hash_edges.get(&tail) {
                 if next == &head {
                     is_closed = true;
-- 
2.43.0


From 8cf75e75d2a0323e8fb6b40b603921a224d98774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 43/57] fix: no edges arrange to no polyline

---
 src/elements/polyline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index f8337fd..d29ca59 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -90,7 +90,7 @@ impl Polyline {
             hash_edges.insert(Rc::clone(&edge.v1), Rc::clone(&edge.v2));
         }
 
-        let head: Rc<Vertex> = Rc::clone(hash_edges.keys().next().unwrap());
+        let head: Rc<Vertex> = Rc::clone(hash_edges.keys().next()?);
         let mut tail: Rc<Vertex> = Rc::clone(&head);
         arranged_vertices.push(Rc::clone(&head));
         let mut is_closed: bool = false;
-- 
2.43.0


From baf34635f481b61324ed8bab56846ab4f19b3e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:36 +0000
Subject: [PATCH 44/57] fix: vertices equal up to rounding are kept once

---
 src/planar/triangulator.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index 13aeeb4..8bebade 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -86,10 +86,12 @@ impl Triangulator {
                         .insert(Rc::new(Edge::new(&segment.v1, vertex)));
                     self.segments
                         .insert(Rc::new(Edge::new(vertex, &segment.v2)));
+                    self.vertices.retain(|existing| existing != vertex);
                     should_insert = false;
                 }
             }
-            if should_insert {
+            /* equality tolerates rounding, hashing does not */
+            if should_insert && !self.vertices.iter().any(|existing| existing == vertex) {
                 self.vertices.insert(Rc::clone(&vertex));
             }
         }
@@ -144,8 +146,25 @@ impl Triangulator {
             return Err(conflicting_segments);
         }
 
+        /* Equal ends become one vertex: equality tolerates rounding, hashing does not */
+        let mut known_ends: Vec<Rc<Vertex>> = Vec::new();
+        for segment in self.segments.iter() {
+            known_ends.push(Rc::clone(&segment.v1));
+            known_ends.push(Rc::clone(&segment.v2));
+        }
+        let mut known_end = |vertex: &Rc<Vertex>| {
+            if let Some(known) = known_ends.iter().find(|&known| known == vertex) {
+                return Rc::clone(known);
+            }
+            known_ends.push(Rc::clone(vertex));
+            return Rc::clone(vertex);
+        };
+
         /* Removes vertices */
-        let mut aux_list: Vec<Rc<Edge>> = segments.iter().cloned().collect();
+        let mut aux_list: Vec<Rc<Edge>> = segments
+            .iter()
+            .map(|segment| Rc::new(Edge::new(&known_end(&segment.v1), &known_end(&segment.v2))))
+            .collect();
         let mut segments_to_insert: HashSet<Rc<Edge>> = HashSet::new();
         while !aux_list.is_empty() {
             let segment = aux_list.pop().unwrap();
-- 
2.43.0


From 81de4f18db05253174db5595a22985f13caa0a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:41 +0000
Subject: [PATCH 45/57] fix: segments that touch or overlap meet up to rounding

---
 src/properties/intersection.rs | 35 ++++++++++++++--------------------
 src/properties/parallel.rs     | 24 ++++++-----------------
 2 files changed, 20 insertions(+), 39 deletions(-)

diff --git a/src/properties/intersection.rs b/src/properties/intersection.rs
index 87691b2..4de3c33 100644
--- a/src/properties/intersection.rs
+++ b/src/properties/intersection.rs
@@ -1,12 +1,10 @@
 #![macro_use]
 extern crate float_cmp;
 
-extern crate nalgebra;
-
 use crate::elements::bounding_box::*;
 use crate::elements::vertex::*;
+use crate::properties::{orientation::*, parallel::*};
 
-use nalgebra::{Matrix2, Matrix2x1};
 use std::rc::Rc;
 
 /**
@@ -25,6 +23,13 @@ pub fn intersection(
         if let Some(vertex) = intersection_vertex(v1, v2, v3, v4, &bbox) {
             return Some(vertex);
         }
+
+        /* Segments that end on each other may be missed by rounding */
+        for (end, head, tail) in vec![(v1, v3, v4), (v2, v3, v4), (v3, v1, v2), (v4, v1, v2)] {
+            if bbox.contains(end) && orientation(head, tail, end) == Orientation::Colinear {
+                return Some(Vertex::new(end.x, end.y));
+            }
+        }
     }
 
     return None;
@@ -70,30 +75,18 @@ fn intersection_vertex(
     let x4 = v4.x;
     let y4 = v4.y;
 
-    let matrix_a = Matrix2::new(-(y2 - y1), x2 - x1, -(y4 - y3), x4 - x3);
-
-    let matrix_b = Matrix2x1::new(
-        y1 * (x2 - x1) - x1 * (y2 - y1),
-        y3 * (x4 - x3) - x3 * (y4 - y3),
-    );
-
-    if !matrix_a.is_invertible() {
-        /* Lines are coincident */
-        let possible_middle_point = Matrix2x1::new(
+    if parallel(v1, v2, v3, v4) {
+        /* Lines may be coincident */
+        let possible_middle_point = Vertex::new(
             (bbox.origin.x + bbox.destin.x) / 2.0,
             (bbox.origin.y + bbox.destin.y) / 2.0,
         );
 
-        let eval = matrix_a * possible_middle_point - matrix_b;
-
-        if float_cmp::approx_eq!(f64, eval[0], 0.0, epsilon = 1.0E-14f64)
-            && float_cmp::approx_eq!(f64, eval[1], 0.0, epsilon = 1.0E-14f64)
+        if orientation(v1, v2, &possible_middle_point) == Orientation::Colinear
+            && orientation(v3, v4, &possible_middle_point) == Orientation::Colinear
         {
             /* Return mid-point as intersection representation */
-            return Some(Vertex::new(
-                possible_middle_point[0],
-                possible_middle_point[1],
-            ));
+            return Some(possible_middle_point);
         }
 
         /* Lines are parallel */
diff --git a/src/properties/parallel.rs b/src/properties/parallel.rs
index 94e0c81..15aafce 100644
--- a/src/properties/parallel.rs
+++ b/src/properties/parallel.rs
@@ -1,27 +1,15 @@
-extern crate nalgebra;
-
 use crate::elements::vertex::*;
 
-use nalgebra::Matrix2;
-
 /**
- * Checks if ab is parallel to cd
+ * Checks if ab is parallel to cd. The angle in between them is
+ * compared up to rounding.
  */
 pub fn parallel(a: &Vertex, b: &Vertex, c: &Vertex, d: &Vertex) -> bool {
-    let x1 = a.x;
-    let y1 = a.y;
-
-    let x2 = b.x;
-    let y2 = b.y;
-
-    let x3 = c.x;
-    let y3 = c.y;
-
-    let x4 = d.x;
-    let y4 = d.y;
+    let (x1, y1) = (b.x - a.x, b.y - a.y);
+    let (x2, y2) = (d.x - c.x, d.y - c.y);
 
-    let matrix_a = Matrix2::new(-(y2 - y1), x2 - x1, -(y4 - y3), x4 - x3);
-    return !matrix_a.is_invertible();
+    let cross = x1 * y2 - y1 * x2;
+    return cross.abs() <= 1.0E-14f64 * x1.hypot(y1) * x2.hypot(y2);
 }
 
 #[cfg(test)]
-- 
2.43.0


From fb20d82c82781e99948b32d1e7dac58943f155ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:55 +0000
Subject: [PATCH 46/57] fix: a conflicting vertex must see the edges it makes
 triangles with

---
 src/planar/triangulation_procedures/vertices.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index 8af9a7e..dc25fc3 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -131,6 +131,13 @@ pub fn solve_conflicts(
                 // );
             }
 
+            if !outer_triangle.is_ghost() && !edge.v1.is_ghost && !edge.v2.is_ghost {
+                /* the vertex must see the edge, to make up a triangle with it */
+                let sees_edge = orientation(&edge.v1, &edge.v2, &conflict_vertex)
+                    == Orientation::Counterclockwise;
+                is_conflicting = is_conflicting || !sees_edge;
+            }
+
             let is_constrained = segment_constraints.contains(&edge_to_outer_triangle)
                 || segment_constraints.contains(&edge);
 
-- 
2.43.0


From 2023671c6ac84d5be4a056b8f366bcf4a6cbd306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:55 +0000
Subject: [PATCH 47/57] fix: predicates tell boundaries up to the rounding of
 the coordinates

---
 src/elements/vertex.rs         |  9 ++++++++-
 src/properties/continence.rs   |  8 +++++++-
 src/properties/encroachment.rs | 10 +++++++++-
 src/properties/orientation.rs  | 10 ++++++++--
 4 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/elements/vertex.rs b/src/elements/vertex.rs
index 941df75..63a8d0b 100644
--- a/src/elements/vertex.rs
+++ b/src/elements/vertex.rs
@@ -40,7 +40,7 @@ impl PartialEq for Vertex {
 
         return self.is_ghost == other.is_ghost
             && float_cmp::approx_eq!(f64, self.x, other.x, epsilon = 1.0E-14f64)
-            && float_cmp::approx_eq!(f64, self.y, other.y, epsilon = 1.0E-14f64)
+            && float_cmp::approx_eq!(f64, self.y, other.y, epsilon = 1.0E-14f64);
     }
 }
 
@@ -84,6 +84,13 @@ impl fmt::Display for Vertex {
 }
 
 impl Vertex {
+    /**
+     * Largest coordinate, which tells how much rounding to expect
+     */
+    pub fn size(&self) -> f64 {
+        return self.x.abs().max(self.y.abs());
+    }
+
     pub fn new(x: f64, y: f64) -> Self {
         Self {
             x: x,
diff --git a/src/properties/continence.rs b/src/properties/continence.rs
index 853af6f..61170de 100644
--- a/src/properties/continence.rs
+++ b/src/properties/continence.rs
@@ -27,7 +27,13 @@ pub fn continence(a: &Vertex, b: &Vertex, c: &Vertex, d: &Vertex) -> Continence
         + (bx.powi(2) + by.powi(2)) * (cx * ay - ax * cy)
         + (cx.powi(2) + cy.powi(2)) * (ax * by - bx * ay);
 
-    if float_cmp::approx_eq!(f64, det, 0.0, epsilon = 1.0E-14f64) {
+    /* the determinant carries the rounding of the coordinates */
+    let size = a.size().max(b.size()).max(c.size()).max(d.size());
+    let length = [ax, ay, bx, by, cx, cy]
+        .iter()
+        .fold(0.0, |length: f64, l| length.max(l.abs()));
+
+    if det.abs() <= 1.0E-14f64 * (size * length.powi(3)).max(1.0) {
         return Continence::Boundary;
     }
 
diff --git a/src/properties/encroachment.rs b/src/properties/encroachment.rs
index d7ac446..afe7282 100644
--- a/src/properties/encroachment.rs
+++ b/src/properties/encroachment.rs
@@ -11,7 +11,15 @@ pub fn encroach(v1: &Vertex, v2: &Vertex, vertex: &Vertex) -> Continence {
 
     let measure = (x - x2) * (x - x1) + (y - y2) * (y - y1);
 
-    if float_cmp::approx_eq!(f64, measure, 0.0, epsilon = 1.0E-14f64) {
+    /* the measure carries the rounding of the coordinates */
+    let size = v1.size().max(v2.size()).max(vertex.size());
+    let length = (x - x2)
+        .abs()
+        .max((x - x1).abs())
+        .max((y - y2).abs())
+        .max((y - y1).abs());
+
+    if measure.abs() <= 1.0E-14f64 * (size * length).max(1.0) {
         return Continence::Boundary;
     }
 
diff --git a/src/properties/orientation.rs b/src/properties/orientation.rs
index f66cfdb..11beb7d 100644
--- a/src/properties/orientation.rs
+++ b/src/properties/orientation.rs
@@ -16,9 +16,15 @@ pub enum Orientation {
  */
 pub fn orientation(a: &Vertex, b: &Vertex, c: &Vertex) -> Orientation {
     /* c as origin keeps the determinant precise away from the coordinates origin */
-    let det: f64 = (a.x - c.x) * (b.y - c.y) - (a.y - c.y) * (b.x - c.x);
+    let (ax, ay) = (a.x - c.x, a.y - c.y);
+    let (bx, by) = (b.x - c.x, b.y - c.y);
+    let det: f64 = ax * by - ay * bx;
 
-    if float_cmp::approx_eq!(f64, det, 0.0, epsilon = 1.0E-14f64) {
+    /* the determinant carries the rounding of the coordinates */
+    let size = a.size().max(b.size()).max(c.size());
+    let length = ax.abs().max(ay.abs()).max(bx.abs()).max(by.abs());
+
+    if det.abs() <= 1.0E-14f64 * (size * length).max(1.0) {
         return Orientation::Colinear;
     }
 
-- 
2.43.0


From fc7013250f4a4b3e606c3870b8171f77908baf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:55 +0000
Subject: [PATCH 48/57] fix: vertices are equal up to the rounding of their
 coordinates

---
 src/elements/polyline.rs       | 32 ++++++++++----------------------
 src/elements/vertex.rs         |  7 +++++--
 src/properties/intersection.rs | 10 ++++++++++
 3 files changed, 25 insertions(+), 24 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index d29ca59..151c3e0 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -160,7 +160,7 @@ impl Polyline {
             let is_vertical_segment = v1.x == v2.x;
             if is_vertical_segment {
                 /* same tolerance that applies to the equality of vertices */
-                let points_to_vertex = (v1.x - vertex.x).abs() <= 1.0E-14f64;
+                let points_to_vertex = (v1.x - vertex.x).abs() <= 1.0E-14f64 * v1.size().max(1.0);
                 let contains_vertex_in_vertical_interval = (v1.y <= vertex.y && vertex.y <= v2.y)
                     || (v2.y <= vertex.y && vertex.y <= v1.y);
 
@@ -732,29 +732,17 @@ impl Polyline {
                 for (v3, v4) in vertex_pairs(&p2.vertices, p2.opened) {
                     /* calculates intersection and inserts it into the returning set */
                     if let Some(intersection_vertex) = intersection(&v1, &v2, &v3, &v4) {
-                        let intersection_vertex = Rc::new(intersection_vertex);
-
-                        if intersection_vertex == v1 {
-                            intersection_set.insert(Rc::clone(&v1));
-                            continue;
-                        }
-
-                        if intersection_vertex == v2 {
-                            intersection_set.insert(Rc::clone(&v2));
-                            continue;
-                        }
-
-                        if intersection_vertex == v3 {
-                            intersection_set.insert(Rc::clone(&v3));
-                            continue;
-                        }
+                        /* vertices of the polylines are preferred to calculated ones */
+                        let intersection_vertex = [&v1, &v2, &v3, &v4]
+                            .iter()
+                            .find(|vertex| vertex.as_ref() == &intersection_vertex)
+                            .map(|vertex| Rc::clone(*vertex))
+                            .unwrap_or(Rc::new(intersection_vertex));
 
-                        if intersection_vertex == v4 {
-                            intersection_set.insert(Rc::clone(&v4));
-                            continue;
+                        /* vertices equal up to rounding have different hashes */
+                        if !intersection_set.iter().any(|v| v == &intersection_vertex) {
+                            intersection_set.insert(intersection_vertex);
                         }
-
-                        intersection_set.insert(intersection_vertex);
                     } /* end - check intersection */
                 } /* end - p2 loop */
             } /* end - p1 loop */
diff --git a/src/elements/vertex.rs b/src/elements/vertex.rs
index 63a8d0b..2802497 100644
--- a/src/elements/vertex.rs
+++ b/src/elements/vertex.rs
@@ -38,9 +38,12 @@ impl PartialEq for Vertex {
             return true;
         }
 
+        /* both coordinates carry the rounding of the largest one */
+        let tolerance = 1.0E-14f64 * self.size().max(other.size()).max(1.0);
+
         return self.is_ghost == other.is_ghost
-            && float_cmp::approx_eq!(f64, self.x, other.x, epsilon = 1.0E-14f64)
-            && float_cmp::approx_eq!(f64, self.y, other.y, epsilon = 1.0E-14f64);
+            && float_cmp::approx_eq!(f64, self.x, other.x, epsilon = tolerance)
+            && float_cmp::approx_eq!(f64, self.y, other.y, epsilon = tolerance);
     }
 }
 
diff --git a/src/properties/intersection.rs b/src/properties/intersection.rs
index 4de3c33..ddc40b7 100644
--- a/src/properties/intersection.rs
+++ b/src/properties/intersection.rs
@@ -21,6 +21,16 @@ pub fn intersection(
 ) -> Option<Vertex> {
     if let Some(bbox) = intersection_region(v1, v2, v3, v4) {
         if let Some(vertex) = intersection_vertex(v1, v2, v3, v4, &bbox) {
+            /* the vertex carries the rounding of the segments, which may be far longer than it */
+            let ends = [v1, v2, v3, v4];
+            let size = ends.iter().fold(0.0, |size: f64, end| size.max(end.size()));
+            let tolerance = 1.0E-14f64 * size.max(1.0);
+
+            for end in ends.iter() {
+                if (end.x - vertex.x).abs() <= tolerance && (end.y - vertex.y).abs() <= tolerance {
+                    return Some(Vertex::new(end.x, end.y));
+                }
+            }
             return Some(vertex);
         }
 
-- 
2.43.0


From c4e79c5617b97b5a5c5e2a91294f69fe8cdc4ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:55 +0000
Subject: [PATCH 49/57] fix: bounding boxes that touch meet up to rounding

---
 src/elements/bounding_box.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/elements/bounding_box.rs b/src/elements/bounding_box.rs
index 6dd2436..b2863b6 100644
--- a/src/elements/bounding_box.rs
+++ b/src/elements/bounding_box.rs
@@ -40,20 +40,34 @@ impl BoundingBox {
     }
 
     pub fn contains(&self, vertex: &Vertex) -> bool {
-        let x_intersection: bool = vertex.x <= self.destin.x && vertex.x >= self.origin.x;
-        let y_intersection: bool = vertex.y <= self.destin.y && vertex.y >= self.origin.y;
+        let tolerance = 1.0E-15f64 * max(self.size(), vertex.size());
+
+        let x_intersection: bool =
+            vertex.x <= self.destin.x + tolerance && vertex.x >= self.origin.x - tolerance;
+        let y_intersection: bool =
+            vertex.y <= self.destin.y + tolerance && vertex.y >= self.origin.y - tolerance;
 
         return x_intersection && y_intersection;
     }
 
+    /**
+     * Largest coordinate, which tells how much rounding to expect
+     */
+    fn size(&self) -> f64 {
+        return max(self.origin.size(), self.destin.size());
+    }
+
     pub fn intersection(b1: &Self, b2: &Self) -> Option<Self> {
         let lower_x: f64 = max(b1.origin.x, b2.origin.x);
         let upper_x: f64 = min(b1.destin.x, b2.destin.x);
         let lower_y: f64 = max(b1.origin.y, b2.origin.y);
         let upper_y: f64 = min(b1.destin.y, b2.destin.y);
 
-        let x_intersection: bool = lower_x <= upper_x;
-        let y_intersection: bool = lower_y <= upper_y;
+        /* boxes that touch each other may be apart by rounding */
+        let tolerance = 1.0E-15f64 * max(b1.size(), b2.size());
+
+        let x_intersection: bool = lower_x <= upper_x + tolerance;
+        let y_intersection: bool = lower_y <= upper_y + tolerance;
 
         if x_intersection && y_intersection {
             return Some(Self {
-- 
2.43.0


From 06934b970fc908fbbc2b13182a4f3dcc479e0d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:55 +0000
Subject: [PATCH 50/57] fix: pieces split again are reported with the
 constraint they come from

---
 src/planar/refine_procedures/triangle_split.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/planar/refine_procedures/triangle_split.rs b/src/planar/refine_procedures/triangle_split.rs
index ea066dd..dce52ed 100644
--- a/src/planar/refine_procedures/triangle_split.rs
+++ b/src/planar/refine_procedures/triangle_split.rs
@@ -142,11 +142,18 @@ pub fn split_irregular(
                             holes,
                         );
 
+                    let opposite_edge = Rc::new(encroached_edge.opposite());
                     segment_contraints.remove(encroached_edge);
-                    segment_contraints.remove(&Rc::new(encroached_edge.opposite()));
-                    split_map.remove(encroached_edge);
+                    segment_contraints.remove(&opposite_edge);
+
+                    /* The edge may be itself a piece of a prior splitting, in any direction */
+                    let original_edge = vec![encroached_edge, &opposite_edge]
+                        .iter()
+                        .filter_map(|&e| split_map.remove(e))
+                        .last()
+                        .unwrap_or(Rc::clone(encroached_edge));
                     for subsegment in new_edges.iter() {
-                        split_map.insert(Rc::clone(subsegment), Rc::clone(encroached_edge));
+                        split_map.insert(Rc::clone(subsegment), Rc::clone(&original_edge));
                         segment_contraints.insert(Rc::clone(subsegment));
                     }
 
-- 
2.43.0


From d5b9bc1150244c9cdf6b16edb9db50f1e69d3f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:34 +0000
Subject: [PATCH 51/57] fix: circumcircles of small triangles are told apart
 from their vertices

---
 src/properties/continence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties/continence.rs b/src/properties/continence.rs
index 61170de..0b38d16 100644
--- a/src/properties/continence.rs
+++ b/src/properties/continence.rs
@@ -33,7 +33,7 @@ pub fn continence(a: &Vertex, b: &Vertex, c: &Vertex, d: &Vertex) -> Continence
         .iter()
         .fold(0.0, |length: f64, l| length.max(l.abs()));
 
-    if det.abs() <= 1.0E-14f64 * (size * length.powi(3)).max(1.0) {
+    if det.abs() <= 1.0E-14f64 * size.max(1.0) * length.powi(3) {
         return Continence::Boundary;
     }
 
-- 
2.43.0


From b2709139197cd42253a3d5821423586d87746129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:59 +0000
Subject: [PATCH 52/57] fix: circumcenters are precise away from the
 coordinates origin

---
 src/properties/circumcenter.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/properties/circumcenter.rs b/src/properties/circumcenter.rs
index 8ab06c4..6f79a83 100644
--- a/src/properties/circumcenter.rs
+++ b/src/properties/circumcenter.rs
@@ -4,22 +4,17 @@ use nalgebra::{Matrix2, Matrix2x1};
 pub fn circumcenter(v1: &Vertex, v2: &Vertex, v3: &Vertex) -> Option<Vertex> {
     /*
         Let (x1,y1), (x2,y2), (x3,y3) be the vertices of a triangle.self
-            then (xc,yc) is the circumcenter, if it exists:
+            then (xc,yc) is the circumcenter, if it exists. With v1 as origin,
+            which keeps it precise away from the coordinates origin:
 
-        [xc] =  1/2  * [x3^2 - x1^2 + y3^2 - y1^2] * [x3-x1 y3-y1] ^ -1
-        [yc] =         [x2^2 - x1^2 + y2^2 - y1^2] * [x2-x1 y2-y1]
+        [xc] =  1/2  * [x3 y3] ^ -1 * [x3^2 + y3^2]
+        [yc] =         [x2 y2]        [x2^2 + y2^2]
     */
 
-    let x1 = v1.x;
-    let y1 = v1.y;
+    let (x2, y2) = (v2.x - v1.x, v2.y - v1.y);
+    let (x3, y3) = (v3.x - v1.x, v3.y - v1.y);
 
-    let x2 = v2.x;
-    let y2 = v2.y;
-
-    let x3 = v3.x;
-    let y3 = v3.y;
-
-    let matrix_a = Matrix2::new(x3 - x1, y3 - y1, x2 - x1, y2 - y1);
+    let matrix_a = Matrix2::new(x3, y3, x2, y2);
 
     if !matrix_a.is_invertible() {
         return None;
@@ -27,15 +22,12 @@ pub fn circumcenter(v1: &Vertex, v2: &Vertex, v3: &Vertex) -> Option<Vertex> {
 
     let matrix_a_inv = matrix_a.try_inverse().unwrap();
 
-    let matrix_b = Matrix2x1::new(
-        x3.powi(2) - x1.powi(2) + y3.powi(2) - y1.powi(2),
-        x2.powi(2) - x1.powi(2) + y2.powi(2) - y1.powi(2),
-    );
+    let matrix_b = Matrix2x1::new(x3.powi(2) + y3.powi(2), x2.powi(2) + y2.powi(2));
 
     let center_matrix = 0.5 * matrix_a_inv * matrix_b;
 
-    let xc = center_matrix[0];
-    let yc = center_matrix[1];
+    let xc = v1.x + center_matrix[0];
+    let yc = v1.y + center_matrix[1];
 
     return Some(Vertex::new(xc, yc));
 }
-- 
2.43.0


From 65da7ec429b4053a6284dd928032109590d5a5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:59 +0000
Subject: [PATCH 53/57] fix: segments far from the coordinates origin are
 parallel up to its rounding

---
 src/properties/parallel.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/properties/parallel.rs b/src/properties/parallel.rs
index 15aafce..e2ceeb2 100644
--- a/src/properties/parallel.rs
+++ b/src/properties/parallel.rs
@@ -8,8 +8,13 @@ pub fn parallel(a: &Vertex, b: &Vertex, c: &Vertex, d: &Vertex) -> bool {
     let (x1, y1) = (b.x - a.x, b.y - a.y);
     let (x2, y2) = (d.x - c.x, d.y - c.y);
 
+    let (l1, l2) = (x1.hypot(y1), x2.hypot(y2));
+
+    /* the product carries the rounding of the coordinates */
+    let size = a.size().max(b.size()).max(c.size()).max(d.size());
+
     let cross = x1 * y2 - y1 * x2;
-    return cross.abs() <= 1.0E-14f64 * x1.hypot(y1) * x2.hypot(y2);
+    return cross.abs() <= 1.0E-14f64 * (l1 * l2).max(size * l1.max(l2));
 }
 
 #[cfg(test)]
-- 
2.43.0


From 538d65321cff6af0e350d2d0ec56fa7d3c006604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:43 +0000
Subject: [PATCH 54/57] fix: triangles in the sharp angle between constraints
 are not split forever

---
 .../refine_procedures/triangle_split.rs       | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/planar/refine_procedures/triangle_split.rs b/src/planar/refine_procedures/triangle_split.rs
index dce52ed..d4fffe0 100644
--- a/src/planar/refine_procedures/triangle_split.rs
+++ b/src/planar/refine_procedures/triangle_split.rs
@@ -40,6 +40,21 @@ fn is_large_triangle(triangle: &Triangle, params: &RefineParams) -> bool {
     return greater_area;
 }
 
+/**
+ * Determines if the triangle fills the sharp angle between two constraints,
+ * which is its least one and can't be improved
+ */
+fn is_wedge(triangle: &Triangle, segment_contraints: &HashSet<Rc<Edge>>) -> bool {
+    let (e1, e2, e3) = triangle.inner_edges();
+    let is_constrained = |e: &Rc<Edge>| {
+        segment_contraints.contains(e) || segment_contraints.contains(&Rc::new(e.opposite()))
+    };
+    let mut edges = vec![e1, e2, e3];
+    edges.sort_by(|e1, e2| e1.length().partial_cmp(&e2.length()).unwrap());
+
+    return is_constrained(&edges[1]) && is_constrained(&edges[2]);
+}
+
 /**
  * Refines specified triangles, according to Rupperts refinement.
  * If the triangle's circumcenter is encroached, it splits the corresponding
@@ -102,6 +117,10 @@ pub fn split_irregular(
         //     println!("{}", t);
         // }
 
+        if !is_large_triangle(&triangle, params) && is_wedge(&triangle, &segment_contraints) {
+            continue;
+        }
+
         match try_circumcenter_insertion(
             triangulation,
             &triangle,
-- 
2.43.0


From e3872a81b3eee443edefb0a211d576bcf6bf0f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:56 +0000
Subject: [PATCH 55/57] fix: union counts sides equal up to rounding once

---
 src/elements/polyline.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 151c3e0..e11a826 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -412,7 +412,10 @@ impl Polyline {
                 || p2.contains(&midpoint).unwrap() == Continence::Outside;
 
             if dont_contains_mid || shared_segments.contains(&(Rc::clone(&v1), Rc::clone(&v2))) {
-                read_segments.push((v1, v2));
+                /* segments equal up to rounding have different hashes */
+                if !read_segments.contains(&(Rc::clone(&v1), Rc::clone(&v2))) {
+                    read_segments.push((v1, v2));
+                }
             } else {
                 unused_segments.insert((v1, v2));
             }
-- 
2.43.0


From c29fdf2fa08573284b4836f40e961a98e5c7bab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:08 +0000
Subject: [PATCH 56/57] fix: intersection and subtraction count sides equal up
 to rounding once

---
 src/elements/polyline.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index e11a826..2fe7b08 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -270,7 +270,10 @@ impl Polyline {
                     && p2.contains(&midpoint).unwrap() != Continence::Outside;
 
                 if contains_mid {
-                    read_segments.push((v1, v2));
+                    /* segments equal up to rounding have different hashes */
+                    if !read_segments.contains(&(Rc::clone(&v1), Rc::clone(&v2))) {
+                        read_segments.push((v1, v2));
+                    }
                 } else {
                     unused_segments.insert((v1, v2));
                 }
@@ -569,7 +572,10 @@ impl Polyline {
             let not_inside_p2 = p2.contains(&midpoint).unwrap() != Continence::Inside;
 
             if inside_p1 && not_inside_p2 {
-                read_segments.push((v1, v2));
+                /* segments equal up to rounding have different hashes */
+                if !read_segments.contains(&(Rc::clone(&v1), Rc::clone(&v2))) {
+                    read_segments.push((v1, v2));
+                }
             } else {
                 unused_segments.insert((v1, v2));
             }
-- 
2.43.0


From 50f1b6b8afea10aac07311eb87f40c5c6fd295cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:08 +0000
Subject: [PATCH 57/57] fix: a side vertical up to rounding holds no vertex
 beyond its ends

---
 src/elements/polyline.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 2fe7b08..0b78fad 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -179,10 +179,20 @@ impl Polyline {
                 continue;
             }
 
-            match orientation(&v1, &v2, vertex) {
-                Orientation::Colinear => {
+            let vertex_orientation = match orientation(&v1, &v2, vertex) {
+                Orientation::Colinear if Edge::new(&v1, &v2).contains(vertex) => {
                     return Some(Continence::Boundary);
                 }
+                /* beyond a side that is vertical up to rounding */
+                Orientation::Colinear if (vertex.y > v1.y) == (v2.x > v1.x) => {
+                    Orientation::Counterclockwise
+                }
+                Orientation::Colinear => Orientation::Clockwise,
+                vertex_orientation => vertex_orientation,
+            };
+
+            match vertex_orientation {
+                Orientation::Colinear => {}
                 Orientation::Counterclockwise => {
                     if v1.x == vertex.x || v2.x == vertex.x {
                         parity = parity + 1;
-- 
2.43.0

