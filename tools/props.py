# The properties: (id, title, statement, over, quantifier text, why tests can't, files, mechanism[(name, where)], technique, assurance note)
# gen.py turns this into properties.jsonl and MANIFEST.json.
T = "src/planar/triangulator.rs"
TP = "src/planar/triangulation_procedures/"
RP = "src/planar/refine_procedures/"
PR = "src/properties/"
PL = "src/elements/polyline.rs"
SH = ", and every iteration order of the hash collections within the deviation bound"

PROPS = []
def P(id, title, statement, over, text, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, technique=technique, note=note))

EXPL = "stateless exploration of the real pipeline: every domain of a bounded lattice family, every hash-iteration schedule within a deviation bound, exact reference on every mesh"
FUN = "exhaustive enumeration of a bounded input lattice on the real functions against an exact integer reference"

P("C01", "Triangulation covers exactly the region inside the boundary",
  "For every simple counterclockwise boundary polygon, convex or not, with straight corners or cocircular corners, triangulating yields counterclockwise, non-overlapping triangles whose union is exactly the polygon's interior. Every boundary side (or its pieces between the vertices lying on it) is an edge of the mesh. This holds whichever corner the polygon starts at, wherever it lies in the plane and in whatever order hash collections are iterated.",
  ["inputs", "schedules"], "every simple polygon with up to 9 corners on small lattices, placed in several frames" + SH,
  "The tests triangulate a handful of polygons, under one random hash order per run; the failures need a particular shape and a particular order.",
  [T, TP + "boundary.rs", TP + "segment.rs", TP + "vertices.rs"],
  [("boundary insertion, removal of the outside", TP + "boundary.rs"), ("recovery of missing sides", TP + "segment.rs")], EXPL,
  "Exact integer oracle (area, orientation, containment, side coverage) on every explored domain and schedule; larger polygons are outside the bound.")
P("C02", "Holes are never triangulated",
  "For every set of pairwise disjoint simple counterclockwise polygonal holes strictly inside the boundary, the mesh triangles cover exactly the boundary's interior minus the holes. Every hole side is an edge of the mesh, whatever the number, shape and position of the holes and whatever the order they are inserted in.",
  ["inputs", "schedules"], "every hole polygon on small interior lattices, pairs of holes, every subset of an array of holes" + SH,
  "The tests use two or three fixed holes.",
  [T, TP + "hole.rs", TP + "segment.rs"], [("hole insertion and removal of its inside", TP + "hole.rs")], EXPL,
  "Exact integer oracle on every explored domain and schedule.")
P("C03", "Segment constraints appear in the mesh",
  "Every segment constraint accepted inside the domain is covered by mesh edges from end to end, also when segments touch, cross, overlap, share ends or pass through vertices. The mesh still covers exactly the domain.",
  ["inputs", "schedules"], "one to four segments on small lattices in every relative position, with vertices and holes around" + SH,
  "The tests insert a few fixed segments; recovering a segment depends on the triangles it crosses and on hash order.",
  [T, TP + "segment.rs", PR + "intersection.rs"], [("segment recovery by flips", TP + "segment.rs"), ("splitting of crossing segments", PL)], EXPL,
  "Exact integer oracle; crossings are kept on the lattice.")
P("C04", "The mesh has exactly the given vertices",
  "After triangulating, the mesh vertices are exactly the boundary and hole corners, the vertex constraints, the segment ends and the crossings between segments: none is lost and none is added. This holds for collinear, cocircular and clustered vertices and for every insertion order.",
  ["inputs", "schedules"], "every subset of small interior lattices as vertices, in polygons, with segments and holes" + SH,
  "The tests insert a few vertices in one order.",
  [T, TP + "vertices.rs", "src/planar/triangulation.rs"], [("vertex insertion by cavity", TP + "vertices.rs")], EXPL,
  "Exact integer oracle on every explored domain and schedule.")
P("C05", "The mesh is constrained Delaunay",
  "In every unrefined mesh no triangle has the opposite vertex of a neighbouring triangle strictly inside its circumcircle, unless their common edge is part of the boundary, a hole side or a segment constraint. Cocircular configurations may be cut either way.",
  ["inputs", "schedules"], "the union of the boundary, hole, segment and vertex families" + SH,
  "The tests compare a few meshes by hand; local Delaunayness after removals and flips depends on the configuration.",
  [TP + "vertices.rs", TP + "segment.rs", TP + "boundary.rs", TP + "hole.rs", PR + "continence.rs"],
  [("in-circle test", PR + "continence.rs"), ("cavity and flips", TP + "vertices.rs")], EXPL,
  "Exact integer in-circle determinants on every explored domain and schedule.")
P("C06", "The mesh structure is closed and consistent",
  "Every directed side of every triangle belongs to exactly one triangle, every side has a neighbour on its other side (a solid triangle or a ghost triangle), ghost triangles sit exactly on the sides without a solid neighbour, and the edge index lists exactly the sides of the present triangles. No ghost triangle stands alone.",
  ["inputs", "schedules", "histories"], "every mesh produced by the boundary, hole, segment and vertex families" + SH,
  "Tests look at triangle sets of a few meshes, never at the index as a whole.",
  ["src/planar/triangulation.rs", "src/planar/triangulation_data.rs", TP + "vertices.rs"], [("triangle inclusion and removal", "src/planar/triangulation.rs")], EXPL,
  "Full structural check of every mesh reached.")
P("C07", "Refinement keeps the domain, its vertices and its constraints",
  "Refining only subdivides: the refined triangles are counterclockwise, still cover exactly the boundary's interior minus the holes, every given vertex is still a vertex of the mesh, and every boundary side, hole side and segment is still covered by mesh edges. This holds for any quality ratio from 1.42 up and any area bound, also for sharp corners.",
  ["inputs", "schedules", "configurations"], "polygons with sharp and wide corners, holes, segments and vertices on small lattices, several quality and area bounds" + SH,
  "The tests refine two or three domains and look at few facts about the outcome.",
  [T, RP + "triangle_split.rs", RP + "encroachment.rs"], [("circumcenter insertion", RP + "triangle_split.rs"), ("segment splitting", RP + "encroachment.rs")], EXPL,
  "Floating-point meshes judged within 1e-9 grid units.")
P("C08", "Refined triangles meet the requested bounds",
  "When no two constraints meet at less than 90 degrees, every triangle of the refined mesh has a circumradius to shortest edge ratio below the requested quality ratio (1.42 or more) and, when a maximum area was requested, an area not above it.",
  ["inputs", "schedules", "configurations"], "domains with wide corners, holes, segments and vertices on small lattices, several bounds" + SH,
  "The tests check one or two refined domains.",
  [T, RP + "triangle_split.rs", "src/planar/refine_params.rs"], [("irregular triangle queue", RP + "triangle_split.rs")], EXPL,
  "Bounds compared within 1e-9.")
P("C09", "Refinement terminates without panicking",
  "Refining any accepted domain (boundaries, holes, segments and vertices with sharp or wide corners) with a quality ratio of 1.42 or more and any positive area bound ends after finitely many steps and does not panic.",
  ["inputs", "schedules", "configurations"], "every domain of the refinement families including needles, stars and sharp corners" + SH,
  "Non-termination needs particular angles and orders; the tests only run benign domains.",
  [T, RP + "triangle_split.rs", RP + "encroachment.rs"], [("refusal to split around sharp corners", RP + "triangle_split.rs")], EXPL,
  "Non-termination is a step horizon of 3 million hash operations, 1 GB or the CPU limit of a case.")
P("C10", "Removing encroachments leaves none and reports what it did",
  "After encroachments are removed from a mesh whose constraints meet at 90 degrees or more, no vertex the mesh had before lies strictly inside the diametral circle of any piece of a constraint, every piece is an edge of the mesh, and only encroached constraints were split. The report maps every piece to the constraint it came from, its pieces add up to the constraint, and the included and removed triangles account for every change of the mesh. The table of encroachments lists exactly the vertices inside the circle of each constraint.",
  ["inputs", "schedules"], "the unrefined meshes of the wide-corner refinement families" + SH,
  "The tests check single splits.",
  [RP + "encroachment.rs", PR + "encroachment.rs"], [("unencroach", RP + "encroachment.rs")], EXPL,
  "Every before/after pair of meshes is compared with the report.")
P("C15", "A domain has one mesh, however it is written down",
  "The mesh depends only on the domain: starting the boundary or a hole at another corner, giving holes, segments and vertices in another order, giving them twice, or giving segments in the other direction yields the same set of triangles, wherever the constrained Delaunay triangulation is unique (no four mutually visible vertices on a circle).",
  ["inputs", "schedules"], "polygons of 4x3 and 4x4 grids, with vertices, holes and segments, each written in many ways, in 25 frames" + SH,
  "The tests write every domain in one way and never compare two meshes.",
  [T, TP + "boundary.rs", TP + "hole.rs", TP + "segment.rs", TP + "vertices.rs"], [("triangulate", T)], EXPL,
  "Every writing is compared with the first one as a set of triangles.")
P("C16", "Bare points triangulate to the Delaunay triangulation of their hull",
  "Starting from any initial segment and including points in any order, in one call or in many, points already present included, gives after each call counterclockwise triangles that cover exactly the convex hull of the points so far, have exactly these points as vertices and no point strictly inside a circumcircle, with ghost triangles around the hull. Each call reports every triangle it added and every one it removed.",
  ["inputs", "schedules", "histories"], "every set of up to 5 (9) points of the 3x3 grid from every initial segment, sets on larger grids and circles, whole lattices, in 25 frames" + SH,
  "The tests include a few points in one order.",
  [TP + "vertices.rs", "src/planar/triangulation.rs", "src/planar/triangulation_data.rs", PR + "continence.rs"], [("vertex insertion by cavity, ghost triangles", TP + "vertices.rs")], EXPL,
  "Exact integer reference after every call.")
P("C17", "The triangle container finds exactly what it holds",
  "After any sequence of inclusions and removals the container holds exactly the triangles included and not removed, each once whichever vertex it is written from, and the triangle on a directed side is found exactly when one is present, ghost sides included. Including or removing a triangle says what changed, and removing one that is absent changes nothing.",
  ["inputs", "histories"], "every reachable content over all 20 triangles (ghosts included) on four points, every operation from each",
  "The tests include and remove a few triangles.",
  ["src/planar/triangulation.rs", "src/elements/triangle.rs", "src/elements/edge.rs"], [("include_triangle, remove_triangle and the edge index", "src/planar/triangulation.rs")],
  "explicit-state exploration of the real container against a set model", "Every content and operation on four points.")
P("C18", "Orientation of three points is exact on representable lattices",
  "The orientation test answers counterclockwise, clockwise or collinear exactly as the sign of the cross product, for every triple of points including repeated ones, at any offset and scale where the coordinates are exact and the determinant exceeds the tolerance (1e-14, or 1e-14 of the largest coordinate times the longest side). Points meant to be collinear whose decimal coordinates are only so within rounding count as collinear. It is antisymmetric and invariant under rotation of its arguments.",
  ["inputs"], "every triple of several lattices in 25 frames (offsets up to 2^21, scales 2^-22 to 2^10, tenths, odd angles, millionths, map and degree coordinates)",
  "The tests evaluate a few triples.",
  [PR + "orientation.rs"], [("relative determinant", PR + "orientation.rs")], FUN, "Exact for the enumerated points; cases stay above the tolerance of the code.")
P("C19", 'In-circle test is exact on representable lattices',
  "A point is reported inside, on or outside the circumcircle of a counterclockwise triangle exactly as the sign of the in-circle determinant says, whichever vertex the triangle starts at. For a ghost triangle over a directed edge, points to the left of the edge's line are inside, points on the line are on the boundary and points to the right are outside.",
  ["inputs"], "every quadruple of several lattices in up to 25 frames, solid and ghost triangles",
  "The tests evaluate a few quadruples near the origin.",
  [PR + "continence.rs", "src/elements/triangle.rs"], [("relative in-circle determinant", PR + "continence.rs")], FUN, "Exact for the enumerated points.")
P("C20", 'Encroachment of a vertex upon an edge is exact',
  'A vertex is reported inside, on or outside the circle that has an edge as its diameter exactly as the sign of the dot product of its directions to the two ends says, in either direction of the edge, for all representable positions.',
  ["inputs"], "every triple of several lattices in up to 25 frames", "The tests evaluate a few triples.",
  [PR + "encroachment.rs"], [("encroach", PR + "encroachment.rs")], FUN, "Exact for the enumerated points.")
P("C21", 'Circumcenters are equidistant from the corners',
  'The circumcenter of three points exists exactly when they are not collinear and is the center of the circle through them up to rounding, for every order of the three points and at every offset and scale. Ghost triangles have none.',
  ["inputs"], "every triple of a 4x4 lattice in 25 frames and of a mixed-magnitude lattice", "The tests evaluate a few triples.",
  [PR + "circumcenter.rs", PR + "continence.rs"], [("circumcenter", PR + "circumcenter.rs")], FUN, "Compared within a rounding bound against exact rationals.")
P("C22", 'Segment intersection and parallelism are exact',
  'Two closed segments are reported as intersecting exactly when they share at least one point, and the point returned is common to both: the crossing point, or any point of an overlap. Parallelism is reported exactly when the cross product of the directions vanishes; both hold for degenerate segments, in every direction and order of the arguments.',
  ["inputs"], "every pair of segments of 3x3, 4x3, 4x4 and mixed-magnitude lattices in up to 25 frames", "The tests evaluate a few pairs.",
  [PR + "intersection.rs", PR + "parallel.rs"], [("intersection", PR + "intersection.rs")], FUN, "Exact decision, position within rounding.")
P("C23", 'Lengths, angles, areas and ratios are the geometric ones',
  'Distances, dot products, lengths, midpoints, centroids, signed areas of triangles and of chains of segments, counterclockwise angles in [0, 2 pi) and circumradius to shortest side ratios equal their exact geometric values up to rounding, for every order of the arguments and at every offset and scale. Ghost elements have no area, ratio or outline.',
  ["inputs"], "every triple of several lattices in up to 25 frames", "The tests evaluate a few figures.",
  [PR + "distance.rs", PR + "angle.rs", PR + "area.rs", PR + "midpoint.rs"], [("measures", PR)], FUN, "Within 1e-9 relative.")
P("C24", 'Point location in polygons is exact',
  'A polygon reports a point as inside, outside or on its boundary exactly, for every simple polygon in either orientation and with straight corners, whichever corner it starts at. Points level with corners or in line with sides are no exception; an opened polyline locates nothing.',
  ["inputs"], "every simple polygon of the 3x3 lattice and of larger ones with fewer corners against a finer lattice of points", "The tests locate a few points in a few polygons; ray casting fails on points level with corners.",
  [PR + "continence.rs", PL], [("contains", PL)], FUN, "Exact integer reference.")
P("C25", 'The relation of polylines to polygons is exact',
  'For an open or closed polyline against a simple polygon, the answer is inside when all of it lies in the closed polygon, outside when none of it lies in the open polygon, and crossing when it has points on both sides, together with whether it touches the boundary; there is no answer for a polyline that runs entirely along the boundary. This includes shared corners, collinear overlapping sides, corners on sides and sides that cut through without corners of their own inside.',
  ["inputs"], "segments, chains and polygons of small lattices in every relative position", "The tests use a few pairs.",
  [PR + "continence.rs", PL], [("polyline continence", PR + "continence.rs")], FUN, "Exact rational reference.")
P("C26", 'Equality, hashing, ordering and construction agree',
  'Vertices, edges, triangles and polylines that are equal hash alike (negative and positive zero are equal; triangles are equal up to rotation; edges only in the same direction; opened and closed polylines differ) and unequal ones are told apart; the ghost vertex equals only itself. Ordering and sorting of vertices are lexicographic by x then y, and vertices, edges and pairs built from a list keep every element in order.',
  ["inputs"], "every tuple of vertices of small lattices with the ghost vertex and both zeros", "The tests compare a few elements.",
  ["src/elements/vertex.rs", "src/elements/edge.rs", "src/elements/triangle.rs"], [("Hash and PartialEq implementations", "src/elements/")], FUN, "Exhaustive over small tuples.")
P("C27", "Intersection of two polygons is their common region",
  "The intersection of two simple polygons is a list of counterclockwise polygons whose regions cover exactly the points common to both, with crossing points of sides as corners; it is empty when they share no area. Polygons that meet only in isolated points are out of scope.",
  ["inputs", "schedules"], "pairs of polygons of small lattices in general and degenerate position" + SH, "The tests intersect a few pairs.",
  [PL], [("intersection", PL)], EXPL.replace("pipeline", "operation"), "Areas and membership compared against an exact arrangement.")
P("C28", 'Union of two polygons is their joint region',
  'The union of two simple polygons that overlap or share part of a side is one counterclockwise polygon around their joint region (interior gaps are filled), visiting no corner twice, and there is none when they are disjoint. Polygons that meet only in isolated points are out of scope.',
  ["inputs", "schedules"], "pairs of polygons of small lattices in general and degenerate position" + SH, "The tests unite a few pairs.",
  [PL], [("union", PL)], EXPL.replace("pipeline", "operation"), "Areas and membership compared against an exact arrangement.")
P("C29", "Subtraction removes exactly the second polygon",
  "Subtracting from a simple polygon another one that overlaps it without lying strictly inside it yields counterclockwise polygons that cover exactly the points of the first that are not in the second, and none when the second covers the first. Removals strictly inside and disjoint polygons are reported as empty by design and out of scope.",
  ["inputs", "schedules"], "overlapping pairs of polygons of small lattices" + SH, "The tests subtract a few pairs.",
  [PL], [("subtraction", PL)], EXPL.replace("pipeline", "operation"), "Areas and membership compared against an exact arrangement.")
P("C30", 'Splitting crossing segments yields a planar set of pieces',
  'Splitting a list of segments at their intersections yields exactly the pieces between consecutive ends, crossings and touchings along every segment, in the direction of that segment, each once for every segment it is part of. Segments without intersections come out unchanged.',
  ["inputs"], "every pair and triple of directed segments of 3x3 and 4x4 lattices, larger sets on 3x3, pieces down to 2^-31 of their segment", "The tests split a few segments.",
  [PL], [("split_intersections", PL)], FUN, "Exact rational reference.")
P("C31", 'Edges and triangles answer their topology exactly',
  'A triangle gives its sides in order in both directions, the vertex opposite to each of its directed sides and the side opposite to each of its vertices (and nothing for foreign or reversed ones), for every start vertex. An edge gives its opposite and contains exactly the points of the closed segment; the outlines of edges and triangles list their vertices in order, and ghosts have none.',
  ["inputs"], "every quadruple of points of the 3x3 lattice in 25 frames and of the 4x4 lattice", "The tests look at a few elements.",
  ["src/elements/edge.rs", "src/elements/triangle.rs"], [("element methods", "src/elements/")], FUN, "Exhaustive over small tuples.")
P("C32", 'Chains of edges are arranged, decomposed and minified faithfully',
  'Arranging directed edges into polygons recovers every closed ring from its edges in any order and rejects chains that do not close; merging collinear edges that continue each other yields the longest runs, decomposing an edge over a set of pieces finds the pieces along it in order (or reports that they do not cover it), and the hull of a set of triangles is its outline when that is a single ring, and absent otherwise. Dropping straight corners keeps exactly the real corners of closed and the ends of opened polylines, and the side lists, ends and maps of a polyline match its vertices.',
  ["inputs", "schedules"], "every polygon of small lattices as ring and triangulated hull, every small set of directed lattice edges" + SH, "The tests arrange a few rings.",
  [PL], [("arrange, hull, minified", PL)], EXPL.replace("pipeline", "operation"), "Exact reference on every set.")
P("C33", "Bounding boxes bound and relate exactly",
  "The bounding box of points is the smallest one around them, and containment and overlap of boxes and points follow the coordinate inequalities, borders included, in whatever order the points come.",
  ["inputs"], "every quadruple of points of the 3x3 and 4x4 lattices and of a mixed-magnitude lattice", "The tests use a few boxes.",
  ["src/elements/bounding_box.rs"], [("bounding box", "src/elements/bounding_box.rs")], FUN, "Exhaustive over small tuples.")
P("C41", "Polylines report exactly where they meet",
  "For two polylines, closed or opened, every reported vertex lies on both, no vertex is reported twice, and every side of one that meets a side of the other has a reported vertex in their common part: the crossing, the touching corner, or a point of the overlap. Polylines that do not meet report nothing; the order of the two does not matter.",
  ["inputs"], "segments, chains and polygons of small lattices in every relative position, closed and opened", "No test asks for touching, overlapping or opened polylines in all positions.",
  [PL, PR + "intersection.rs"], [("intersection_vertices", PL)], FUN, "Exact rational reference, positions within 1e-9 grid units.")
P("C40", "The refined mesh is constrained Delaunay",
  "After refinement no triangle has the opposite vertex of a neighbouring triangle inside its circumcircle (up to rounding), unless their common edge is part of a boundary side, a hole side or a segment constraint.",
  ["inputs", "schedules", "configurations"], "every domain of the refinement families, sharp corners included" + SH, "The tests look at triangle counts of a few refined domains.",
  [RP + "triangle_split.rs", RP + "encroachment.rs", TP + "vertices.rs"], [("cavity insertion respecting constraints", TP + "vertices.rs")], EXPL,
  "A vertex counts as inside when its power times the triangle's area exceeds 1e-11.")

HIST = "explicit-state exploration of call histories on the real triangulator: every sequence of a bounded alphabet, each answer and each state compared with an exact reference model of the domain"
HSH = ", and every iteration order of the hash collections within the deviation bound"
P("C42", "Splitting bad triangles reports the constraints it split",
  "Splitting the bad triangles of a mesh answers a map from every piece of a constraint it made to the constraint it was given, however often pieces were split again and in whichever direction they were met: all pieces are edges of the mesh and shorter than the constraint they lie on, the pieces of a constraint make it up from end to end without repetition, and every other constraint is still an edge of the mesh.",
  ["inputs", "schedules", "configurations"], "the meshes of the refinement families (wide and sharp corners, holes, segments, vertices), several bounds" + SH,
  "The tests look at the map of single splits.",
  [RP + "triangle_split.rs", RP + "encroachment.rs", T], [("split_irregular", RP + "triangle_split.rs"), ("unencroach_segment", RP + "encroachment.rs")], EXPL,
  "Lengths and positions within 1e-6 grid units.")
P("C11", "Vertices are accepted exactly inside the domain",
  "Inserting vertices is accepted exactly when all of them lie strictly inside the boundary and outside every hole, and otherwise refused with exactly the offending vertices, leaving the domain as it was. Accepted vertices become vertex constraints once each, unless they lie on a segment constraint: then they split every segment they lie on, and ends of segments are not kept twice.",
  ["inputs", "histories", "schedules"], "every single vertex, pairs and whole lattices against 4 boundaries and 11 domains of holes, segments and vertices" + HSH,
  "The tests insert a few vertices in fixed domains; level, collinear and touching positions decide.",
  [T, PL, PR + "continence.rs"], [("insert_vertices", T)], HIST, "Exact reference model in lockstep with the implementation.")
P("C12", "Segments are accepted exactly inside the domain and kept planar",
  "Inserting segments is accepted exactly when every one of them has a length and lies strictly inside the boundary and strictly outside every hole, meeting none of their sides, and otherwise refused with exactly the offending segments, leaving the domain as it was. Accepted segments are cut at every vertex constraint, end and crossing they pass through, so that segments meet in common ends only; vertex constraints on them are absorbed.",
  ["inputs", "histories", "schedules"], "every segment of a 5x5 lattice in both directions, pairs in one call and two, triples, repeated and opposed segments, with vertices, holes and 4 boundaries" + HSH,
  "The tests insert a few segments in fixed domains.",
  [T, PL, PR + "continence.rs", PR + "intersection.rs"], [("insert_segments", T), ("split_intersections", PL)], HIST, "Exact reference model in lockstep with the implementation; crossings between segments on the lattice.")
P("C13", "Holes are accepted exactly inside the domain and apart",
  "Inserting a hole is accepted exactly when it lies strictly inside the boundary, apart from every other hole, and no segment constraint enters it; otherwise it is refused with the corners of the boundary and holes or the ends of the segments in conflict, leaving the domain as it was. Vertex constraints inside or on the new hole are dropped and no others.",
  ["inputs", "histories", "schedules"], "every small polygon at every shift in two sizes against 4 boundaries and 11 domains, pairs, repetitions and nestings of holes" + HSH,
  "The tests insert two or three fixed holes.",
  [T, PL, PR + "continence.rs"], [("insert_hole", T)], HIST, "Exact reference model in lockstep with the implementation.")
P("C14", "Call histories leave no residue",
  "Whatever was inserted, triangulated and refined before, in whatever order and with refused insertions in between, triangulating yields a correct mesh of exactly the current domain. Insertions alone never change the mesh, triangulating and refining never change the domain, refining an empty mesh does nothing, and triangulating or refining again keeps every guarantee.",
  ["inputs", "histories", "schedules"], "every sequence of up to 4 (6) calls over an alphabet of 9, repeated triangulation and refinement of small polygons" + HSH,
  "The tests call each operation once in one order.",
  [T, TP + "boundary.rs", TP + "hole.rs", TP + "segment.rs"], [("triangulate and refine", T)], HIST, "Exact reference on every mesh reached.")

AT = "src/triangulator_interface/"
AJ = "src/json_serializar/models/"
P("C34", "A description means its includes united minus its removals",
  "A JSON description is read as the union of all its included polygons and circles minus its removals, whatever the order of the actions and the direction polygons are drawn in: the mesh covers exactly that region. Gaps enclosed by the includes are filled, removals that meet the outline cut it, removals strictly inside become holes (united where they overlap or share sides, with what they enclose), removals outside mean nothing. It is refused when nothing is included, when the includes are not connected, when the removals split or use up the region, or when a segment or vertex constraint is not strictly inside; otherwise every constraint is in the mesh.",
  ["inputs", "schedules"], "compositions of up to four shapes (rectangles, lattice polygons, diamond circles) on a 5x5 board with constraints, in 6 places" + HSH,
  "The tests compose a few pairs of polygons; unions and subtractions depend on how sides overlap and on the order sets are iterated in.",
  [AT + "domain_evaluator.rs", AT + "mod.rs", AT + "interpreter/mod.rs", PL], [("boundary and holes from includes and removes", AT + "domain_evaluator.rs"), ("union, subtraction", PL)],
  "exhaustive exploration of descriptions through the real reader, composer and triangulator, every hash-iteration schedule within a bound, against a reference that paints the shapes on quarter cells",
  "Shapes that meet in single points are left out; when the order of removals decides the meaning, any order's meaning is accepted.")
P("C35", "The output document is the mesh",
  "The output document lists every vertex of the mesh exactly once with its exact coordinates (z is 0) and every solid triangle exactly once by the indices of its vertices in counterclockwise order; no ghost triangle and no tetrahedron appears. Name, id and date are the input's; inputs without id or date are given a fresh id and the current date. The text written is valid JSON whose numbers are the coordinates to the last bit and which the program itself can read back.",
  ["inputs", "schedules"], "plain and refined meshes of polygons, holes, segments and vertices on small lattices in 25 frames, with 8 headings" + HSH,
  "The tests look at no output document; a mismatch between the order of the vertices and their indices depends on hash order.",
  [AJ + "output.rs", AJ + "point.rs", AJ + "tesselations.rs", AJ + "input.rs"], [("from_triangulator", AJ + "output.rs")], EXPL,
  "Texts are read by an independent JSON reader.")
P("C36", "Exactly the well-formed descriptions are accepted",
  "A description is accepted exactly when it is JSON of the documented shape (name, actions, params with a quality; intent and geometry of every action known and fitting: polylines and circles are included or removed, segments and vertices are constraints), every polyline is a simple polygon once points repeated in a row (the closing point included) count once, segments come in pairs or by existing indices and have a length, and circles have a centre, a radius and a resolution of three or more. Everything else is refused, never a panic, and an accepted outline is triangulated exactly, whichever way it is drawn.",
  ["inputs"], "every outline of up to 5 (6) points on a 3x3 lattice with repetitions, every pairing of intents and geometries, missing fields, index lists, numbers of points, and a document cut at every byte",
  "The tests parse one good example of every kind.",
  [AT + "interpreter/polyline_parser.rs", AT + "interpreter/segments_parser.rs", AT + "interpreter/circle_parser.rs", AT + "interpreter/vertices_parser.rs", AT + "interpreter/mod.rs", AJ + "action.rs", AJ + "input.rs"],
  [("interpreter::parse", AT + "interpreter/mod.rs"), ("polyline_parser::parse", AT + "interpreter/polyline_parser.rs")],
  "exhaustive enumeration of bounded descriptions through the real reader and interpreter against an exact acceptance rule", "Every case is a complete document text.")
P("C37", "The command line program writes a correct mesh or fails cleanly",
  "Run on an accepted description, the program ends with status 0 and writes exactly one output document, to standard output or only to the file named with -o (created, or replaced whatever it held), and the document's refined mesh covers the described region, keeps its constraints and meets the requested quality and area. Run on anything else (no such file, no text, malformed or refused descriptions, an output path that cannot be written) it ends with another status, prints nothing on standard output and changes no file.",
  ["inputs", "schedules", "faults"], "descriptions, improper texts and paths in every way to name the output, under several hash orders and every single deviation within a bound",
  "No test runs the program.",
  ["src/main.rs", "src/json_serializar/io.rs", AT + "mod.rs", AJ + "output.rs"], [("main", "src/main.rs"), ("read and write", "src/json_serializar/io.rs")],
  "exhaustive exploration of bounded runs of the real program built with controlled hash order (schedule handed over in the environment), streams, status and folder judged after each", "The refined mesh is judged within 1e-9 grid units; the window of --show is not opened.")
P("C38", "Display buffers hold every edge and triangle exactly once",
  "The triangle buffer holds exactly the three corners of every solid triangle in order, the edge buffer the two ends of every side of the solid triangles exactly once whichever triangles share it, and coordinates handed over in pairs become vertices in order; ghost triangles are never drawn.",
  ["inputs", "schedules"], "plain and refined meshes of polygons, holes, segments and vertices on small lattices in 25 frames" + HSH,
  "The tests draw nothing; duplicates depend on which of two triangles is met first.",
  ["src/glium_interface/vertex.rs"], [("edges_from_triangulation", "src/glium_interface/vertex.rs"), ("triangles_from_triangulation", "src/glium_interface/vertex.rs")], EXPL,
  "Compared as 32-bit floats, bit by bit.")
P("C39", "Circles become regular polygons",
  "A circle with centre c, radius r (not zero) and resolution n (the second scalar rounded, 100 when absent) becomes a closed polygon of exactly n corners, all at distance |r| from c up to rounding, equally spaced and counterclockwise; resolutions below three and circles too small to tell their corners apart are refused.",
  ["inputs", "configurations"], "every resolution up to 130 (1000) and fractional and negative ones, 9 radii, 6 centres",
  "The tests parse one circle.",
  [AT + "interpreter/circle_parser.rs"], [("circle_parser::parse", AT + "interpreter/circle_parser.rs")], FUN, "Corners judged within 4e-14 relative to the largest coordinate.")
