G = "Generated-input search against an exact integer/rational reference; what was not generated is not covered. Trusts the reference in pbt/src/exact.rs (i128 arithmetic) and the float environment. "

P("P01", "Segment against segment intersection is exact in kind and position",
  "For any two line segments, including ones that are parallel, collinear, touching or degenerated to a point, the library reports no intersection, a single point or an overlap exactly when the geometry says so, and the reported point or sub-segment lies at the true location. The answer does not depend on the order of the two segments or the direction of either.",
  ["inputs"], "all pairs of segments with finite coordinates, any vector back end",
  "the tests hold a few dozen hand-written pairs; the classes (collinear gap, touching ends, point on segment, axis-parallel, huge/small scale) multiply with ordering and direction",
  [L2], [("intersection_point: box test, cross products, parallel branch", L2), ("intersect_line_point", L2)],
  ["Line2::intersection_point, intersection_point_inclusive variants, LineString2 queries"],
  "property-based testing: exact rational reference + metamorphic symmetry, shrinking", G + "Coordinates are lattice points times powers of two, so the reference is exact; positions are compared within a few epsilon.")

P("P02", "Linestring against segment queries report exactly the edges met",
  "Intersecting a linestring with a segment reports every edge that the segment meets, in edge order, each at its true location, and nothing else. The first-hit query finds something exactly when some edge is met, and the two-hit query returns up to two distinct true intersection points, both of them whenever at least two exist.",
  ["inputs"], "all linestrings (open, closed, convex, self touching) and segments",
  "three tests with one polygon each; corner hits, overlaps with an edge and degenerate edges are not covered",
  [L2], [("find_all_intersections, intersection, find_two_intersections over consecutive point pairs", L2)],
  ["LineString2::intersection, find_two_intersections, find_all_intersections"],
  "property-based testing: exact per-edge reference, shrinking", G)

P("P03", "Ray casting returns the closest hit",
  "Casting a ray against a linestring returns a point exactly when the ray meets some edge in front of (or at) the origin; the point is the hit with the smallest distance. Collinear edges count with their nearest point, edges behind the origin never count. The answer does not depend on the order of the edges or the length of the direction.",
  ["inputs"], "all linestrings, origins and non-zero directions",
  "a handful of rays; collinear edges, vertex hits and edges behind the origin are combinations tests do not enumerate",
  [L2], [("ray_edge_intersection, closest_ray_intersection", L2)], ["LineString2::ray_edge_intersection, closest_ray_intersection"],
  "property-based testing: exact rational reference, shrinking", G + "When the origin lies on the line, reporting the origin or the next hit are both accepted (documented).")

P("P04", "Sweep-line reports exactly the intersections that exist",
  "For any set of segments the sweep-line algorithm reports exactly the points at which at least two segments meet, each once, with all the segments that meet there, in sweep order and at the true position. With end points ignored it reports exactly those meetings that are not at a common end point of all the segments involved, and with stop-at-first it reports something exactly when the full run would.",
  ["inputs", "configurations"], "all segment sets x (ignore end points) x (stop at first) x ways of feeding the lines in",
  "the tests compare counts for a few fixed drawings; the event queue and active-set ordering break on particular combinations of touching, concurrent, horizontal and overlapping lines",
  [SW], [("event queue, active-set ordering, neighbour checks", SW)], ["IntersectionData::with_lines/with_ref_lines/..., compute"],
  "property-based testing: brute-force exact differential oracle, metamorphic feeding order, shrinking", G + "f32 within +-6, f64 within +-300 lattice units, so distinct intersections are further apart than rounding.",
  state=[{"name": "site events", "meaning": "pending end points and crossings, keyed by position", "where": SW}, {"name": "active priority", "meaning": "lines crossing the sweep line, ordered", "where": SW}])

P("P05", "Indexed sweep-line: same answers, and a vertex list that extends the input",
  "For edges given as index pairs into a vertex list the sweep-line reports exactly the meetings that exist, each as the index of a vertex at the true position with all the edges meeting there. The returned vertex list starts with the input vertices unchanged, the end point of an edge is re-used where an intersection falls on one, and every appended vertex is an intersection which is reported.",
  ["inputs", "configurations"], "all vertex lists and edge lists (shared or separate indices, unused vertices) x option combinations",
  "as for the direct sweep: a few fixed drawings and counts, none of which check the returned vertex list",
  [ISW], [("event queue over vertex indices, active-set ordering", ISW)], ["indexed_intersection::IntersectionTester::compute"],
  "property-based testing: brute-force exact differential oracle + output-structure invariant, shrinking", G,
  state=[{"name": "vertices", "meaning": "input vertices followed by intersection points found", "where": ISW}])

P("P06", "Self-intersection test is right for short and long linestrings alike",
  "A linestring is reported as self-intersecting exactly when two of its edges meet anywhere else than at common end points, or overlap. The answer is the same whether the brute-force (short) or the sweep-line (long) strategy is used, and does not depend on direction or, for closed lines, on the starting point.",
  ["inputs"], "all linestrings with finite coordinates, on both sides of the length threshold",
  "tests use a dozen fixed lines and never compare the two strategies on the same geometry",
  [L2, SW], [("is_self_intersecting: brute force below ten points, sweep-line above", L2), ("intersection_point3 for consecutive edges", L2)], ["LineString2::is_self_intersecting"],
  "property-based testing: exact reference + metamorphic rotation/reversal/subdivision, shrinking", G)

P("P07", "Convex hull is the hull: corners only, closed, counter-clockwise",
  "Every convex hull algorithm, direct or indexed, returns the corners of the convex hull of the (selected) points: each corner exactly once, no collinear extra points, in counter-clockwise order, with the first repeated at the end. The corners are points (indices) taken from the input selection, whatever the duplicates or degenerate shapes in it.",
  ["inputs"], "all point lists and index selections, including empty, single, duplicate and collinear ones",
  "about ten fixed point clouds; degenerate sets (duplicates, collinear, one to three points) are where each algorithm has its special cases",
  [HULL, L2], [("graham_scan, gift_wrap, indexed_graham_scan, indexed_gift_wrap", HULL), ("convex_hull", L2)], ["the returned hull"],
  "property-based testing: exact hull reference (validity + completeness), shrinking", G)

P("P08", "Parallel convex hull equals the sequential one for every chunking",
  "The multi-threaded convex hull returns the same corners as the exact hull for every chunk size of at least one and every number of worker threads, and always terminates. The indexed variant returns indices out of the selection.",
  ["inputs", "configurations", "schedules"], "all point lists x chunk sizes x thread pools; the operating system picks the schedule",
  "tests use one chunk size on two random clouds; merging of partial hulls fails only for particular relative positions of chunks",
  [HULL, L2], [("convex_hull_par, indexed_convex_hull_par: chunk hulls, merge of two hulls", HULL)], ["the returned hull"],
  "property-based testing: exact hull reference over chunk sizes and pools, shrinking, allocation guard", G + "Schedules are sampled by the OS only; the code has no shared mutable state between workers.")

P("P09", "Point containment in a convex hull, inclusive and exclusive",
  "For a convex hull, whatever corner its list starts at and whether or not the list is closed, the inclusive test accepts exactly the points inside or on the boundary and the exclusive test exactly the points strictly inside. Degenerate hulls (a point, or a segment given as the closed list a, b, a) contain only their own points inclusively and nothing exclusively.",
  ["inputs"], "all convex hulls x query points",
  "tests probe a few points of a few polygons; binary search over the fan fails on specific diagonals and rotations",
  [HULL, L2], [("contains_point_inclusive, contains_point_exclusive: fan binary search", HULL)], ["the returned booleans"],
  "property-based testing: exact half-plane reference, shrinking", G)

P("P10", "Hull-in-hull containment agrees with testing every corner",
  "One convex hull is reported to contain another exactly when every corner of the inner hull is inside or on the boundary of the outer one. The sequential and the multi-threaded test agree, and the answer does not depend on where either corner list starts or whether it is closed.",
  ["inputs", "schedules"], "all pairs of convex hulls",
  "two tests with nested regular polygons",
  [HULL], [("contains_convex_hull, contains_convex_hull_par", HULL)], ["the returned booleans"],
  "property-based testing: exact half-plane reference, sequential/parallel differential, shrinking", G)

R = "Generated-input search against an explicit reference; what was not generated is not covered. Comparisons of rounded results use stated tolerances. "

P("P11", "2D Ramer-Douglas-Peucker keeps every dropped point within the tolerance",
  "Simplifying a 2d linestring with a distance keeps the first and last point and a subsequence of the points in order, such that every dropped point lies within the distance of the straight segment that replaced it. A stretch of points is replaced only when all of it is within the distance, otherwise the farthest point of the stretch is kept. The indexed variant does the same for any selection of indices, repetitions and empty selections included.",
  ["inputs"], "all linestrings (open, closed, degenerate) and index selections, all non-negative distances",
  "a few fixed lines with one distance each; which point splits a stretch, closed lines and points beyond the ends of a chord are not covered",
  [S2, L2], [("recursive split at the farthest point, direct and indexed", S2), ("distance_to_line_squared_safe", L2)],
  ["LineString2::simplify_rdp, indexed_simplify_rdp_2d"],
  "property-based testing: validity predicate accepting every tie-break, exact distances, shrinking", R)

P("P12", "3D Ramer-Douglas-Peucker keeps every dropped point within the tolerance",
  "Simplifying a 3d linestring with a distance keeps the first and last point and a subsequence of the points in order, such that every dropped point lies within the distance of the straight segment that replaced it. A stretch of points is replaced only when all of it is within the distance, otherwise the farthest point of the stretch is kept. The indexed variant does the same for any selection of indices, repetitions and empty selections included.",
  ["inputs"], "all linestrings (open, closed, degenerate) and index selections, all non-negative distances",
  "a few fixed lines with one distance each; points beyond the ends of a chord in three dimensions are not covered",
  [S3, L3], [("recursive split at the farthest point, direct and indexed", S3), ("distance_to_line_squared_safe", L3)],
  ["LineString3::simplify_rdp, indexed_simplify_rdp_3d"],
  "property-based testing: validity predicate accepting every tie-break, exact distances, shrinking", R)

P("P13", "2D Visvalingam-Whyatt removes the smallest triangles, one by one",
  "Deleting a number of points from a 2d linestring removes, one at a time, an interior point whose triangle with its current neighbours has the least area, so the result is what is left after exactly that many such removals. The first and last point always stay and nothing is removed when zero deletions are asked for; only when about four or fewer points would be left may fewer points be removed.",
  ["inputs", "histories"], "all linestrings and all numbers of points to delete; the sequence of removals is a history in which areas of neighbours change",
  "about ten fixed lines comparing result lengths; stale areas after neighbouring removals only show for particular removal sequences",
  [S2], [("priority queue of triangle areas with neighbour links and re-evaluation", S2)], ["LineString2::simplify_vw"],
  "property-based testing: search over all admissible removal sequences as the oracle, shrinking", R,
  state=[{"name": "search tree", "meaning": "areas of current triangles, least first", "where": S2}, {"name": "link tree", "meaning": "current neighbours of every remaining point", "where": S2}])

P("P14", "3D Visvalingam-Whyatt removes the smallest triangles, one by one",
  "Deleting a number of points from a 3d linestring removes, one at a time, an interior point whose triangle with its current neighbours has the least area, so the result is what is left after exactly that many such removals (never fewer than two points). The first point always stays; see the known finding for the last point.",
  ["inputs", "histories"], "all linestrings and all numbers of points to delete; the sequence of removals is a history in which areas of neighbours change",
  "about ten fixed lines comparing result lengths; stale areas after neighbouring removals only show for particular removal sequences",
  [S3], [("priority queue of triangle areas with neighbour links and re-evaluation", S3)], ["LineString3::simplify_vw"],
  "property-based testing: search over all admissible removal sequences as the oracle, shrinking", R + "Known finding last-point-lost: the last point is re-added before judging when exactly it is missing.",
  state=[{"name": "search tree", "meaning": "areas of current triangles, least first", "where": S3}, {"name": "link tree", "meaning": "current neighbours of every remaining point", "where": S3}])

P("P15", "2D bounding box is the smallest box, whatever the order of updates",
  "After any history of updates with points, lists of points, other boxes (empty ones included) and mappings along the axes (shifts, scales, mirrors, exchanged axes), a 2d bounding box is the smallest axis aligned box around everything added; corners, extents, centre and outline (counter-clockwise from the lower left corner, closed) agree with it, and an empty box has none of them. Point, line and box containment (limits included) agree with comparing coordinates, and only non-empty boxes contain or are contained. Neither the order of updates nor how they are grouped matters.",
  ["inputs", "histories"], "all update histories and query objects",
  "a few fixed boxes; interleavings with empty boxes and queries just at the limits are not covered",
  [L2, I2], [("Aabb2 update_with_*, contains_*, extents, center, convex_hull, apply", L2), ("conversions", I2)], ["every public reading and containment query of the box"],
  "stateful property-based testing: integer reference model over update histories, shrinking", R,
  state=[{"name": "min_max", "meaning": "None or the two extreme corners", "where": L2}])

P("P16", "3D bounding box is the smallest box, whatever the order of updates",
  "After any history of updates with points, lists of points, other boxes (empty ones included) and mappings along the axes (shifts, scales, mirrors, exchanged axes), a 3d bounding box is the smallest axis aligned box around everything added; corners, extents and centre agree with it, and an empty box has none of them. Point, line and box containment (limits included) agree with comparing coordinates, and only non-empty boxes contain or are contained. Neither the order of updates nor how they are grouped matters.",
  ["inputs", "histories"], "all update histories and query objects",
  "a few fixed boxes; interleavings with empty boxes and queries just at the limits are not covered",
  [L3, I3], [("Aabb3 update_with_*, contains_*, extents, center, apply", L3), ("conversions", I3)], ["every public reading and containment query of the box"],
  "stateful property-based testing: integer reference model over update histories, shrinking", R,
  state=[{"name": "min_max", "meaning": "None or the two extreme corners", "where": L3}])

P("P17", "Affine pan and zoom maps box into box, and back again",
  "The transform made from two boxes maps the centre of the first to the centre of the second with one common scale, such that everything inside the first box lands inside the second (when that is at least one unit wide and high). Forward and backward transforms are inverse to each other, transforming two points at once equals transforming them one by one, and the default transform changes nothing. A result that is not finite is an error, an empty box is an error.",
  ["inputs"], "all pairs of boxes, all offsets and scales, all points",
  "three tests with one pair of boxes each",
  [L2], [("SimpleAffine::new, transform_ab, transform_ba and the two-point variants", L2)], ["SimpleAffine"],
  "property-based testing: reference map in f64, round trip, differential one/two points, shrinking", R)

P("P18", "Discretizing a linestring keeps its points and never steps too far",
  "Discretizing a 2d or 3d linestring yields every original point in order, and between two of them the evenly spaced points of the straight edge, as few as possible so that no step is longer than the distance. Zero-length edges, distances longer than every edge and infinite distances add nothing, empty and single-point linestrings yield just themselves, and the iteration always ends.",
  ["inputs"], "all linestrings and all positive distances",
  "three fixed lines; distances that divide an edge exactly, zero-length edges and huge distances are not covered",
  [L2, L3], [("DiscreteLineSegmentIterator", L2), ("DiscreteLineSegmentIterator", L3)], ["LineString2::discretize, LineString3::discretize"],
  "property-based testing: reference sampling with step-count bounds, shrinking", R,
  state=[{"name": "iterator state", "meaning": "current edge, step number, steps on this edge", "where": L2}])

P("P19", "Conversion between 2D and 3D over a plane is reversible; planes are detected",
  "Copying points, lines or linestrings from 2d to 3d over any of the three axis planes and back returns the same coordinates, the unused axis is zero, and copying 3d to 2d and back is the projection onto the plane. A plane is detected for a 3d box exactly when one single extent is smaller than the tolerance times the largest extent, and it is the plane perpendicular to that axis; empty boxes and boxes flat along more or none of the axes have none.",
  ["inputs"], "all points and boxes, every plane and tolerance",
  "a few fixed points and boxes per plane",
  [L3, L2], [("Plane::get_plane_relaxed, point_to_2d, point_to_3d, copy_to_2d", L3), ("copy_to_3d", L2)], ["Plane, copy_to_2d, copy_to_3d of points, lines and linestrings"],
  "property-based testing: round trip and reference detection, shrinking", R)

P("P20", "Edges are divided into continuous shapes without loss",
  "Dividing a list of edges into shapes uses every distinct edge exactly once, as consecutive vertices of one shape. Shapes run only through vertices with exactly two neighbours and end only at other vertices or close on themselves, so no two shapes could be joined and none is cut short. The returned flags mark exactly the vertices with two neighbours; direction, order and repetition of the edges do not matter, and edges from a vertex to itself belong to no shape.",
  ["inputs"], "all edge lists",
  "a dozen fixed drawings; junction-to-same-junction loops, duplicated edges and free loops met midway are combinations tests do not enumerate",
  [SH], [("divide_into_shapes: adjacency, junction marking, walking both ways", SH)], ["the returned shapes and flags"],
  "property-based testing: structural invariants that determine the partition, shrinking", R)

P("P21", "Sampled parabolic Voronoi arcs stay on the arc and within the deviation",
  "Sampling a parabolic arc between a point and a segment starts and ends at the given points exactly, every sample is equally far from the point and the segment and in order along the arc, and between neighbouring samples the arc deviates no more than asked. No stretch that is already within the deviation is divided, and sampling ends for arcs without extent. The 3d variants have the same samples with minus the distance to the point as height, the straight-line variant just the two ends.",
  ["inputs"], "all segments, cell points, end points on their parabola and deviations",
  "two fixed arcs; directions, sides, vertical segments and degenerate arcs are not covered",
  [L2], [("VoronoiParabolicArc::discretize_2d, discretize_3d, discretize_3d_straight_line", L2)], ["the sampled points"],
  "property-based testing: distance equality and deviation-bound oracle, shrinking", R)

P("P22", "Exported .obj files read back as the lines that were saved",
  "Saving lines to an .obj file and reading it back by the format's rules gives the object name and exactly the lines saved, in order, with every coordinate exactly as it was. Equal points share one vertex, no unused vertex is written, an existing file is replaced completely, and a path that cannot be written, or a file that cannot be written to its end, is an error.",
  ["inputs"], "all groups of lines with finite coordinates, all magnitudes; missing, shorter and longer existing files",
  "one test that writes a fixed pair of lines and never reads the file",
  [L3], [("save_to_obj_file: vertex numbering, line indices", L3)], ["the file written"],
  "property-based testing: round trip through an independent reader, injected write faults, shrinking", R + "Runs inside a scratch directory of its own.")

P("P23", "Distance from a point to a segment is the Euclidean distance",
  "In two and three dimensions the squared distance from a point to a line segment is that to the closest point of the segment, whichever end is given first: beside the segment the perpendicular distance, beyond an end the distance to that end. For a segment of no length the safe variant gives the distance to its point.",
  ["inputs"], "all segments and points",
  "the tests only measure points beside a segment",
  [L2, L3], [("distance_to_line_squared, distance_to_line_squared_safe", L2), ("distance_to_line_squared, distance_to_line_squared_safe", L3)], ["the returned squared distance"],
  "property-based testing: exact integer reference, symmetry, shrinking", R)

P("P24", "Coordinates that are not finite are rejected, finite ones never are",
  "Convex hulls of three or more points, the sweep-line algorithms and the self-intersection test of long linestrings return an error when a coordinate that takes part is NaN or infinite, wherever it stands. Points that are not selected by an index do not matter, and finite input of ordinary size is never rejected.",
  ["inputs", "fault_sequences"], "all point lists with any number of spoiled coordinates at any position",
  "two tests with one NaN in one position",
  [HULL, SW, ISW, L2], [("find_lowest_x, indexed_find_lowest_x", HULL), ("with_lines", SW), ("with_edges", ISW), ("is_self_intersecting", L2)], ["Ok or Err"],
  "property-based testing with injected non-finite coordinates, shrinking", R)

P("P25", "Views of a linestring agree with its list of points",
  "For 2d and 3d linestrings the window view is the lines between consecutive points and the chunk view the lines of disjoint pairs with the odd point as remainder; lengths and emptiness stay right while items are taken. Connectedness compares first and last point, the 2d point count leaves out a repeated closing point, and mapping changes every point exactly once. Approximate comparison holds exactly when the lengths agree and every coordinate is close by distance (or by distance or representable steps).",
  ["inputs", "histories"], "all point lists, open and closed, any number of items taken",
  "a handful of fixed lines, never consumed part way",
  [L2, L3], [("WindowIterator, ChunkIterator, is_connected, point_count, apply, Approx", L2), ("the same in 3d", L3)], ["the iterators, counts and comparisons"],
  "property-based testing: list reference model, shrinking", R)

P("P26", "Lines and boxes behave as values: equality, conversion, text",
  "Lines and boxes made from arrays, pairs or points hold exactly those coordinates. 2d lines and boxes are equal when all coordinates agree up to a few representable steps, 3d ones when they agree exactly, both ways round; approximate comparison of 2d lines also accepts the reversed line and nothing else. The debug text shows every coordinate so that it reads back exactly, each with a decimal point.",
  ["inputs"], "all pairs of lines with finite coordinates",
  "a few fixed values compared with themselves",
  [I2, I3, LIB], [("PartialEq, UlpsEq, AbsDiffEq, From, Debug for Line2, Aabb2, Intersection", I2), ("the same for Line3, Aabb3", I3), ("format_float", LIB)], ["==, ulps_eq, abs_diff_eq, into(), {:?}"],
  "property-based testing: definition-level reference, text round trip, shrinking", R)

P("P27", "Orientation predicates are right for every triple of points",
  "For three points the orientation predicate reports left, right or collinear as the sign of the exact cross product says, the left-of tests agree with it with and without collinear points, and the cross product has the exact value. Swapping two of the points flips left and right. Scaling to a coordinate gives the point that many vectors away.",
  ["inputs"], "all triples of points (exactly representable ones are judged)",
  "one documentation example each",
  [HULL, L2], [("point_orientation, is_point_left, is_point_left_allow_collinear, cross_2d", HULL), ("scale_to_coordinate", L2)], ["the returned values"],
  "property-based testing: exact integer reference and antisymmetry, shrinking", R)

P("P28", "Every operation returns for every finite input",
  "Whatever the finite coordinates - huge, tiny, subnormal, a few representable steps apart, all the same - and whatever the order, selection and repetition of points, every operation returns: no panic, no endless run, no exhaustion of the call stack or of memory. What it returns is made of its input: hulls and simplified lines consist of input points with both ends kept, intersections are finite and name existing lines, boxes contain their points, coordinate transforms give finite points or an error.",
  ["inputs"], "all lists of finite coordinates and index selections in range",
  "the tests use ordinary coordinates only; overflow to infinity and NaN, underflow and almost equal values need particular combinations",
  [L2, L3, HULL, SW, ISW, S2, S3], [("hull walks and their termination", HULL), ("triangle areas and priority queue", S2), ("event queue", SW), ("boxes, transforms, ray and segment queries", L2)],
  ["that the call returns, and what the result is made of"],
  "fuzzing of extreme inputs: termination, absence of panics and result-made-of-input invariant, shrinking", R)
