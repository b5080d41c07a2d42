STD = "Complete within the stated bounds: every case of every space is executed on the real code and compared with an exact model; nothing is claimed beyond the bounds. Trusts the reference model, the compiler and the explorer; replays confirm each failure."
TESTS = "The unit tests check a handful of hand-picked %s; the statement quantifies over all of them, including the degenerate arrangements where implementations go wrong."


def I(n): return A + "intersection/" + n + ".hpp"
def PS(n): return A + "point_sequence/" + n + ".hpp"
def DI(n): return A + "distance/" + n + ".hpp"

prop("A01", "Orientation, collinearity and betweenness of points and directions",
     "Orientation of a point about a line or a direction about a direction (left, right, collinear), collinearity, betweenness of collinear points and whether a direction lies in the sweep between two others, are answered as exact geometry dictates for every triple, up to the tolerance of the comparison policy. The orientation-based segment crossing test says correctly whether two segments cross, touch or overlap.",
     "inputs configurations", "all triples of points and directions, all pairs of segments, comparison policies, coordinate frames",
     TESTS % "triples",
     [A + "orientation.hpp", A + "line_intersection.hpp", "geometrix/utility/utilities.hpp", A + "linear_components_intersection.hpp"],
     [("get_orientation, is_collinear, is_between, is_vector_between, oriented_intersection", A + "orientation.hpp; geometrix/utility/utilities.hpp")], STD)
prop("A02", "Angles and angular orders",
     "The angle of a vector and the angle from one point to another lie in [-pi,pi] and are the true ones for every direction, including the axes and both signs of zero; normalisation maps any angle to a congruent one in [0,2pi] or [-pi,pi]. The angle-free angular orders (pseudo angle in [0,4), comparing vectors or points by counter-clockwise angle from a reference direction) order directions exactly as their angles do.",
     "inputs configurations", "all directions, pairs and triples of directions, angles over many turns",
     TESTS % "directions",
     ["geometrix/utility/utilities.hpp", "geometrix/numeric/constants.hpp"],
     [("angle_from_a_to_b, vector_angle, pseudo_angle, normalize_angle", "geometrix/utility/utilities.hpp")], STD)
prop("A03", "Lexicographic orders of points and segments",
     "The lexicographic, reverse lexicographic and dimension-first comparisons of points, and equality of coordinate sequences, agree with exact coordinate-by-coordinate comparison for all points in the plane and in space. The orders of segments and of collinear intervals are consistent with the order of their end points irrespective of the direction in which a segment is given, and the scalar helpers (clamp, min, max, sign, comparing pairs by a member) return the mathematically defined value.",
     "inputs", "all pairs of points and of segments, all triples of scalars",
     TESTS % "pairs",
     ["geometrix/utility/utilities.hpp", "geometrix/tensor/numeric_sequence_compare.hpp"],
     [("lexicographical_compare, lexicographical_segment_compare, numeric_sequence_*_compare", "geometrix/utility/utilities.hpp")], STD)
prop("B01", "Planar segment-segment intersection classification and points",
     "For any two non-degenerate segments in the plane, in any order and direction and under any comparison policy, the reported relation (no intersection, proper crossing, contact at an end point, overlap) is the true one. The points reported are the true crossing or contact point, or the two ends of the overlap.",
     "inputs configurations", "all pairs of segments (all relative positions), comparison policies, coordinate frames",
     TESTS % "segment pairs",
     [A + "intersection/segment_segment_intersection.hpp"], [("segment_segment_intersection", A + "intersection/segment_segment_intersection.hpp")], STD)
prop("B02", "Spatial segment-segment intersection classification and points",
     "For any two non-degenerate segments in space the reported relation (no intersection, proper crossing, contact at an end point, overlap) and the reported points are the true ones, whether the segments are skew, coplanar, parallel or collinear, under any comparison policy.",
     "inputs configurations", "all pairs of segments in space, comparison policies, coordinate frames",
     TESTS % "segment pairs",
     [A + "intersection/segment_segment_intersection.hpp"], [("segment_segment_intersection (3D)", A + "intersection/segment_segment_intersection.hpp")], STD)
prop("B03", "Line and ray intersections",
     "Intersecting a line with a line, a line with a segment, a ray with a line, or a ray with a segment reports whether and how they meet correctly for every relative position (crossing, touching an end, parallel, coincident), and reports the true intersection point or overlap. A ray is bounded at its origin only and a line is unbounded.",
     "inputs configurations", "all pairs of lines, rays and segments, comparison policies, coordinate frames",
     TESTS % "pairs",
     [A + "line_intersection.hpp", A + "intersection/ray_segment_intersection.hpp", A + "intersection/ray_line_intersection.hpp"],
     [("line_line_intersect, line_segment_intersect, ray_segment_intersection, ray_line_intersection", A + "intersection/")], STD)
prop("B04", "Simplicity and self-intersection of polygons and polylines",
     "The polygon simplicity tests answer true exactly for closed rings whose edges meet only at shared vertices, and for polygons with holes whose rings are simple and do not touch each other; the polyline self-intersection search reports exactly the points where non-adjacent parts meet; and the plane sweep over a set of segments reports exactly the pairwise intersection points of the set.",
     "inputs histories", "all rings, polylines and segment sets, all insertion orders of the segments, coordinate frames",
     TESTS % "rings and segment sets",
     [PS("is_polygon_simple"), PS("self_intersection"), A + "bentley_ottmann_segment_intersection.hpp", A + "bentley_ottmann_sweep.hpp"],
     [("is_polygon_simple", A + "point_sequence/is_polygon_simple.hpp")], STD)

prop("B05", "Segments and polylines against polygons and polylines",
     "Intersecting a segment with a polygon border, or a polyline with a segment or a polyline, finds an intersection exactly when the two meet, visits every meeting edge pair until the visitor asks to stop, and reports true intersection points. Whether a segment leaves a polygon is answered correctly, and viewing a polygon with holes as a range of segments yields every edge of the outer ring and of each hole exactly once.",
     "inputs configurations", "all simple polygons, polylines, segments, comparison policies, coordinate frames",
     TESTS % "polygons and segments",
     [I("segment_polygon_intersection"), I("segment_polyline_intersection"), I("polyline_polyline_intersection"), I("segment_projects_outside_polygon"), A + "polygon_with_holes_as_segment_range.hpp", "geometrix/primitive/polygon_with_holes.hpp"],
     [("segment_polygon_intersection, polyline_polyline_intersect, segment_projects_outside_polygon", A + "intersection/")], STD)
prop("B06", "Intersection of two convex polygons",
     "Intersecting two convex counter-clockwise polygons visits exactly the vertices of their common region in order, whatever their starting vertices and relative position: crossing, touching, sharing edges, one inside the other, identical or disjoint.",
     "inputs configurations histories", "all pairs of strictly convex polygons with any starting vertices, coordinate frames",
     TESTS % "polygon pairs",
     [I("convex_polygon_polygon_intersection")], [("convex_polygon_polygon_intersection", I("convex_polygon_polygon_intersection"))], STD)
prop("B07", "Segments seen within an angular range",
     "A segment is reported in the range of a viewer exactly when some part of it lies in the closed cone between the two bounding rays; the form that reports points returns the two ends of the part within the cone. Segments behind the viewer, on the bounding rays or starting at the viewer are decided correctly.",
     "inputs configurations", "all cones of up to half a turn and all segments, coordinate frames",
     TESTS % "cones and segments",
     [A + "is_segment_in_range.hpp"], [("is_segment_in_range_2d", A + "is_segment_in_range.hpp")], STD)
prop("C01", "Point in polygon",
     "The point-in-polygon test tells inside from outside correctly for every simple polygon, convex or not, of either winding, including points level with vertices; the form that reports location distinguishes interior, edge, vertex and exterior. The tests for convex polygons and convex quadrilaterals (counter-clockwise, border included) agree with exact geometry for every convex polygon.",
     "inputs configurations", "all simple polygons, all starting vertices and windings, all query points, coordinate frames",
     TESTS % "polygons and points",
     [A + "point_in_polygon.hpp"], [("point_in_polygon, point_on_polygon_border, point_in_convex_polygon", A + "point_in_polygon.hpp")], STD)
prop("C02", "Points and segments against triangles",
     "A point is reported in a triangle, in the plane or in space, exactly when it lies in the closed triangle. Intersecting a segment with a triangle reports the number of points where the segment enters, leaves or touches it, and those points; degenerate contacts with edges and vertices included.",
     "inputs configurations", "all triangles, points and segments, coordinate frames",
     TESTS % "triangles",
     [A + "point_in_polygon.hpp", I("segment_triangle_intersection"), "geometrix/utility/utilities.hpp"],
     [("point_in_triangle, segment_triangle_intersect", I("segment_triangle_intersection"))], STD)
prop("C03", "Containment of polygons and polylines in polygons",
     "A polygon or polyline is reported contained in a polygon exactly when no part of it leaves that polygon, including shared edges, touching vertices, non-convex containers, and the reverse arrangement.",
     "inputs configurations", "all pairs of simple polygons and polyline/polygon pairs, coordinate frames",
     TESTS % "pairs",
     [PS("polygon_polygon_containment"), PS("polygon_polyline_containment")], [("polygon_contains_polygon, polygon_contains_polyline", A + "point_sequence/")], STD)
prop("H05", "Union and difference of collinear segment sets",
     "The union and difference of collinear segments, seen as intervals of a line, cover exactly the set-theoretic union and difference, with maximal disjoint pieces.",
     "inputs histories", "all interval sets and orders",
     TESTS % "intervals",
     ["geometrix/utility/utilities.hpp"], [("segment interval union and difference", "geometrix/utility/utilities.hpp")], STD)
prop("D01", "Distance and closest point of a point to segments, lines, chains and borders",
     "The distance (and squared distance) from a point to a segment, line, polyline or polygon border, in the plane and for segments in space, is the true one; the closest point reported lies on the object at that distance and its parameter identifies it. A segment of zero length behaves as the point it is, and no result is ever NaN.",
     "inputs configurations", "all points, all segments including degenerate ones, polylines and polygons, coordinate frames",
     TESTS % "points and objects",
     [DI(n) for n in ("point_segment_distance", "point_segment_closest_point", "point_line_distance", "point_polyline_distance", "point_polygon_distance")],
     [("point_segment_distance, point_segment_closest_point, point_line_distance", A + "distance/")], STD)
prop("D02", "Distance between segments, and between segments and chains or borders",
     "The distance between two planar segments, and between a segment and a polyline or polygon border (or an index range of a polyline), is zero exactly when they meet and otherwise the true minimum; the closest point reported lies on the object named and attains that distance.",
     "inputs configurations", "all pairs of segments including degenerate ones, all polylines, polygons and index ranges, coordinate frames",
     TESTS % "pairs",
     [DI(n) for n in ("segment_segment_distance", "segment_polyline_distance", "segment_polygon_distance")] + [A + "distance/segment_polyline_closest_point.hpp"],
     [("segment_segment_distance, eberly_segment_segment_distance_sqrd, segment_polyline_distance", A + "distance/")], STD)
prop("D03", "Distance and closest points between polylines and between polygons",
     "The distance and the closest points reported between two polylines, and between two polygon borders, are the true minimum and a pair of points of the two attaining it, for chains of every size, whichever vertices or edges are closest, the closing edges of polygons included.",
     "inputs configurations", "all pairs of polylines and polygons of small and larger sizes, coordinate frames",
     TESTS % "pairs",
     [DI(n) for n in ("polyline_polyline_distance", "polygon_polygon_distance", "polyline_polyline_closest_point", "polygon_polygon_closest_point")],
     [("polyline_polyline_distance, polygon_polygon_closest_point", A + "distance/")], STD)
prop("D04", "Axis-aligned and oriented boxes: construction, containment and distance",
     "A bounding box built from points, a sequence, part of a sequence, a segment or other boxes is the smallest one holding them. Box containment, overlap of boxes, and the distance and closest point of a box (axis-aligned in the plane or space, or oriented) to a point are exact; the distance between boxes and from a segment to the border of an oriented box it is not inside are exact too.",
     "inputs configurations", "all boxes, points, point sequences and segments of a grid, coordinate frames, orientations of oriented boxes",
     TESTS % "boxes",
     ["geometrix/primitive/axis_aligned_bounding_box.hpp", "geometrix/primitive/oriented_bounding_box.hpp", DI("point_aabb_distance"), DI("aabb_aabb_distance"), DI("point_obb_distance"), DI("segment_obb_distance")],
     [("axis_aligned_bounding_box, oriented_bounding_box, aabb_aabb_distance, segment_obb_distance", "geometrix/primitive/")], STD)
prop("E01", "Axis-aligned boxes against segments, rays, triangles and chains; clipping",
     "A segment (plane or space), polygon, polyline or triangle is reported to intersect an axis-aligned box exactly when the two share a point, touching and containment either way included. A ray against a box reports whether it hits, whether it starts inside, and the true entrance and exit parameters and points. Clipping a line to a rectangle ends for every input and leaves exactly the part inside.",
     "inputs configurations", "all boxes (also flat ones), segments, rays, polygons and chains of a grid, axis-preserving coordinate maps, comparison policies",
     TESTS % "boxes and objects",
     [I(n) for n in ("segment_aabb_intersection", "polygon_aabb_intersection", "polyline_aabb_intersection", "ray_aabb_intersection")] + [A + "eberly_triangle_aabb_intersection.hpp", A + "cohen_sutherland_line_clipping.hpp"],
     [("segment_aabb_intersection, ray_aabb_intersection, cohen_sutherland_line_clip", I("segment_aabb_intersection"))], STD)
prop("E02", "Separating axis tests of convex polygons and oriented boxes, at rest and moving",
     "Two convex polygons are reported to intersect exactly when their interiors meet, whatever the winding and first vertex. Two oriented boxes are reported to intersect exactly when they share a point. For polygons or oriented boxes moving at constant velocities the test reports whether they meet (touching included) within the time limit, and the true first and last times of contact (first time zero when they meet already, unlimited last time when they never part).",
     "inputs configurations", "all pairs of small convex polygons, larger polygons from every first vertex, oriented boxes of many orientations, velocities, time limits, coordinate frames",
     TESTS % "pairs",
     [I(n) for n in ("separating_axis_convex_polygons", "moving_separating_axis_convex_polygons", "obb_obb_intersection", "moving_obb_obb_intersection", "detail/separating_axis_common")],
     [("convex_polygons_intersection, moving_convex_polygons_intersection, obb_obb_intersection, moving_obb_obb_intersection", I("detail/separating_axis_common"))], STD)
prop("E03", "Circles, spheres and capsules against circles, rays, segments and boxes",
     "Two circles are classified apart, one inside the other, tangent, crossing or coincident exactly, and the points reported lie on both. A ray or segment (plane or space) meets a circle or sphere exactly when it comes within the radius; parameter and point are those of the first contact (the start, when it lies inside), tangents included; both crossings are reported when asked for. The same holds for a segment and a capsule. Sphere against axis-aligned or oriented box is exact. A circle against a polyline visits every edge met, in order, until the visitor stops.",
     "inputs configurations", "all circles, spheres, capsules, rays, segments and boxes of a grid, tangent and contained ones included, coordinate frames",
     TESTS % "circles and objects",
     [I(n) for n in ("circle_circle_intersection", "sphere_sphere_intersection", "ray_sphere_intersection", "segment_sphere_intersection", "segment_capsule_intersection", "sphere_aabb_intersection", "sphere_obb_intersection", "segment_plane_intersection", "sphere_polyline_intersection")],
     [("circle_circle_intersection, ray_sphere_intersection, segment_sphere_intersection, segment_capsule_intersection", I("segment_sphere_intersection"))], STD)
prop("E04", "Moving spheres: time and place of first contact",
     "A circle moving at constant non-zero velocity against a line, a segment, an axis-aligned or an oriented box, and two circles or spheres each moving at constant velocity, are reported to meet exactly when they ever do from now on; the time is the first moment of contact (zero when they overlap already) and the point is where they touch then.",
     "inputs configurations", "all starting positions and radii of a grid, all small velocities, all boxes and segments, coordinate frames, namings of an oriented box's axes",
     TESTS % "positions and velocities",
     [I(n) for n in ("moving_sphere_plane_intersection", "moving_sphere_segment_intersection", "moving_sphere_aabb_intersection", "moving_sphere_obb_intersection", "moving_sphere_sphere_intersection")],
     [("moving_sphere_segment_intersection, moving_sphere_aabb_intersection, moving_sphere_sphere_intersection", I("moving_sphere_segment_intersection"))], STD)
prop("E05", "Planes in space and lines in the plane: construction and sides",
     "A plane made from three points or from a point and two vectors, and a line made from two points, a point and a vector or a segment, have the reference point, unit vectors, normal and distance to the origin that follow. A point, segment, polyline or polygon is classified in front, behind, on or straddling exactly, with the thickness of the comparison policy. A segment or a moving sphere meets a plane in space exactly when it does, at the true parameter, time and point.",
     "inputs configurations", "all planes through three points of a grid and lines through two, all points, segments and small point sets of a grid, spheres with all small velocities, coordinate frames",
     TESTS % "planes and points",
     ["geometrix/primitive/plane.hpp", "geometrix/primitive/line.hpp", "geometrix/primitive/hyperplane_traits.hpp", A + "classify_simplex_to_plane.hpp", I("segment_plane_intersection"), I("moving_sphere_plane_intersection")],
     [("classify_point_to_plane, classify_simplex_to_plane", A + "classify_simplex_to_plane.hpp"), ("plane", "geometrix/primitive/plane.hpp")], STD)
prop("F01", "Range search in a kd-tree",
     "Searching a kd-tree for an axis-aligned range visits exactly the points stored in the tree that lie in the closed range, once for each time the point was given, for every sequence of points (repeated and collinear ones included), in the plane and in space.",
     "inputs configurations", "all small sequences of points and larger families, all ranges, containers and comparison policies",
     TESTS % "point sets and ranges",
     [A + "kd_tree.hpp", A + "median_partitioning_strategy.hpp"], [("kd_tree build and search, median_partitioning_strategy", A + "kd_tree.hpp")], STD)
prop("F02", "Solid BSP trees: space classification, ray hits and nearest edges",
     "For edges bounding a region (left of every edge is empty, right is solid: one simple polygon of either winding, or a polygon with a hole), whatever the order of the edges and the selection of splitting planes, and after moving the tree: a point is in solid space, in empty space or on the boundary exactly as the polygons say; the distance to the nearest edge and that edge's index are those of an exhaustive search; a ray hits exactly when it reaches solid, no earlier than it first touches it and no later than it first enters it, and a ray crossing properly from empty space reports the edge it crosses.",
     "inputs configurations", "all simple polygons with up to 6 (thorough 8) vertices of a 3x3 grid, up to 4 of a 4x4 grid and squares with a hole, all edge rotations, both selectors, points and rays at half steps",
     TESTS % "polygons",
     [A + "solid_leaf_bsp_tree.hpp", A + "hyperplane_partition_policies.hpp", A + "classify_simplex_to_plane.hpp", "geometrix/primitive/hyperplane_traits.hpp"],
     [("solid_leaf_bsp_tree", A + "solid_leaf_bsp_tree.hpp"), ("autopartition_policy, scored_selector_policy", A + "hyperplane_partition_policies.hpp")], STD)
prop("F03", "Node BSP trees: point location and back to front traversal",
     "For the edges of one simple polygon of either winding, a polygon with a hole, or two disjoint polygons, built at once in any order or by inserting the second into the tree of the first, with either selector: locating a point answers inside (left of the edges), outside or boundary exactly as the polygons say; a painter's traversal from any viewpoint visits every part of every edge not in line with the viewpoint exactly once, and whatever is hidden before what hides it.",
     "inputs configurations", "all simple polygons with up to 7 (thorough 8) vertices of a 3x3 grid, up to 4 (thorough 5) of a 4x4 grid, squares with a hole and pairs of triangles, all edge rotations, both selectors, points at half steps",
     TESTS % "polygons",
     [A + "node_bsp_tree_2d.hpp"], [("node_bsp_tree_2d, first/scored_segment_selector_policy", A + "node_bsp_tree_2d.hpp")], STD)
prop("F04", "Uniform grids: cell of a point, cell geometry and cell storage",
     "A uniform grid covers its bounds; every point of the bounds has the cell whose box holds it, with an index within the grid; corners, polygon, box and centroid of a cell are the true ones. A dense grid gives every cell its own value; a hashed grid behaves under any sequence of writes, lookups, erasures, clearing and moving as a map from cells to values.",
     "inputs histories", "all extents and points at quarter cell steps, coordinate maps, all short sequences of operations",
     TESTS % "extents, points and histories",
     [A + "grid_traits.hpp", A + "grid_2d.hpp", A + "hash_grid_2d.hpp"], [("grid_traits, grid_2d, hash_grid_2d", A + "grid_traits.hpp")], STD)
prop("F05", "Grid cells a segment or convex polygon passes through",
     "Traversing a grid along a segment visits, in order, without gaps or repetition, every cell of the grid whose interior the segment passes through and no cell it does not touch, the segment being clipped to the grid; a stoppable traversal ends when told to. Filling a convex polygon, with or without convex holes, visits exactly once every cell that shares area with it and none that lies outside it or within a hole; a flood from any inner cell visits exactly the cells connected to it within the border, whatever the border, each cell once in the life of the helper however many floods it has seen.",
     "inputs configurations", "all segments, convex polygons and hole arrangements of a grid in coarser cells, coordinate maps",
     TESTS % "segments, polygons and grids",
     [A + "fast_voxel_grid_traversal.hpp", A + "orientation_grid_traversal.hpp", A + "floodfill_grid_traversal.hpp", A + "cohen_sutherland_line_clipping.hpp"],
     [("fast_voxel_grid_traversal, orientation_segment_traversal, floodfill_grid_traversal", A + "fast_voxel_grid_traversal.hpp")], STD)
prop("H01", "Lengths, positions and pieces of polylines and polygons",
     "The length of a polyline or polygon, the middle point of a polyline, the point at a given distance along it and the segment it lies on are the true ones for every polyline, in the plane and in space. Splitting a polyline at any distance from its start gives two parts which join at that point and together trace it, no point repeated; clipping lengths off its front, back or both ends leaves exactly the part between.",
     "inputs configurations", "all short polylines, all distances along them at fractions of segments and on vertices, coordinate frames",
     TESTS % "polylines",
     [PS("length"), PS("polyline_mid_point"), PS("polyline_split"), PS("clip_polyline_ends")],
     [("polygon_length, polyline_mid_point, polyline_split, clip_polyline_*, point_on_polyline_length_characteristics", PS("polyline_split") + "; " + PS("clip_polyline_ends"))], STD)
prop("H02", "Removal of collinear and repeated points, simplification of polylines",
     "Cleaning a polygon leaves exactly its corners: no collinear point and no repeated point survives anywhere around it, including at its first and last points, and no corner is lost; the identified indices name the same points. Cleaning a polyline leaves its ends and corners. Ramer-Douglas-Peucker simplification keeps the ends and gives the vertices its definition keeps for the tolerance, also for polylines whose ends coincide.",
     "inputs configurations", "all small polygons and polylines with extra collinear and repeated points, all starting points, tolerances",
     TESTS % "polygons and polylines",
     [PS("remove_collinear_points"), PS("ramer_douglas_peucker_algorithm")],
     [("remove_collinear_points_*, coalesce_adjacent_points_*, identify_*_polygon, clean_*, ramer_douglas_peucker_algorithm", PS("remove_collinear_points") + "; " + PS("ramer_douglas_peucker_algorithm"))], STD)
prop("H03", "Offset polylines",
     "The offset of a polyline to its left or right has one vertex per vertex of the polyline, each on the given side at the given distance from the lines of both adjoining segments (mitred corners; the ends are moved perpendicularly), for every polyline without reversals, including vertices at which it goes straight on.",
     "inputs configurations", "all short polylines, sides, distances, coordinate frames",
     TESTS % "polylines",
     [PS("polyline_offset"), A + "line_intersection.hpp"], [("polyline_offset", PS("polyline_offset"))], STD)
prop("H04", "Area, centroid, bounds, corners and comparison of point sequences",
     "The signed and absolute area and the centroid of every closed point sequence, the bounds of every point sequence or range of it in the plane and in space, whether a point of it is concave, its neighbouring indices, its border as segments and its reversal are the true ones. Point sequences compare equal exactly when their points agree, polygons also under a cyclic offset, and the offset between two starting points is found.",
     "inputs configurations", "all short point sequences, ranges and offsets, comparison policies, coordinate frames",
     TESTS % "point sequences",
     ["geometrix/primitive/point_sequence_utilities.hpp"],
     [("get_signed_area, get_area, get_centroid, get_bounds, is_point_concave, polygons_equal, polygon_polygon_offset, reverse", "geometrix/primitive/point_sequence_utilities.hpp")], STD)
prop("H06", "Congruence of point sequences, border segments and border walks of polygons",
     "Two polylines, or two polygons with the same starting point, are reported congruent exactly when a rotation and a translation take one to the other (a mirror image is not congruent). The border segment of a polygon that contains a point, or is closest to it, is a true one, none being reported for a point off the border; the part of the border within a given distance along it from a border point is the true one in both directions.",
     "inputs configurations", "all pairs of short sequences, all small simple polygons and points, distances, coordinate frames",
     TESTS % "pairs and points",
     [PS("is_congruent"), PS("find_subsequence")],
     [("are_polylines_congruent, are_polygons_congruent, find_*_polygon_border_segment, polygon_subsequence", PS("is_congruent") + "; " + PS("find_subsequence"))], STD)
prop("H07", "Side of a polyline a point lies on",
     "A point is reported left or right of a simple polyline according to the side of the closest segment, or of the corner when a vertex is closest (the outer side of its turn), and collinear only when it lies on the polyline or straight beyond one of its ends; this holds for every point and every simple polyline.",
     "inputs configurations", "all short simple polylines, all points around them, coordinate frames",
     TESTS % "polylines and points",
     [PS("point_polyline_orientation")], [("point_polyline_orientation", PS("point_polyline_orientation"))], STD)
prop("H08", "Curvature of polylines and splits by curvature",
     "The curvature at a vertex of a polyline is that of the circle through it and its neighbours, positive for left turns; total and total absolute curvature are the sums over the vertices weighted by the mean of the adjoining lengths. Inflection points are the indices where the curvature changes between negative and non-negative; splitting at them, or whenever the accumulated curvature exceeds a bound, gives pieces which join and together are the polyline.",
     "inputs configurations", "all short polylines without repeated points, bounds, coordinate frames",
     TESTS % "polylines",
     [PS("curvature")], [("polyline_signed_curvature_at_index, polyline_total_curvature, inflection_points, split_by_total_curvature", PS("curvature"))], STD)
prop("H09", "Geometric objects hold the values they were given",
     "Polylines, polygons, polygons with holes, segments, circles, capsules, rectangles, lines and planes hold exactly the points, holes and radii they were given, in order, whichever constructor, construction policy, copy, move, assignment, setter or edit gave them, and whatever was done to other objects in between; all accessors (members, access traits, forward and backward iteration, ends, border segments) show the same values. Lines and planes have the unit directions, normals and distances from the origin of the points given.",
     "histories inputs", "all short histories of constructions, copies, moves, assignments and edits over two objects of each kind; all small lines and planes",
     TESTS % "constructions",
     ["geometrix/primitive/polyline.hpp", "geometrix/primitive/polygon.hpp", "geometrix/primitive/polygon_with_holes.hpp", "geometrix/primitive/segment.hpp", "geometrix/primitive/sphere.hpp", "geometrix/primitive/capsule.hpp", "geometrix/primitive/line.hpp", "geometrix/primitive/plane.hpp"],
     [("polyline, polygon", "geometrix/primitive/polygon.hpp"), ("polygon_with_holes", "geometrix/primitive/polygon_with_holes.hpp"), ("vector point sequences", "geometrix/primitive/vector_point_sequence.hpp"), ("line, plane", "geometrix/primitive/plane.hpp")], STD)
prop("G01", "Chains and loops assembled from directed segments",
     "From any set of directed segments which form disjoint chains and loops, inserted in any order, at once or step by step, the edge list yields exactly the maximal chains as polylines and the loops as polygons, in the direction of the segments; ends within the tolerance of each other are one point. Copies, moved and assigned edge lists hold the same and can be continued independently.",
     "inputs histories", "all sets of segments on few points, all insertion orders, copies and moves at mid history",
     TESTS % "segment lists",
     [A + "doubly_connected_edge_list.hpp"], [("doubly_connected_edge_list, make_dcel", A + "doubly_connected_edge_list.hpp")], STD)
prop("G02", "Triangle meshes: location, adjacency, random positions, visibility",
     "A mesh keeps its proper triangles in counter-clockwise order whatever the order of their indices, drops degenerate ones, and knows for each side of each triangle the neighbour across it. A point is located in a triangle which holds it, and nowhere when none does, with dense and sparse caches. A random position lies in the triangle chosen in proportion to area, for every value of the random numbers in [0,1]. The visible vertices search ends and finds exactly the vertices in sight of the origin.",
     "inputs configurations", "all triangulations of small polygons, all subsets of triangle lattices, all points and origins",
     TESTS % "meshes",
     [A + "mesh_2d.hpp", A + "visible_vertices_mesh_search.hpp", A + "is_segment_in_range.hpp"], [("mesh_2d, triangle_grid_cache, visible_vertices_mesh_search", A + "mesh_2d.hpp; " + A + "visible_vertices_mesh_search.hpp")], STD)
prop("I01", "Vector and point expressions evaluate to the exact algebraic result",
     "Sums, differences, negation, scalar multiples and quotients, dot, cross and triple products of vectors and points, nested in any way, evaluate to the algebraic result, whether read, stored with <<=, assigned or constructed; assignment and += -= *= /= work on the values before the operation even if the expression mentions the assigned object. Magnitude, normalization, norms, projections, perpendiculars, bisectors and interpolation of non-zero vectors are the true ones, and so are distances between points, in every dimension.",
     "inputs histories", "all expressions of the algebra, all operand values and operation sequences",
     TESTS % "vector and algebra",
     ["geometrix/algebra/algebra.hpp"], [("vector expressions", "geometrix/algebra/"), ("assignment and compound assignment", "geometrix/tensor/detail/numeric_sequence_n.hpp"), ("point_point_distance", "geometrix/algorithm/distance/point_point_distance.hpp"), ("bisect", "geometrix/arithmetic/vector/bisect.hpp"), ("vector projection", "geometrix/algebra/vector_projection.hpp")], STD)
prop("I02", "Matrix expressions, determinants, inverses and LUP factors are correct",
     "Sums, products with matrices, vectors, points and scalars, transposes, tensor products, minors, rows, columns, determinants, traces and inverses of matrices evaluate to the algebraic result, alone and nested, also when stored in an operand; the inverse of a singular matrix is refused. lup_decomposition gives a row permutation and unit-lower and upper factors with multipliers of at most 1 whose product is the permuted matrix, and never refuses a regular matrix.",
     "inputs configurations", "all matrices of small sizes, all expressions",
     TESTS % "matrix and LUP",
     ["geometrix/tensor/matrix.hpp"], [("matrix expressions", "geometrix/algebra/functions/"), ("determinant", "geometrix/arithmetic/detail/determinant.hpp"), ("lup_decomposition", "geometrix/algebra/lup_decomposition.hpp"), ("minors", "geometrix/tensor/matrix_minor_adaptor.hpp")], STD)
prop("I03", "Rotations, homogeneous transforms, composite matrices, polar frames",
     "Rotating points, vectors and sequences by a matrix or from one unit direction to another gives the true rotation about the given centre, the first direction landing on the second, followed by the translation if there is one. A homogeneous transform translates points and not vectors. Composite matrices show their blocks row by row in order. Conversion between Cartesian and polar or spherical coordinates gives the true coordinates and goes back to the start, and the named accessors agree in every frame.",
     "inputs configurations", "all points, directions, centres, affine maps, blocks, radii and angles",
     TESTS % "rotation and frame",
     ["geometrix/algorithm/rotation.hpp"], [("make_rotation_matrix, rotate_point, rotate_vector, rotate_points, rotate_translate_points", "geometrix/algorithm/rotation.hpp"), ("homogeneous adaptors", "geometrix/tensor/homogeneous_adaptor.hpp"), ("as_matrix", "geometrix/tensor/detail/as_matrix.hpp"), ("reference frames", "geometrix/space/")], STD)
prop("J01", "Tolerance policies compare exactly as defined, and consistently",
     "For every comparison policy (absolute, fraction, relative, direct, mapped by type) and the free functions with tolerances, of any signed numbers and types mixed, exactly one of less, equal and greater holds, <= is less or equal and >= greater or equal, swapping the operands mirrors the answer, and equality holds exactly when the difference is within the tolerance as the policy defines it. A mapped policy uses for each type the policy given for it and else the default.",
     "inputs configurations", "all pairs of values at and around the tolerance, all types and policies",
     TESTS % "number comparison",
     ["geometrix/numeric/number_comparison_policy.hpp", "geometrix/utility/floating_point_comparison.hpp"], [("comparison policies", "geometrix/numeric/number_comparison_policy.hpp"), ("equals_with_*_tolerance, equals_within_tolerance", "geometrix/utility/floating_point_comparison.hpp")], STD)
prop("J02", "Fixed point numbers compute exactly on the scaled integers",
     "A fixed_point number is an integer multiple of its scale unit: sums, differences, products, quotients, remainders, negation, increments and comparisons, with each other and with numbers, give the exact result (products and quotients cut toward zero), and a result beyond the format is reported. Conversion from numbers rounds as the rounding policy says, to numbers gives the value; between formats likewise; printing and reading back gives the same number.",
     "inputs configurations", "all pairs of 8 bit values, edges of the wider formats, decimal scales, rounding policies",
     TESTS % "fixed point",
     ["geometrix/numeric/fixed_point.hpp", "geometrix/numeric/fixed_point_traits.hpp"], [("fixed_point", "geometrix/numeric/fixed_point.hpp"), ("conversions", "geometrix/numeric/fixed_point_traits.hpp; geometrix/numeric/detail/fixed_point.hpp")], STD)
prop("J03", "Tagged quantities compute as their values and keep their tags",
     "Arithmetic, compound assignment, relations, unary operators, mathematical functions, swaps, construction and conversion of tagged quantities give the value the raw numbers give, in any sequence and also when an object operates on itself; an operation within one tag or with raw numbers keeps the tag, one across tags is tagged by the operation.",
     "inputs histories", "all values, tags alike, different or absent, all operation sequences",
     TESTS % "tagged quantity",
     ["geometrix/utility/tagged_quantity.hpp"], [("tagged_quantity", "geometrix/utility/tagged_quantity.hpp")], STD)
prop("J04", "Results do not depend on how points and vectors are represented",
     "Points and vectors held as user types (member functions, tuples, index operators, plain structures with members of different types, single precision), with integer coordinates, or mixed with the types of the library give the results the library types give, to the precision of the narrower one stored: expressions, construction, assignment, element access, products, lengths, distances, orientation, betweenness, segment intersection, point in polygon, area, centroid, simplicity and collinear cleaning; mixed expressions are computed in the wider type.",
     "inputs configurations", "all point, vector and four-point configurations of small grids, 6 representations, integer coordinates",
     TESTS % "a few representations",
     ["geometrix/utility/member_function_fusion_adaptor.hpp", "geometrix/tensor/fusion_vector_access_policy.hpp", "geometrix/tensor/tuple_vector_access_policy.hpp", "geometrix/tensor/index_operator_vector_access_policy.hpp", "geometrix/utility/construction_policy.hpp", "geometrix/arithmetic/arithmetic_promotion_policy.hpp"],
     [("select_arithmetic_type_from_2", "geometrix/arithmetic/arithmetic_promotion_policy.hpp"), ("inverse of an integer matrix", "geometrix/algebra/functions/inverse.hpp"), ("construction_policy", "geometrix/utility/construction_policy.hpp")], STD)
prop("J05", "Coordinates with physical units give the numbers plain coordinates give",
     "The same configuration of points, polylines, polygons, circles, boxes, grids and velocities with boost units quantities and with plain doubles gives the same numbers in every operation usable with both: expressions, predicates, distances, closest points, intersections, moving spheres, cleaning, clipping, offset, simplification, grids and traversal; scalar functions, mixed arithmetic and construction of quantities give the value the standard function gives on the wider of the argument types.",
     "inputs configurations", "all configurations of small grids, several frames and lengths; all pairs of 20 scalar values",
     TESTS % "the operations on quantities",
     ["geometrix/arithmetic/boost_units_arithmetic.hpp", "geometrix/numeric/boost_units_quantity.hpp", "geometrix/arithmetic/arithmetic.hpp", "geometrix/arithmetic/scalar_arithmetic.hpp", "geometrix/numeric/constants.hpp"],
     [("pow_function_impl", "geometrix/arithmetic/boost_units_arithmetic.hpp"), ("construction_policy", "geometrix/numeric/boost_units_quantity.hpp"), ("GEOMETRIX_DECLARE_MATH_BINARY_FUNCTION", "geometrix/arithmetic/arithmetic.hpp")], STD)
