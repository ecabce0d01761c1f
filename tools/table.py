TRUST = " Trusts the independent oracle in mc/src/geo.rs (Cox-de Boor and Bernstein recursions, Rodrigues rotation, integer geometry), rustc and IEEE arithmetic; floats are compared with tolerances, never bit for bit, so reordered arithmetic stays quiet."

prop("C01", "Knot vectors: construction, span lookup, insertion and splitting",
 "A knot vector built from values and multiplicities contains each value exactly its multiplicity times, in order, and the standard uniform, clamped and Bezier vectors have the documented shape. Looking up the span of any parameter returns the non-empty half-open knot interval that contains it (the first or last non-empty one for parameters outside the range), and clamping, shrinking, multiplicity and span-length queries agree with the sorted list of knots. Inserting a knot keeps the vector sorted and reports the position where the new value went.",
 ["inputs", "histories"], "every knot vector (any multiplicities, spacings, magnitudes), every parameter, every sequence of insertions",
 "the tests look at one or two hand-written vectors; repeated knots, end multiplicities other than degree+1, parameters exactly on knots or outside the range are never sampled",
 ["src/knot.rs"], [("span_index / add_knot / multiplicity / clamp", "src/knot.rs")],
 STD, "All multiplicity patterns x spacing laws within the stated bounds are enumerated and every query compared with a direct reading of the sorted list." + TRUST)

prop("C02", "B-spline basis: partition of unity, non-negativity, local support",
 "For every knot vector, degree and parameter in the knot range, the B-spline basis values equal those of the Cox-de Boor recursion: they are non-negative, at most degree+1 consecutive ones differ from zero, and inside the domain [t_p, t_n] they sum to one. At the last parameter of a clamped vector the last basis function is one.",
 ["inputs"], "every knot vector with any multiplicities, every degree, every parameter including knots and both ends",
 "unit tests evaluate a handful of parameters of one vector; zero-length spans, 0/0 terms and the end parameter need the whole family",
 ["src/knot.rs", "src/basis.rs"], [("bspline_basis", "src/knot.rs")],
 STD, "On every span p+1 points decide the polynomial pieces of degree p, so equality there is equality for all parameters of that span, up to rounding." + TRUST)

prop("C03", "Bezier curves: evaluation, end points, hull, derivatives, rational form",
 "A Bezier curve of any degree evaluates to the Bernstein combination of its control points: it starts at the first and ends at the last one, stays in their convex hull, and does not depend on the choice of coordinate origin. Its derivative curve is the derivative of the curve at every parameter (also for degree 0 and 1), and a rational Bezier curve evaluates to the weighted combination projected back to space.",
 ["inputs"], "every degree, control polygon, weight vector and parameter",
 "there are no assertions on Bezier values in the tests at all; only degree 3 is exercised",
 ["src/curve/bezier.rs", "src/basis.rs"], [("bernstein", "src/basis.rs"), ("BezierCurve::get_point / derivative", "src/curve/bezier.rs")],
 STD, "Linearity in the control points reduces all polygons to unit polygons, which are enumerated; n distinct parameters decide a degree n-1 polynomial." + TRUST)

prop("C04", "B-spline curves: evaluation, derivatives and rational form",
 "A B-spline curve evaluates, at every parameter of its domain including knots and the last parameter, to the Cox-de Boor combination of its control points; a clamped one starts at its first and ends at its last control point. Its derivative curve is the derivative of the curve wherever that exists, for every degree (degree 0 gives zero). A rational curve evaluates to the projected weighted combination, so standard conic data reproduce exact circles.",
 ["inputs"], "every degree, knot vector (multiplicities, clamped or not), control polygon, weights and parameter",
 "tests evaluate one cubic; derivative scaling with repeated knots and the end parameter are not covered",
 ["src/curve/bspline.rs", "src/knot.rs"], [("BSplineCurve::get_point / derivative", "src/curve/bspline.rs"), ("KnotVector::spans / shrink", "src/knot.rs")],
 STD, "Every end/interior multiplicity pattern within bounds; polynomial pieces decided by p+1 points per span." + TRUST)

prop("C05", "Knot insertion, splitting, clamping and Bezier decomposition keep the curve",
 "No sequence of knot insertions, splits, clampings and Bezier decompositions changes the shape of a B-spline curve: an inserted or clamped curve is the same function on the same range, the two halves of a split are the curve before and after the split parameter and meet there, and the Bezier pieces traversed in order are the curve span by span. The number of control points, knots and the degree always stay consistent, and no permitted operation panics.",
 ["inputs", "histories"], "every B-spline curve and every sequence of edit operations at parameters strictly inside (or, for insertion, anywhere in) its range",
 "the tests print one split; sequences of edits, repeated knots and unclamped ends are never checked",
 ["src/curve/bspline.rs", "src/knot.rs"], [("add_knot / split_at / clamp / to_piecewise_bezier", "src/curve/bspline.rs")],
 HIST, "Histories up to the stated depth over an alphabet that has every distinguishable position (every knot, every span interior, just beside knots); the invariant is polynomial identity per span." + TRUST)

prop("C06", "Projecting a point onto a curve",
 "Projecting any point that lies on a line, circle, polyline, Bezier or B-spline curve returns a parameter in the curve's domain whose point is that point, and projecting any other point returns a parameter at which no sampled point of the curve is noticeably nearer. A circle's angle range between two parameters always covers the arc that runs in the requested sense from the first to the second, a full turn when they coincide; projected angles lie in [0, 2 pi). Projection always returns a finite value, whatever the curve's parametrisation speed, kinks or repeated points.",
 ["inputs"], "every curve of every kind, every query point, both senses of every arc",
 "the only projection test prints two angles; kinks, degree 1, non-unit directions, zero-length segments and local minima are unsampled",
 ["src/curve.rs", "src/curve/line.rs", "src/curve/circle.rs", "src/curve/polyline.rs", "src/curve/bezier.rs", "src/curve/bspline.rs", "src/utils.rs"],
 [("Curve::project / refine_parameter_range", "src/curve/*.rs"), ("find_nearest_parameter", "src/utils.rs")],
 STD, "All curve shapes and query points of the stated finite families; accepts 1e-5 absolute (the library stops once the squared distance or its slope is below 1e-7) and 2% on off-curve minima." + TRUST)

prop("C07", "Polylines are parametrised by arc length",
 "A polyline evaluated at a parameter is the point reached by walking that fraction of its total length along its segments: 0 gives the first vertex, 1 the last, and values outside [0, 1] stay on its ends. Repeated, collinear or coinciding vertices never produce a non-finite point or a panic.",
 ["inputs"], "every vertex sequence and every parameter",
 "one polyline is used in the tests; boundaries of segments and repeated vertices are not",
 ["src/curve/polyline.rs"], [("Polyline::new / get_point", "src/curve/polyline.rs")],
 STD, "All vertex sequences over 7 positions up to the stated length." + TRUST)

prop("C08", "Sampling a curve segment respects end points, order and tolerance",
 "The sample points of a curve segment start exactly at the first and end exactly at the last parameter of its range (also for decreasing ranges), follow the curve in order without repetition, and for a convex piece of at most one turn the chords stay within the tolerance (with a margin for the randomised test point) while a straight piece is not subdivided. Sampling always terminates, for every sequence of random numbers drawn.",
 ["inputs", "schedules"], "every curve, range, tolerance, and every sequence of answers of the random number generator",
 "each test run sees one random sequence; whether another sequence breaks the tolerance or termination cannot be tested, only enumerated",
 ["src/utils.rs", "src/curve.rs"], [("parameter_division", "src/utils.rs"), ("CurveSegment::get_points", "src/curve.rs")],
 "exhaustive exploration with a controlled random number generator (every sequence of draws over 5 extreme values up to depth k, every constant continuation)",
 "The rand crate is replaced by a patched copy in which the explorer answers each draw." + TRUST)

prop("C09", "Bezier and B-spline surfaces: evaluation, derivatives, normals, rational form",
 "A Bezier or B-spline surface evaluates at every parameter pair to the tensor-product combination of its control net, for any (also unequal) degrees and net sizes; a rational one to the projected weighted combination. Its u- and v-derivative surfaces are the partial derivatives, and reported normals are the unit normals of the two tangents at the given parameters, in the same order.",
 ["inputs"], "every net size, degree pair, knot vector pair, weights, parameter pair",
 "the tests evaluate no surface point; swapped directions only show on unequal degrees, nets or knots",
 ["src/surface/bezier.rs", "src/surface/bspline.rs", "src/basis.rs", "src/knot.rs"], [("Surface::get_point / derivative_u / derivative_v / get_normals", "src/surface/bspline.rs"), ("BezierSurface::get_point", "src/surface/bezier.rs")],
 STD, "Unit nets (linearity), all multiplicity patterns in bounds, (p+1)x(q+1) points in every knot cell decide the bi-polynomial pieces." + TRUST)

prop("C10", "Planes, cylinders, spin, sweep and umbrella surfaces",
 "A plane, cylinder, spin, sweep or umbrella surface evaluates to its defining formula in any orthonormal frame: rotating the section about the axis, translating the section along the path, and so on. Projecting a point of a plane or cylinder back returns its parameters (angles in [0, 2 pi)), and unfolding a cylinder point to the ring and folding it back returns the same point.",
 ["inputs"], "every frame, origin, size and parameter pair",
 "one cylinder in one frame is tested",
 ["src/surface/plane.rs", "src/surface/cylinder.rs", "src/surface/spin.rs", "src/surface/sweep.rs", "src/surface/umbrella.rs"],
 [("get_point / project / project_to_ring / generate_point_from_ring", "src/surface/*.rs")],
 STD, "Finite grid of frames, origins, sizes and parameters, fully enumerated." + TRUST)

prop("C11", "Tessellating a surface patch gives a complete, consistent mesh",
 "Tessellating a patch with m by n divisions yields exactly the (m+1)(n+1) surface points at the uniform parameters (in row order, range ends exact) and triangles that cover every cell exactly once, all with the same orientation and only valid indices, for any divisions and also for decreasing ranges. If the surface offers normals there is one per vertex, finite and unit, with degenerate ones replaced by a neighbour's; wrapping the surface in a box changes nothing. Reversing a mesh turns every triangle round and keeps its vertices and normals.",
 ["inputs"], "every surface, division pair and parameter range",
 "tests tessellate one square patch and never look at the triangles",
 ["src/face.rs", "src/mesh.rs", "src/surface.rs", "src/utils.rs"], [("SurfacePatch::get_triangle_mesh / get_point_grid", "src/face.rs"), ("create_triangles", "src/mesh.rs")],
 STD, "The triangle list is decided combinatorially (cell cover and edge cancellation), points and normals by the independent surface oracle." + TRUST)

prop("C12", "Trimmed plane faces are triangulated exactly",
 "The mesh of a plane face bounded by a counter-clockwise outer loop and clockwise hole loops covers exactly the region inside the outer loop and outside the holes: triangles have counter-clockwise orientation seen along the normal, do not overlap, and their total boundary is the loops. It holds for convex and concave loops, collinear or repeated boundary points, any starting vertex, any number of holes, bridges and seams that the loop runs there and back, and any plane frame; every index is valid and a face without loops gives an empty mesh.",
 ["inputs"], "every simple polygon with holes, every starting vertex, every plane frame",
 "no test triangulates a polygon; ear clipping and hole bridging fail on special positions only",
 ["src/surface/plane.rs", "src/utils/polygon.rs", "src/surface.rs"], [("Plane::trim", "src/surface/plane.rs"), ("trianglate_polygon / merge_polygons / compute_vertex_convexity / find_concave_vertices", "src/utils/polygon.rs"), ("EdgeLoop::to_polygon", "src/surface.rs")],
 STD, "All simple lattice polygons of the stated grids and sizes (every start vertex), hole placements and larger structured families; exact coverage decided by the signed boundary chain of the triangles." + TRUST)

prop("C13", "Advancing-front meshing and trimmed curved faces",
 "Meshing a region bounded by a counter-clockwise loop, with or without clockwise hole loops, also if loops touch themselves or each other (at seams, bridges or single points), with the advancing front terminates, keeps the boundary points unchanged and first, uses only valid indices, and produces consistently oriented, non-overlapping triangles whose total boundary is the loops. A face trimmed from a cylinder or B-spline surface is such a mesh lifted to the surface: every vertex lies on the surface, the boundary vertices are the loops' points, its triangles follow the direction of the outer loop, and the mesh covers the face once, for loops of either direction, started at any edge and listed in any order, full cylinders with or without a seam edge included. Loops without extent are meshed to an end as well.",
 ["inputs"], "every boundary polygon, every cylinder or spline face",
 "one polygon is meshed in the tests and only saved, never checked",
 ["src/utils/meshgen.rs", "src/surface/cylinder.rs", "src/surface/bspline.rs"], [("generate_triangular_mesh", "src/utils/meshgen.rs"), ("Cylinder::trim", "src/surface/cylinder.rs"), ("BSplineSurface::trim", "src/surface/bspline.rs")],
 STD, "All polygons of the stated families; non-termination is caught by a CPU and memory guard." + TRUST)

prop("C14", "OBJ export represents the model completely",
 "Saving a mesh or model as OBJ writes, in order, every vertex and normal of every face with coordinates that parse back to the same values, and one 3-vertex face per triangle whose 1-based indices refer to that triangle's own vertices (and normals, if the mesh has them) in the combined file. This holds for any number and mix of faces with and without normals, including empty ones. A bound saved as OBJ is its vertices in order and a closed chain of lines through them.",
 ["inputs"], "every list of meshes, with or without normals, every coordinate value",
 "the tests save meshes but never read the files back; index offsets only matter with several faces",
 ["src/mesh.rs", "src/model.rs"], [("TriangleMesh::write_obj / save_as_obj", "src/mesh.rs"), ("Model::save_as_obj", "src/model.rs"), ("save_bound_as_obj", "src/surface/bspline.rs")],
 STD, "The written file is parsed by an independent reader and compared with the model." + TRUST)

prop("C15", "STL export is a well-formed binary file with every triangle",
 "Saving a model as STL writes an 80-byte header, the number of triangles, and one 50-byte record per triangle of every face in order, with the three vertices in the triangle's order rounded to single precision. The file has exactly 84 + 50 n bytes for any number of faces and triangles and any file name, and replaces whatever was there.",
 ["inputs"], "every list of meshes, every file name",
 "no test writes an STL file",
 ["src/model.rs"], [("Model::save_as_stl", "src/model.rs")],
 STD, "The written file is parsed by an independent reader and compared with the model." + TRUST)

prop("C16", "SVG export draws every curve segment",
 "Saving a model's curves as SVG writes one path per curve, in order, in a document of the requested size with y upwards from its lower edge, and each segment is drawn over its own parameter range: lines as their two end points, other curves as a chain (or exact cubic pieces) that starts and ends at the segment's end points and follows it within tolerance, to two decimals. Every segment of a multi-segment curve is drawn, in order.",
 ["inputs"], "every sequence of curve segments of every kind with every parameter range",
 "no test writes an SVG file",
 ["src/model.rs", "src/curve.rs"], [("Model::save_as_svg", "src/model.rs")],
 STD, "The written path data is parsed by an independent reader and compared with the model's curves." + TRUST)

prop("C17", "Point files round-trip",
 "Points saved to a point cloud file and loaded again are the same points bit for bit, in order, for all finite coordinates. Loading accepts three numbers per line, or an index and three numbers, separated by any mix of spaces, tabs and commas, skips comment and other lines, and reports malformed numbers as an error instead of panicking; scaling and the other point writers write one line per point with values that parse back exactly.",
 ["inputs"], "every list of points, every text layout of the accepted format",
 "one save is done in a test, the file is never loaded",
 ["src/points.rs"], [("load_point_cloud / save_point_cloud / save_point_cloud_with_normal / save_points / scale_points", "src/points.rs")],
 STD, "Every combination of separators, line kinds, line endings and extreme values within bounds." + TRUST)

prop("C18", "I/O failures are never reported as success",
 "If any file operation during a save or load fails or is only partly carried out (an error, a short write or read, an interrupted call), the library either completes the operation with the correct full content or returns an error: it never reports success for a file whose content is incomplete, and never panics. The same holds for a file that cannot be created, read or replaced.",
 ["fault_sequences"], "every system call of every save and load function x {error, full disk, short by any of the enumerated amounts, interrupted}, alone and from that point on",
 "tests run on a healthy disk; short writes and failing flushes cannot be produced there",
 ["src/points.rs", "src/mesh.rs", "src/model.rs", "src/surface/bspline.rs"], [("save_* / load_point_cloud / write_obj", "src/points.rs, src/mesh.rs, src/model.rs")],
 "exhaustive fault enumeration: the system-call boundary is owned by the explorer, which fails or shortens every call of every operation",
 "The harness defines write/read/lseek/open itself and answers each call as the explorer decides; the file left behind is compared with the fault-free one." + TRUST)

prop("C19", "STEP import reconstructs the described geometry",
 "Reading a syntactically valid STEP file yields, in file order, one face per advanced face of a supported surface (plane, cylinder, Bezier and B-spline surfaces with or without knots and weights, surface of revolution) and one curve per composite curve (of trimmed lines, circles, polylines and B-splines), with the placement, radius, control points, knots, multiplicities, degrees and weights written in the file. Every face carries all its loops with edges in file order, each trimmed to run from its start to its end vertex along the curve as the senses and orientations say, so that consecutive edges connect: edges of closed curves run the whole way round, and trims may be given by parameter, by point or by both. The result does not depend on hash iteration order, and unsupported entities are left out without affecting the rest.",
 ["inputs", "configurations"], "every file built from the supported entities, every hash seed",
 "no STEP file is in the repository; nothing of the reader is tested",
 ["src/model/step_reader.rs", "src/curve/circle.rs"], [("ModelReader::read_model, extract_*", "src/model/step_reader.rs")],
 STD + "; hash seeds enumerated", "STEP files are generated from an abstract model; the imported model is compared with that abstract model. The STEP parser crate is trusted." + TRUST)

prop("C20", "B-spline surface point inversion",
 "Projecting points that lie on a B-spline surface returns, for each and in order, parameters inside the surface's domain whose surface point is that point (within a small tolerance), for any degrees, knots (uneven and repeated ones included) and net without steep folds (edges that are a single point and speeds that fall to zero at an edge included), whatever the other points in the list. For a point close to a smooth surface the result is the nearest surface point, also beyond its edges and corners; for any other point it is a parameter pair in range whose surface point is not much farther than the nearest one.",
 ["inputs"], "every B-spline surface and every list of query points",
 "no test projects to a surface",
 ["src/surface/bspline.rs", "src/utils.rs"], [("BSplineSurface::project_points", "src/surface/bspline.rs")],
 STD, "All surfaces and query points of the stated finite families." + TRUST)

prop("C21", "Geometric utility functions",
 "The utilities agree with their mathematical definition for every input: distances to a segment in 2D and 3D, point in triangle, nearest point in a list or grid (the first one among equals), uniform division (exact ends, equal steps, given count, both directions), interpolation, clamping to a range given in either order, minimum and maximum by key, reciprocal or zero, polygon winding and vertex convexity. None panics on degenerate input such as zero-length segments or equal points.",
 ["inputs"], "every point configuration and range, including degenerate ones",
 "tests print two results without asserting them",
 ["src/utils.rs", "src/utils/point.rs", "src/utils/polygon.rs"], [("distance_to_line_segment, is_inside_triangle, find_nearest_point(_in_grid), uniform_divide, clamp_in_range, is_polygon_counter_clockwise, compute_vertex_convexity", "src/utils.rs, src/utils/*.rs")],
 STD, "All configurations of points on small lattices, compared with exact integer geometry." + TRUST)

prop("C22", "Boxed curves and surfaces behave like the value inside",
 "A boxed curve or surface answers every operation (evaluation, projection, range refinement, normals, trimming, tessellation, sampling, use as a section or path, export) exactly as the unboxed value does. Converting back to the concrete type yields the same value.",
 ["inputs", "configurations"], "every curve and surface type and every operation of the interface",
 "tests never compare a boxed value with a plain one",
 ["src/curve.rs", "src/surface.rs"], [("impl Curve for Box<dyn Curve>", "src/curve.rs"), ("impl Surface for Box<dyn Surface>", "src/surface.rs")],
 STD, "Every curve/surface kind x every trait operation, boxed result compared with plain result." + TRUST)

prop("C23", "Saving and meshing have no effects beyond the named file",
 "After any history of saves the content of a file depends only on the last save to it: nothing of earlier, longer contents survives, and saving the same meshes, points, lines, polylines and cubic splines again gives an identical file. Computing meshes, trimming, projecting and sampling touch no file at all, and a save touches only the file it was given.",
 ["histories"], "every sequence of save, load and meshing operations over a set of models, formats and file names",
 "tests save each file once",
 ["src/model.rs", "src/mesh.rs", "src/points.rs", "src/surface/bspline.rs"], [("File::create in every save function", "src/model.rs, src/mesh.rs, src/points.rs")],
 HIST, "All histories up to the stated depth in a scratch directory whose complete content is compared with a reference model after every step." + TRUST)

prop("C24", "Edge loops become closed polygons along their edges",
 "The polygon of an edge loop has the start of every edge as a vertex, in loop order, and between two of them only points of that edge, in its direction of travel (also for decreasing ranges, inner ranges and closed edges); convex edges are followed within their tolerance and straight edges are not cut. Neither joints, null edges, small gaps nor the closing point give a vertex twice, a loop without extent gives at most one vertex, and the number of vertices is finite for every sequence of random numbers drawn.",
 ["inputs", "schedules"], "every loop of edges of any kind, direction and number of pieces, and every sequence of random draws",
 "no test converts a loop; a missing joint, a doubled closing point or a reversed edge shows only for particular combinations of neighbouring edges",
 ["src/surface.rs", "src/curve.rs", "src/utils.rs"], [("EdgeLoop::to_polygon", "src/surface.rs"), ("CurveSegment::get_points", "src/curve.rs"), ("parameter_division", "src/utils.rs")],
 "exhaustive exploration with a controlled random number generator (every sequence of draws over 5 extreme values up to depth k, every constant continuation)",
 "Every assignment of 13 edge kinds to the edges of small loops, null edges and gaps at every joint, closed curves in 1 to 4 pieces." + TRUST)
