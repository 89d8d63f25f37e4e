#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run in /verif)."""
import json, sys

P = []

def prop(id, title, statement, over, text, tests, files, mech, level_note, observe=(), technique=None, level="model_checking", thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                  level_note=level_note, observe=list(observe), technique=technique, level=level))

EXH = "exhaustive stateless exploration of the real code within the bounds"

# ---------------------------------------------------------------- predicates
prop("P01", "The in-sphere test has the sign of the exact determinant",
     "For five points whose determinant is exactly representable, the in-sphere test is positive when the fifth point is strictly inside the sphere through the first four and these are positively oriented, negative when it is outside, and zero when it is on the sphere; for negatively oriented points the sign is reversed, and it is reversed again by swapping any two of the first four.",
     ["inputs"], "every placement of the five points", "No test calls the predicates except through one 8-point triangulation whose result is not checked.",
     ["predicates/insphere.go"], [("InSphereFast / inSphere", "predicates/insphere.go")],
     "Every 5-tuple of a small grid in several exact placements; trusts the int64 determinant in the harness.", ["return value"])
prop("P02", "The robust in-sphere and orientation tests have the exact sign",
     "For any finite coordinates clear of overflow and underflow, the robust forms of the in-sphere and of the orientation test return a value with exactly the sign of the determinant of the given coordinates, however close to zero it is: positive, negative, or zero.",
     ["inputs"], "every set of coordinates, in particular nearly cospherical ones", "Untested: near-degenerate inputs a few ulps off a sphere are not something a test samples.",
     ["predicates/insphere.go", "predicates/util.go"], [("inSphere: error bound on the permanent, exact fallback", "predicates/insphere.go"), ("InSphere, Orient3D", "predicates/exact.go"), ("epsilon", "predicates/util.go")],
     "Every listed degenerate base, scale (per axis), offset, and every ulp perturbation of up to two coordinates, judged by exact rational arithmetic.", ["return value"])
prop("P03", "The orientation test has the sign of the exact determinant",
     "For four points whose determinant is exactly representable, the orientation test is zero exactly when they are coplanar and otherwise has a sign that depends only on the handedness of the tetrahedron, reversing under the swap of any two points.",
     ["inputs"], "every placement of the four points", "Untested.",
     ["predicates/orient3d.go"], [("orient3dfast", "predicates/orient3d.go")],
     "Every 4-tuple of a small grid in several exact placements.", ["return value"])

prop("P04", "The planar predicates have the exact sign",
     "For any finite coordinates clear of overflow and underflow, and whatever the third coordinates are, the planar orientation test, in-circle test, comparison of two points' distances from a third, and order of points by their distance from the centre of the circle through three points have exactly the sign for the given coordinates, zero exactly on ties; without a circle that order has all points equal. The order does not depend on which comparisons were made before, and the points are not modified.",
     ["inputs"], "every set of coordinates, in particular nearly collinear, concyclic and equidistant ones", "Untested; near-degenerate inputs are not something a test samples.",
     ["predicates/planar.go", "predicates/exact.go"], [("Orient2D, InCircle, CompareToPoint, CircleOrder", "predicates/planar.go"), ("differences: exact fallback", "predicates/exact.go")],
     "Every tuple of a small grid in several placements, every listed degenerate configuration and ulp perturbation of one coordinate, judged by exact integer arithmetic.", ["return value"])

# ---------------------------------------------------------------- r3
prop("R01", "Vector arithmetic is exact and does not modify its operands",
     "On coordinates where no rounding occurs, every vector operation (sum, difference, scaling, dot and cross product, absolute value, lengths and distances) returns the exact result; the in-place and the value forms agree, value forms leave their operands unchanged, and in-place forms change only their receiver, along any sequence of operations.",
     ["inputs", "histories"], "all vectors, all sequences of operations", "No passing test exercises the vector type directly.",
     ["r3/vector.go"], [("Add, Sub, Scale, Scaled, Dot, Cross, Abs, Norm, Distance", "r3/vector.go")],
     "All pairs over a coordinate set and all operation sequences to a depth, against an integer model executed in lockstep.", ["return values", "operands after the call"])
prop("R02", "Normalization gives a unit vector or zero, never NaN",
     "Normalizing any finite vector, by value or in place, yields only finite numbers; the zero vector stays zero, and any other vector whose squared length neither overflows nor underflows becomes a vector of the same direction that the unit-length test accepts, while that test rejects vectors whose squared length differs from one by more than rounding.",
     ["inputs"], "all finite vectors, including zero and extreme magnitudes", "No test normalizes anything.",
     ["r3/vector.go"], [("Normalize (value and in place)", "r3/vector.go"), ("IsUnit", "r3/vector.go")],
     "Every direction over a coordinate set at magnitudes over the whole float64 range.", ["return values"])
prop("R03", "Line and plane meet in their true intersection, or it panics",
     "The intersection of a line with a plane lies on both and does not depend on the length of the direction or of the normal (clear of overflow and underflow of their squares); when line and plane are parallel, or the direction or the normal is zero, the call panics instead of returning a point.",
     ["inputs"], "all lines and planes", "The one test has three examples and does not pass.",
     ["r3/line.go"], [("IntersectPlane", "r3/line.go")],
     "Every integer line and plane within the bounds, against exact rational intersections.", ["return value", "panic"])
prop("R04", "Point-plane distance is the true signed distance",
     "For a plane with unit normal through a given origin, the distance of a point is the component of the point's offset from that origin along the normal: zero exactly on the plane (up to rounding), positive on the normal's side, and reversed for the point's mirror image.",
     ["inputs"], "all planes and points", "Untested.",
     ["r3/vector.go", "r3/plane.go"], [("CalculateDistanceToPlane", "r3/vector.go"), ("newPlane", "r3/plane.go")],
     "Every listed normal with every grid origin and point.", ["return value"])
prop("R05", "Interpolation hits both ends and is linear between them",
     "Interpolating between two vectors returns the first at parameter 0, the second at 1, and the linear blend elsewhere (also outside the interval); the divisor form weights its receiver by the divisor, and neither modifies its operands.",
     ["inputs"], "all pairs of vectors and parameters", "Untested.",
     ["r3/vector.go"], [("Interpolate, GetInterpolationVector", "r3/vector.go")],
     "All pairs over a coordinate set and all parameters of a list, exact.", ["return value"])

prop("R06", "Triangle normals, difference vectors and planar determinants are exact",
     "On coordinates where no rounding occurs, the normal calculated for three points is the cross product of the edges from the first point to the second and third, so it is perpendicular to both and reverses when these are swapped; the vector between two points is their difference and the planar determinant of two vectors is the signed area of their parallelogram.",
     ["inputs"], "all triples of points", "Untested.",
     ["r3/plane.go", "r3/vector.go"], [("calculateNormal", "r3/plane.go"), ("createVector, det2D", "r3/vector.go")],
     "All triples of a small integer grid at several scales.", ["return value"])

# ---------------------------------------------------------------- shape
CNT = "every tessellation density (sector count 3 or more; stack count 2 or more, 3 for tori), centre and size"
SH = "Tests export four meshes to a file and check nothing about them."
prop("G01", "Shape meshes index only existing vertices",
     "Every mesh a shape constructs has a positive number of complete triangles, each with three different indices of existing vertices, and its normals and texture coordinates, where present, match the vertices one to one (spheres and tori have both).",
     ["inputs", "configurations"], CNT, SH, ["shape/sphere.go", "shape/torus.go", "shape/circle.go", "shape/ellipse.go", "shape/shape.go"],
     [("generateIndices", "shape/*.go")], "All counts up to a bound and a list of larger ones.", ["Mesh returned by Construct*"])
prop("G02", "Shape vertices lie on the requested surface",
     "Every vertex of a sphere, torus, circle or ellipse lies on the surface (for discs: on the rim, apart from the one centre vertex) with the requested centre and radii, and the vertices are spread over it at the requested density: the number of distinct vertices is the one the sector and stack counts call for, at equal angles.",
     ["inputs", "configurations"], CNT, SH, ["shape/sphere.go", "shape/torus.go", "shape/circle.go", "shape/ellipse.go", "shape/shape.go"],
     [("generateVertices", "shape/*.go")], "All counts up to a bound, several centres and radii; tolerance 1e-9 of the size.", ["Mesh returned by Construct*"])
prop("G03", "Sphere and torus meshes are closed; discs are covered once per side",
     "The triangles of a sphere or torus form a closed, consistently outward-oriented surface of the right topology that encloses the solid's volume up to the tessellation; those of a circle or ellipse cover the polygon of its rim exactly once facing up and once facing down.",
     ["inputs", "configurations"], CNT, SH, ["shape/sphere.go", "shape/torus.go", "shape/circle.go", "shape/ellipse.go", "shape/shape.go"],
     [("generateIndices", "shape/*.go")], "All counts up to a bound; edges are matched after welding coincident vertices.", ["Mesh returned by Construct*"])
prop("G04", "Normals are outward unit normals; texture coordinates parametrise",
     "Each normal of a sphere or torus is the outward unit normal of the surface at its vertex, whatever the centre and size, and each pair of texture coordinates lies in [0,1] and is the fraction of the way round (and from the top along the stacks) at which its vertex lies, with both edges of the seam present.",
     ["inputs", "configurations"], CNT, SH, ["shape/sphere.go", "shape/torus.go"],
     [("generateVertices", "shape/*.go")], "All counts up to a bound, several centres and radii.", ["Mesh returned by Construct*"])

# ---------------------------------------------------------------- nurbs
KN = "every degree, nondecreasing knot vector (clamped or not, with repeated knots), control polygon and parameter"
NT = "The one test evaluates one curve at one parameter and prints the result."
prop("N01", "The knot span search ends and finds the nonempty span of the parameter",
     "For every valid knot vector and every parameter, in, at the ends of and outside the curve's domain, the span search terminates and returns a nonempty span of the domain: the one that contains the parameter, or the first or last one for parameters before or after the domain (and at its end).",
     ["inputs"], KN, NT, ["nurbs/basis.go"], [("findSpan", "nurbs/basis.go")],
     "Every integer knot vector over gaps {0,1,3} up to a length, and families of high degree, thousands of knots or large knots; non-termination is a step budget.", ["return value"])
prop("N02", "The basis functions are the B-spline basis of their definition",
     "In every nonempty span, the nonvanishing basis functions are finite, nonnegative within the span, sum to one, and equal the recursive (Cox-de Boor) definition.",
     ["inputs"], KN, NT, ["nurbs/basis.go"], [("basisFuns", "nurbs/basis.go")],
     "As N01, against the recursive definition; tolerance 1e-9.", ["return value"])
prop("N03", "A curve point is the basis-weighted sum of the right control points",
     "For every parameter of its domain a curve's point is the sum of its control points weighted by their basis functions in all three coordinates; it therefore lies in the convex hull of the control points, interpolates the first and last point of a clamped curve, and evaluation modifies neither knots nor control points, nor the memory behind them.",
     ["inputs"], KN, NT, ["nurbs/curve.go", "nurbs/basis.go"], [("curvePoint", "nurbs/curve.go")],
     "As N01, with unit and generic control polygons; tolerance 1e-9.", ["return value", "arguments after the call"])
prop("N04", "Basis function derivatives follow their definition to every order",
     "At every parameter the interface can express inside a nonempty span, the derivatives of the nonvanishing basis functions equal, up to the requested order, those of the recursive definition; order zero gives the basis functions themselves and the derivatives of each order sum to zero.",
     ["inputs"], KN, "Untested.", ["nurbs/basis.go"], [("dersBasisFuns", "nurbs/basis.go")],
     "As N01 at integer parameters, against the recursive definition; relative tolerance 1e-9.", ["return value"])

# ---------------------------------------------------------------- glTF
prop("X01", "An exported file holds exactly the exported mesh",
     "Exporting a mesh writes a valid binary glTF 2.0 file whose one primitive, as an independent reader decodes it, has the mesh's vertices as positions (rounded to single precision) in order, with their true bounds, and the mesh's triangles in order, whatever the number of vertices. The mesh (with the memory behind its slices) is not modified, and the file depends on nothing but the mesh: not on earlier exports, nor on what the file held before.",
     ["inputs", "histories"], "every mesh size and content, every sequence of exports", "Tests export four meshes and look at none of the files.",
     ["glTF/export.go", "glTF/model.go"], [("Export", "glTF/export.go"), ("transferModel", "glTF/model.go")],
     "Mesh families around the 8- and 16-bit limits, all shapes, and every export history to a depth; trusts the harness's GLB reader.", ["bytes of the written file"])
prop("X02", "An export that fails is loud and never leaves a file that passes for whole",
     "When the file cannot be written completely (no permission, a missing or wrong path, space running out after any number of bytes) the export panics instead of returning, and a coordinate that single precision cannot represent does not go unnoticed either; what is left behind is no complete file of another mesh, and a later export of the same mesh succeeds.",
     ["fault_sequences", "crash_points"], "every byte at which writing can fail", "Tests write to a writable folder only.",
     ["glTF/export.go"], [("Export's error handling", "glTF/export.go")],
     "A file size limit after every byte of the file; the mesh sizes are a few representative ones.", ["panic", "file left behind"])

# ---------------------------------------------------------------- triangulate2
PS = "every finite point set, in every order, with duplicates, collinear and cocircular points, whatever their heights and scale, as long as the squares of their differences neither overflow nor vanish"
TT = "The tests triangulate a handful of random or fixed sets and check little; degenerate sets and orders are a combinatorial space."
TF = ["triangulate2/triangulator.go", "triangulate2/triangulation.go", "triangulate2/util.go", "triangulate2/hull.go", "triangulate2/node.go", "predicates/planar.go"]
TM = [("Triangulate", "triangulate2/triangulation.go"), ("sweep-hull insertion, legalize, hull hash", "triangulate2/triangulator.go")]
TN = "Every subset and ordered tuple of small grids, placed exactly and inexactly (rotated, tenths, thirds, one ulp apart) at many scales and offsets, and larger families up to some thousand points; judged by exact integer predicates on the very coordinates."
prop("T01", "A planar triangulation tiles the convex hull of the points",
     "Triangulating points that are not all collinear in the plane returns triangles of one orientation that do not overlap and together cover exactly the convex hull of the points' planar projection, each a nondegenerate triple of valid point indices. Every distinct point is used as a vertex (none lies strictly inside a triangle or an edge), and the caller's points are returned unmodified and in their order; memory behind the caller's slice is not touched.",
     ["inputs"], PS, TT, TF, TM, TN, ["Triangulation.Triangles, .Vectors"])
prop("T02", "A planar triangulation is Delaunay",
     "No point lies strictly inside the circumscribed circle of any triangle of a planar triangulation.",
     ["inputs"], PS, TT, TF, TM + [("inCircle", "triangulate2/util.go")], TN, ["Triangulation.Triangles"])
prop("T03", "Half-edges pair up shared edges and mark exactly the hull",
     "In every planar triangulation two half-edges that name each other as twins run along the same edge in opposite directions, every interior edge has its twin, and the half-edges without one form exactly the boundary of the convex hull, which the reported hull lists once around, counter-clockwise.",
     ["inputs"], PS, TT, TF, TM + [("link", "triangulate2/triangulator.go")], TN, ["Triangulation.Halfedges, .ConvexHull"])
prop("T04", "The convex hull is the minimal convex polygon around the points",
     "The convex hull of any list of points, in any order and with repetitions, lists exactly the input points on the boundary of the smallest convex polygon around their planar projection, each distinct one once, in counter-clockwise order. For collinear points it names only input points and both extremes, for a single point that point; the input and the memory behind it are not modified.",
     ["inputs"], PS, TT, ["triangulate2/hull.go", "predicates/planar.go"], [("ConvexHull", "triangulate2/hull.go"), ("cross2D", "triangulate2/hull.go")], TN, ["return value"])
prop("T05", "Points without a triangulation give an error, never a wrong result",
     "Triangulating no points, fewer than three distinct points, or points that are all exactly collinear in the plane returns an error (or an empty triangulation) and does not panic, hang, or return a triangle.",
     ["inputs"], "every such point list, in every order, with repetitions", "The tests have one or two such inputs.", TF, TM, "Every such ordered tuple of small grids and collinear families with duplicates.", ["return values"])
prop("T06", "Validation accepts every triangulation and rejects every corrupted one",
     "Validating a triangulation as returned reports no error, and validating one in which a half-edge link, a triangle's corner, a whole triangle or a hull vertex (or several, consistently) has been altered so that the links are inconsistent or the area or outline no longer adds up (a triangle removed with its links, an ear with its hull vertex, the hull turned around, or replaced by one listing vertices twice) reports an error.",
     ["inputs"], PS + "; every single corruption", TT, ["triangulate2/triangulation.go", "triangulate2/util.go"], [("Validate", "triangulate2/triangulation.go"), ("polygonArea, area", "triangulate2/util.go")],
     "Accepts: as T01. Rejects: every single corruption of every triangulation of small sets.", ["error of Validate"])

prop("T07", "Planar measures: areas, circles, perimeters and pseudo-angles",
     "The measures behind the planar triangulation agree with geometry at every scale and height: the triangle measure is twice the signed area (positive for clockwise corners); for clockwise corners the in-circle test is true exactly for points strictly inside the circle through them, for counter-clockwise ones exactly for points strictly outside, however little; the squared circumradius is infinite for collinear or coinciding corners and otherwise, like the circumcenter, that of the circle; a polygon's area is signed (positive counter-clockwise) and its perimeter the sum of its edges, neither modifying it; the pseudo-angle depends on the direction only, lies in [0,1) and grows strictly from the negative x axis counter-clockwise.",
     ["inputs"], "all triples, quadruples, polygons and directions of the plane", "Untested.",
     ["triangulate2/util.go", "predicates/planar.go"], [("area, inCircle, circumradius, circumcenter, polygonArea, polygonPerimeter, pseudoAngle", "triangulate2/util.go")],
     "All choices over small grids in several exact placements, in-circle tests also within ulps of cocircular; measures judged to a relative 1e-9, signs exactly.", ["return values"])

# ---------------------------------------------------------------- meshing
MS = "every set of points, in every order, with coplanar, cospherical and repeated points"
MT = "One test triangulates 8 points without checking the result."
MF = ["meshing/mesh.go", "meshing/util.go", "predicates/insphere.go", "predicates/exact.go"]
MM = [("bowyerWatson, addPoint", "meshing/mesh.go"), ("circumsphereContains", "meshing/mesh.go")]
MN = "Every subset and tuple of small 3-D grids, exactly and inexactly placed, and larger families up to 64 points, judged by exact predicates."
prop("M01", "Tetrahedralisation faces are valid, listed twice, and locally Delaunay",
     "Every triangle that the 3-D triangulation returns is a nondegenerate triple of valid indices into the caller's points, appears exactly twice (once for each side), and has a circumscribing sphere with no point strictly inside; the call terminates and leaves the points, and the memory behind them, unmodified.",
     ["inputs"], MS, MT, MF, MM, MN, ["returned indices"])
prop("M02", "No face of the Delaunay tetrahedralisation near the points is missing",
     "Every face of every tetrahedron of the points whose circumscribed sphere contains no other point, inside or on it, and stays within the points' bounding box enlarged by its longest side in each direction, is among the returned triangles.",
     ["inputs"], MS, MT, MF + ["meshing/helper.go"], MM + [("englobe", "meshing/mesh.go")], MN, ["returned indices"])
prop("M03", "Tetrahedralisation does not depend on map order or point order",
     "The same points give the same set of triangles on every run, although the algorithm walks maps whose order is random; and for points of which no five are cospherical and no four coplanar, permuting the points gives the same triangles of the same points.",
     ["schedules", "inputs"], "every order in which the maps can be walked, every order of the points", MT, MF, MM, "Every map order within a deviation bound for small sets (all orders for one point), fixed order policies for larger ones; every point order.", ["returned indices"])
prop("M04", "The initial tetrahedron strictly encloses all points and keeps them",
     "The tetrahedron from which the 3-D triangulation starts is nondegenerate and has every input point strictly inside, also when the points coincide, are collinear or coplanar, or are far from the origin or widely spread; the input points keep their coordinates and order after the four new ones, and memory behind the caller's slice is not touched.",
     ["inputs"], MS + ", at every scale", MT, ["meshing/mesh.go", "meshing/helper.go"], [("englobe", "meshing/mesh.go")], "Exact rational containment over grid tuples, subsets and families, in several placements and stretched.", ["vertices after the call"])
prop("M05", "Point-in-tetrahedron tests agree with exact geometry",
     "Both packages' point-in-tetrahedron tests accept exactly the points inside or on the boundary of a nondegenerate tetrahedron, for either orientation and independently of the order of its corners. The same-side test is true exactly for the points on the plane or on the same side of it as the reference point, which is off the plane.",
     ["inputs"], "every tetrahedron and point", "The test has a few points.", ["meshing/util.go", "triangulate3/util.go"], [("vectorInTetrahedron, sameSide", "meshing/util.go"), ("VectorInTetrahedron, SameSide", "triangulate3/util.go")],
     "Every nondegenerate tetrahedron of the 3x3x3 grid with every query of a larger grid.", ["return value"])
prop("M06", "Mesh helpers: splitting, reversal, nearest point, extremes, centroid, distances",
     "Splitting a tetrahedron at a new point keeps its corners, appends the point, and lists the faces of the four resulting tetrahedra once for each side; duplicating in reverse keeps the indices and appends the same triangles turned over. The nearest point is one of the given points at minimal distance, the extremes of points are their exact smallest and largest coordinates, and the centroid of a tetrahedron is the mean of its corners. The point-line measure is the squared area of the parallelogram the three points span and the point-plane measure, in size, the volume of the parallelepiped the four points span.",
     ["inputs"], "every choice of points and indices", "The test has one example.", ["meshing/helper.go", "meshing/util.go", "meshing/flip.go", "triangulate3/util.go"],
     [("getNearestPoint", "meshing/helper.go"), ("findCentroid, duplicateInReverse", "meshing/util.go"), ("Get2Ddist, Get3Ddist", "triangulate3/util.go")], "Every choice over small grids.", ["return values"])

# ---------------------------------------------------------------- triangulate3
prop("Q01", "The englobing tetrahedron contains the points; bounding boxes are exact",
     "The bounding box of a nonempty list of points is exactly their smallest and largest coordinates, at every magnitude a float64 has, and the englobing tetrahedron built from it contains every point, at every scale whose squares do not overflow; the caller's points and the memory behind them are not modified.",
     ["inputs"], "every list of points, at every scale", "The package has no test.", ["triangulate3/englober.go"], [("constructEnglobingTetra, computeBoundingBoxForVectors", "triangulate3/englober.go")],
     "Exact rational containment over grid tuples, subsets and families, in several placements, stretched and mirrored.", ["mesh vertices"])
prop("Q02", "The initial tetrahedron is made of extreme input points",
     "The initial tetrahedron of the incremental 3-D triangulation consists of four input points: two that are extreme along the x axis, the one furthest from the line through these, and the one furthest (on either side) from the plane of those three; it is not flat unless all points are coplanar (or the extremes coincide); the points are not modified.",
     ["inputs"], "every list of points in every order", "The package has no test.", ["triangulate3/gdel3d.go", "triangulate3/util.go"], [("createInitialTetra", "triangulate3/gdel3d.go")],
     "Every subset and tuple of small grids, families, in several placements.", ["returned points"])

# ---------------------------------------------------------------- step
FI = "every STEP file (ISO 10303-21 syntax)"
ST = "Three sample files are lexed and the result printed, never compared."
SF = ["step/lex.go", "step/util.go"]
prop("S01", "The symbol table holds every instance of the file, and nothing else",
     "Reading a STEP file yields a table with exactly the identifiers the data section defines, each with its type name and its arguments in order and as text; of several definitions of one identifier the last counts. This holds whatever the number of instances, the number of arguments and the length of a line.",
     ["inputs"], FI, ST, SF, [("Lex, tokenize", "step/lex.go"), ("getArguments", "step/util.go")], "Every small file over an alphabet of identifiers, types and arguments, and large files.", ["SymbolTable"])
prop("S02", "Layout carries no meaning",
     "Blanks, tabs, line breaks and comments between the tokens of a STEP file, the header section, empty statements and what follows the data section change nothing about the symbol table; in particular a statement may span lines and a line may hold several statements.",
     ["inputs"], "every placement of layout in every file", ST, SF, [("splitStatements", "step/lex.go")], "Every placement within a deviation bound at every token boundary of several files.", ["SymbolTable"])
prop("S03", "Strings are opaque and kept byte for byte",
     "A string argument is kept exactly, whatever it contains: blanks, commas, brackets, semicolons, equal and number signs, comment openers, doubled quotes or non-ASCII bytes do not split it, end its instance, or change.",
     ["inputs"], "every string, at every argument position", ST, SF, [("splitStatements", "step/lex.go"), ("splitList", "step/util.go")], "Every string up to a length over an alphabet of the meaningful bytes, at several positions.", ["SymbolTable"])
prop("S04", "Nested lists are split at their top level only",
     "An argument that is a list, however deeply nested, empty or long, is kept as one argument; splitting a list or a list of lists into its elements returns the elements in order, without their outer brackets and surrounding blanks.",
     ["inputs"], "every nested list", ST, SF, [("getArguments, getArray, getMatrix", "step/util.go")], "Every nested list within a size and depth.", ["SymbolTable", "lists"])
prop("S05", "Truncated, damaged or unreadable files never hang or corrupt the rest",
     "Reading a file cut off at any byte terminates and yields only instances that were complete before the cut, each with its full definition, or panics; a missing or unreadable file panics; and damage at a single byte never makes reading hang, nor changes what was read of the instances that were complete before it.",
     ["crash_points", "fault_sequences"], "every cut and every damaged byte of every file", ST, SF, [("Lex", "step/lex.go")], "Every prefix and every single-byte damage of several files, every kind of unreadable path.", ["SymbolTable", "panic"])
prop("S06", "Parsing ends and handles every face and surface exactly once",
     "Parsing a symbol table terminates whatever references its definitions make (shared, circular or dangling), does not modify the table, and reports every face and every spherical, toroidal and spline surface of it exactly once, in whatever order the table is walked and whatever refers to it.",
     ["inputs", "schedules"], "every reference graph and every order of walking the table", ST, ["step/parse.go", "step/bridge.go", "step/template.go"], [("Parse, runInferenceModel", "step/parse.go"), ("visited", "step/parse.go")],
     "Every table of 2 to 4 definitions with every combination of references and every map order.", ["printed report"])
prop("S07", "Spline surface attributes are decoded from the right arguments",
     "For every spline surface definition the reported degrees, rows of control points, closed and self-intersection flags, multiplicities and knots are those of the definition: each from its own argument, in order, whatever the sizes of the grid and the lists and the layout inside them.",
     ["inputs"], "every spline surface definition", ST, ["step/template.go", "step/job.go", "step/util.go"], [("bSplineSurfaceWithKnots", "step/template.go"), ("getMatrix, getLogical", "step/util.go")],
     "Every combination of degrees, grid sizes, flags and list lengths within bounds.", ["printed report"])
prop("S08", "A definition's references lead to the definitions they name",
     "Handling a face, placement, product definition, vertex loop or other definition that refers to further ones visits exactly the definitions that it names, in the attributes the standard gives them, and nothing else.",
     ["inputs"], "every kind of definition and every naming", ST, ["step/template.go", "step/bridge.go"], [("face, axis2Placement3D, productDefinition...", "step/template.go")],
     "Every kind of definition under several namings.", ["definitions visited"])

# ---------------------------------------------------------------- across
prop("C01", "Concurrent calls do not disturb each other or their arguments",
     "Two calls of the library made at the same time, on separate or shared arguments, each give the result they give alone, and leave shared arguments unmodified, wherever one is preempted in favour of the other; and they never access the same memory without synchronisation with at least one of them writing it (no data race).",
     ["schedules"], "every interleaving of two calls", "No test makes two calls at the same time.", ["meshing/mesh.go", "triangulate2/triangulator.go", "step/parse.go", "shape/shape.go", "glTF/export.go", "nurbs/basis.go"],
     [("package-level state", "all packages")], "Every pair of 35 operations with every placement of up to one preemption (two and three for shorter operations) at statement granularity; data races by the race detector on every pair, under a few placements of the second call.", ["return values", "arguments", "race reports"])
prop("C02", "A call's outcome does not depend on the calls before it",
     "Whatever calls were made before in the process, successful or failed, a call has the outcome it has as the first call of a process, whatever the caller has done with the results it got; results a call returned are not changed by later calls; and calls leave no open file or goroutine behind and do not touch the program's flags or arguments.",
     ["histories"], "every sequence of calls", "Each test makes one or two calls.", ["meshing/mesh.go", "triangulate2/triangulator.go", "step/lex.go", "shape/shape.go", "glTF/export.go", "r3/vector.go"],
     [("package-level state", "all packages")], "Every sequence of 3 (thorough: 4) of 35 operations.", ["return values", "process state"])
