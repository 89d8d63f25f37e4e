"""id -> (what is enumerated, against what oracle)."""
import json, os
EXACT = "exact int64 determinants in the harness"
PTS2 = "every subset of 3x3 and 4x4 grids in several orders and placements (scales, offsets, heights), every ordered tuple (repetitions included) of grid points, small-grid subsets under rotated, inexactly scaled and one-ulp-perturbed placements, and families (lattice rules, grids, circles, clusters, lines, parabolas, spirals) of up to some thousand points"
PTS3 = "every subset of 2x2x2 and 3x2x2 grids in several orders and exact placements (2^-1000 to 2^300, offsets), generic sets inexactly placed, every 4-set (thorough: 5- and 6-set) of the 3x3x3 grid, every ordered tuple of 2x2x2 points, families (lattice rules, grids, spheres, coplanar, collinear, clusters, moment curves)"
KNOTS = "every knot vector with gaps {0,1,3} up to 9 (thorough 11) gaps, degrees 0-3 (4), clamped or not; every parameter at, next to and between knots and outside; long families, degrees to 13, thousands of control points, knots to 2^52"
TES = "every sector and stack count to 14 (thorough 40) and a list to 300 (discs to 70000), four centres (one far away), four to eight sizes (spindle tori among them), and the exported constructors"
E = {
'P01': ("every 5-tuple of the unit cube and of the 3-grid in seven exact placements from 2^-150 to 2^150", EXACT + ", cross-checked with centre and radius of the sphere"),
'P02': ("every cospherical or coplanar base, scale, offset and ulp perturbation of one (thorough: two) coordinates; points of a plane, sphere or box at very different distances on axes of different scales (thorough: one coordinate moved by an ulp); degenerate points with one zero coordinate replaced by every power of two down to 2^-480", "exact rational determinant of the very floats; the robust in-sphere and orientation tests must have exactly its sign"),
'P03': ("every 4-tuple of 2- and 3-grids in several exact placements", EXACT),
'P04': ("every 5-tuple of a planar grid in 10 placements; collinear, concyclic and equidistant points at very different distances, one coordinate moved by an ulp; degenerate points with one zero coordinate replaced by every power of two down to 2^-480", "exact integer arithmetic on the very floats"),
'R01': ("every pair over a coordinate set, every operation in both forms; linear operations and lengths of differences on coordinates of many digits; every sequence of operations on two live vectors to depth 4 (6)", "an integer model run in lockstep"),
'R02': ("every direction over a coordinate set at magnitudes from denormal to 1e300, zero included; lengths from 1e-14 to 1e6 off one", "definition (finite, parallel, unit)"),
'R03': ("every integer line and plane in the bounds with every direction and normal scale", "exact rational intersection"),
'R04': ("every listed unit normal, plane origin and point", "exact component along the normal"),
'R05': ("every pair of vectors over a set, every parameter; both ends for coordinates of any digits and magnitudes", "exact linear blend, exact ends"),
'R06': ("every triple of grid points and every pair of vectors of a grid, at several scales", "exact integer cross product"),
'G01': (TES, "index ranges and counts"), 'G02': (TES, "implicit equation of the surface, count of distinct vertices, angles"),
'G03': (TES, "edge matching after welding, Euler characteristic, orientation, enclosed volume / winding"),
'G04': (TES, "gradient of the implicit equation; fraction of the way round"),
'N01': (KNOTS, "linear search for the nonempty span; step budget for termination"), 'N02': (KNOTS, "Cox-de Boor recursion"),
'N03': (KNOTS + "; unit control points (which by linearity decide all) and a generic polygon", "sum over the recursive basis"),
'N04': (KNOTS + " (integer parameters)", "differentiated recursion"),
'X01': ("meshes of many sizes (255..257, 65535..65537 ...), triangle (also degenerate) and coordinate patterns; every shape; every history of exports (also failing ones) into two files to depth 3 (5), one of which may hold something nearly the same before", "independent GLB reader written from the format's specification"),
'X02': ("the write fails after k bytes for every k (RLIMIT_FSIZE in the worker), on new and existing files; every listed bad path; every vertex coordinate unrepresentable", "returned normally implies the file holds the mesh"),
'T01': (PTS2, "exact areas, edge multiplicities and hull"), 'T02': (PTS2, "exact in-circle determinant against all points (large sets: across every edge, which implies it)"),
'T03': (PTS2, "edge matching; boundary cycle against the exact hull"), 'T04': (PTS2, "own exact hull"),
'T05': ("every ordered tuple of grid points that are collinear or fewer than three, collinear families to 79 points", "error or empty result"),
'T06': (PTS2 + "; every single corruption (link, corner, triangle with or without links, ear, hull vertex, hull turned around or listed twice) of every small triangulation, in every placement", "accepts iff uncorrupted"),
'T07': ("every triple and quadruple of grid points in several placements, every polygon of up to five grid points", "exact integer and rational geometry"),
'M01': (PTS3 + "; points numbered so that many pairs of facets have easily confused numbers (hash or key collisions)", "exact search for an empty sphere through each face (interval of centres)"),
'M02': (PTS3, "every tetrahedron of the points with an exactly empty sphere"),
'M03': ("every map order within a deviation bound, all orders for a single point, four order policies for larger sets; every permutation of generic sets", "equality of the sets of triangles"),
'M04': (PTS3 + ", in seven placements and stretched", "exact rational containment"),
'M05': ("every nondegenerate tetrahedron of 2- and 3-grids with every query on a larger grid, and the middles of faces and edges", EXACT),
'M06': ("every choice of arguments over small grids; nearest points that are nearer by a few ulps", "definitions, in integers"),
'Q01': (PTS3 + ", in seven placements, stretched and mirrored", "exact rational containment, exact bounds"),
'Q02': (PTS3 + ", in six placements", "exact areas and volumes"),
'S01': ("every file of up to 2 (3) instances over alphabets of identifiers, types and nested arguments; files of up to 5000 instances or one instance of up to a million bytes", "the abstract instances the text was rendered from"),
'S02': ("every placement of blanks, tabs, line breaks, comments at every token boundary within one (two, three) deviations; six headers and endings", "the same table"),
'S03': ("every string up to length 4 (5) over an alphabet of the meaningful bytes, at several positions", "byte equality"),
'S04': ("every nested list within size and depth; lists nested up to 260 deep or 1025 elements long", "the tree it was rendered from"),
'S05': ("every prefix and every damage at a single byte of several files; every kind of unreadable path (as an unprivileged user: also permissions)", "complete instances of the prefix; step budget"),
'S06': ("every table of 2-3 (4) definitions over 21 kinds with every combination of references, and every order of walking its map; tables of up to 3000 definitions with long and similar identifiers in four orders", "multiset of faces and surfaces reported"),
'S07': ("every combination of degrees, grid sizes, flags, list lengths (empty and unequal ones too) and layouts; grids and lists up to 301 long; up to three surfaces in one file", "the values the text was rendered from"),
'S08': ("every kind of referring definition under several namings", "the attributes of the standard"),
'C01': ("every pair of 35 operations x every preemption point (one preemption for all, two for operations up to 60 (420) statements, three up to 60 in thorough), and every pair of calls of one part on many inputs; for data races every pair in a fresh process of a -race build, the second call made at 2 (16) evenly spread steps of the first", "each call's result alone in a fresh process; arguments bit-identical; no report of the race detector (the hand-over between the two threads is invisible to it)"),
'C02': ("every sequence of 3 (4) of 35 operations; every two (three) calls of one part on many inputs, in separate and in the same memory, whose results are then scribbled over before the calls are repeated; every five calls of one part on two or three large inputs and a small one", "each call's result as the first call of a fresh process; arguments, open files, goroutines, flags; the digest of every earlier result after every later call"),
}
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(root + '/tools/costs.json')) if os.path.exists(root + '/tools/costs.json') else {}
PLAN = {k: (v[0], v[1], C.get(k, 'seconds / minutes')) for k, v in E.items()}
