import json
P=[]
def add(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
add("C01","Clipping a 3D polyhedron always leaves a closed, consistently linked one",
 "Whatever closed polyhedron (convex, nonconvex, or with several components) is clipped by whatever planes, and whichever of its vertices lie in front of, behind or exactly on a plane, the operation terminates and the result is either empty or again a closed polyhedron: every vertex has three valid, distinct, reciprocal edges, its faces close up, and every vertex has a well-defined position inside the kept half-spaces. A convex input gives a single convex-type body whose graph is accepted by the library's own validity check.",
 ["inputs"],"every assignment of vertices to the front, back and surface of the plane, for every plane and every sequence of planes",
 "The tests clip random tetrahedra whose vertices are never exactly on a plane; the number of sign patterns (and of zero distances) grows exponentially and relinking errors appear only for particular patterns.",
 ["src/r3d.c","src/r3d.h"],[("half-space clipping: vertex insertion, face walk, compression","src/r3d.c: r3d_clip"),("graph validity check","src/r3d.c: r3d_is_good")],
 ["r3d_poly.verts[].pnbrs","r3d_poly.nverts"],["polyhedron buffer after r3d_clip returns"])
add("C02","3D clipping computes exactly the intersection with the half-spaces",
 "For every polyhedron and every list of planes (unit-length or scaled normals, given in any order), the clipped polyhedron is, up to relabelling of vertices, the set of points of the input with non-negative signed distance to every plane: its volume and moments equal those of the true intersection, nothing that should be kept is lost, and a polyhedron lying wholly on the non-negative side is left unchanged while one with no point strictly inside becomes empty.",
 ["inputs"],"all plane coefficients (any normal, any offset) and all vertex coordinates of the polyhedron shapes considered, sequences of one or more planes",
 "Unit tests compare volumes for random inputs with a tolerance of 1e-10; wrong interpolation weights, skipped planes or tolerance bands in rare configurations stay below sampling.",
 ["src/r3d.c"],[("signed distances, early outs, edge bisection weights","src/r3d.c: r3d_clip")],None,["vertex positions after r3d_clip"])
add("C03","Splitting a list of 3D polyhedra partitions each one at the plane",
 "For every list of polyhedra and every plane, the positive output holds exactly the part of the corresponding input on the non-negative side and the negative output the rest: both are closed polyhedra, their moments add up to the input's, when all vertices lie strictly on one side the other output is empty (a plane that only touches the polyhedron may leave a piece of zero measure), and the result for one list entry does not depend on any other entry (including empty entries).",
 ["inputs"],"all planes, all sign patterns of the vertices, all list lengths and orders",
 "Tests split one generic random polyhedron at a time through its centroid; which output gets which side, empty sides, mixed lists and on-plane vertices are not covered.",
 ["src/r3d.c"],[("splitting","src/r3d.c: r3d_split")],["out_pos[]","out_neg[]"],["output polyhedra after r3d_split"])
add("C04","3D moment integration is exact for every polyhedron and every order",
 "For every closed polyhedron (convex, nonconvex, several components, degenerate duplicate vertices, any position in space) and every polynomial order, integration returns for each monomial exactly its integral over the solid, in the documented row-major order, fills exactly the documented number of entries, depends only on the solid (not on vertex numbering) and returns zeros for the empty polyhedron. Re-basing moments about a shifted origin returns exactly the moments of the translated solid.",
 ["inputs","configurations"],"all vertex coordinates of the shapes considered, all orders up to the bound, with and without the centring step compiled in",
 "Tests compare against a quadrature at one low order for random tetrahedra; a wrong coefficient at one order or position, or an order mix-up, needs symbolic coordinates to exclude.",
 ["src/r3d.c"],[("recursive moment integration","src/r3d.c: r3d_reduce"),("moment re-basing","src/r3d.c: r3d_shift_moments"),("centre","src/r3d.c: r3d_poly_center")],None,["moments array"])
add("C05","3D operations respect the vertex capacity and report overflow",
 "Whatever the polyhedron, the planes, the grid and the configured vertex capacity, clipping, splitting, construction, clamping and voxelization of a non-empty polyhedron never access memory outside the caller's buffers; an operation whose result does not fit the capacity reports failure (0) to the caller, and one for which the input plus the vertices inserted fits at every step, even exactly, succeeds (1) with the correct result. It never reports success with a wrong result.",
 ["inputs","configurations"],"all sign patterns of polyhedra with up to exactly the capacity, capacities from 4 upwards",
 "Overflow needs a polyhedron within a few vertices of the capacity and a plane cutting the right number of edges; the tests use tiny polyhedra with a capacity of 512.",
 ["src/r3d.c","src/v3d.c"],[("capacity checks in clip and split","src/r3d.c: r3d_clip, r3d_split"),("capacity checks in construction","src/r3d.c: r3d_init_poly"),("axis split used by voxelization","src/v3d.c: r3d_split_coord")],["r3d_poly.nverts"],["return status, memory accesses"])
add("C06","Clipping a 2D polygon is valid and exact for every input",
 "For every polygon (convex, nonconvex, several components) and every list of lines, the clipped polygon is empty or a set of closed, reciprocally linked loops, and it is exactly the part of the input with non-negative signed distance to every line: all its vertices satisfy the constraints, its area and moments are those of the true intersection, a polygon wholly inside is unchanged and one with no interior point inside becomes empty.",
 ["inputs"],"all vertex coordinates / sign patterns and all line coefficients, sequences of lines",
 "Tests clip random polygons with generic lines; vertices exactly on a line, nonconvex polygons crossed many times and multi-line sequences are not sampled.",
 ["src/r2d.c"],[("half-plane clipping","src/r2d.c: r2d_clip")],["r2d_poly.verts[].pnbrs"],["polygon after r2d_clip"])
add("C07","Splitting a list of 2D polygons partitions each one at the line",
 "For every list of polygons and every line, the positive output holds exactly the part on the non-negative (positive-distance) side and the negative output the rest: both are closed loops, their moments add up to the input's, when all vertices lie strictly on one side the other output is empty (a line that only touches the polygon may leave a piece of zero area), and the result for one entry does not depend on the others.",
 ["inputs"],"all lines, all sign patterns, all list lengths and orders",
 "The repository's tests do not check which side goes where; side mix-ups, on-line vertices and lists with empty entries are not sampled.",
 ["src/r2d.c"],[("splitting","src/r2d.c: r2d_split")],None,["output polygons"])
add("C08","2D moment integration is exact for every polygon and every order",
 "For every polygon (nonconvex, several loops, any position) and every polynomial order, integration returns for each monomial exactly its integral over the polygon, in row-major order, fills exactly the documented number of entries, depends only on the region, and returns zeros for the empty polygon. Re-basing 2D moments about a shifted origin returns exactly the moments of the translated polygon.",
 ["inputs","configurations"],"all vertex coordinates, all orders up to the bound, with and without the centring step compiled in",
 "Tests compare one low order on random inputs within a tolerance.",
 ["src/r2d.c"],[("recursive moment integration","src/r2d.c: r2d_reduce"),("moment re-basing","src/r2d.c: r2d_shift_moments, r2d_poly_center")],None,["moments array"])
add("C09","3D voxelization puts into each cell exactly that cell's moments",
 "For every polyhedron contained in the index box, every grid spacing and every grid size, voxelization adds to each cell of the row-major destination grid exactly the moments of the part of the polyhedron inside that cell and nothing else, so that the cells sum to the polyhedron's moments. It accumulates onto existing values, leaves the input polyhedron unmodified, treats empty or null input or an empty box as a no-op and never touches memory outside the documented grid size.",
 ["inputs"],"all vertex positions relative to the grid, all grid shapes up to the bound, all spacings",
 "The test checks the grand total over one grid only, so a wrong cell, swapped axes or non-cubic grids go unnoticed.",
 ["src/v3d.c"],[("stack-based recursive bisection and deposit","src/v3d.c: r3d_voxelize"),("axis split","src/v3d.c: r3d_split_coord")],["dest_grid"],["destination grid"])
add("C10","2D rasterization puts into each cell exactly that cell's moments",
 "For every polygon contained in the index box, every grid spacing and every grid size, rasterization adds to each cell of the row-major destination grid exactly the moments of the part of the polygon inside that cell and nothing else, so that the cells sum to the polygon's moments. It accumulates onto existing values, leaves the input polygon unmodified, treats empty or null input or an empty box as a no-op and never touches memory outside the documented grid size.",
 ["inputs"],"all vertex positions relative to the grid, all grid shapes up to the bound, all spacings",
 "The test checks only the grand total on a square grid.",
 ["src/v2d.c"],[("stack-based recursive bisection and deposit","src/v2d.c: r2d_rasterize"),("axis split","src/v2d.c: r2d_split_coord")],["dest_grid"],["destination grid"])
add("C11","Index boxes are minimal and clamping clips the shape to the clamped box",
 "In 2D, 3D and 4D, for every shape and every positive grid spacing the computed index box is the smallest box of whole grid cells containing the shape. Clamping replaces the box by its intersection with the clamp box and the shape by its part inside that box; if the boxes do not overlap in some dimension the shape becomes empty and the box all zeros, and dimensions already inside the clamp box are untouched.",
 ["inputs"],"all vertex positions (also negative and exactly on grid lines), all spacings, all clamp boxes",
 "Tests use shapes in one octant with generic positions and never clamp in every direction at once.",
 ["src/v3d.c","src/v2d.c","src/vNd.c"],[("index box","src/v3d.c: r3d_get_ibox; src/v2d.c: r2d_get_ibox; src/vNd.c: rNd_get_ibox"),("clamping","src/v3d.c: r3d_clamp_ibox; src/v2d.c: r2d_clamp_ibox; src/vNd.c: rNd_clamp_ibox")],["ibox","poly"],["ibox and polyhedron after the call"])
add("C12","Building a polyhedron from vertices and faces represents that solid",
 "For every valid boundary description - any number of edges per vertex (three or more), any face order, any rotation of a face's index list, several components - construction succeeds and yields a closed polyhedron with exactly the described faces and orientation, whose moments equal the described solid's; vertices with more than three edges become coincident copies. Descriptions in which some vertex has fewer than three faces, or that do not fit, are rejected with an empty or untouched result and no invalid memory access.",
 ["inputs"],"all vertex coordinates, all face orders and index rotations of the shapes considered",
 "Tests build a handful of fixed solids in one fixed face order; the linking of degenerate vertices depends on the order in which faces are listed.",
 ["src/r3d.c"],[("construction, simple and degenerate branch","src/r3d.c: r3d_init_poly")],["r3d_poly"],["polyhedron after r3d_init_poly"])
add("C13","Boundary representations describe the polyhedron and are freed completely",
 "For every valid polyhedron (including results of clipping, several components and coincident duplicate vertices produced by construction), conversion to boundary representation returns one description per connected component whose vertices and outward-oriented faces bound exactly the same solid, with consecutive coincident vertices merged, indices in range and every edge shared by exactly two faces in opposite directions. Freeing releases all memory the conversion allocated, and the input polyhedron is unmodified.",
 ["inputs"],"all vertex positions and sign patterns of the shapes considered, any number of components",
 "The only brep test converts two fixed intersections and never checks memory or more than two components.",
 ["src/r3d.c"],[("component and face walk, merging, packing","src/r3d.c: r3d_init_brep"),("release","src/r3d.c: r3d_free_brep")],["r3d_brep"],["brep array, heap"])
add("C14","Face planes are unit-length, contain their faces and have the shape inside",
 "In 2D and 3D, the planes derived from a tetrahedron, an axis-aligned box or a convex polygon have unit normals, pass through the vertices of their face and have the interior on the positive side, so that clipping any body with them yields its intersection with that shape. Planes derived from a general polyhedron's faces are unit-length, contain the face and are consistently oriented by the face's vertex order, for faces of any number of vertices.",
 ["inputs"],"all positively oriented vertex coordinates",
 "Tests only use the tetrahedron planes; the box and polygon variants and general faces are not exercised, and orientation errors need off-origin shapes.",
 ["src/r3d.c","src/r2d.c"],[("3D planes","src/r3d.c: r3d_tet_faces_from_verts, r3d_box_faces_from_verts, r3d_poly_faces_from_verts"),("2D planes","src/r2d.c: r2d_box_faces_from_verts, r2d_poly_faces_from_verts")],None,["plane arrays"])
add("C15","Validity checks give the documented verdict on any buffer, memory-safely",
 "For every vertex buffer contents - however corrupt, with any link values and up to the full capacity - the 2D, 3D and 4D validity checks terminate, access no memory outside the buffer, do not modify it, and reject every buffer with an out-of-range link, a link of a vertex to itself, a repeated link or a vertex not pointed to the required number of times. Buffers whose links are all mutual are accepted exactly when every vertex has the required number of valid, distinct links and (3D, 4D) each component stays connected after removing any two (three) vertices.",
 ["inputs"],"all link values, valid or not, for all vertex counts up to the bound",
 "Tests only ever pass valid shapes and expect acceptance; no test feeds an invalid buffer.",
 ["src/r2d.c","src/r3d.c","src/rNd.c"],[("checks","src/r2d.c: r2d_is_good; src/r3d.c: r3d_is_good; src/rNd.c: rNd_is_good")],["pnbrs"],["return value, memory accesses"])
add("C16","Transformations move every vertex by exactly the documented map",
 "In 2D, 3D and 4D, rotating, translating, scaling, shearing and applying a homogeneous matrix to any shape maps every vertex position by exactly the documented formula (rotations are proper, by the given angle about the given axis or in the given plane; the matrix form includes the translation column and the perspective divide) and leaves connectivity and vertex count unchanged.",
 ["inputs"],"all vertex positions, parameters, axes and matrices",
 "The repository has no test of the transformations apart from an incidental 3D translation and scaling.",
 ["src/r3d.c","src/r2d.c","src/rNd.c"],[("3D","src/r3d.c: r3d_rotate, r3d_translate, r3d_scale, r3d_shear, r3d_affine"),("2D","src/r2d.c: r2d_rotate, r2d_translate, r2d_scale, r2d_shear, r2d_affine"),("4D","src/rNd.c: rNd_rotate, rNd_translate, rNd_scale, rNd_shear, rNd_affine")],None,["vertex positions"])
add("C17","Primitive shapes are built correctly and signed simplex volumes are right",
 "In 2D, 3D and 4D, initialising a tetrahedron/simplex, an axis-aligned box or a polygon from coordinates gives a valid closed shape with exactly the given vertices, whose volume (and, in 2D and 3D, all moments) is that of the described shape with the documented sign. The signed simplex volume equals the determinant formula, changes sign under a swap of two vertices, and vanishes exactly for degenerate simplices.",
 ["inputs"],"all coordinates",
 "Tests check positive random simplices with a tolerance only; sign conventions, boxes away from the origin and 2D/4D variants are barely covered.",
 ["src/r3d.c","src/r2d.c","src/rNd.c"],[("3D","src/r3d.c: r3d_init_tet, r3d_init_box, r3d_orient"),("2D","src/r2d.c: r2d_init_box, r2d_init_poly, r2d_orient"),("4D","src/rNd.c: rNd_init_simplex, rNd_init_box, rNd_det, rNd_orient")],None,["shape after initialisation"])
add("C18","Clipping a 4D polytope always yields a valid, exactly clipped polytope",
 "For every 4D simplex or box and every sequence of hyperplanes, clipping terminates and yields an empty result or a polytope with four distinct reciprocal links per vertex, consistent 2-face labels (the label shared by two edges at a vertex is the same at the other end of each edge, and following a label around closes up along the 2-face) and every vertex inside all half-spaces; new vertices lie on the hyperplane on the edges that were cut and all kept vertices are unchanged.",
 ["inputs"],"all sign patterns of vertices (no vertex exactly on the plane for nested cuts), one and two successive hyperplanes",
 "The tests use random cuts of random simplices and check only graph connectivity and total volume.",
 ["src/rNd.c"],[("clip: insertion, 2-face closing walk, compression","src/rNd.c: rNd_clip")],["pnbrs","finds","nfaces"],["polytope after rNd_clip"])
add("C19","4D volumes are exact and voxelization puts each cell's volume in its cell",
 "For every 4D simplex, box or clipped polytope, integration returns its exact volume. Voxelization of such a polytope in general position to the grid adds to each cell of the row-major 4D grid exactly the volume inside that cell, accumulates onto existing values, leaves the input unmodified, treats null arguments as a no-op and never touches memory outside the grid, for every grid shape.",
 ["inputs"],"all coordinates of the families considered, all grid shapes up to the bound",
 "Tests compare only the sum over cells for one random simplex.",
 ["src/rNd.c","src/vNd.c"],[("volume","src/rNd.c: reduce_helper, rNd_reduce"),("voxelization","src/vNd.c: rNd_voxelize, rNd_split")],None,["moments, destination grid"])
add("C20","2D and 4D operations respect the vertex capacity",
 "Whatever the shape, the cutting lines or hyperplanes and the grid, 2D and 4D clipping, 2D splitting, polygon construction, clamping, rasterization and 4D voxelization of a non-empty shape never access memory outside the caller's buffers; when a result does not fit the capacity the operation reports failure (0), and when the input plus the vertices inserted fits at every step, even exactly, it succeeds (1) with the correct result. It never reports success with a wrong result.",
 ["inputs","configurations"],"all sign patterns of polygons/polytopes up to exactly the capacity",
 "Overflow needs shapes within a few vertices of the capacity; the tests use shapes far below it.",
 ["src/r2d.c","src/v2d.c","src/rNd.c","src/vNd.c"],[("2D clip/split/construct","src/r2d.c: r2d_clip, r2d_split, r2d_init_poly"),("2D axis split","src/v2d.c: r2d_split_coord"),("4D clip","src/rNd.c: rNd_clip")],["nverts"],["return status, memory accesses"])
add("C21","Legacy 3D library: voxelized tetrahedra, clips and moments are exact",
 "In the legacy library under deprecated/ (r3d.h), for every four planes, grid size and spacing, r3d_voxelize_tet sets every moment up to polyorder (in the order 1, x, y, z, x^2, y^2, z^2, xy, yz, zx) of every cell of the grid, which starts at the origin, to the integral over the part of the cell on the positive side of all four faces, whatever the buffers held before, identically with and without USE_TREE. r3d_clip_tet cuts a convex polyhedron whose distances are set to its intersection with the half-spaces not skipped, leaving mutual links among the vertices not flagged as clipped; r3d_reduce returns the exact moments of any convex polyhedron the 64-vertex buffer holds, of a clipped one and of a box just initialized with r3du_init_box. r3du_tet_faces_from_verts returns the four unit inward planes of a positively oriented tetrahedron and r3du_orient its signed volume. Every call terminates and stays within the caller's buffers and its own arrays.",
 ["inputs","configurations"],"all plane offsets (and one free normal), all spacings, every cell, both tree options, within the bounds",
 "No test builds or runs the legacy library at all.",
 ["deprecated/r3d.c","deprecated/r3d.h"],[("voxelization","deprecated/r3d.c: r3d_voxelize_tet"),("clip","deprecated/r3d.c: r3d_clip_tet"),("moments","deprecated/r3d.c: r3d_reduce"),("utilities","deprecated/r3d.c: r3du_init_box, r3du_tet_faces_from_verts, r3du_orient")],["orient.fflags","orient.fdist","pnbrs"],["grid moments, clipped polyhedron, moments, planes"])
add("C22","Legacy 2D library: rasterized quadrilaterals, clips and moments are exact",
 "In the legacy library under deprecated/ (r2d.h), for every four lines, grid size and spacing, r2d_rasterize_quad sets every moment up to polyorder (in the order 1, x, y, x^2, y^2, xy) of every cell of the grid, which starts at the origin, to the integral over the part of the cell on the positive side of all four lines, whatever the buffers held before, identically with and without USE_TREE. r2d_clip_quad cuts a convex polygon whose distances are set to its intersection with the half-planes not skipped (possibly nothing), leaving mutual links among the vertices not flagged as clipped; r2d_reduce returns the exact moments of any polygon the 64-vertex buffer holds, of a clipped one and of a box just initialized with r2du_init_box. r2du_faces_from_verts returns the unit inward line of every edge of a counter-clockwise convex polygon and r2du_orient the signed area of a triangle (positive for clockwise order). Every call terminates and stays within the caller's buffers and its own arrays.",
 ["inputs","configurations"],"all line offsets (and up to two free normals), all spacings, every cell, both tree options, within the bounds",
 "No test builds or runs the legacy library at all.",
 ["deprecated/r2d.c","deprecated/r2d.h"],[("rasterization","deprecated/r2d.c: r2d_rasterize_quad"),("clip","deprecated/r2d.c: r2d_clip_quad"),("moments","deprecated/r2d.c: r2d_reduce"),("utilities","deprecated/r2d.c: r2du_init_box, r2du_faces_from_verts, r2du_orient")],["orient.fflags","orient.fdist","pnbrs"],["grid moments, clipped polygon, moments, lines"])
add("C23","The generic routines work for other numbers of dimensions as well",
 "Compiled for another number of dimensions (RND_DIM of 3 or more), the generic routines keep their guarantees: clipping a simplex or box by hyperplanes leaves exactly the polytope of the kept parts, with reciprocal links and consistent 2-face labels, or nothing; rNd_reduce returns its exact volume; rNd_voxelize adds exactly the volume inside each cell to a row-major grid with one axis per dimension and leaves the polytope unmodified; rNd_get_ibox and rNd_clamp_ibox give the tightest index box and the exact restriction to it; and rNd_is_good accepts exactly the correctly linked graphs.",
 ["inputs","configurations"],"dimensions 3 and 5 (clipping also 6 and 7), all positions and hyperplanes of the families considered, within the bounds",
 "The tests are compiled for four dimensions only.",
 ["src/rNd.c","src/vNd.c","src/rNd.h"],[("clip","src/rNd.c: rNd_clip"),("volume","src/rNd.c: reduce_helper, rNd_reduce"),("voxelization","src/vNd.c: rNd_voxelize, rNd_split"),("index boxes","src/vNd.c: rNd_get_ibox, rNd_clamp_ibox"),("validity check","src/rNd.c: rNd_is_good")],["pnbrs","finds"],["polytopes, volumes, destination grid"])
add("C24","The guarantees hold under the other build options too",
 "Compiled with single-precision reals (SINGLE_PRECISION) or with diagnostics disabled (NDEBUG), every routine keeps the guarantees stated above: clipping, splitting, construction, integration, moment shifting, voxelization, rasterization, index boxes, face lists, boundary representations, validity checks and transformations give the same results up to rounding in the chosen real type, report failure in the same cases, and touch only memory laid out in that type.",
 ["inputs","configurations"],"the positions, planes and grids of the other properties, for each build option, within the bounds",
 "The tests are built with the default options only.",
 ["src/r3d.c","src/v3d.c","src/r2d.c","src/v2d.c","src/rNd.c","src/vNd.c","src/r3d.h","src/r2d.h","src/rNd.h"],[("real type","src/r3d.h, src/r2d.h, src/rNd.h: SINGLE_PRECISION"),("diagnostics","src/*.c: NDEBUG")],None,["results of every routine"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
