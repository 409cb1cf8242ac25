#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One P(...) per property; kept in a script so the
file stays valid JSON and the property texts stay readable and diffable."""
import json, os

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
props = []


def P(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why, "anchors": a})


# ----------------------------------------------------------------- stdlib / common
P("C01", "Growable array acts as a value sequence under every operation history",
  "After any sequence of construct, copy, move, assign, push, emplace, pop, resize, reserve and clear operations, the library's growable array holds exactly the values an ideal sequence would hold, in order. "
  "Every element that was constructed is destroyed exactly once, no operation reads or writes outside live storage, copies never share storage with their source, and an operation whose argument is an element of the array itself behaves as if the argument had been copied first.",
  ["histories", "inputs"],
  "All operation histories over several interacting arrays, for element types with trivial and non-trivial copy/move/destroy, with sizes crossing every capacity boundary.",
  "Unit tests run one operation at a time on 5-element arrays; interleavings of growth, shrinkage, moved-from reuse, self-assignment and element aliasing are never reached.",
  ["include/um2/stdlib/vector.hpp", "include/um2/stdlib/memory/construct_at.hpp", "include/um2/stdlib/algorithm/copy.hpp"],
  [("three-pointer storage with geometric growth", "include/um2/stdlib/vector.hpp: recommend(), push_back/emplace_back slow paths, resize, assignment"),
   ("element lifetime helpers", "include/um2/stdlib/memory/construct_at.hpp")],
  ["contents, size, capacity, live-instance count and sanitizer reports after each operation"],
  [("begin/end/end_cap", "live range and allocated range", "include/um2/stdlib/vector.hpp")])

P("C02", "Strings and string views act as plain character sequences under any history",
  "Whatever sequence of construction, assignment, append, concatenation, substring, search, comparison, trimming and tokenising operations is applied, an owned string holds exactly the characters an ideal string would hold, is always terminated, and a view reports exactly what an ideal view over the same characters would report. "
  "Comparison is a total lexicographic order, numbers appended or converted to text read back as the printed value, and short and long strings are indistinguishable except for speed.",
  ["histories", "inputs"],
  "All histories of operations on several strings and views whose lengths cross the inline/heap storage boundary, including self-assignment, self-append and moved-from reuse.",
  "Tests use a handful of fixed literals with single operations; the short/long representation switch and aliasing need particular lengths in particular orders.",
  ["include/um2/stdlib/string.hpp", "include/um2/stdlib/string_view.hpp"],
  [("short-string optimisation flag and length encoding", "include/um2/stdlib/string.hpp"),
   ("search, compare and token extraction", "include/um2/stdlib/string_view.hpp")],
  ["characters, size, terminator, comparison results, tokens"],
  [("short/long representation", "inline buffer or heap pointer", "include/um2/stdlib/string.hpp")])

P("C03", "Number text and lattice maps are parsed to exactly the values written",
  "Parsing a number from text yields the value the text denotes and reports where parsing stopped. "
  "Parsing a textual lattice map yields one row per non-blank text line, in order, with exactly the values written on that line, whatever leading, trailing or repeated delimiters surround them and whether or not the first and last lines are blank.",
  ["inputs"],
  "All lattice shapes (ragged and rectangular), values of every supported numeric type, delimiters and surrounding white space.",
  "Tests parse two literals; trailing blanks, repeated delimiters, one-column rows and a missing final newline are each a separate path.",
  ["include/um2/common/strto.hpp", "include/um2/common/string_to_lattice.hpp"],
  [("token walk over lines", "include/um2/common/string_to_lattice.hpp: stringToLattice"),
   ("typed number parsing", "include/um2/common/strto.hpp: strto")],
  ["returned rows and values, end pointer"])

P("C04", "Morton codes are a bijection and Morton ordering only permutes points",
  "Encoding integer coordinates to a Morton code and decoding returns the coordinates unchanged, and the code is exactly the bit interleaving of the coordinates, for the whole representable range in two and three dimensions. "
  "Encoding real coordinates in the unit cube equals encoding their quantised integer coordinates, and sorting points into Morton order yields a permutation of the input with non-decreasing codes, with the reported permutation describing that reordering.",
  ["inputs", "configurations"],
  "All 32- and 64-bit coordinates and codes in 2 and 3 dimensions, all real points in the unit square/cube including its faces, all point sets in any bounding box; with and without the hardware bit-deposit instructions.",
  "Tests enumerate tiny grids in one build configuration; single-bit errors in the interleave masks show only for particular high bits or in the configuration that is not built.",
  ["include/um2/math/morton.hpp", "include/um2/geometry/morton_sort_points.hpp"],
  [("bit deposit/extract or shift-and-mask interleave", "include/um2/math/morton.hpp"),
   ("normalise, encode, sort, permute", "include/um2/geometry/morton_sort_points.hpp")],
  ["codes, decoded coordinates, sorted points, permutation"])

P("C05", "Sorting, permutation and statistics helpers agree with their definitions",
  "Every sorting helper returns its input rearranged in non-decreasing order and nothing else, a computed sorting permutation reorders the input to sorted order, and applying and inverting permutations compose as permutations. "
  "Means, medians, variances, standard deviations and reductions equal their mathematical definitions to rounding for any sample, and the range helpers (copy, fill, compare, smallest, largest) do what their names say for every range.",
  ["inputs"],
  "All arrays of numbers (duplicates, pre-sorted, reversed, extreme magnitudes, every length including the smallest and odd/even), all permutations.",
  "Tests use a few fixed arrays; comparator networks and median selection fail only for particular orderings and lengths.",
  ["include/um2/common/branchless_sort.hpp", "include/um2/common/insertion_sort.hpp", "include/um2/common/permutation.hpp", "include/um2/math/stats.hpp", "include/um2/stdlib/algorithm", "include/um2/stdlib/numeric"],
  [("sorting network and insertion sort", "include/um2/common/branchless_sort.hpp, insertion_sort.hpp"),
   ("index sort and in-place application", "include/um2/common/permutation.hpp"),
   ("two-pass statistics", "include/um2/math/stats.hpp")],
  ["sorted arrays, permutations, statistics"])

# --------------------------------------------------------------------------- math
P("C06", "Fixed-size vectors and matrices obey the definitions of linear algebra",
  "For every dimension and element type, component-wise arithmetic, comparison, dot, cross, norms, distances, normalisation, min/max, and the matrix product, matrix-vector product, 2x2 inverse and rotation equal their component formulas to rounding, and the planar cross product has the sign of the exact value. "
  "The answer does not depend on whether vector-register storage is used for the vector.",
  ["inputs", "configurations"],
  "All finite component values, dimensions 1 to 8 including powers of two that select a different storage, signed, unsigned and floating element types, and non-square matrix shapes.",
  "Tests check one constant vector per dimension in one build configuration; asymmetric shapes and mixed-sign inputs are not reached.",
  ["include/um2/math/vec.hpp", "include/um2/math/mat.hpp", "include/um2/geometry/point.hpp"],
  [("storage selection and element-wise operators", "include/um2/math/vec.hpp"),
   ("column-major matrix operators", "include/um2/math/mat.hpp")],
  ["returned components"])

P("C07", "Dense matrix operations match a direct reference for every shape",
  "For every size and element type, dense matrix construction, element access, row/column order, sums, products with vectors and matrices, transposition of square matrices, eigenvalues and solutions of linear systems agree with a direct textbook evaluation to rounding. "
  "Operations never change their inputs and never depend on the previous contents of the output.",
  ["inputs", "configurations"],
  "All shapes (1x1, tall, wide, square), real and complex element types, well-conditioned systems with one or several right-hand sides.",
  "Tests use a few small fixed matrices, mostly symmetric or square; leading-dimension, ordering and copy-back mistakes need rectangular or asymmetric data.",
  ["include/um2/math/matrix.hpp", "src/math/matrix.cpp"],
  [("column-major storage and BLAS/LAPACK calls", "src/math/matrix.cpp"),],
  ["returned matrices and vectors, inputs after the call"])

P("C08", "Polynomial solvers return exactly the real roots",
  "For every quadratic with real coefficients the solver returns every real root and nothing else, to within the conditioning of the problem, and flags the absence of roots. "
  "For every cubic it returns at least one real root and all of them when three exist, each satisfying the equation to rounding relative to the size of its terms; polynomials that rounding of the coefficients can push across a repeated root may be answered either way.",
  ["inputs"],
  "All coefficient triples and quadruples with leading coefficient non-zero over a wide magnitude range, including double and triple roots, zero middle coefficients and strong cancellation.",
  "Tests try a dozen polynomials with integer roots; sign, branch and cancellation errors occur on coefficient regions never sampled.",
  ["include/um2/math/quadratic_equation.hpp", "include/um2/math/cubic_equation.hpp"],
  [("discriminant branches and stable root formulas", "include/um2/math/quadratic_equation.hpp"),
   ("trigonometric/hyperbolic cubic formulas", "include/um2/math/cubic_equation.hpp")],
  ["returned roots"])

# ----------------------------------------------------------------------- geometry
P("C09", "Axis-aligned boxes: union, containment and ray clipping are exact",
  "The box of a set of points or boxes is the smallest box containing them all, containment of a point agrees with coordinate comparison, extents, centroid and scaling follow from the two corners. "
  "Clipping a ray against a box returns the parameters at which the ray enters and leaves it whenever it passes through the interior, and reports a miss whenever the ray does not reach the box.",
  ["inputs"],
  "All boxes in 1 to 3 dimensions, all points, all rays including axis-parallel ones, rays starting inside, in front of and behind the box.",
  "Tests intersect one unit box with three rays; slab bookkeeping errors depend on direction signs and on origin position.",
  ["include/um2/geometry/axis_aligned_box.hpp", "include/um2/geometry/ray.hpp"],
  [("corner representation, union operators, slab clipping", "include/um2/geometry/axis_aligned_box.hpp")],
  ["box corners, containment flags, entry and exit distances"])

P("C10", "Grids tile their box, and lookups and queries agree with the tiling",
  "The cells of a regular or rectilinear grid tile the grid's box without gaps or overlap, cell sizes and centroids follow from the divisions, and flat and multi-dimensional indices are inverse to each other. "
  "The cell reported to contain a point does contain it, the cells reported to intersect a query box are all and only those that overlap it, and a partition returns for each cell index the child stored there; a rectilinear grid rebuilt from the boxes of its cells, or from a map of ids, reproduces the same layout.",
  ["inputs"],
  "All origins, spacings, division sets and cell counts in 1 to 3 dimensions, all query points and boxes, all id layouts.",
  "Tests use unit spacing and symmetric counts, where swapped axes, off-by-one edges and row-order mistakes are invisible.",
  ["include/um2/mesh/regular_grid.hpp", "include/um2/mesh/rectilinear_grid.hpp", "include/um2/mesh/regular_partition.hpp", "include/um2/mesh/rectilinear_partition.hpp"],
  [("origin plus spacing, division arrays", "include/um2/mesh/regular_grid.hpp, rectilinear_grid.hpp"),
   ("flat index", "include/um2/mesh/regular_partition.hpp, rectilinear_partition.hpp")],
  ["boxes, indices, ids"])

P("C11", "Ray-edge intersection finds every crossing and invents none",
  "Intersecting a ray with a straight or quadratic edge returns every transversal crossing of the ray's line with the edge, each reported distance placing a point on the edge, and no others. "
  "The result is invariant under rigid motion of both and reversal of the edge.",
  ["inputs"],
  "All straight edges and quadratic edges (straight, nearly straight, strongly curved, any orientation), all rays; crossings closer to an end or to tangency than the geometric tolerance may be reported either way.",
  "Tests use a few hand-placed edges; which quadratic branch is used depends on coefficient signs and magnitudes across the whole input space.",
  ["include/um2/geometry/line_segment.hpp", "include/um2/geometry/quadratic_segment.hpp", "include/um2/geometry/ray.hpp"],
  [("rotated-frame/algebraic intersection", "include/um2/geometry/line_segment.hpp, quadratic_segment.hpp")],
  ["number of crossings and their distances"])

P("C12", "Edge length, bounds, side and nearest point match the curve itself",
  "For straight and quadratic edges, interpolation passes through the defining points, length and enclosed signed area equal those of the curve, the bounding box is the tightest box of the curve, and the nearest-point query returns a point of the edge no farther than any other point of it. "
  "The left/right classification of a point agrees with its side of the edge, and reversing, translating or rotating the edge changes each answer only as geometry dictates.",
  ["inputs"],
  "All edges in two dimensions (and three for straight ones) including straight and nearly straight quadratic edges, all query points away from the curve by more than the tolerance.",
  "Tests use a few canonical arcs; side and nearest-point branches depend on curvature sign, query region and clamping.",
  ["include/um2/geometry/line_segment.hpp", "include/um2/geometry/quadratic_segment.hpp", "include/um2/geometry/polytope.hpp"],
  [("closed-form length/area/bounds, clamped nearest point, isLeft", "include/um2/geometry/quadratic_segment.hpp, line_segment.hpp")],
  ["points, lengths, boxes, parameters, distances, flags"])

P("C13", "Face area, centroid, perimeter, chord length and bounds match the region",
  "For every valid triangle, quadrilateral, quadratic triangle and quadratic quadrilateral, the reported area, centroid, perimeter, mean chord length and bounding box equal those of the region enclosed by its edges. "
  "They transform as geometry dictates under translation, rotation, scaling and renumbering of the starting corner, and a quadratic face with straight edges agrees with the linear face.",
  ["inputs"],
  "All non-degenerate valid faces of the four shapes, any size, position and orientation, straight- and curve-sided; planar faces of linear shapes also in three dimensions where supported.",
  "Tests use unit reference shapes near the origin; per-edge formula and index errors cancel for symmetric shapes.",
  ["include/um2/geometry/polygon.hpp", "include/um2/geometry/triangle.hpp", "include/um2/geometry/quadrilateral.hpp", "include/um2/geometry/quadratic_triangle.hpp", "include/um2/geometry/quadratic_quadrilateral.hpp"],
  [("edge sums and reference-map integration", "include/um2/geometry/polygon.hpp and per-shape headers")],
  ["returned measures"])

P("C14", "Point-in-face, orientation and face-ray queries agree with the region",
  "A face contains exactly the points of the region its edges enclose (points within tolerance of an edge may go either way), a face is reported counter-clockwise exactly when its boundary runs counter-clockwise, and reversing a face preserves its region and edges while inverting orientation. "
  "Interpolating parameters inside the reference element gives points of the face, its derivative matrix is the derivative of that map, and the crossings reported for a ray are exactly the crossings with its edges.",
  ["inputs"],
  "All valid faces of the four shapes, all query points and rays, all reference parameters.",
  "Tests probe one interior and one exterior point of reference shapes; errors tied to one edge or one bulge direction pass.",
  ["include/um2/geometry/polygon.hpp", "include/um2/geometry/triangle.hpp", "include/um2/geometry/quadrilateral.hpp", "include/um2/geometry/quadratic_triangle.hpp", "include/um2/geometry/quadratic_quadrilateral.hpp"],
  [("per-edge side tests, orientation test, flip, edge intersection loop", "include/um2/geometry/polygon.hpp and per-shape headers")],
  ["flags, points, matrices, crossing distances"])

P("C15", "Modular ray sets cover the box evenly and link into closed reflecting paths",
  "For any box, requested direction and spacing, the generated parallel rays of a direction start on the box boundary with the ray's direction pointing into the box, and are evenly spaced with spacing no larger than requested, using the fewest rays per side for which that holds. The direction lies in the requested quadrant, and supplementary requests give mirrored sets. "
  "Each ray's exit point coincides with a start point of the ray set of the same direction in the adjacent periodic image, so tracks continue exactly from box to box.",
  ["inputs"],
  "All box extents and aspect ratios, all requested directions in the open quadrants and all spacings down to a small fraction of the box.",
  "Tests check a few angles on fixed boxes; the spacing and closure property depends on how counts round for each extent, angle and spacing.",
  ["include/um2/geometry/modular_rays.hpp"],
  [("integer ray counts per side and derived direction/spacing", "include/um2/geometry/modular_rays.hpp")],
  ["ray origins and directions, spacing, counts"])

# --------------------------------------------------------------------------- mesh
P("C16", "A mesh built from a soup has the soup's geometry and sound topology",
  "Converting a polygon soup to a face-vertex mesh keeps every face, its corner positions and its order, with every face counter-clockwise, and converting back gives an equivalent soup. "
  "The vertex-to-face table lists for each vertex exactly the faces that use it, edges enumerate each face's boundary, bounding box and edge counts match the faces, and validation accepts every conforming mesh and reports an error for meshes with a repeated face, a hole or several pieces. A warning about non-planar input does not change the planar result.",
  ["inputs"],
  "All conforming 2D meshes of one face type (triangle, quadrilateral and both quadratic forms) of any size, position, vertex order and face winding.",
  "Only four-element reference meshes of one face type are tested in this build; conversion of clockwise faces, non-origin positions and the other three face types is untested.",
  ["include/um2/mesh/face_vertex_mesh.hpp", "src/mesh/face_vertex_mesh.cpp", "include/um2/mesh/element_types.hpp"],
  [("conversion, winding repair, vertex-face table, validation", "src/mesh/face_vertex_mesh.cpp")],
  ["faces, vertices, adjacency table, logger messages"],
  [("face-vertex and vertex-face connectivity", "mesh topology", "include/um2/mesh/face_vertex_mesh.hpp")])

P("C17", "Ray tracing a mesh yields every chord through every face exactly once",
  "For a mesh of a convex domain and a ray crossing it, the sorted intersection distances reported for the mesh are the ray's crossings with the mesh's edges, each edge shared by two faces reported once per face. "
  "Pairing crossings per face gives chord lengths that sum to the length of the ray inside the domain, each chord lies in the face it is attributed to, and the variants with and without face attribution agree. "
  "Sorting the crossings lists the same faces with the same crossings, in the order the ray visits them, also for rays that start inside the mesh.",
  ["inputs"],
  "All meshes of the four face types and all rays that miss vertices and tangencies by more than the tolerance.",
  "Tests trace two rays through four-element meshes; a missed or doubled crossing appears only for particular edge/ray combinations.",
  ["src/mesh/face_vertex_mesh.cpp", "include/um2/mesh/face_vertex_mesh.hpp", "include/um2/geometry/polygon.hpp"],
  [("per-face edge intersection and sort", "src/mesh/face_vertex_mesh.cpp: intersect, sortRayMeshIntersections")],
  ["intersection coordinates, offsets, faces"])

P("C18", "Point location in a mesh returns the face that contains the point",
  "For every point of a meshed domain, point location returns a face that contains the point, and it reports failure for points outside every face. "
  "The answer is the same after any renumbering of the mesh's faces or vertices up to that renumbering.",
  ["inputs"],
  "All conforming meshes of the four face types, all query points farther from face boundaries than the tolerance.",
  "Tests query one point in a reference mesh.",
  ["src/mesh/face_vertex_mesh.cpp", "include/um2/mesh/face_vertex_mesh.hpp"],
  [("linear containment scan", "include/um2/mesh/face_vertex_mesh.hpp: faceContaining")],
  ["returned face index"])

P("C19", "Renumbering a mesh along a space-filling curve only relabels it",
  "Sorting the vertices, the faces or both into spatial order leaves the mesh the same geometric object: the same vertex positions, every face with its node positions in order, and a vertex-to-face table that stays consistent. "
  "The resulting order of vertices and of face centroids is non-decreasing along the curve over the mesh's bounding box.",
  ["inputs"],
  "All meshes of the four face types anywhere in the plane, of any extent and aspect ratio.",
  "Tests sort one origin-anchored mesh; a wrong direction of permutation is invisible when the permutation is its own inverse.",
  ["src/mesh/face_vertex_mesh.cpp", "include/um2/geometry/morton_sort_points.hpp", "include/um2/common/permutation.hpp"],
  [("Morton sort and permutation of vertices and connectivity", "src/mesh/face_vertex_mesh.cpp: mortonSort*")],
  ["vertices, connectivity and vertex-to-face table before and after"])

P("C20", "Element-soup editing keeps an exact, consistent model of the mesh",
  "After any sequence of adding vertices, elements and element sets, appending other soups, translating, sorting element sets and extracting subsets, the soup reports exactly the vertices, element types, connectivity, set names, member ids and data an ideal model would hold. "
  "Appending places the other soup's content after the existing content with its references shifted and its set members merged, extracting a set gives exactly its elements, their vertex positions and the restriction of every other set to them, and comparison reports two soups equal exactly when they are.",
  ["histories", "inputs"],
  "All histories of edits over mixed element types, overlapping sets, sets with and without data, and shared set names.",
  "Tests build two fixed soups; offsets, merging order and subset renumbering depend on the interplay of several edits.",
  ["src/mesh/polytope_soup.cpp", "include/um2/mesh/polytope_soup.hpp"],
  [("offset tables for connectivity and element sets", "src/mesh/polytope_soup.cpp: addElement, addElset, operator+=, getSubset, sortElsets, compare")],
  ["all getters"],
  [("element offsets / connectivity / elset offsets, ids, data", "flat storage", "include/um2/mesh/polytope_soup.hpp")])

P("C21", "Writing a soup to disk and reading it back returns the same soup",
  "Writing an element soup in the XML+binary mesh format and reading it back, in a fresh or a previously used program state and from any directory, returns the same vertices, elements, element-set names, members and data. "
  "Writing does not alter the soup, writing what was read gives the same again, and files of the same layout using 32- or 64-bit numbers, planar or spatial points are read to the values they state.",
  ["inputs", "histories"],
  "All soups of the supported single and mixed element types, planar or with height, with any number of element sets, with or without data, under any valid file path.",
  "Tests round-trip a few reference meshes; data types, mixed topologies, empty or overlapping sets and path forms multiply the paths.",
  ["src/mesh/polytope_soup.cpp"],
  [("XDMF/HDF5 writer and reader", "src/mesh/polytope_soup.cpp: writeXDMF*, readXDMF*")],
  ["soup read back"])

P("C22", "Reading a mesh text file yields exactly the nodes, elements and sets in it",
  "Reading a mesh exported in the supported mesh-generator text format yields one vertex per node in node order with the stated coordinates, one element per element line with its type and zero-based references, and one set per set section with exactly the listed members, sets sorted by name. Reading the supported text visualisation format yields its points, its cells and one set with data per cell data array. "
  "The result does not depend on spacing, number formatting, comment lines, line wrapping, or how many blocks the file is split into; a missing file or unknown extension is an error and yields nothing.",
  ["inputs"],
  "All well-formed files of the documented layouts with consecutive ids: element types, multiple node and element blocks, any number of sets or data arrays, lines wrapped anywhere, comments, scientific and plain notation.",
  "Tests read eight fixed files exported by one generator version.",
  ["src/mesh/polytope_soup.cpp"],
  [("line-oriented section parsers", "src/mesh/polytope_soup.cpp: readAbaqusFile, readVTKFile")],
  ["resulting soup"])

# ----------------------------------------------------------------- reactor model
P("C23", "Pin and rectangle meshes conserve material areas and fill the cell exactly",
  "A generated cylindrical pin mesh fills its square cell exactly without overlap, and the faces belonging to each ring and radius enclose exactly the ring's annular area, for straight- and curve-sided faces alike. "
  "A generated rectangular mesh tiles its cell with equal rectangles, and invalid requests are rejected without altering the model.",
  ["inputs"],
  "All pitches, strictly increasing radii that fit in the cell, ring counts per radius, admissible azimuthal divisions, both face orders, all rectangle divisions.",
  "Tests check one pin per order with sample areas; ring indexing and radius correction fail for particular ring/azimuth combinations.",
  ["src/mpact/model.cpp"],
  [("equivalent-radius ring construction", "src/mpact/model.cpp: addCylindricalPinMesh, addRectangularPinMesh")],
  ["mesh faces, areas, logger errors"])

P("C24", "Assembling a core places every cell mesh at its mapped position once",
  "Expanding a model built from cells, ray-tracing modules, lattices, assemblies and a core yields every cell's mesh exactly once per occurrence, translated to the position its id maps dictate, with text-map rows running from top to bottom, at the elevation of its axial slab. "
  "Every element carries the material of its cell face and belongs to exactly one set per hierarchy level naming its ancestors, and the model's total counts, areas and volumes, chord-length and homogenised quantities equal those sums over the expansion. "
  "Requests that break the stated constraints on sizes, ids and maps are refused and leave the model unchanged.",
  ["inputs"],
  "All hierarchies: any sizes and repetition at each level, distinct cell sizes with matching module extents, several lattices per assembly, several materials, all four mesh types.",
  "Tests build one small core with one repeated cell; transposed or flipped maps and mixed-up ids are invisible when everything is identical.",
  ["src/mpact/model.cpp", "include/um2/mpact/model.hpp"],
  [("id maps flipped into partitions, recursive placement", "src/mpact/model.cpp: addRTM, addLattice, addAssembly, addCore, operator PolytopeSoup")],
  ["the expanded soup, counters, getters"])

P("C25", "Saving a model and loading it back gives the same model",
  "A complete model written to disk and read into a new model has the same hierarchy, id maps, dimensions, cell meshes and material assignments, and writes the same files again. "
  "The companion files state each material's total volume, its group cross sections and its composition as the model holds them.",
  ["inputs"],
  "All complete models whose parts are all placed: any number of levels repeated, several lattices per assembly, mixed mesh types and sizes, several materials, with cross-section output enabled.",
  "The test round-trips one model with a single lattice per assembly.",
  ["src/mpact/model.cpp"],
  [("nested XDMF grids plus HDF5 data, .volumes/.xs writers", "src/mpact/model.cpp: write*, readXDMFFile")],
  ["loaded model vs original, text files"])

P("C26", "C interface answers equal the model's own answers",
  "Every query through the C interface returns the value the model itself holds: counts, dimensions, child ids, face counts, areas, centroids, containing face, material ids, mesh data, module sizes and slab heights. "
  "Ray intersections are returned complete and sorted, and the per-height listings contain every (item, slab thickness) combination in the model exactly once, ordered by thickness and then id.",
  ["inputs"],
  "All models and all valid ids, points and rays, for all four mesh types.",
  "The test queries one imported model; axis swaps and mesh-type switches are each one wrong branch away.",
  ["src/um2c.cpp", "include/um2c.h"],
  [("thin dispatch on mesh type", "src/um2c.cpp")],
  ["output parameters of every C function"])

# ------------------------------------------------------------------------ physics
P("C27", "Cross-section condensation, interpolation and mixing obey their formulas",
  "Total, averaged, temperature-interpolated and homogenised cross sections equal the defining weighted sums group by group: totals are absorption plus scattering, one-group averages preserve the group means and scattering balance, interpolation is exact at table temperatures, linear in the square root of temperature between neighbours and clamped outside, and a mixture is the density-weighted sum of its nuclides. "
  "A mixture is fissile exactly when one of its constituents is, and validation accepts every physically consistent set and rejects sets violating the stated sign rules.",
  ["inputs"],
  "All group counts, temperature tables, nuclide sets, densities and cell layouts.",
  "Tests use one nuclide or a fixed seven-group set; bracketing and weighting errors vanish for two temperatures or equal areas.",
  ["src/physics/cross_section.cpp", "src/physics/nuclide.cpp", "src/physics/material.cpp", "src/mpact/model.cpp"],
  [("collapse, interpolation, macroscopic sum, area-weighted homogenisation", "src/physics/*.cpp, src/mpact/model.cpp: getCoarseCellHomogenizedXSec")],
  ["cross-section vectors and matrices"])

P("C28", "Material composition helpers conserve mass and identify nuclides correctly",
  "Adding nuclides by number density, weight fraction or atom percent, and building uranium-oxide fuel from enrichment and gadolinia content, gives number densities whose total mass equals the stated density and whose proportions equal the stated fractions. "
  "Nuclide names are translated to the standard charge/mass identifier, every nuclide appears once with its density, and a nuclide that is unknown, repeated or given a non-positive amount is rejected with an error and does not enter the composition.",
  ["inputs", "histories"],
  "All densities, fractions, enrichments in the open interval, gadolinia contents, nuclide names of every element, and any order of additions.",
  "Tests check two compositions; element-table and per-isotope mass mistakes affect one nuclide at a time.",
  ["src/physics/material.cpp", "src/physics/nuclide.cpp", "include/um2/physics/material.hpp"],
  [("number density formulas, element table, duplicate checks", "src/physics/material.cpp, src/physics/nuclide.cpp")],
  ["nuclide lists, densities, logger errors"])

P("C29", "A cross-section library file is read to exactly the numbers it states",
  "Reading a library in the supported text format yields exactly its group bounds, fission spectrum, nuclides, masses, temperatures and, for each temperature and group, the absorption, fission, production, transport and scattering values and scattering band stated in the file. "
  "Sections the library does not use are skipped without affecting the others, lookups by nuclide id return the nuclide stated or fail, and a missing file, another version or a damaged section header is reported as an error.",
  ["inputs"],
  "All well-formed libraries: group counts including ones whose bounds wrap over lines, nuclide counts, temperature counts, banded scattering, fissile and non-fissile nuclides, extra sections.",
  "The reader is exercised by no test in this build, because the proprietary library files are absent.",
  ["src/physics/cross_section_library.cpp", "include/um2/physics/cross_section_library.hpp"],
  [("section-driven parser", "src/physics/cross_section_library.cpp")],
  ["library contents through getters"])

P("C30", "Extracted pin powers and sources equal the field integrals on the mesh",
  "For a mesh carrying a power density, extraction returns one entry per connected group of powered faces, whose power is the integral of the density over it and whose position is its area centroid, so the sum equals the total power. "
  "For a mesh carrying materials and group fluxes, extraction returns for each face its scattering and fission reaction sources from the material's cross sections.",
  ["inputs"],
  "All meshes of the four face types with any number of disconnected powered regions and any non-negative power values; all flux fields, group counts and material maps.",
  "No test runs this code in this build.",
  ["src/mpact/powers.cpp", "src/mpact/source.cpp"],
  [("region growing over shared vertices, area weighting", "src/mpact/powers.cpp"), ("per-group reaction rates", "src/mpact/source.cpp")],
  ["returned lists"])

# --------------------------------------------------------------------------- gmsh
P("C31", "CAD boolean operations keep named groups and material priority",
  "Fragmenting, intersecting or cutting CAD entities through the group-preserving operations leaves every named group of the operated dimension covering exactly the part of its original region that survives, and every surviving piece of an entity keeps that entity's groups. "
  "Where materials overlap, each piece ends with exactly one material, the one earliest in the given hierarchy, and overlaying the coarse grid labels every cell's region with its cell group and fills uncovered area with the fill material only. A rejected request is reported and changes nothing.",
  ["inputs"],
  "All arrangements of overlapping, nested and disjoint 2D shapes (and boxes in 3D for the plain operations), group memberships and material orders; all pin lattices and coarse grids.",
  "Tests check a few two-disk arrangements.",
  ["src/gmsh/model.cpp", "include/um2/gmsh/model.hpp"],
  [("group bookkeeping through the fragment map, material hierarchy resolution", "src/gmsh/model.cpp: groupPreservingFragment/Intersect/Cut, overlayCoarseGrid")],
  ["physical groups, entity areas and membership of sample points"])

P("C32", "CAD files with side information restore groups and colours",
  "Saving a CAD model with its side file and opening it in a new session restores every named group with the same geometric members and the colour of every surface and volume. "
  "Saving without side information writes none, opening without it restores no groups, and a missing file is reported and changes nothing.",
  ["inputs", "histories"],
  "All models: any number of entities with gaps in their numbering, groups of any size and dimension, any colours.",
  "Tests save one model with few entities; line wrapping every eight tags and renumbering of gapped tags need more.",
  ["src/gmsh/io.cpp"],
  [("tag compaction and 8-per-line side file", "src/gmsh/io.cpp: write, open, addPhysicalGroups")],
  ["groups and colours after reopening"])

P("C33", "From CAD to imported cell meshes, area and material are conserved",
  "Building a pin lattice, overlaying the coarse grid, meshing, exporting and importing into a model gives each coarse cell a conforming mesh that covers exactly its rectangle, whose faces carry the material present in the CAD model at that place. "
  "Curve-sided meshes reproduce circular material areas to second-order accuracy, and total areas per material equal the CAD areas to meshing accuracy. "
  "Mesh sizes requested from a mean-free-path (Knudsen) target give about the number of faces that target implies, finer where fuel or absorbers ask for it, and impossible targets are refused.",
  ["inputs"],
  "All lattices of concentric pins fitting their cells, coarse grids matching the lattice, four mesh types, a range of mesh sizes.",
  "Each stage is tested alone on one geometry; an index shift between stages is only visible end to end.",
  ["src/gmsh/model.cpp", "src/gmsh/mesh.cpp", "src/mesh/polytope_soup.cpp", "src/mpact/model.cpp"],
  [("lattice CAD builder", "src/gmsh/model.cpp: addCylindricalPinLattice2D"), ("mesh generation options", "src/gmsh/mesh.cpp: generateMesh"), ("import", "src/mpact/model.cpp: importCoarseCellMeshes")],
  ["areas per cell and material"])

# ----------------------------------------------------------------------- run time
P("C34", "Logging respects the level and reports the composed message faithfully",
  "At any level setting, exactly the messages at or below that level are recorded and printed, and a recorded message is the concatenation of its arguments' text in order. "
  "Errors stop the program only when configured to, and settings changed at run time take effect for the next message and survive resetting to defaults as documented.",
  ["histories", "inputs"],
  "All sequences of level changes and messages with mixed argument types of any length; a message that does not fit the documented buffer is cut short and keeps its beginning.",
  "Tests print one message per level.",
  ["src/common/logger.cpp", "include/um2/common/logger.hpp", "src/common/settings.cpp"],
  [("level filter and buffer writers", "include/um2/common/logger.hpp, src/common/logger.cpp")],
  ["last message, captured output, exit status"])

P("C35", "Optional build features do not change answers",
  "Building the library with or without vector-register storage, hardware bit instructions, external linear algebra or assertions gives the same results for the same inputs, up to rounding. "
  "Single precision gives the same geometric answers to single-precision accuracy.",
  ["configurations", "inputs"],
  "All supported combinations of the optional features, over generated geometry, grids, matrices and meshes.",
  "The test suite is built in one configuration only.",
  ["cmake/config.hpp.in", "include/um2/math/vec.hpp", "include/um2/math/morton.hpp", "include/um2/math/matrix.hpp", "src/math/matrix.cpp"],
  [("conditional compilation", "include/um2/math/vec.hpp, morton.hpp, src/math/matrix.cpp")],
  ["digest of results of one generated workload in each configuration"])

P("C36", "Crossing curved edges are found; faces crossing themselves are repaired",
  "Two curved edges report exactly the points where they meet, in whichever order and direction they are given. "
  "A quadratic face is reported as self-intersecting exactly when two of its edges cross other than at a common corner. "
  "Repair moves one middle vertex of a crossing edge by the reported amount and removes that crossing, or fails and changes nothing; validating a mesh leaves sound meshes untouched and accepts a mesh only when no face crosses itself, with corners, connectivity and extent unchanged.",
  ["inputs"],
  "All pairs of quadratic edges meeting at most twice and all quadratic triangles and quadrilaterals, away from tangency and near misses.",
  "Tests try a handful of stored faces; misses depend on the position of the crossing along both edges and on which pair of edges crosses.",
  ["include/um2/geometry/quadratic_segment.hpp", "include/um2/geometry/polygon.hpp", "src/mesh/face_vertex_mesh.cpp"],
  [("edge-edge intersection", "include/um2/geometry/quadratic_segment.hpp: intersect, intersects"), ("self-intersection", "include/um2/geometry/polygon.hpp: hasSelfIntersection, fixSelfIntersection"), ("mesh repair", "src/mesh/face_vertex_mesh.cpp: checkSelfIntersections")],
  ["meeting points, verdicts, moved vertices"])

P("C37", "Own versions of standard functions agree with the C++ standard",
  "The library's elementary functions (rounding, roots, exponential, logarithm, trigonometric, hyperbolic and inverse functions, absolute value, copied sign, multiply-add) and constants give the mathematical value to within a few units in the last place. "
  "Its minimum, maximum, clamp, comparison, search, copy, fill, counting, swap, construction and destruction functions and its pairs do what the standard's functions of the same name do, touching exactly the range given. "
  "Colours keep the components they are made from, fractions map onto the full range, two colours are equal exactly when all four components are, and named colours have their published values.",
  ["inputs"],
  "All finite arguments inside the domain of each function, in single and double precision; ranges of any length with repeated values.",
  "Tests try one or two arguments per function; a wrong branch shows only for some magnitudes, signs, ties or lengths.",
  ["include/um2/stdlib/math/", "include/um2/stdlib/algorithm/", "include/um2/stdlib/utility/pair.hpp", "include/um2/stdlib/cstring/", "include/um2/stdlib/memory/construct_at.hpp", "include/um2/common/color.hpp"],
  [("elementary functions", "include/um2/stdlib/math/*.hpp"), ("algorithms", "include/um2/stdlib/algorithm/*.hpp"), ("colours", "include/um2/common/color.hpp: Color, named colours")],
  ["returned values and changed ranges"])

P("C38", "The gmsh wrapper does what gmsh does",
  "Calling a function of the library's gmsh wrapper has the effect and the results of calling the gmsh function of the same name with the same arguments: every argument reaches its place, left-out arguments take gmsh's defaults, outputs, return values and errors come back unchanged.",
  ["inputs"],
  "Every function that the wrapper defines, with any arguments and any number of left-out optional arguments.",
  "The tests call three of about 350 functions; exchanged arguments of the same type compile.",
  ["src/gmsh/base_gmsh_api.cpp", "include/um2/gmsh/base_gmsh_api.hpp"],
  [("forwarding functions", "src/gmsh/base_gmsh_api.cpp"), ("default arguments", "include/um2/gmsh/base_gmsh_api.hpp")],
  ["arguments seen by gmsh, outputs and results seen by the caller"])

HARN = os.path.join(os.path.dirname(OUT), "harness")
with open(OUT, "w") as f:
    for p in props:
        if not os.path.exists(os.path.join(HARN, p["id"] + ".cpp")):
            continue  # not built yet
        f.write(json.dumps(p) + "\n")
print(sum(1 for _ in open(OUT)), "of", len(props), "properties")
