ASTX = "the AST/CFG clang 18 resolves with the project's flags is the program that is built; standard library behaves as specified"

p("C01", "Parallel embedding is free of data races",
  "Every parallel section (cell classification, seeding and merging of the flood fill, trimming of cells, creation of boundary conditions) gives shared memory to at most one thread at a time. "
  "What a worker writes to shared data is either written under mutual exclusion, atomically, by a single thread, or into a slot no other iteration uses, and nothing another worker may be writing is read without the same protection.",
  "schedules inputs", "every interleaving of the workers, any number of threads, every mesh and settings",
  "the tests run a few meshes under the schedules that happen to occur; a race shows up in almost none of them",
  "queso/embedded_model.cpp queso/embedding/flood_fill.cpp queso/embedding/brep_operator.cpp queso/embedding/trimmed_domain.h external_libraries/aabb_tree/AABB_base.cc",
  [("omp critical around insertion, per-thread partitions, omp single", "queso/embedded_model.cpp, queso/embedding/flood_fill.cpp")],
  tech="interprocedural effect analysis of OpenMP regions",
  note="Effects of every function reachable from each parallel region are computed bottom-up with access paths; each shared write must be protected or indexed by the iteration. Trusts: " + ASTX + "; external NNLS routine only touches its arguments.",
  observe=["EmbeddedModel results under OMP_NUM_THREADS > 1"])

p("C02", "Failures reach the caller as catchable exceptions",
  "Whatever the library reports as an error (bad input, malformed geometry, impossible configuration) leaves it as an exception the caller can catch. "
  "No exception leaves a parallel section, a destructor or a function declared not to throw, so no reported failure ends the process.",
  "inputs configurations fault_sequences", "every input, settings and failing call inside the library, with and without worker threads",
  "the tests provoke a handful of errors on the main thread; an error raised inside a worker or a destructor ends the process and is never provoked",
  "queso/embedded_model.cpp queso/embedding/flood_fill.cpp queso/io/binary_buffer_writer.hpp queso/containers/data_set.hpp",
  [("throwing macros with try/catch or absence of throws at the boundary", "queso/includes/exception.hpp, all parallel regions, destructors, noexcept functions")],
  tech="interprocedural exception-escape analysis",
  note="Escape sets over the call graph, stopped by handlers; every parallel region, destructor and non-throwing function is a boundary. Allocation failure is outside the property. " + ASTX)

p("C03", "Settings are validated before a model is computed",
  "A model is only ever computed from settings that passed validation: every required value is set (also in sub-dictionaries and in every condition), every axis has at least one cell, the polynomial orders lie between one and nine, the second reduced rule gets at least order two, and the generalised rules are refused outside orders two to four or without a B-spline grid. "
  "Settings that fail validation are refused with an error before anything is computed; all others are accepted.",
  "inputs configurations", "all combinations of grid kind, polynomial orders and integration method, with any value missing",
  "the combinations number in the thousands; the tests try a few and never the order of validation and use",
  "queso/utilities/check_dictionary_utilities.hpp queso/embedded_model.h queso/includes/dictionary_factory.hpp",
  [("settings check at construction", "queso/utilities/check_dictionary_utilities.hpp, queso/embedded_model.h")],
  tech="value numbering of the refusal condition + dominance on the CFG",
  note="The normal form of the condition under which the validation routine refuses is compared with the specification in every case; use-before-check is a CFG dominance query. " + ASTX)

p("C04", "Settings access with a wrong key or value type does not compile",
  "Compile-time access to settings and results through keys is type safe: setting or reading a value with another type than its key declares, reading a required value as optional or the other way round, using a key that leads to a sub-dictionary or list as a value key (and every other mix-up of the three), and using anything that is no key is rejected by the compiler; every correct access to every published key compiles. "
  "Through a read-only dictionary nothing below it can be changed.",
  "programs", "all client programs that access a dictionary or data set through typed keys",
  "tests only contain programs that compile; that the wrong ones are rejected is invisible to them",
  "queso/containers/dictionary.hpp queso/containers/data_set.hpp queso/includes/register_keys.hpp queso/includes/keys.hpp",
  [("static_asserts and constraints on key type tags", "queso/containers/data_set.hpp, queso/containers/dictionary.hpp")],
  tech="compile-fail witnesses checked by the type checker",
  note="Each witness is one client statement type-checked against the current headers, with and without assertions: every published key in correct use, and every kind of misuse once per distinct kind of key and value type (only one key per such kind: the access functions are templates over it). A key of another dictionary's set with the right type is rejected at run time by assertions only and is outside the property. " + ASTX)

p("C06", "A background grid holds each cell at most once under the id it asked for",
  "The background grid stores an element under exactly one id, in one of its two kinds (trimmed or untrimmed); inserting an id twice is refused and changes nothing, a look-up by id (filtered by kind or not) returns the element inserted under that id or nothing, and counts and ranges hold exactly the stored elements. "
  "Stepping from a cell in one of the six directions returns the id of the neighbouring cell and the element stored there, and reports the end at the end of a line and wherever nothing is stored.",
  "histories inputs", "every sequence of insertions, reservations and lookups",
  "tests insert a few regular patterns; duplicates across the two kinds and lookups of holes are barely touched",
  "queso/containers/background_grid.hpp", [("insertion into the two element containers and the id map", "queso/containers/background_grid.hpp")],
  tech="value numbering of enumerated insertion histories",
  note="the insertion, look-up, counting, range and traversal members are folded on every history of up to three insertions (kind, id, built or not); the element constructors and the cell indexer are folded with them, so each look-up is checked to return that very element; histories longer than three are not enumerated")

p("C07", "Every grid cell has one index, one box, and consistent neighbours",
  "Linear cell indices (first axis fastest) and per-axis indices convert into each other without loss for every cell; the box of a cell is its share of the grid in global space and, for B-spline grids, in parametric space (the whole parametric domain otherwise). "
  "Stepping to the next cell in any of the six directions visits the neighbouring cell inside a partition, then the start of the next line, and reports middle, end of line or end of partition exactly there.",
  "inputs", "all numbers of elements per axis, all cells, all sub-partitions of the grid, all six directions",
  "tests step through a few small fixed grids; the arithmetic must hold for every grid size and partition",
  "queso/containers/grid_indexer.hpp", [("index arithmetic and navigation", "queso/containers/grid_indexer.hpp")],
  tech="value numbering to polynomial normal forms",
  note="Holds for all sizes and positions: cell, partition and sizes are symbols in normal forms compared with the specification in each of the 64 orderings of a cell inside a partition; integer overflow and rounding are outside. " + ASTX)

p("C16", "Triangle measures and triangle quadrature are exact",
  "For any triangle the area, centre, unit normal and aspect ratio equal their geometric definitions. "
  "The boundary quadrature of each method consists of points inside the triangle with positive weights that add up to its area, carries the triangle's normal, and integrates every polynomial up to the method's degree (1, 2, 4, 6) exactly up to rounding.",
  "inputs", "all triangles, all integration methods, all polynomials up to the rule's degree",
  "tests integrate a few sample meshes to loose tolerances; a wrong digit or a permuted weight goes unnoticed",
  "queso/utilities/triangle_utilities.hpp queso/utilities/triangle_gauss_legendre_integration_points.hpp",
  [("triangle formulas and rule tables", "queso/utilities/triangle_utilities.hpp, queso/utilities/triangle_gauss_legendre_integration_points.hpp")],
  tech="value numbering + constant-table evaluation",
  note="Formulas are compared as normal forms over symbolic corners; rule constants are read from the source and their moments computed exactly (tolerance 1e-13). Real arithmetic. " + ASTX)

p("C17", "Builds with and without assertions compute the same",
  "Assertions only observe: evaluating their conditions and messages changes nothing, and apart from the assertions (and debug-only statements without effect) every function does the same in builds with and without assertions.",
  "programs configurations", "every assertion, every function of the library and of its search tree, both build configurations",
  "the tests run in one build configuration; a statement that exists only in the other one is never executed",
  "queso/includes/assert.hpp queso/containers/background_grid.hpp queso/containers/data_set.hpp queso/containers/dictionary.hpp external_libraries/aabb_tree/AABB_base.cc",
  [("QuESo_ASSERT and assert, NDEBUG", "queso/includes/assert.hpp")],
  tech="interprocedural effect analysis + structural comparison of the two builds' programs",
  note="Functions are taken from the library's own translation units and bindings; templates that nothing instantiates are not seen. Effects of functions outside the project are taken from a table of standard functions. " + ASTX)

p("C19", "Global and parametric cell maps are inverse affine maps",
  "For every cell the map between global and parametric space is the axis-wise affine map of one box onto the other, mapping a point there and back returns it, and corners map to corners. "
  "Volume weights scale by the ratio of the cell volumes, boundary weights and normals by the induced area scaling, and the global integration points an element hands out are the mapped stored ones.",
  "inputs", "all non-degenerate cell boxes, points, weights and normals",
  "tests map a few points of a few boxes, mostly with equal extents on all axes",
  "queso/utilities/mapping_utilities.hpp queso/containers/element_base.hpp queso/containers/element_view.hpp",
  [("affine map and area-vector transformation", "queso/utilities/mapping_utilities.hpp")],
  tech="value numbering to rational normal forms",
  note="Real arithmetic over symbolic boxes of positive size; degenerate boxes and rounding are outside. " + ASTX)

p("C21", "Results depend on the arguments only; read-only inputs are never changed",
  "No function keeps mutable state in variables of static or thread lifetime, and constants initialised at first use do not depend on the call that came first, so a result never depends on what was computed before. "
  "Const member functions and read-only (const) arguments leave the object unchanged except for caches and validation flags that never alter what it stands for; clocks are consulted by the timer only and random numbers by the ray tests only.",
  "histories inputs", "every function of the library and of the bindings, every sequence of calls",
  "a test calls a function once or twice in one order; a result that depends on an earlier call, or an input that is modified, needs a particular history to show",
  "queso/containers/cell_domain.hpp queso/containers/data_set.hpp queso/utilities/triangle_gauss_legendre_integration_points.hpp queso/quadrature/integration_points_1d/integration_points_factory_1d.h queso/includes/timer.hpp",
  [("const qualification; mutable only for a cached mesh and a validation flag", "queso/containers/cell_domain.hpp, queso/containers/data_set.hpp")],
  tech="interprocedural effect analysis of const members, read-only arguments and static storage",
  note="A mutable member is accepted when it is set to a constant or filled under a test of itself from values every caller takes from the object itself. Effects of functions outside the project are taken from a table of standard functions. " + ASTX)

p("C25", "Moment-fitting basis is Legendre and its integrals are antiderivatives",
  "The polynomials used for moment fitting on an interval are the Legendre polynomials of that interval for every order up to eight, and the accompanying integral functions are antiderivatives of exactly these polynomials, so volume moments computed from boundary integrals are consistent with the fitted basis.",
  "inputs", "all orders, all intervals, all evaluation points",
  "tests compare a few orders by numeric integration on sample intervals with tolerances",
  "queso/utilities/polynomial_utilities.hpp", [("closed forms per order", "queso/utilities/polynomial_utilities.hpp")],
  tech="value numbering and symbolic differentiation of normal forms",
  note="Exact rational identity per order over symbolic point and interval; rounding is outside. " + ASTX)

p("C15", "One-dimensional quadrature rules integrate their spaces exactly",
  "Every one-dimensional rule the library offers has increasing points inside [0,1], positive weights, and integrates the space it is meant for exactly up to rounding of the tables. "
  "The Gauss methods integrate every polynomial up to degree 2n-1 with n = order+1, order and order-1 points; the generalised Gauss methods of order two, three and four integrate, for any number of equal knot spans, every spline of degree 2p, 2p-1 and 2p-2 with continuity p-2, and asking for a rule outside these orders raises an error.",
  "inputs configurations", "all orders and methods; generalised rules for 1 to 40 knot spans and samples up to 602 (more in the thorough check)",
  "the tests integrate splines on up to a hundred spans; larger numbers of spans, single table entries and the reduced variants at the borders of the tables are not reached",
  "queso/quadrature/integration_points_1d/gauss_legendre_integration_points.cpp queso/quadrature/integration_points_1d/integration_points_factory_1d.cpp queso/quadrature/integration_points_1d/precomputed_ggq_rules_optimal.cpp queso/quadrature/integration_points_1d/precomputed_ggq_rules_reduced1.cpp queso/quadrature/integration_points_1d/precomputed_ggq_rules_reduced2.cpp",
  [("tables of points and weights, composition of rules for many spans", "queso/quadrature/integration_points_1d")],
  tech="constant propagation and exact evaluation of constant tables",
  note="Rules are folded from the source's tables by constant propagation and checked in exact rational arithmetic against moments of a basis of the space with tolerance 1e-13 relative. Numbers of spans are sampled. " + ASTX)

p("C26", "Untrimmed cells carry the tensor product of the one-dimensional rules",
  "With a Gauss method every untrimmed cell carries exactly the points of the tensor product of the one-dimensional rules of the orders set per axis, mapped affinely onto its parametric box, with weights times its lengths. "
  "With a generalised method the untrimmed cells are partitioned into boxes of adjacent cells, never reaching across the end of a grid row or over trimmed or empty cells, and each cell carries exactly those points of its box's tensor-product rule that lie in it.",
  "inputs configurations", "all cell boxes; orders and methods; grids with holes and ragged borders up to 12 cells (more in the thorough check)",
  "the tests compare volumes of a few full grids; anisotropic orders, borders of boxes and ragged sets of cells are rarely met",
  "queso/quadrature/single_element.hpp queso/quadrature/multiple_elements.hpp queso/embedding/element_builders.hpp queso/containers/background_grid.hpp",
  [("tensor product per cell", "queso/quadrature/single_element.hpp"), ("growth of boxes and assembly on boxes", "queso/quadrature/multiple_elements.hpp")],
  tech="value numbering to polynomial normal forms",
  note="Cell bounds are symbols; orders, methods and the pattern of untrimmed cells are enumerated. Boxes may be chosen in any way as long as they partition the cells. " + ASTX)

p("C12", "References, views and ranges stay valid while their owner lives",
  "No function returns, stores or keeps in a local variable a reference, view, iterator, range or closure that refers to a local or temporary object that has ended, and the ranges views hand out refer to the element, never to the view. "
  "Classes that refer to their own storage re-create these references when they are copied or moved, no reference or iterator into a container is used after the container was changed, and nothing is used after it was moved from. "
  "Objects the Python bindings hand out keep alive what they refer to, also when the user drops every other reference.",
  "histories inputs", "every function of the library and the bindings, on every path; every sequence of calls from Python",
  "a dangling reference usually still reads the old bytes, so a test passes; it needs a particular order of destruction, growth of a container or garbage collection to show",
  "queso/containers/background_grid.hpp queso/containers/element_view.hpp queso/containers/triangle_mesh_view.hpp queso/embedding/trimmed_domain.h queso/embedded_model.h queso/embedded_model.cpp queso/python/bindings/add_containers_to_python.cpp queso/python/bindings/define_python.hpp",
  [("views hold references to elements owned by the grid", "queso/containers/element_view.hpp"), ("query over the own mesh, re-created on move", "queso/embedding/trimmed_domain.h"), ("keep_alive and reference_internal", "queso/python/bindings/add_containers_to_python.cpp")],
  tech="interprocedural dependence (lifetime) analysis",
  note="References are tracked per variable and per function summary, not per heap object; a caller that changes the owner of a view it keeps is outside. One class appends within a capacity it reserves up front (listed with its reason). " + ASTX)

p("C29", "Mesh measures, merging, refinement and box meshes are consistent",
  "A mesh hands out the vertices, triangles and normals it was given; its area is the sum of its triangles' areas, its volume the absolute sum of normal times centre times area over three (along one axis: without the division), its bounding box the smallest box of its triangles, and its aspect ratios the largest and the mean of its triangles'. "
  "Appending yields the old mesh followed by the new one; refining reaches the number of triangles asked for and changes neither the surface nor the normals; removing a triangle removes that one only. "
  "A box mesh is closed, oriented outward and encloses the box, and the quality estimate vanishes on closed meshes and is large when a triangle is missing or a normal is flipped.",
  "inputs", "measures, merging and box meshes: all coordinates and normals; refinement, boxes and quality: enumerated meshes",
  "the tests measure a few STL files to loose tolerances and never look at single vertices, normals or open meshes",
  "queso/utilities/mesh_utilities.cpp queso/containers/triangle_mesh.hpp queso/containers/triangle_mesh_view.hpp",
  [("mesh measures and editing", "queso/utilities/mesh_utilities.cpp"), ("uniform access to own and foreign meshes", "queso/containers/triangle_mesh_view.hpp")],
  tech="value numbering to polynomial normal forms",
  note="Measures, merging and box meshes are compared as normal forms over symbolic vertices and normals for up to three triangles; refinement, bounding boxes, ratios and the quality estimate are folded exactly on enumerated concrete meshes. Real arithmetic. " + ASTX)

p("C05", "New dictionaries hold the documented defaults; required values are checked",
  "A new dictionary of each kind (settings, condition settings, model info, condition info), created directly or by name, has exactly the published keys and sub-dictionaries, empty lists, the documented defaults and nothing else set; an unknown name is an error. "
  "The check for required values refuses a dictionary exactly when a required value, a sub-dictionary or a list entry is missing, at any depth, and accepts it otherwise.",
  "inputs configurations", "all kinds of dictionaries, all keys, each missing value at any depth and position",
  "the tests build a few dictionaries and leave out a few values; a lost default or an unchecked list entry shows up as a crash much later",
  "queso/includes/dictionary_factory.hpp queso/includes/register_keys.hpp queso/containers/dictionary.hpp queso/containers/data_set.hpp",
  [("creators and registry", "queso/includes/dictionary_factory.hpp"), ("recursive check", "queso/containers/dictionary.hpp")],
  tech="value numbering of creation and validation",
  note="Creation, look-up by name and the check are folded to constants on the published key table; each missing item is tried alone, list entries in lists of two. " + ASTX)

p("C08", "Access by name and typed access address the same settings and results",
  "Setting a value by name stores exactly that value under the key typed access uses, or raises an error and changes nothing: integers are accepted for real values, integer vectors for real vectors and non-negative signed integers for unsigned ones, as the same numbers; every other difference of type is refused. "
  "Reading by name returns the value set by either way and raises an error for unset values, unknown keys and other types; nested dictionaries and lists are the same objects by both ways.",
  "inputs configurations", "all kinds of dictionaries, all published keys, all types of values, all values",
  "the tests set and read a handful of keys with matching types; most pairs of key and type and the preservation of other entries are never tried",
  "queso/containers/data_set.hpp queso/containers/dictionary.hpp queso/includes/keys.hpp queso/includes/register_keys.hpp",
  [("access by name", "queso/containers/data_set.hpp, queso/containers/dictionary.hpp"), ("key tables", "queso/includes/register_keys.hpp")],
  tech="value numbering of the access functions",
  note="Values are symbols (texts: constants); dictionaries are in their initial state. Signed integers: negative, zero and positive constants and any non-negative number. " + ASTX)

p("C13", "Exported STL and VTK files describe the model they are written from",
  "Writing a mesh (directly or through a view), the triangles of a condition, the elements of a grid or their integration points, in ASCII or binary, yields a file of the format's exact layout: right counts, every vertex, normal, cell corner, point and weight once and in order (in global space), the right indices and cell types, sizes and byte order of the format (STL little-endian single precision, VTK big-endian double precision), and at least 6 (STL) or 15 (VTK) decimals in ASCII. "
  "A file that cannot be opened or written is reported as an error. "
  "The buffered binary writer delivers every byte once and in order, for every size of its buffer.",
  "inputs fault_sequences", "all coordinates and weights; meshes, grids and conditions of up to three parts, empty ones included; sizes of the buffer relative to what is written",
  "the tests write a few files and compare their sizes or read some back; headers, byte order, indices, more data than the buffer holds and failing files go unseen",
  "queso/io/io_utilities.cpp queso/io/io_utilities.tpp queso/io/binary_buffer_writer.hpp",
  [("writers", "queso/io/io_utilities.cpp, queso/io/io_utilities.tpp"), ("buffering and byte order", "queso/io/binary_buffer_writer.hpp")],
  tech="value numbering of the writers",
  note="The sequence written to the stream is folded with symbolic coordinates and weights and compared with the file format; standard streams are modelled by their specification. The buffered writer is folded on its own with its buffer modelled byte by byte. " + ASTX)

p("C14", "Reading an STL file yields its triangles; damaged files are refused",
  "Reading a binary or ASCII STL file replaces the mesh by the triangles of the file, in order, each with its three corners in order and the normal of its corners (whatever normal the file states), with vertices at the same position stored once and all others apart. "
  "A file that cannot be opened, a binary file that ends before its last triangle does, and an ASCII file in which a facet is cut off or lacks a keyword line or a coordinate of a vertex are refused with an error.",
  "inputs fault_sequences", "all positions of enumerated meshes of up to four triangles; every byte a binary file can end at, every line of an ASCII facet",
  "the tests read a few intact files and compare numbers of triangles; truncated files and single missing lines are never read",
  "queso/io/io_utilities.cpp queso/io/io_utilities.h", [("readers", "queso/io/io_utilities.cpp"), ("comparison of positions", "queso/io/io_utilities.h")],
  tech="value numbering of the readers",
  note="Files are sequences of bytes of symbols; meshes are one symbolic position plus constant offsets far above the tolerance, so merging of vertices that differ by about the tolerance is outside, as is which encoding is chosen for odd headers. Real arithmetic. " + ASTX)

p("C27", "The octree of a trimmed cell divides it exactly and keeps the points inside",
  "Refining an octree divides a cell into its eight halves in global and in parametric space alike; every cell below the minimum level is divided, between the minimum and the maximum level only trimmed ones, and halves that lie outside are left out. "
  "The integration points are, for every leaf, the tensor-product Gauss points of the leaf's parametric box with weights times its size: all of them in leaves that lie inside, and in the others exactly those whose image in global space is inside the domain. "
  "The numbers of leaves and nodes match the tree, also when it is refined again, and a minimum level above the maximum is refused with an error.",
  "inputs histories", "all boxes in both spaces; enumerated sequences of refinements up to level 3 (4 in the thorough check), classifications of cells and points, and orders",
  "the tests refine the tree of one or two bodies and compare sums of weights; wrong children in one space only, repeated refinement and anisotropic boxes go unseen",
  "queso/embedding/octree.cpp queso/embedding/octree.h", [("children of a node, points of a leaf", "queso/embedding/octree.cpp, queso/embedding/octree.h")],
  tech="value numbering of enumerated refinements",
  note="The geometric predicates are stand-ins that record the box or point they are asked about and answer as the scenario says; boxes are symbols. " + ASTX)

p("C18", "Containers, tables and pointers are only used within their bounds",
  "No function of the library, called through its public interface with any valid input, reads or writes outside the container, table or object it refers to. "
  "Indices that callers supply are checked or belong to the documented preconditions that assertions state.",
  "inputs", "every mesh, grid, settings and point",
  "an index out of range often reads plausible data in the tests",
  "queso/embedding/aabb_tree.cpp queso/embedding/clipper.cpp queso/embedding/trimmed_domain_on_plane.cpp queso/quadrature/trimmed_element.hpp queso/utilities/polynomial_utilities.hpp",
  [("subscripts guarded by assertions", "queso/utilities/math_utilities.hpp, queso/containers")],
  na="Most subscripts come from data whose bound is an invariant of the geometry (vertex ids of clipped polygons, edges of intersection curves, node links of the tree, columns of the moment matrix); no sound static argument in reach bounds them, and a lint of the rest would either alarm on correct code or prove next to nothing. Subscripts in code other checks fold (C05-C08, C13-C16, C19, C25-C29) are checked there. Three defects found by reading were repaired, see known_findings.txt.")

p("C22", "Cells and points are classified correctly as inside, outside or trimmed",
  "For every closed mesh, IsInside tells on which side of the surface a point lies, and every cell is inside, outside or trimmed exactly as the surface lies. "
  "The flood fill gives each cell the state a direct classification of that cell gives.",
  "inputs", "every closed mesh, every cell and point",
  "tests classify samples of a few meshes", "queso/embedding/brep_operator.cpp queso/embedding/flood_fill.cpp queso/embedding/aabb_tree.cpp queso/embedding/ray_aabb_primitive.cpp",
  [("ray casting with random directions, groups of cells merged by neighbourhood", "queso/embedding/brep_operator.cpp, queso/embedding/flood_fill.cpp")],
  na="The answer depends on the geometry of the mesh (a Jordan-curve argument over all triangles, with floating-point ray tests and retries along random directions); no abstraction of the source decides it without executing the geometry.")

p("C23", "Clipped and trimmed meshes are watertight and exact",
  "The part of the surface inside a cell plus the closures on the six faces of the cell form a closed mesh whose volume is that of the intersection. "
  "Clipping a triangle at a box yields exactly the part inside the box.",
  "inputs", "every mesh and every cell", "tests sum volumes and areas of a few meshes",
  "queso/embedding/clipper.cpp queso/embedding/polygon.cpp queso/embedding/trimmed_domain.cpp queso/embedding/trimmed_domain_on_plane.cpp",
  [("Sutherland-Hodgman clipping, closing edges on planes", "queso/embedding/clipper.cpp, queso/embedding/trimmed_domain_on_plane.cpp")],
  na="Quantifies over positions of vertices relative to planes with snapping tolerances and an unbounded number of edges per plane; the control flow depends on runtime coordinates everywhere, so normal forms and dataflow facts say nothing about the resulting set of triangles.")

p("C24", "Trimmed cells integrate the moments to the requested residual",
  "Moment fitting returns points inside the trimmed domain with non-negative weights that reproduce its moments up to the residual asked for; the non-negative least-squares solution is optimal, and point elimination terminates with the smallest set it can reach.",
  "inputs", "every trimmed cell, order and residual", "tests integrate a few bodies",
  "queso/quadrature/trimmed_element.hpp queso/solvers/nnls.h external_libraries/nnls/nnls_impl.cpp",
  [("non-negative least squares, point elimination", "queso/quadrature/trimmed_element.hpp")],
  na="A numerical convergence property of an iterative solver (vendored) on runtime data; nothing about residuals or optimality is decidable from the source without executing it.")
