#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the text is diffable and re-generable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
              "why_tests_cant":why,"anchors":a})

p("C01","Parallel matrix assembly equals the serial sum under every schedule",
  "Assembling a global sparse matrix in parallel over an element coloring (computed by the library or any other valid one) yields, for every number of threads and every work-stealing schedule, exactly the sum over all elements of their local matrices scattered to the elements' nodes, which is also what serial assembly yields. Every element is assembled exactly once per assembly, and two elements that share a node are never being assembled at the same time. Assembling again into the same matrix replaces (create) or accumulates (in place) exactly as the serial assembler does.",
  ["schedules","inputs","histories"],"all meshes / element-node lists (including elements with no nodes and isolated nodes), solution dimensions, thread counts, split orders and repeated assemblies",
  "Tests run a handful of meshes on whatever schedule rayon happens to choose; a lost barrier between colors or a wrong offset only shows on particular schedules or connectivities.",
  ["src/assembly/global.rs","fenris-paradis/src/lib.rs","fenris-paradis/src/coloring.rs","fenris-sparse/src/sparse.rs"],
  [("color-by-color parallel loop","src/assembly/global.rs CsrParAssembler::assemble_into_csr"),("disjoint subset iterator over row/value access","fenris-paradis/src/lib.rs DisjointSubsetsParIter"),("row scatter","src/assembly/global.rs add_element_row_to_csr_row")],
  state=[("colors","partition of element indices into groups that may run concurrently","src/assembly/global.rs color_nodes"),("global values","shared sparse matrix values","fenris-sparse ParallelCsrRowAccess")],
  observe=["returned CsrMatrix","order of calls into the user-supplied element assembler"])

p("C02","Element coloring is a race-free partition",
  "Greedy coloring of any collection of index subsets assigns every subset to exactly one color, carrying the subset's own position as its label and its indices unchanged. No two subsets of one color share an index, no color is empty, and the number of colors never exceeds the number of subsets. Each color remembers the true maximum of its indices, so that using it with storage of that length or smaller is rejected and with larger storage is accepted.",
  ["inputs"],"all finite lists of index lists, including repeated indices inside a list, empty lists, and large gaps between indices",
  "The one property test samples up to ten random subsets and never checks labels or the bound used for the unchecked accesses.",
  ["fenris-paradis/src/coloring.rs","fenris-paradis/src/lib.rs","src/assembly/global.rs"],
  [("last-visited-color table and postponed list","fenris-paradis/src/coloring.rs sequential_greedy_coloring"),("unchecked constructor","fenris-paradis/src/lib.rs from_disjoint_subsets_unchecked")],
  observe=["returned list of colors","panic/no panic of the parallel iterator constructor"])

p("C03","Disjoint-subset parallel iteration visits each subset once under any split",
  "Iterating a family of disjoint subsets in parallel delivers every subset exactly once, in index order within each sequential piece, with its own label and indices, no matter how the iterator is split, consumed from either end, or distributed over threads; each delivered subset reads and writes exactly the storage records (or blocks of records) it names. Families that are not disjoint are rejected at construction, and storage that is too small is rejected before any access. Every legal way of splitting or truncating the iterator, including splits at either end and families whose subsets are all empty, works without a panic.",
  ["schedules","inputs"],"all families of subsets, all split trees and front/back consumption orders, all block sizes and storage lengths",
  "Unit tests exercise a few fixed splits; rayon never drives the rare split positions and the interleaving front/back consumption during a unit test.",
  ["fenris-paradis/src/lib.rs","fenris-paradis/src/adapter.rs","fenris-paradis/src/slice.rs","fenris-sparse/src/sparse.rs"],
  [("split_at and range bookkeeping","fenris-paradis/src/lib.rs DisjointSubsetsProducer"),("double-ended iterator","fenris-paradis/src/lib.rs DisjointSubsetsIter"),("block index mapping","fenris-paradis/src/adapter.rs"),("disjointness check","fenris-paradis/src/lib.rs try_from_disjoint_subsets"),("row access","fenris-sparse/src/sparse.rs")],
  observe=["items yielded by the public parallel iterator","storage contents afterwards","constructor result"])

p("C04","Sparsity pattern is exactly the set of element couplings",
  "The assembled sparsity pattern contains an entry (row, column) if and only if some element contains both the node of the row and the node of the column, for every component pair of the solution dimension. Rows are sorted without duplicates, nodes that belong to no element give empty rows, and the serial and parallel assemblers return identical patterns for every input and thread count, also when the assembler is reused for different inputs.",
  ["inputs","schedules","histories"],"all element-node lists (repeated nodes, isolated nodes, zero elements, zero-node elements), solution dimensions and thread counts",
  "Only one or two hand-written connectivities and a random sample of small ones are compared today, mainly serial.",
  ["src/assembly/global.rs"],
  [("serial pattern","src/assembly/global.rs CsrAssembler::assemble_pattern"),("parallel pattern","src/assembly/global.rs CsrParAssembler::assemble_pattern")],
  observe=["returned SparsityPattern"])

p("C05","Vector and scalar assembly are exact sums over elements",
  "Assembling a global vector adds, for every element, its local vector to the entries owned by the element's nodes (component-interleaved per node) and nothing else, starting from zero when creating and from the present content when accumulating in place; assembling a scalar returns the sum of the element scalars. Serial and colored parallel vector assembly agree for every thread count, and gathering a global vector to an element and adding a local one back address exactly the same entries.",
  ["inputs","schedules","histories"],"all element-node lists and solution dimensions, initial contents, thread counts and repeated use of one assembler",
  "Tests compare a few meshes of one element type; offsets and component interleaving for unusual connectivities and reuse histories are unexplored.",
  ["src/assembly/global.rs"],
  [("local-to-global add","src/assembly/global.rs add_local_to_global"),("gather","src/assembly/global.rs gather_global_to_local"),("serial/parallel vector assembler","src/assembly/global.rs VectorAssembler / VectorParAssembler"),("scalar sum","src/assembly/global.rs assemble_scalar")],
  observe=["returned vectors and scalars"])

p("C06","Homogeneous Dirichlet conditions decouple exactly the prescribed unknowns",
  "Applying homogeneous Dirichlet conditions for a set of nodes zeroes every off-diagonal entry in the rows and columns of all components of those nodes, leaves a strictly positive diagonal there, and leaves every other entry and the sparsity pattern untouched; the right-hand side is zeroed on exactly those components. Sparse and dense variants agree, the order and repetition of nodes do not matter, and applying the conditions a second time changes no entry outside the prescribed diagonals and keeps the system decoupled.",
  ["inputs","histories"],"all square structurally symmetric patterns that store the diagonal, all values, node sets, node orders with repetition, and component counts",
  "Existing tests apply one node list to a small matrix; column clearing relies on the row pattern and a scale found by scanning the diagonal.",
  ["src/assembly/global.rs"],
  [("row/column clearing and diagonal scale","src/assembly/global.rs apply_homogeneous_dirichlet_bc_csr"),("dense variant","src/assembly/global.rs apply_homogeneous_dirichlet_bc_matrix"),("rhs variant","src/assembly/global.rs apply_homogeneous_dirichlet_bc_rhs")],
  observe=["matrix and vector contents after the call"])

p("C07","A failing element always surfaces as an error, and assemblers stay usable",
  "If the local assembly of any element fails, global assembly of the matrix, vector or scalar returns an error that one of the failing elements produced, for serial and parallel assemblers alike and under every schedule; it never reports success, hangs or panics. If no element fails, it never returns an error. After a failed assembly the same assembler object still produces correct results for later inputs.",
  ["fault_sequences","schedules","histories"],"all subsets of failing elements, all element orders and colorings, thread counts, and success/failure histories of one assembler",
  "No test injects an element failure into a parallel assembly, let alone every position, or reuses the assembler afterwards.",
  ["src/assembly/global.rs"],
  [("error propagation","src/assembly/global.rs (try_for_each in parallel assemblers, ? in serial ones)"),("reused workspaces","src/assembly/global.rs RefCell/ThreadLocal workspaces")],
  observe=["Result of the assemble calls and contents after recovery"])

p("C08","A nested vector behaves as a sequence of independent sequences",
  "After any history of pushing arrays, appending to an incrementally built array, clearing, cloning, converting and serialising, a nested vector is observationally equal to the plain sequence of sequences built by the same history: same length, same element counts, and the same contents through indexed, mutable, first/last, iterator and flattened access. Out-of-range queries return nothing, iterators report exact lengths, and mutating one array never changes another.",
  ["histories","inputs"],"all operation sequences over all element values, including empty arrays and empty incremental arrays",
  "Two short example tests exist; offset bookkeeping errors need particular sequences (empty arrays, clear then push) to show.",
  ["fenris-nested-vec/src/lib.rs"],
  [("offset/data arrays","fenris-nested-vec/src/lib.rs NestedVec"),("incremental array","fenris-nested-vec/src/lib.rs begin_array / push_single / drop")],
  observe=["public accessors"])

p("C09","Boundary extraction finds exactly the faces that belong to one cell",
  "For every mesh the boundary faces are exactly the cell faces whose vertex set occurs in only one cell, each reported once with the face as that cell orients it and with the right cell and local face index; boundary cells are exactly the cells owning such a face, each listed once, and boundary vertices are exactly the vertices of such faces. The extracted surface mesh has one face per boundary face, keeps coordinates and orientation, and contains no unused vertex.",
  ["inputs"],"all meshes of all cell types with faces, including several components, holes, single cells, and vertices ordered differently in adjacent cells",
  "Tests check a few structured meshes by snapshot; face matching up to rotation and reflection over arbitrary cell numbering is sampled at isolated points only.",
  ["src/mesh.rs","src/connectivity.rs"],
  [("sorted-face hash map","src/mesh.rs find_boundary_faces / find_boundary_cells / find_boundary_vertices"),("surface extraction","src/mesh.rs extract_surface_mesh"),("face tables","src/connectivity.rs get_face_connectivity")],
  observe=["returned faces, cells, vertices and surface mesh"])

p("C10","Keeping a subset of cells preserves those cells and nothing else",
  "Restricting a mesh to a list of cells gives, in the requested order, cells whose vertices have exactly the coordinates they had before, in the same local order; two kept cells share a vertex exactly if they shared it before; and every remaining vertex is used by some kept cell. The same holds for restricting polyhedral meshes, where additionally faces shared before stay shared.",
  ["inputs","histories"],"all meshes and all lists of cell indices in range, including empty, unsorted and repeated ones, and repeated restriction",
  "Example tests keep a fixed cell list from one mesh; relabelling errors appear only for particular vertex usage patterns.",
  ["src/mesh.rs","fenris-geometry/src/polymesh.rs"],
  [("vertex relabelling","src/mesh.rs keep_cells"),("poly relabelling","fenris-geometry/src/polymesh.rs keep_cells")],
  observe=["resulting mesh"])

p("C11","Uniform refinement is a conforming subdivision",
  "Uniform refinement of a triangle mesh replaces each triangle by four similar children, consecutive in the order of the parents, that keep its orientation, have equal shares of its area and together cover it exactly; every edge midpoint becomes one vertex shared by all cells around that edge, so that the refined mesh has no duplicate or unused vertices and no hanging nodes. Original vertices used by cells keep their coordinates and appear exactly once; the boundary of the refined mesh is the refinement of the boundary, and refining n times at once equals refining n times in sequence.",
  ["inputs","histories"],"all triangle meshes (the only cell type with a refinement), arbitrary vertex numbering and local orientation, any number of refinement steps",
  "Snapshot tests refine a few fixed meshes; sharing of midpoints across differently numbered and oriented neighbours is combinatorial.",
  ["src/mesh/refinement.rs","src/mesh/refinement/detail.rs"],
  [("edge-midpoint map","src/mesh/refinement/detail.rs"),("refine_uniformly","src/mesh/refinement.rs")],
  observe=["refined mesh"])

p("C12","Element-type conversion is conforming and follows the node-order contract",
  "Converting a mesh to a higher-order or different cell type keeps the number of cells (or, for quadrilaterals to triangles and hexahedra to tetrahedra, splits each cell into positively oriented pieces that fill it exactly and match across cells), places every new node at the geometric position that the target type's node numbering prescribes, and creates each shared edge, face or interior node exactly once for all cells around it. Conversion to a higher order and back to the linear type returns the original cells, and conversion leaves no node duplicated or, beyond vertices no cell used before, unused.",
  ["inputs"],"all meshes of the source types with arbitrary numbering and local orientation of neighbours",
  "Tests convert two-cell meshes with fixed numbering; conformity depends on how neighbours number a shared edge or face.",
  ["src/mesh_convert.rs","src/connectivity.rs","src/element"],
  [("edge/face node maps","src/mesh_convert.rs"),("hex to tet via polyhedral mesh","src/mesh_convert.rs"),("node numbering","src/element/*.rs reference nodes")],
  observe=["converted mesh"])

p("C13","Reordering is a bijective relabelling that preserves the mesh",
  "Permutations are accepted exactly when they are bijections of their index range and are rejected with an error (not a panic) otherwise; applying one and its inverse in either order restores the data. Reordering a mesh yields an isomorphic mesh: every cell keeps its geometry and local vertex order, cells and vertices are only renumbered, and (reverse) Cuthill-McKee of any symmetric sparsity pattern, connected or not, returns a permutation of all its nodes that numbers each component breadth-first with the new neighbours of a node in order of increasing degree.",
  ["inputs","histories"],"all index lists, all symmetric patterns including disconnected graphs, isolated nodes and self-loops, all meshes",
  "Existing tests reorder a couple of small graphs; disconnected graphs, invalid index lists and cell order are not covered.",
  ["src/mesh/reorder.rs","src/mesh.rs"],
  [("permutation validation and inverse","src/mesh/reorder.rs Permutation"),("reverse Cuthill-McKee","src/mesh/reorder.rs cuthill_mckee"),("mesh reordering","src/mesh/reorder.rs MeshPermutation / reorder_mesh_par")],
  observe=["permutation, reordered mesh, error result"])

p("C14","Procedurally generated meshes tile their domain conformingly",
  "Every procedurally generated rectangular or cuboid mesh consists of positively oriented cells that tile exactly the requested box with the requested number of cells per axis, share every vertex, edge and face between neighbours without duplicates, and contain no unused vertex; its boundary faces lie on the box surface and cover it. Requests for zero cells along any axis give an empty mesh, and scaled, shifted and resolution variants are consistent with each other.",
  ["inputs","configurations"],"all cell counts per axis, cell sizes, offsets, and all supported cell types (triangles, quadrilaterals, tetrahedra, hexahedra)",
  "Snapshot tests cover a few sizes; strides that mix up axes only show for unequal counts, and degenerate counts are untested.",
  ["src/mesh/procedural.rs"],
  [("index arithmetic","src/mesh/procedural.rs create_rectangular_uniform_*"),("tetrahedral subdivision","src/mesh/procedural.rs create_rectangular_uniform_tet_mesh")],
  observe=["generated mesh"])

p("C15","Quadrature tables return each element its own rule and data",
  "A quadrature table hands out, for every element, exactly the points, weights and per-point data that were supplied for that element, independently of how it stores them (one rule for all, a rule per element, or deduplicated rules with an element-to-rule map), and reports the matching sizes. Replacing the data keeps points and weights, inconsistent construction is rejected, and in-range queries never depend on previous queries.",
  ["inputs","histories"],"all numbers of elements, rules of different sizes including empty ones, data assignments and query orders",
  "Tests build one or two tables; offset arithmetic for rules of different sizes and data replacement are only sampled.",
  ["src/assembly/local/quadrature_table.rs","src/assembly/buffers.rs"],
  [("general table","src/assembly/local/quadrature_table.rs GeneralQuadratureTable"),("uniform table","src/assembly/local/quadrature_table.rs UniformQuadratureTable"),("compact table","src/assembly/local/quadrature_table.rs CompactQuadratureTable")],
  observe=["populated buffers, sizes, constructor results"])

p("C16","Reused buffers and workspaces never leak earlier state into results",
  "Any result computed with a reused workspace or buffer (element matrices and vectors, basis and quadrature buffers, interpolation buffers, integration and solver workspaces, typed workspaces) equals the result computed with a fresh one, whatever sequence of elements, sizes, element types or failed computations it was used for before. In particular nothing depends on what an output matrix or vector held before it was overwritten, nor on the thread that performs the computation.",
  ["histories"],"all histories of operations with varying element sizes, kinds, solution dimensions and interleavings",
  "Tests create fresh buffers or reuse them with one element type; stale content appears only after particular size sequences.",
  ["src/assembly/buffers.rs","src/assembly/local/elliptic.rs","src/assembly/local/mass.rs","src/assembly/local/source.rs","src/integrate.rs"],
  [("buffer resizing","src/assembly/buffers.rs"),("thread-local workspaces","src/assembly/local/*.rs define_thread_local_workspace")],
  observe=["computed matrices/vectors/values"])

p("C17","The conjugate gradient solver honours its iteration protocol",
  "The conjugate gradient solver reports success only when its stopping criterion was satisfied by the current iterate, performs one operator application per iteration, returns at once for a zero right-hand side or an already converged start, and never exceeds the iteration limit, reporting the limit as an error exactly when it is reached without convergence. Operator, preconditioner and stopping-criterion failures and indefinite operators or preconditioners are reported as the corresponding errors; in every outcome the reported iteration count is the number of performed updates, the stopping criterion is reset once at the start of every solve, and reusing a workspace changes nothing.",
  ["histories","fault_sequences","inputs"],"all convergence, failure and limit histories (which iteration converges, fails or meets the limit), workspace reuse, problem sizes",
  "Tests solve well-conditioned systems to convergence; iteration limits, failures at each position and workspace reuse are not enumerated.",
  ["fenris-sparse/src/cg.rs"],
  [("iteration loop and error returns","fenris-sparse/src/cg.rs solve_with_guess"),("workspace","fenris-sparse/src/cg.rs CgWorkspace")],
  observe=["sequence of operator/preconditioner/criterion calls and the returned result"])

p("C18","Newton's method and its line search honour their protocol",
  "Newton's method returns success only if the residual norm at the returned point is at most the tolerance, after exactly the reported number of Jacobian solves; it never solves more systems than the iteration limit, reports the limit exactly when it is reached, and reports Jacobian and line-search failures as such with no further steps. On every exit the returned residual belongs to the returned point; the backtracking line search accepts only a step that satisfies its decrease condition, tries steps in decreasing order from the full step, and ends with an error when the smallest step is still rejected.",
  ["histories","fault_sequences"],"all histories of residual decrease/increase per trial step, failures at every call, limits and tolerances",
  "Tests solve two small nonlinear systems to convergence; failures, limits and rejected trial steps are hardly reached.",
  ["fenris-optimize/src/newton.rs","fenris-optimize/src/calculus.rs"],
  [("Newton loop","fenris-optimize/src/newton.rs newton_line_search"),("backtracking","fenris-optimize/src/newton.rs BacktrackingLineSearch")],
  observe=["sequence of function/Jacobian calls with arguments, returned result and vectors"])

p("C19","Spatial queries find an element that truly contains or is closest to the point",
  "For every query point the spatially indexed space returns an element whose distance to the point is the minimum over all elements together with reference coordinates that map to that closest point, equals the exhaustive search, and returns nothing only for a space without elements. Points inside or on the mesh map back to themselves.",
  ["inputs"],"all meshes, and all query points inside, outside, on shared edges or vertices, and equidistant from several elements",
  "Tests sample points in a few meshes; pruning errors depend on where bounding boxes overlap.",
  ["src/space/spatially_indexed.rs","src/element"],
  [("bounding-box tree with candidate pruning","src/space/spatially_indexed.rs"),("closest point per element","src/element/*.rs ClosestPointInElement")],
  observe=["returned element and reference coordinates"])

p("C20","Precomputed interpolation equals direct interpolation, in parallel too",
  "Interpolating values or gradients with a precomputed interpolator equals interpolating directly in the space at each point, in the order of the points, for any weights and solution dimension, whether the interpolator was built serially or in parallel, and whatever it is reused for. A space without elements contributes nothing for any number of points.",
  ["inputs","schedules","histories"],"all spaces, point lists (including empty, repeated and outside points), weights, dimensions, thread counts",
  "One test interpolates on one mesh; order preservation in the parallel construction and empty cases are untested.",
  ["src/space/fixed_interpolator.rs","src/space/interpolate.rs","src/space/spatially_indexed.rs"],
  [("serial/parallel construction","src/space/fixed_interpolator.rs from_space_and_points(_par)"),("offset table","src/space/fixed_interpolator.rs FixedInterpolator"),("direct interpolation","src/space/interpolate.rs")],
  observe=["interpolated values and gradients"])

p("C21","Composed element assemblers act as the concatenation of their parts",
  "An aggregate of element assemblers behaves as one assembler whose elements are the elements of its parts in order: element count, node counts, node indices, matrices, vectors, scalars and errors of element i are those of the corresponding element of the corresponding part, and out-of-range elements are rejected. Mapping or transforming an assembler applies the transformation to exactly the local quantity and changes nothing else, and nesting of these compositions behaves like the composed functions.",
  ["inputs","histories"],"all lists of parts including parts without elements, all element indices, all nestings",
  "Tests aggregate two non-empty parts; empty parts and boundary indices are untested.",
  ["src/assembly/local.rs"],
  [("offset lookup","src/assembly/local.rs AggregateElementAssembler"),("mapping and transformation","src/assembly/local.rs MapElementAssembler / transforms")],
  observe=["element quantities and global assemblies of the composed assembler"])

p("C22","Polyhedral mesh operations preserve topology and volume",
  "Clipping a polyhedral mesh of convex cells by half-spaces or convex polyhedra produces exactly the part of every cell inside, so that volumes of complementary clips add up, clipping with a containing half-space changes nothing and with a disjoint one leaves nothing; concatenation, face deduplication, edge splitting and triangulation preserve cells, volumes and shared faces. After each operation all faces and cells refer to existing vertices and faces, every non-boundary face has exactly two cells, and a closed cell stays closed.",
  ["inputs","histories"],"all polyhedral meshes of convex cells, cutting planes in general position, and sequences of operations",
  "A few property tests on volumes of single hexahedra exist; multi-cell sharing and operation sequences are untested.",
  ["fenris-geometry/src/polymesh.rs"],
  [("half-space clip","fenris-geometry/src/polymesh.rs intersect_half_space"),("dedup/concatenate/split/triangulate","fenris-geometry/src/polymesh.rs")],
  observe=["resulting polyhedral mesh and its volume"])

p("C23","Loading a mesh file is faithful or an error",
  "Loading a Gmsh file returns the file's nodes at their coordinates and all the elements of exactly the requested type and dimension, of every entity block, with the connectivity the file states, in file order, or returns an error; it is an error if there is no block of the requested type, if the node counts disagree, if node or element numbering is sparse, or if an element refers to a node that does not exist. Loading never panics.",
  ["inputs","fault_sequences"],"all well-formed files over several entity blocks and element types, and files with wrong types, missing sections, wrong dimensions, inconsistent counts or invalid node references",
  "Tests load a handful of good files; malformed references and mixed blocks are not covered.",
  ["src/io/msh.rs"],
  [("node and element conversion","src/io/msh.rs load_msh_from_bytes and helpers")],
  observe=["returned mesh or error"])

p("C24","Exported visualisation data describe the same mesh and attributes",
  "Exporting a mesh yields one point per vertex (padded to three coordinates) and one cell per mesh cell, of the visualisation cell type with as many nodes as that type requires and in that format's node order; attributes are attached to the points or cells they were given for, padded but otherwise unchanged, and attribute arrays of the wrong size are rejected. A file written by export can be read back as the same data.",
  ["inputs","configurations"],"all exportable cell types, mesh sizes, attribute kinds and component counts, and both file formats",
  "Tests export one or two meshes; node-order tables of quadratic cells and padding are not checked.",
  ["src/io/vtk.rs"],
  [("connectivity writers","src/io/vtk.rs VtkCellConnectivity"),("data set builder","src/io/vtk.rs FiniteElementMeshDataSetBuilder")],
  observe=["built data set and written file"])

p("C25","Every finite element is nodal, complete and geometrically consistent",
  "For every element type the basis functions are one at their own node and zero at the others, sum to one, and reproduce every polynomial of the element's order at any reference point, and their gradients are the exact derivatives. For elements with straight edges the map from reference to physical coordinates sends reference nodes to the element's nodes, its Jacobian is the derivative of the map, the inverse map recovers reference coordinates (for surface elements after orthogonal projection), normals of surface elements are unit vectors perpendicular to them, and the diameter is the largest distance of two vertices. Elements are looked up with the vertices and variables their connectivity names, and elements of higher order made from linear ones have the nodes of the straight element.",
  ["inputs"],"all element types, reference points, and element vertex positions",
  "Property tests sample random points with tolerances per element; this states all types uniformly against one rational specification.",
  ["src/element.rs","src/element","src/connectivity.rs"],
  [("basis functions and gradients","src/element/*.rs"),("reference maps","src/element/*.rs map_reference_coords / reference_jacobian"),("connectivity to element","src/connectivity.rs, src/element/*.rs ElementConnectivity")],
  observe=["basis values, gradients, mapped points, Jacobians, inverse maps, normals, diameters, nodes"])

p("C26","Quadrature rules integrate all polynomials up to their strength",
  "Every quadrature rule the library hands out for a requested strength integrates every monomial of at most that total degree exactly over its reference domain (up to rounding), with points inside the domain and as many weights as points; tensor products, canonical element rules and subdivided rules keep this exactness. Strengths that are unavailable are reported as errors, not as weaker rules.",
  ["inputs","configurations"],"all domains, all available strengths, all monomials up to the strength",
  "Existing tests cover many rules one by one; composed and canonical rules per element type and subdivisions are only sampled.",
  ["fenris-quadrature/src","src/quadrature.rs","src/quadrature"],
  [("tables and generators","fenris-quadrature/src"),("selection by strength","src/quadrature/total_order.rs"),("canonical rules","src/quadrature/canonical.rs"),("subdivision","src/quadrature/subdivide.rs")],
  observe=["returned points and weights"])

p("C27","Assembled operators and integrals obey their exact discrete identities",
  "For polynomial data in the finite element space and quadrature of sufficient strength, what is assembled is the exact integral: the elliptic energy, its first variation (vector) and its second variation (matrix) at u, the mass matrix weighted with the density, the source vector and scalar integrals of functions of x, u and the gradient of u over volumes and surfaces, L2 and H1 errors; for every solution dimension, with parameters that vary over cells and quadrature points, and whatever the orientation and listing of the cells. Symmetric operators and the mass matrix give symmetric matrices; constants are in the kernel. Cells with a singular Jacobian are reported as errors where gradients are needed, and only there; integrators refuse interpolation weights of the wrong length.",
  ["inputs"],"all affine meshes of the supported types, polynomial data and solution dimensions",
  "Convergence tests observe rates on a few meshes and snapshot tests freeze single element matrices.",
  ["src/assembly/local/elliptic.rs","src/assembly/local/mass.rs","src/assembly/local/source.rs","src/assembly/operators","src/integrate.rs","src/error.rs"],
  [("elliptic assembly","src/assembly/local/elliptic.rs"),("mass assembly","src/assembly/local/mass.rs"),("source assembly","src/assembly/local/source.rs"),("integration","src/integrate.rs"),("error estimation","src/error.rs")],
  observe=["assembled matrices, vectors, scalars"])

p("C28","Geometric queries agree with the exact geometry",
  "Bounding boxes enclose exactly their points; containment, intersection, closest and furthest points, parameters and (signed) distances of boxes, segments, lines, disks, planes, triangles, quads, tetrahedra, hexahedra, convex and simple polygons agree with the exact geometric answer wherever it does not hang on rounding (that is, away from configurations that just touch, and in touching ones where the arithmetic is exact). Clipping segments and convex polygons, in the plane and in space, by half-planes, half-spaces or polygons, also repeatedly, gives exactly the intersection; areas, vector areas, volumes, orientations, normals, triangulations, solid angles and winding numbers have the right magnitude and sign for every counter-clockwise (positively oriented) shape, concave ones included where the type allows them.",
  ["inputs","histories"],"all configurations (integer coordinates, so that the answer can be decided exactly), all sequences of cuts",
  "Tests cover hand-picked examples; sign, feature and tie cases are combinatorial.",
  ["fenris-geometry/src/lib.rs","fenris-geometry/src/polygon.rs","fenris-geometry/src/polytope.rs","fenris-geometry/src/sdf.rs","fenris-geometry/src/primitives"],
  [("bounding boxes","fenris-geometry/src/lib.rs"),("segments, triangles, quads, tetrahedra","fenris-geometry/src/primitives"),("polygons","fenris-geometry/src/polygon.rs, polytope.rs")],
  observe=["returned booleans, points, distances, areas"])

p("C29","Material models are consistent energies, stresses and tangents",
  "For the linear elastic, St. Venant-Kirchhoff and Neo-Hookean materials the energy is the documented one, the stress is its derivative and the stress contraction the derivative of the stress, symmetric in the documented sense; energies and stresses vanish in the undeformed state, and the nonlinear materials do not see rotations. All ways to ask agree: from the deformation gradient, from the displacement gradient, through the elliptic operator adapter, one contraction at a time or batched and accumulated with a factor (default and specialised implementations). The Neo-Hookean energy is infinite unless det F > 0, log det F is accurate for tiny displacement gradients in every dimension, Lamé parameters obtained from Young's modulus and Poisson ratio satisfy the defining relations, and the gravity source is density times acceleration.",
  ["inputs"],"all deformation gradients (with positive determinant where the material needs it), material parameters, contraction vectors and batch sizes, in one, two and three dimensions",
  "Tests compare with finite differences at sampled deformations within tolerances.",
  ["fenris-solid/src/materials.rs","fenris-solid/src/lib.rs","fenris-solid/src/logdet.rs","fenris-solid/src/gravity_source.rs"],
  [("materials","fenris-solid/src/materials.rs"),("operator adapters and batched contractions","fenris-solid/src/lib.rs"),("logarithm of the determinant","fenris-solid/src/logdet.rs")],
  observe=["energy, stress and contraction values"])

p("C30","Finite differences approximate derivatives without side effects",
  "Approximate Jacobians and gradients are the central differences of the function at x with the given step: column j is (f(x + h e_j) - f(x - h e_j)) / 2h, so that they are exact for polynomials of degree two, for every input and output dimension (none included). The function is asked only at those points, the point handed in for modification is the same afterwards, and nothing else is written. Functions assembled from closures, and mutable references to functions, behave as the closures they were built from, and pass on their errors.",
  ["inputs"],"all functions, points, dimensions and steps (dyadic, so that the differences are exact)",
  "Tests compare one or two functions at one point within a tolerance.",
  ["fenris-optimize/src/calculus.rs"],
  [("approximate Jacobian and gradient","fenris-optimize/src/calculus.rs"),("functions from closures","fenris-optimize/src/calculus.rs")],
  observe=["returned matrices and vectors","points at which the function is called","the point afterwards"])

p("C31","Voxelized boxes and shapes cover what they should with conforming cells",
  "Voxelizing a bounding box gives a conforming mesh of equal square, counter-clockwise cells no larger than requested, which covers the (slightly enlarged) box, is centred on it and has no superfluous row or column. Voxelizing a signed distance function keeps exactly the cells of that mesh with a corner that is not outside; the approximate meshes of a shape move outside vertices to the closest boundary point and keep exactly the cells or triangles with a corner that is not outside. Bounding boxes and values of (nested) unions are those of the union.",
  ["inputs","configurations"],"all boxes, cell sizes and shapes, unions of any depth",
  "Tests look at one circle in snapshot form.",
  ["src/mesh/procedural.rs","fenris-geometry/src/sdf.rs"],
  [("voxelization and approximate meshes","src/mesh/procedural.rs"),("unions","fenris-geometry/src/sdf.rs")],
  observe=["vertices and cells","values and bounding boxes of unions"])

p("C32","Views and transformations of a mesh describe the same mesh",
  "For every cell type, cells obtained by index, by iteration and through the geometry collection are the polygons, segments or bodies spanned by the vertices that the connectivity lists; the bounding box encloses exactly the vertices of its cells; face counts, faces by number and visited faces agree, lie inside their cell, and higher-order connectivities convert to the first nodes of the cell. All of this stays so after any sequence of translations, vertex maps, single-vertex edits and clones, which change vertex positions exactly as asked and nothing else. A cell that does not exist is never made up.",
  ["inputs","histories"],"all meshes of thirteen cell types, all sequences of transformations",
  "Tests touch single methods on single meshes.",
  ["src/mesh.rs","src/connectivity.rs","src/element.rs"],
  [("mesh, cells and transformations","src/mesh.rs"),("faces and conversions of connectivities","src/connectivity.rs")],
  observe=["cells, faces, vertices, boxes"])

p("C33","Small dense algebra and matrix files are faithful",
  "The rotation SVD gives A = U S V^T with two rotations for every square matrix, the singular ones included; the polar decomposition finds the rotation of F = R P from a nearby guess and leaves the guess alone without iterations; extreme eigenvalues and the condition number of symmetric matrices (indefinite and negative definite ones included), products with diagonal and cross product matrices and orthonormal complements are right. Matrices reinterpreted with other dimension types show and change the same entries, and anything that does not lie contiguously in memory is refused; casts between types succeed exactly for the same type; nodal values are gathered in order. Matrix files list every entry (every stored entry, zeros included) in their format, replace old files, and report files that cannot be written; connectivity files hold exactly the couplings.",
  ["inputs"],"all small matrices, layouts, index lists and meshes",
  "Almost none of these helpers has a test.",
  ["src/util.rs","fenris-geometry/src/util.rs"],
  [("decompositions, eigenvalues, products, views, files","src/util.rs"),("orthonormal vectors","fenris-geometry/src/util.rs")],
  observe=["returned matrices, vectors, numbers","files written"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
