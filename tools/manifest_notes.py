HOOKS = None
NA = {}
TV = "TLA+ specification model-checked with TLC; TLC-generated behaviours replayed in the real code; recorded traces validated by TLC against the trace specification"
def note(pid, txt):
    NOTES[pid] = (TV, txt + " Trusts TLC, the recording harness and the public accessors.")
note("C01", "Fine-grained model of coloured parallel assembly refines the job contract exhaustively within bounds; parallel and serial results of the real code on all small and random larger discretisations (integer element matrices, several thread counts, library and hand-made colorings) must equal the exact sum of the specification.")
note("C02", "Coloring relation checked for every small family of subsets and random large ones; the storage admission of each color is probed around its bounds.")
note("C03", "All split/consume scripts up to the bound plus random longer ones are driven through rayon's producer interface of the real iterators (slice, block, CSR storage) and validated event by event.")
note("C04", "Sparsity pattern specification enumerated over small connectivities and random larger ones, serial and parallel.")
note("C05", "Exact integer scatter semantics: every result of matrix, vector and scalar assembly is recomputed by the specification.")
note("C06", "Dirichlet conditions specified on integer systems, dense and CSR; all small node sets and random larger ones.")
note("C07", "Error propagation and instance reuse after failures: every set of failing elements of all small discretisations and random histories; liveness of the run model.")
note("C08", "Storage design refines sequence-of-sequences for all behaviours within the bounds; every short behaviour and random long ones are replayed in the real container.")
note("C09", "Mesh specification: boundary by vertex sets, surface extraction as a relation; all small triangle meshes and random meshes of fourteen cell types.")
note("C10", "KeepRel relation for histories of restrictions, repeated and unsorted lists included, over sixteen cell types; polyhedral meshes with face sharing.")
note("C11", "RefineRel relation (labels of corners and midpoints) plus area and boundary invariants on the model; chains of refinements, refine n times compared with the chain.")
note("C12", "Enrichment, reduction, quad split and hexahedron-to-tetrahedra relations over integer geometry; node numbering tables checked geometrically in the model.")
note("C13", "Permutation group laws, mesh isomorphism and the Cuthill-McKee order relation; all short index lists and all small symmetric patterns.")
note("C14", "Tiles relation (exact sizes, face pairing, box surface) proved non-vacuous on the model; the real generators over all small unit counts and resolutions.")
note("C17", "Protocol of the conjugate gradient iteration over all scripted operator, preconditioner and criterion answers within the bounds; every call of the real solver (scripted and real dense/CSR operators, workspace reuse) is validated with its arguments.")
note("C18", "Protocol of Newton's method and the line search over all scripted residuals, Jacobian answers and failures within the bounds; every call of the real code is validated with its arguments, including residuals next to the decrease threshold.")
note("C15", "Quadrature table storage forms refine one element-to-rule map; every small table (consistent or not) and random larger ones are built in the real code and queried in random order, through reused buffers too.")
note("C16", "Storage of typed workspaces refines a map and buffered computation is history-free on the model; about 700 real computations (ten element families, failing and panicking ones included) in random order with reused storage must answer as with fresh storage.")
note("C21", "Compositions as expression trees with a recursive semantics (concatenation, flattening, distribution and offset search checked on the model); every small composition and random deeper ones are built in the real code and queried in random order, out of range included.")
note("C22", "Polyhedral meshes over exact integer geometry: clipping, restriction, concatenation, deduplication, edge splitting, triangulation and conversion as relations (closed cells, at most two cells per face, exact shapes and volumes); a reference algorithm satisfies them exhaustively on small histories; the same and random histories are replayed in the real code.")
note("C23", "Documents (node and element blocks, claims of the section headers, damage) as specification state; the loader's algorithm is shown to be faithful exactly for files numbered in order; every small document and random larger ones, damaged files and the repository's own meshes are loaded by the real code.")
note("C24", "Builder histories as state, with the data set as a function of the accepted additions and node orders derived from corner sets; every small history and random meshes of thirteen cell types are built, exported in both file formats and read back.")
note("C19", "Exact rational closest points on integer simplices decide every answer of the real index and element queries; the indexed search algorithm is checked exhaustively on small soups, and large float meshes are compared with exhaustive search.")
note("C20", "Compressed interpolation rows refine direct interpolation on the model; real interpolators (serial, parallel, direct) run on spaces scripted by the specification with exact arithmetic, plus linear functions on real meshes.")
note("C25", "Integer-valued nodal bases whose uniqueness is model-checked (delta property and reproduction of the whole polynomial space at more points than the degree needs); values, gradients, maps, Jacobians, inverse maps, normals, lookups of the real elements are compared exactly at generated points.")
note("C26", "Closed-form moments are model-checked against exact iterated integration; every rule the library hands out is reduced to the complete table of normalised moments of the space it has to integrate, and the specification decides exactness, domain, weights, counts and availability.")
note("C27", "exact integrals by rules proved exact in the model, in residues modulo a prime; every assembled matrix, vector and scalar is tested on polynomials of the space")
note("C29", "Energies, stresses and contractions of the specification are model-checked to be exact derivatives of each other; the real materials are compared with them exactly (polynomial ones) or in fixed point with the logarithm computed in the specification (Neo-Hookean).")
note("C28", "Exact rational geometry in the specification (clipping, crossings, inside tests, closest points), whose algorithms are model-checked against their definitions along walks of successive cuts; every query of the real primitives on integer input is compared with it.")
note("C30", "The in-place difference scheme as a state machine over arbitrary functions (points moved and restored, two wrong variants refuted, exactness for quadratics); every call and result of the real functions is judged exactly in dyadic arithmetic.")
note("C31", "Voxelization as relations on integer boxes and shapes with a reference construction model-checked against them (wrong variants refuted); meshes, approximations and nested unions of the real code are judged exactly.")
note("C32", "A mesh as vertices and cells, views as functions of it and transformations as actions; views commute with transformations on the model, and random histories on meshes of thirteen cell types are replayed in the real code.")
note("C33", "Sign fixing of a factorisation, reading memory under another layout and writing stored entries one by one as state machines (five wrong variants refuted); results of the real helpers are judged by relations on integer and rounded matrices.")
