#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so the entries stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))
L = "lib/lf/"
prop("C01", "Reference element topology and coordinates are mutually consistent",
 "For every reference element (point, segment, triangle, quadrilateral) the number, type and vertices of all its sub-entities are consistent with each other: a sub-entity has as many vertices as its own type prescribes, the vertices of edge i run from corner i to corner i+1, nested sub-entity indices agree whichever way the hierarchy is walked, and all corner coordinates are the documented ones. Queries are total for every valid (codimension, index) combination.",
 ["inputs"], "every reference element, codimension, sub-index, sub-codimension and sub-sub-index within their documented ranges",
 "Tests sample a few combinations; the tables are switch statements over several integer indices and one wrong entry is only visible for one tuple of indices.",
 [L+"base/ref_el.h", L+"base/ref_el.cc"], [("table functions of the reference element class", "ref_el.h")], ["public queries of the reference element"])
prop("C02", "Jacobian is the derivative of the geometry mapping",
 "For every geometry type, the Jacobian returned at any set of reference points is exactly the derivative of the mapping from reference to physical coordinates at these points, laid out one block of columns per point. The mapping sends reference corners (and, for second-order elements, midpoint nodes) to the coordinates the object was built from, and is of the documented polynomial degree.",
 ["inputs"], "all node coordinates in a box for which the element is admissible, all reference points, 1 to 3 points per call, world dimension 1 to 3 where supported",
 "Tests use a handful of fixed elements and compare against finite differences with loose tolerances; a wrong coefficient that vanishes on these elements is not visible.",
 [L+"geometry/point.cc", L+"geometry/segment_o1.cc", L+"geometry/segment_o2.cc", L+"geometry/tria_o1.cc", L+"geometry/tria_o2.cc", L+"geometry/quad_o1.cc", L+"geometry/quad_o2.cc"],
 [("Global() / Jacobian() of each geometry class", "lib/lf/geometry/*.cc")], ["Geometry interface"])
prop("C03", "Metric factors of a geometry are consistent with its Jacobian",
 "For every geometry and reference point the integration element is the square root of the Gram determinant of the Jacobian, and the inverse-Gramian matrix equals J (J^T J)^{-1} (the inverse transpose for square Jacobians). A geometry claims to be affine only if its Jacobian is constant, and the volume of a flat element equals the reference volume times the mean integration element.",
 ["inputs"], "all non-degenerate node coordinates in a box, all reference points, 1 to 3 points per call, world dimensions 1 to 3",
 "Tests check these identities at a few points of a few fixed elements; the identity has to hold for every shape and in every world dimension.",
 [L+"geometry"], [("IntegrationElement(), JacobianInverseGramian(), isAffine(), Volume()", "lib/lf/geometry")], ["Geometry interface"])
prop("C04", "Sub-entity geometries are restrictions of the parent mapping",
 "The geometry of every sub-entity (edge, vertex, or the element itself) extracted from an element geometry coincides pointwise with the parent's mapping restricted to that sub-entity, with the orientation prescribed by the reference element.",
 ["inputs"], "all admissible node coordinates, every codimension and sub-index, every reference point of the sub-entity",
 "Tests look at corners on some fixed elements; agreement between corners (curved edges) and for every sub-index is not sampled.",
 [L+"geometry"], [("SubGeometry()", "lib/lf/geometry/*.cc")], ["Geometry interface"])
prop("C05", "Child geometries reproduce the parent mapping on the child cell",
 "For every refinement pattern applicable to an element, the geometry of each child (of any codimension) has the parent's order and interpolates the parent's mapping at the corners (and, for second-order elements, edge midpoints) of the pattern's lattice polygon of that child; hence it coincides pointwise with the parent's mapping on that polygon whenever the latter is representable there, in particular for affine and for regularly refined elements. The number of child geometries equals the number of children announced by the pattern.",
 ["inputs", "configurations"], "all admissible parent node coordinates, all refinement patterns and anchors, all codimensions, all reference points of the child",
 "Tests compare areas and a few points on a few elements; higher-order elements have long hand-written coefficient formulas for each pattern/anchor combination.",
 [L+"geometry/segment_o1.cc", L+"geometry/segment_o2.cc", L+"geometry/tria_o1.cc", L+"geometry/tria_o2.cc", L+"geometry/quad_o1.cc", L+"geometry/quad_o2.cc", L+"refinement/hybrid2d_refinement_pattern.cc"],
 [("ChildGeometry()", "lib/lf/geometry/*.cc")], ["Geometry interface", "RefinementPattern interface"])
prop("C06", "Refinement patterns tile the reference cell exactly",
 "For every refinement pattern and anchor, the child cells described by the pattern cover the reference cell without gap or overlap, the announced numbers of child cells, interior edges and interior nodes match the polygons returned, and the interior edges and nodes are exactly the ones shared by the child cells. Splitting of the boundary of the cell is consistent with the refinement of its edges.",
 ["inputs", "configurations"], "every reference element, refinement pattern, anchor, codimension, and a family of admissible lattice constants; every point of the reference cell",
 "Tests check total area for selected anchors; area equality does not exclude overlap plus gap, and only some anchors are sampled.",
 [L+"refinement/hybrid2d_refinement_pattern.h", L+"refinement/hybrid2d_refinement_pattern.cc"], [("NumChildren(), ChildPolygons()", "hybrid2d_refinement_pattern.cc")], ["RefinementPattern interface"])
prop("C07", "Meshes built from points and cells have correct numbering and incidence",
 "A mesh assembled from nodes, optional explicit edges and triangles/quadrilaterals numbers the entities of each codimension contiguously from zero, keeps the order in which nodes, cells and explicit edges were added, contains every edge of every cell exactly once, and for every cell lists edges and nodes that are consistent with the reference element's local numbering. Index, entity-by-index, containment and entity-count queries agree with each other, and the factory is empty again after building.",
 ["inputs", "histories"], "every sequence of insertions within the bound: all assignments of cell corners to nodes (triangles and quadrilaterals, any local rotation/orientation), any subset and direction of explicitly added edges",
 "Tests build a fixed set of meshes; the numbering and orientation logic depends on the order of insertion and the rotation and direction of every cell and edge.",
 [L+"mesh/hybrid2d/mesh.cc", L+"mesh/hybrid2d/mesh_factory.cc", L+"mesh/hybrid2d/triangle.cc", L+"mesh/hybrid2d/quad.cc", L+"mesh/hybrid2d/segment.cc"],
 [("mesh constructor (edge map, index assignment)", "mesh.cc"), ("AddPoint/AddEntity/Build", "mesh_factory.cc")], ["Mesh interface", "Entity interface"])
prop("C08", "Entity geometry and relative orientations agree with the mesh topology",
 "In every mesh, the vertices of each edge and cell geometry coincide with the positions of its nodes, and the relative orientation reported by a cell for one of its edges is positive exactly if the edge's own direction agrees with the direction induced by the cell. An explicitly supplied edge keeps its supplied geometry; every other edge inherits it from an adjacent cell, so that both adjacent cells see the same curve.",
 ["inputs", "histories"], "all insertion sequences within the bound of C07 and all admissible coordinates, including curved edges and cells given by second-order geometries",
 "Fixed test meshes exercise few of the combinations of orientation flags, explicit edges and inherited geometry.",
 [L+"mesh/hybrid2d/mesh.cc", L+"mesh/hybrid2d/triangle.cc", L+"mesh/hybrid2d/quad.cc", L+"mesh/hybrid2d/mesh_factory.cc"],
 [("RelativeOrientations(), Geometry()", "lib/lf/mesh/hybrid2d")], ["Entity interface"])
prop("C09", "Local refinement of any marked edge set yields a conforming finer mesh",
 "For every set of marked edges, refinement produces a valid mesh without hanging nodes: every marked edge is split, cells that share an edge agree on whether it is split, every child cell is non-degenerate and the children of a cell have the same total area as the cell. This holds for hybrid meshes and for repeated refinement.",
 ["inputs", "histories"], "every subset of marked edges on the bounded family of base meshes (triangles, quadrilaterals, mixed), vertex coordinates in a box, uniform and marked steps in sequence up to the bound",
 "Tests use random markings on a few meshes and check only parts of the result; the number of marking subsets is exponential and closure propagation depends on each cell's refinement edge.",
 [L+"refinement/mesh_hierarchy.cc"], [("RefineMarked(), RefineRegular(), PerformRefinement()", "mesh_hierarchy.cc")], ["MeshHierarchy interface", "Mesh interface"])
prop("C10", "Parent-child relations of a mesh hierarchy are exact inverses of each other",
 "After every refinement step each entity of the fine mesh has exactly one parent, appears exactly once among that parent's children, and the child number stored in it refers back to itself; the recorded position inside the parent, mapped through the parent's geometry, is the entity's own geometry. Every entity of the coarse mesh is covered by its children, and every point, edge and cell of the fine mesh descends from an entity of at least its dimension.",
 ["inputs", "histories"], "every subset of marked edges on the bounded family of base meshes, vertex coordinates in a box, uniform and marked steps in sequence up to the bound",
 "Tests check sizes of the arrays for a few meshes; consistency of each single link for each refinement pattern and orientation is not sampled.",
 [L+"refinement/mesh_hierarchy.cc", L+"refinement/mesh_hierarchy.h"], [("PointInfos/EdgeInfos/CellInfos, ParentInfos, GeometryInParent", "mesh_hierarchy.cc")], ["MeshHierarchy interface"])
prop("C11", "Degree-of-freedom numbering is a consistent bijection",
 "For every distribution of degrees of freedom to points, edges, triangles and quadrilaterals the global indices are exactly 0..N-1, each is interior to exactly one entity and mapped back to it, and the index list of an entity is the concatenation of the interior indices of its vertices, edges and interior in canonical order. Two cells sharing an edge see the same set of edge indices, in the order given by the edge's own direction where orientation matters.",
 ["inputs", "configurations"], "all local dof layouts up to the bound, uniform and entity-dependent, on the bounded family of meshes with arbitrary edge orientation",
 "Tests fix the layout and the mesh; numbering depends on the interplay of counts per entity type, mesh topology and edge directions.",
 [L+"assemble/dofhandler.cc", L+"assemble/dofhandler.h"], [("InitDofs of the dof handlers", "dofhandler.cc")], ["DofHandler interface"])
prop("C12", "Assembled matrix and vector are the sum of all active local contributions",
 "The assembled Galerkin matrix (vector) equals, entry by entry, the sum over all active entities of the local contributions at their global index pairs, with rows belonging to the test space and columns to the trial space, each active entity being visited exactly once and inactive ones contributing nothing. Assembly adds to whatever the target already contains.",
 ["inputs", "configurations"], "all values of the local contributions, all activity patterns, different test and trial layouts, all codimensions, on the bounded family of meshes",
 "Tests use symmetric element matrices or identical spaces; mixing up rows/columns or skipping entities is invisible there.",
 [L+"assemble/assembler.h"], [("AssembleMatrixLocally, AssembleVectorLocally", "assembler.h")], ["free assembly functions"])
prop("C13", "Triplet matrices behave as the sum of their entries",
 "A triplet (COO) matrix denotes the matrix obtained by summing its entries per position: conversion to a dense matrix, to a sparse matrix and the matrix-vector product all agree with that sum and with each other. Selective deletion removes precisely the selected entries and clearing yields the zero matrix of unchanged size.",
 ["inputs", "histories"], "every sequence of insertions (positions and values), deletions and products within the bound, real and complex scalars",
 "Tests use few fixed triplets, mostly without duplicates and with real scalars.",
 [L+"assemble/coomatrix.h"], [("COOMatrix", "coomatrix.h")], ["COOMatrix interface"])
prop("C14", "Fixing solution components preserves the solution of the linear system",
 "After eliminating any set of flagged components with prescribed values, every solution of the modified linear system takes the prescribed values in the flagged components and satisfies the original equations of all unflagged components with those values substituted; each unflagged equation is otherwise unchanged. Both variants of the elimination are equivalent to each other in this sense.",
 ["inputs"], "all matrices with the bounded size and arbitrary sparsity/duplicates, all right-hand sides, all subsets of flagged components and prescribed values",
 "Tests solve one or two fixed systems; sign errors or dropped couplings for certain flag subsets are not sampled.",
 [L+"assemble/fix_dof.h"], [("FixFlaggedSolutionComponents, FixFlaggedSolutionCompAlt, FixSolutionComponentsLse", "fix_dof.h")], ["free functions"])
prop("C15", "Lagrangian shape functions are a nodal basis with exact gradients",
 "For Lagrangian finite elements of orders 0 to 3 on all reference elements the shape functions take the value one at their own node and zero at the others, sum to one everywhere, have the correct gradient at every point, and interpolation of nodal values reproduces every function in the span. Restricted to an edge or vertex they coincide with the shape functions of that sub-entity, and the dofs per sub-entity add up.",
 ["inputs"], "all reference points, 1 to 3 points per call, all coefficient vectors, all orders and element types",
 "Tests evaluate on a coarse set of points or compare two implementations; the formulas are separate hand-written polynomials for values and gradients.",
 [L+"uscalfe/lagr_fe.h"], [("FeLagrangeO1/O2/O3 classes", "lagr_fe.h"), ("point element and constant element", "lib/lf/fe/fe_point.h")], ["ScalarReferenceFiniteElement interface"])
prop("C16", "Hierarchic shape functions, gradients and dual functionals are consistent",
 "For hierarchic finite elements of every degree (including different degrees per edge and interior, and any edge orientation) the gradients returned are the derivatives of the shape functions, edge and interior functions vanish where they should, and converting the nodal values of any function in the span to coefficients returns exactly its coefficients. The underlying Legendre and Jacobi polynomials and their integrals satisfy their defining relations.",
 ["inputs", "configurations"], "all reference points, all coefficient vectors, degrees up to the bound per edge and interior, all edge orientations",
 "Tests sample a few degrees and points with one orientation; the recurrence and orientation branches are only partially exercised.",
 [L+"fe/hierarchic_fe.h", L+"fe/hierarchic_fe.cc"], [("FeHierarchicSegment/Tria/Quad", "hierarchic_fe.h"), ("Legendre/Jacobi recurrences", "hierarchic_fe.cc")], ["ScalarReferenceFiniteElement interface", "polynomial functions"])
prop("C17", "Finite element spaces are globally continuous",
 "For every H1-conforming finite element space (Lagrangian of order 1 to 3 and hierarchic of any degree) the function defined by an arbitrary coefficient vector takes the same value on an edge or vertex whether evaluated from the entity itself or from any adjacent cell, whatever the local numbering and edge directions of the mesh. The number of shape functions which a space reports for an entity is the number of interior dofs its dof handler associates with that entity.",
 ["inputs", "configurations"], "all coefficient vectors, all points of the interface, all relative rotations/reflections of the two adjacent cells, triangle-triangle, triangle-quad and quad-quad neighbours, degrees up to the bound",
 "Tests use meshes in which few of the possible local orientations occur, mostly with low degree where the ordering of edge dofs does not matter.",
 [L+"fe/hierarchic_scalar_fe_space.h", L+"uscalfe/uniform_scalar_fe_space.h", L+"uscalfe/fe_space_lagrange_o3.h", L+"assemble/dofhandler.cc"], [("orientation-dependent dof ordering", "dofhandler.cc"), ("orientation-dependent shape functions", "hierarchic_fe.h")], ["finite element space interface"])
prop("C18", "Element matrices equal the bilinear form on the local basis",
 "The element matrices for diffusion, reaction-diffusion, Laplace and edge mass terms equal the bilinear form applied to each pair of local shape functions on the cell, for any shape of the cell and any coefficient function for which the chosen quadrature is exact. They are symmetric for symmetric coefficients, and inactive or predicated edges give no contribution.",
 ["inputs", "configurations"], "all admissible vertex coordinates in a box, all (piecewise constant and polynomial within quadrature exactness) scalar and tensor coefficients, triangles, quadrilaterals/parallelograms and edges, orders 1 to 3",
 "Tests compare total energies or a few fixed cells; a wrong transpose, missing determinant or coefficient is invisible for symmetric shapes and coefficients.",
 [L+"uscalfe/lin_fe.cc", L+"uscalfe/lin_fe.h", L+"uscalfe/loc_comp_ellbvp.h", L+"fe/loc_comp_ellbvp.h"], [("element matrix providers", "lin_fe.h, loc_comp_ellbvp.h")], ["ElementMatrixProvider concept"])
prop("C19", "Element vectors equal the linear form on the local basis",
 "The element vectors for volume and edge source terms equal the linear form applied to each local shape function, for any cell shape and any source function for which the chosen quadrature is exact. Edges outside the selected set do not contribute.",
 ["inputs", "configurations"], "all admissible vertex coordinates in a box, all polynomial source terms within quadrature exactness, triangles, quadrilaterals and edges, orders 1 to 3",
 "Tests use constant or globally symmetric sources on regular meshes.",
 [L+"uscalfe/lin_fe.h", L+"uscalfe/loc_comp_ellbvp.h", L+"fe/loc_comp_ellbvp.h"], [("element vector providers", "lin_fe.h, loc_comp_ellbvp.h")], ["ElementVectorProvider concept"])
prop("C20", "Quadrature rules integrate all polynomials up to their stated degree",
 "Every quadrature rule returned for a reference element and degree has points inside the reference element, one weight per point, and integrates every polynomial of at most the announced degree exactly (up to rounding), the announced degree being at least the requested one. Rules built from nodes or cached rules obey the same contract.",
 ["inputs", "configurations"], "all reference elements, all requested degrees up to the bound, all polynomials (arbitrary coefficients) of the announced degree",
 "Tests integrate single monomials for some degrees; the tabulated rules contain thousands of constants.",
 [L+"quad/make_quad_rule.cc", L+"quad/quad_rules_tria.cc", L+"quad/gauss_quadrature.cc", L+"quad/make_quad_rule_nodal.cc", L+"quad/quad_rule_cache.cc", L+"quad/quad_rule.h"], [("make_QuadRule, cache", "lib/lf/quad")], ["QuadRule interface"])
prop("C21", "Mesh function arithmetic is pointwise",
 "Sums, differences, products, negation, transposes and norms of mesh functions, for every combination of scalar, fixed-size and dynamic vector/matrix values, evaluate at each point of each entity to the corresponding operation on the operand values at that same point, and leave the operands unchanged.",
 ["inputs", "configurations"], "all operand values, all combinations of value types, 1 to 3 evaluation points per call",
 "Tests use constant operands or a single evaluation point, and only some type combinations; the implementation reinterprets blocks of values per type combination.",
 [L+"mesh/utils/mesh_function_binary.h", L+"mesh/utils/mesh_function_unary.h", L+"mesh/utils/mesh_function_global.h", L+"mesh/utils/mesh_function_constant.h"], [("operator overload sets", "mesh_function_binary.h, mesh_function_unary.h")], ["MeshFunction concept"])
prop("C22", "Finite element functions evaluate, differentiate, project and integrate exactly",
 "The mesh function of a coefficient vector evaluates to the linear combination of shape functions on every entity, its gradient is the derivative of that function with respect to physical coordinates, and nodal projection of a function from the space returns its coefficients. Integration of a mesh function equals the quadrature sum over precisely the selected entities, and boundary interpolation flags exactly the dofs on the selected edges with the values of the given function.",
 ["inputs", "configurations"], "all coefficient vectors, all vertex coordinates in a box, all subsets of selected cells or edges, Lagrangian orders 1 to 3 and hierarchic degrees up to the bound",
 "Tests use smooth global functions on unstructured fixed meshes and check convergence or norms.",
 [L+"fe/mesh_function_fe.h", L+"fe/mesh_function_grad_fe.h", L+"fe/fe_tools.h"], [("MeshFunctionFE, MeshFunctionGradFE, NodalProjection, IntegrateMeshFunction, InitEssentialConditionFromFunction", "lib/lf/fe")], ["MeshFunction concept", "free functions"])
prop("C23", "Transfer to refined meshes preserves the function",
 "A mesh function transferred to any finer level of a hierarchy has at every point of every fine entity the same value as the original function at the same physical point, also across several levels. Prolongation of a finite element function reproduces it exactly on the nested fine space.",
 ["inputs", "histories"], "all coefficient vectors and coordinates in a box, every marked subset on the bounded base meshes, one or two levels, all points",
 "Tests transfer smooth global functions through regular refinement only.",
 [L+"refinement/mesh_function_transfer.h", L+"fe/prolongation.h"], [("MeshFunctionTransfer, prolongate", "mesh_function_transfer.h, prolongation.h")], ["MeshFunction concept"])
prop("C24", "Boundary flags, adjacency counts and mesh data sets match the topology",
 "The number of super-entities reported for each entity equals the number of entities actually containing it, boundary flags are set exactly for edges with one adjacent cell and the vertices of these edges, and a mesh data set stores one independent value per entity of its codimension.",
 ["inputs", "configurations"], "all bounded meshes built from arbitrary cell/vertex incidences and refined meshes, all codimension pairs, all writes",
 "Tests use fixed meshes; counting errors depend on topology.",
 [L+"mesh/utils/special_entity_sets.cc", L+"mesh/utils/codim_mesh_data_set.h", L+"mesh/utils/all_codim_mesh_data_set.h"], [("CountNumSuperEntities, flagEntitiesOnBoundary, mesh data sets", "lib/lf/mesh/utils")], ["free functions", "MeshDataSet interface"])
prop("C25", "Structured mesh builders produce the requested tensor-product mesh",
 "For any number of cells per direction and any bounding box the structured builders produce a valid mesh with exactly the requested cells, whose cells are non-degenerate, cover the box with the exact total area and conforming neighbours; the torus builder identifies opposite sides.",
 ["inputs", "configurations"], "all numbers of cells per direction up to the bound, all bounding boxes",
 "Tests build one or two sizes with nx = ny; index arithmetic errors show up only for particular nx, ny.",
 [L+"mesh/utils/tp_triag_mesh_builder.cc", L+"mesh/utils/tp_quad_mesh_builder.cc", L+"mesh/utils/torus_mesh_builder.cc"], [("Build()", "lib/lf/mesh/utils/*_builder.cc")], ["Mesh interface"])
prop("C26", "Reading a Gmsh file reproduces nodes, cells and physical groups of the file",
 "A mesh read from a Gmsh file has one node per referenced file node at the file's coordinates, one cell per 2D element and one edge per listed 1D element, each carrying exactly the physical groups of its file entries, independent of how nodes and elements are numbered and ordered in the file.",
 ["inputs"], "all file node numbers, element orders, coordinates and physical tags within a bounded file structure (second-generation file format in memory)",
 "Tests read a few sample files produced by Gmsh, which are numbered contiguously.",
 [L+"io/gmsh_reader.cc", L+"io/gmsh_file_v2.h", L+"io/gmsh_file_v4.h"], [("InitGmshFile, PhysicalEntityNr2Name, IsPhysicalEntity", "gmsh_reader.cc")], ["GmshReader interface"])
prop("C27", "VTK output describes the mesh and data it was given",
 "The VTK data set written for a mesh lists every node position, every cell (or edge) with its corner nodes in VTK order with correct type and, for each attached point or cell data array, the value of the mesh data set or mesh function at that entity; for higher orders the additional points are the Lagrange points of the elements in VTK order, shared between neighbours, and text and binary files reproduce the data set and its global arrays.",
 ["inputs", "configurations"], "all meshes and attached data within the bound",
 "Tests write files and at most check that writing does not fail.",
 [L+"io/vtk_writer.h", L+"io/vtk_writer.cc"], [("VtkWriter", "vtk_writer.cc")], ["file written"])
prop("C28", "Product-space dof handling for DPG is consistent with its component spaces",
 "The dof handler of a product space numbers the dofs of all components as consecutive blocks, so that component offsets, local counts and global indices are those of the component handlers shifted by the block offset, every global dof maps back to its entity and component, product spaces made by the factory have the polynomial degree and continuity asked for on every component (traces and fluxes live on edges only), inflow and outflow edges are told apart by the sign of the convection, and essential conditions fix exactly the dofs of the flagged edges.",
 ["inputs", "configurations"], "all layouts per component up to the bound, 1 to 3 components, bounded meshes",
 "Tests use one fixed mesh and few layouts.",
 ["projects/dpg/product_dofhandler.cc", "projects/dpg/product_dofhandler.h"], [("ProductUniformFEDofHandler", "product_dofhandler.cc")], ["DofHandler interface"])
prop("C29", "DPG element matrices and outer normals are exact",
 "Outer normals returned for the edges of any cell are unit vectors orthogonal to the edge pointing out of the cell, and element matrices and vectors for diffusion, convection, reaction, flux and trace terms equal the corresponding bilinear or linear form for all pairs of trial and test shape functions, fluxes and traces are single valued on the edges whatever the orientations of the edges in the two adjacent cells, and the element matrix, element vector and error estimate of the DPG method are those computed from the extended stiffness matrix, load vector and Gram matrix.",
 ["inputs", "configurations"], "all admissible vertex coordinates (either orientation of the cell), all coefficients for which the quadrature is exact",
 "Tests compare some entries on fixed cells or global symmetric quantities.",
 ["projects/dpg/dpg_tools.cc", "projects/dpg/loc_comp_dpg.h"], [("OuterNormals, ...ElementMatrixProvider", "loc_comp_dpg.h")], ["free functions", "ElementMatrixProvider concept"])
prop("C30", "Stokes discretisation element matrix realises curl basis and stabilised jumps",
 "For every triangle and every relative orientation of its edges, the local matrix of the stabilised Stokes discretisation couples stream-function coefficients and edge multipliers exactly as the scheme prescribes (tangential components of the rotated gradients of the linear basis along each counterclockwise edge; the penalty -1/sigma of an edge sums up to one over the cells of an edge, so that boundary edges carry it whole and inner edges half per cell), is symmetric, and the local load vector is the integral of the force against the velocity basis plus the tangential boundary velocity on boundary edges. The assembled systems are the sums of these with boundary stream-function coefficients fixed (after subtracting the offset function carrying the normal boundary velocity for in- and outflow), velocities are the curls of stream functions, the DG and L2 norms are the roots of the integrals they stand for, and annulus meshes are conforming, have the radii, centre and cell counts asked for and fill the polygonal annulus.",
 ["inputs", "configurations"], "all non-degenerate triangles in a box, all edge orientation patterns, both values of the interior/boundary flags",
 "Tests compare against the same formula on few fixed triangles.",
 ["projects/ipdg_stokes/assemble/piecewise_const_element_matrix_provider.cc", "projects/ipdg_stokes/assemble/piecewise_const_element_vector_provider.cc"], [("Eval()", "piecewise_const_element_matrix_provider.cc")], ["ElementMatrixProvider concept"])
prop("C31", "Fisher-KPP evolution is the Strang splitting of diffusion and logistic growth",
 "The Galerkin matrices of the Fisher-KPP solver are those of diffusion with a Robin condition and non-local coupling, and of mass. diffusionEvolutionOperator() performs one step (the first half step, or a full one) of the second-order, stiffly accurate two-stage SDIRK method (with gamma = 1 - 1/sqrt(2)) for M u' = -A u. Evolution() with m steps alternates half a step of diffusion, full steps of logistic growth and diffusion, and a final half step of diffusion, so that it ends exactly at the final time: a spatially uniform state follows the logistic solution at the final time (and stays below a capacity it starts below), and without growth and with a pure (Neumann) diffusion the total population is conserved.",
 ["inputs", "histories"], "all initial states, coefficients and step sizes",
 "Only example programs exist for this solver.",
 ["projects/fisher_kpp/strangsplitting.cc", "projects/fisher_kpp/strangsplitting.h"], [("StrangSplit evolution", "strangsplitting.cc"), ("Galerkin matrices", "strangsplitting.h")], ["solver class"])
prop("C32", "Integer narrowing never changes a value silently",
 "Checked narrowing conversion between integer types either returns a value equal to its argument or reports an error, for every argument of every supported pair of types.",
 ["inputs"], "all 64-bit and 32-bit signed and unsigned arguments",
 "Range boundaries and sign changes over 2^64 values cannot be enumerated by tests.",
 [L+"base/narrow.h"], [("narrow()", "narrow.h")], ["free function"])
prop("C33", "Parsing a Gmsh file recovers exactly the numbers it contains",
 "Parsing a Gmsh file of format 2.2 or 4.1, as text or binary of either byte order, yields exactly the physical names, entities, partitioned entities, nodes, elements, periodic links and ghost elements written in the file, with all their numbers, and skips sections of any other kind wherever they occur.",
 ["inputs"], "all numbers of a file with a bounded number of records of each kind, all record kinds and element types supported",
 "Tests read a few sample files; the numbers, optional records and byte orders that occur in them are fixed.",
 [L+"io/gmsh_file_v2.cc", L+"io/gmsh_file_v4.cc", L+"io/gmsh_file_v4_text.cc", L+"io/gmsh_file_v4_binary.cc"], [("readGmshFileV2", "gmsh_file_v2.h"), ("ReadGmshFileV4", "gmsh_file_v4.h")], ["free functions on character ranges"])
prop("C34", "Text dumps of meshes and hierarchies describe every entity exactly once",
 "MATLAB and Matplotlib dumps list every node with its position and every edge and cell with its index and its nodes (or edges) in order; TikZ drawings contain exactly the selected entities with the wanted numbers; the dump of a hierarchy lists parent, child number and refinement edge of every entity; files get the given name with the extension appended exactly if it is missing.",
 ["inputs", "configurations"], "all meshes, refinements, options, selections and file names within the bound",
 "Tests call the writers but do not look at the files.",
 [L+"io/write_matlab.cc", L+"io/write_matplotlib.cc", L+"io/write_tikz.cc", L+"refinement/refutils.cc"], [("writeMatlab, writeMatplotlib, writeTikZ, WriteMatlab", "write_*.cc, refutils.cc")], ["content of the written files"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 110, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
for p in P:
    if len(p["title"])>80: print("TITLE", p["id"], len(p["title"]))
