ABS = "Abstract interpretation of the resolved syntax tree (values as polynomials over symbolic inputs, references resolved to abstract locations); no code is executed. "

prop("C01", "Every cell's generated faces are exactly its closed, oriented boundary",
     "For every cell type, the faces a cell hands out use only the cell's own nodes, have the documented shape and number, and together form the closed boundary of the cell: every edge is shared by exactly two faces that traverse it in opposite directions. For three-dimensional cells all faces are oriented the same way with respect to the cell's interior, and solid geometries built from their corner points have the same faces with these properties.",
     ["inputs"], "all cells of every supported type, whatever their node and face identifiers and positions",
     "Tests look at a handful of faces of single cells at fixed positions; they do not look at every type's full face set or its orientation.",
     ["mesh/MshElement_Imp.hpp", "geometry/GeoTetrahedron_Imp.hpp", "geometry/GeoHexahedron_Imp.hpp", "geometry/GeoTriangularPrism_Imp.hpp"],
     [("face tables per element type", "mesh/MshElement_Imp.hpp"), ("polyhedron construction from corners", "geometry/GeoHexahedron_Imp.hpp")],
     "abstract interpretation / constant propagation of face tables, combinatorial closedness rule",
     ABS + "The tables are exact constants, so the verdict is exact for the analysed source; node ordering convention of the library is taken as given.")

prop("C02", "Structured meshers tile their domain with a conforming, ordered grid",
     "For every number of divisions, the line, quadrilateral, hexahedron and box meshers (with or without splitting into simplices) produce exactly one cell per division (or its fixed number of simplices), node numbers in row order, and interpolated node positions that reach the given corners and are evenly spaced. Every cell refers to the nodes of its own grid position, neighbouring cells share the same nodes on their common side, the cells of one division cover it exactly once with positive orientation, and generating again starts from an empty mesh.",
     ["inputs"], "all division counts and all corner positions",
     "Tests use two or three division counts and check node and cell counts only.",
     ["mesh/MshBasicMesher_Imp.hpp"],
     [("line/quad/hexa/box mesh generation loops", "mesh/MshBasicMesher_Imp.hpp")],
     "abstract interpretation with symbolic loop counters (induction variables) and polynomial normal forms",
     ABS + "Division counts are symbolic (any count); floating-point rounding of coordinates is not considered.")

prop("C03", "Numerical integration rules integrate the reference cell exactly",
     "For every supported number of points, the integration rule of a reference cell uses pairwise distinct points inside that cell, its weights add up to the measure of the cell, and it integrates all polynomials exactly up to the degree that rule stands for.",
     ["configurations"], "all cell shapes and all supported numbers of integration points",
     "Tests integrate one or two functions with one or two rules; most rules are not used by any test.",
     ["integration/IntBeam_Imp.hpp", "integration/IntTriangle_Imp.hpp", "integration/IntQuadrilateral_Imp.hpp", "integration/IntHexahedron_Imp.hpp", "integration/IntTriangularPrism_Imp.hpp"],
     [("point and weight tables", "integration/IntTriangle_Imp.hpp")],
     "constant propagation of the rule tables, judged against exact moments of the reference cell",
     ABS + "Tables are compared with a tolerance of 1e-7.")

prop("C04", "Scalar element matrices equal their variational definition",
     "For every element position, the diffusion matrix of a beam, triangle, quadrilateral, tetrahedron, prism or hexahedron is minus the integral of the products of the shape-function gradients (times its coefficient and thickness), and its mass matrix is the integral of the products of the shape functions divided by the time step, each contribution of an integration point entering once. Measures (length, area, volume) agree with the corner positions, and a source put on an edge or node reaches exactly the nodes of that edge or node, in equal shares, adding to what was there.",
     ["inputs"], "all corner positions, coefficients, time steps and local integration points",
     "Tests check a few entries for one reference element each.",
     ["fem/FemBeam_Imp.hpp", "fem/FemTriangle_Imp.hpp", "fem/FemQuadrilateral_Imp.hpp", "fem/FemTetrahedron_Imp.hpp", "fem/FemTriangularPrism_Imp.hpp", "fem/FemHexahedron_Imp.hpp"],
     [("element update", "fem/FemTriangle_Imp.hpp")],
     "abstract interpretation into rational normal forms, compared with the variational definition entry by entry",
     ABS + "Exact over the reals; spatial quadrature elements are judged at a symbolic integration point in a generic distorted position, quadrature itself is C03.")

prop("C05", "Flow, elasticity and heat-exchange element matrices equal their definition",
     "For every element position, velocity and material, the flow elements' convection, stabilisation and gradient matrices are the integrals they stand for, with each node's own velocity. Constant-strain elements have a symmetric stiffness matrix equal to the strain energy of isotropic elasticity and a load vector with one entry per degree of freedom, and convective exchange on an edge adds that edge's mass matrix times the exchange coefficient and a consistent load on the same two nodes.",
     ["inputs"], "all corner positions, velocities, time steps and material parameters",
     "These elements are exercised only inside whole solver runs with one mesh, or not at all.",
     ["fem/flow/FemFlowTriangle_Imp.hpp", "fem/flow/FemFlowTetrahedron_Imp.hpp", "fem/structural/FemConstantStrainTriangle_Imp.hpp", "fem/structural/FemConstantStrainTetrahedron_Imp.hpp", "fem/thermal/FemLinearTemperatureTriangle_Imp.hpp"],
     [("convective and gradient terms", "fem/flow/FemFlowTriangle_Imp.hpp"), ("stiffness", "fem/structural/FemConstantStrainTriangle_Imp.hpp")],
     "abstract interpretation into rational normal forms, compared with the variational definition entry by entry",
     ABS + "Triangles are judged for symbolic positions, tetrahedra in one generic position with symbolic velocities and materials.")

prop("C06", "Measures of geometric objects equal their definition",
     "For every corner position: lengths, areas, unit normals, volumes, centroids and bounding boxes of lines, triangles, quadrilaterals, tetrahedra, prisms, hexahedra, polylines, polygons and polyhedra are those of the figure they describe (box-shaped for prism and hexahedron volumes). Circles and spheres pass through the points they are built from and have the measures of their centre and radius. Distances to and projections on lines, planes and triangles are the nearest ones, lines are clipped at and meet planes in the crossing point, and bounding boxes contain, intersect, grow and extend exactly.",
     ["inputs"], "all corner positions and plane parameters, including the special positions the code treats separately",
     "Unit tests use one or two right-angled figures near the origin; special positions (vertical, repeated, far side of a plane) are branches of the code those figures do not reach.",
     ["geometry/GeoLine_Imp.hpp", "geometry/GeoPlane_Imp.hpp", "geometry/GeoTriangle_Imp.hpp", "geometry/GeoQuadrilateral_Imp.hpp", "geometry/GeoTetrahedron_Imp.hpp", "geometry/GeoHexahedron_Imp.hpp", "geometry/GeoPolygon_Imp.hpp", "geometry/GeoPolyhedron_Imp.hpp", "geometry/GeoCircle_Imp.hpp", "geometry/GeoSphere_Imp.hpp", "geometry/GeoBoundingBox_Imp.hpp"],
     [("area and normal of a polygon", "geometry/GeoPolygon_Imp.hpp"), ("clipping and intersection", "geometry/GeoLine_Imp.hpp")],
     "abstract interpretation of the measures on symbolic corners; guarded closed forms compared piecewise with the geometric definition",
     ABS + "Exact over the reals, tolerances at zero. Polygons lie in a coordinate plane with up to 6 corners (9 in the thorough run); polyhedra are boxes.")

prop("C07", "Cached measures and vertex sequences follow their edits",
     "The measure of a figure never depends on its history: after a reset and refill, after its corners were moved and the measure recalculated, after replacing the end points of a line or the outline of a polygon, and after any further calculation, it is the value a fresh figure with the same corners has; composite figures recalculate their parts. Inserting, removing, inverting and wrapping vertices, inverting polygons and line lists, and adding polygons under an id that is already present keep order, orientation and ids exact.",
     ["histories"], "all corner positions, for each class and measure the histories compute-reset-refill, compute-move-recalculate, compute-replace and compute-repeat",
     "Unit tests compute each measure once on a fresh object.",
     ["geometry/GeoVolume_Imp.hpp", "geometry/GeoArea_Imp.hpp", "geometry/GeoLength_Imp.hpp", "geometry/GeoPolygon_Imp.hpp", "geometry/GeoPolyhedron_Imp.hpp", "geometry/GeoVertexList_Imp.hpp", "geometry/GeoLine_Imp.hpp"],
     [("reset", "geometry/GeoVolume_Imp.hpp"), ("recalculation", "geometry/GeoPolyhedron_Imp.hpp")],
     "abstract interpretation of call histories; identical normal forms required at their end",
     ABS + "Histories of each class are enumerated up to one edit between two calculations; composite figures have a fixed number of parts.")

prop("C08", "Discrete operators assemble the scheme they stand for, at the right rows",
     "Whatever the identifiers of nodes and elements and their order, ddt, laplacian, divergence, gradient and source of a field return a system with one row per node (times degrees of freedom) or cell, filled as the method defines it: finite differences with second and central differences and prescribed end values in the right-hand side; finite elements with the sum of all cells' element matrices at the rows of their own nodes, mass times previous values for ddt, the nodal source once per adjacent cell, each cell's own thickness and nodal velocities; finite volumes (thermal, flow and generic) with area over distance per volume towards the paired neighbour, half the face flux for the divergence, prescribed face values entering diagonal and right-hand side so that constants are preserved, and the previous cell values for ddt. A system declared symmetric is symmetric, and every system has a declared matrix type.",
     ["inputs", "configurations"], "all coordinates, cell sizes, field values and materials of small meshes of each cell type with unordered, non-contiguous identifiers",
     "The tests solve a few problems on meshes whose identifiers equal their indices.",
     ["pde/PdeEquation_Imp.hpp", "pde/fdm/generic/FdmGenericOperators_Imp.hpp", "pde/fem/generic/FemGenericOperators_Imp.hpp", "pde/fem/thermal/FemThermalOperators_Imp.hpp", "pde/fem/flow/FemFlowOperators_Imp.hpp", "pde/fem/structural/FemStructuralOperators_Imp.hpp", "pde/fvm/generic/FvmGenericOperators_Imp.hpp", "pde/fvm/thermal/FvmThermalOperators_Imp.hpp", "pde/fvm/flow/FvmFlowOperators_Imp.hpp", "fvm/FvmControlVolume_Imp.hpp", "mesh/MshMesh_Imp.hpp"],
     [("assembly", "pde/fem/generic/FemGenericOperators_Imp.hpp"), ("face balance", "pde/fvm/generic/FvmGenericOperators_Imp.hpp")],
     "abstract interpretation of the assembly on small symbolic meshes; every matrix entry compared with the defining stencil, variational form or flux balance",
     ABS + "Meshes have two cells (five nodes for finite differences); the spatial index used to pair faces is replaced by its contract. Cells with positive volume in the library are listed left-handed.")

prop("C09", "System algebra, prescribed values and field bookkeeping are exact",
     "Sums, differences, scalings and row scalings of systems act entry by entry on matrix and right-hand side, and the result's declared type is the more general one and never claims a symmetry that was lost; every declared type is solved, with its own matrix and right-hand side, by a solver fit for it. For any set of prescribed values, elimination leaves exactly the free rows and columns with the prescribed columns moved to the right-hand side, the penalty replaces exactly the prescribed rows' diagonal and right-hand side, sources are added to their own rows, and the solved field has every free value at its own place and every prescribed value exactly. A field has one value per degree of freedom of every node (or cell), prescribed values and sources are kept per degree of freedom, and boundary conditions are found for exactly the nodes, faces or element sides they were added to, with their own values.",
     ["inputs", "configurations"], "all matrix entries, right-hand sides and prescribed values; all pairs of matrix types; several sets and orders of prescribed nodes",
     "The tests solve symmetric problems with boundary values at the ends, and almost never inspect the intermediate systems.",
     ["sle/SleSystem_Imp.hpp", "pde/PdeEquation_Imp.hpp", "pde/PdeField_Imp.hpp", "pde/PdeBoundaryCondition_Imp.hpp"],
     [("elimination", "pde/PdeEquation_Imp.hpp"), ("operators", "sle/SleSystem_Imp.hpp")],
     "abstract interpretation of systems with symbolic entries; resulting matrices and vectors compared entry by entry",
     ABS + "Systems have 3 or 4 rows; the linear solvers themselves (Eigen) are trusted.")

prop("C10", "Mesh bookkeeping stays coherent through every edit",
     "After any sequence of adding, replacing and removing nodes, faces and elements, appending another mesh, merging coincident nodes or elements, removing invalid elements or unreferenced nodes, renumbering, copying, resetting and generating faces, a mesh lists each id once, index(id) is its position, the next free id is unused, and all node references resolve. Each edit leaves what its definition says: corner positions, thickness and order of the entities it keeps are unchanged; faces and elements refer to each other, faces over the same nodes are each other's pair and the boundary count is that of unpaired faces (also after a second generation, renumbering or appending); the extracted boundary has one element per unpaired face; merging leaves one node per position; copies carry every attribute and are independent; centroids and bounding boxes are those of the node positions; inversion mirrors every cell; a mesh query reports exactly the elements sharing the given nodes.",
     ["histories", "inputs"], "all coordinates and tolerances, identifiers in any order and with gaps, all six cell types, all sequences of three edits out of ten",
     "The tests build meshes with ids equal to indices and never remove, copy or renumber after faces were generated.",
     ["mesh/MshMesh_Imp.hpp", "mesh/MshElement_Imp.hpp", "mesh/MshFace_Imp.hpp", "mesh/MshMeshQuery_Imp.hpp"],
     [("ids and indices", "mesh/MshMesh_Imp.hpp"), ("face pairing", "mesh/MshMesh_Imp.hpp"), ("node query", "mesh/MshMeshQuery_Imp.hpp")],
     "abstract interpretation of edit histories on symbolic meshes; the accessors' view after each history compared with the definition of the edits",
     ABS + "Meshes have two or three cells and up to twelve nodes; the spatial index used to find coincident points is replaced by its contract. Removing an entity others still refer to is outside the property, and so are sides shared by three cells. Which duplicate element survives merging is not prescribed.")

prop("C11", "The finite volume view of a mesh tiles it, and control volumes follow edits",
     "A finite volume mesh built from a mesh has one face per distinct side and one control volume per element, whatever the identifiers; a shared face names its two elements as owner and neighbour of each other and says it has a pair, a boundary face does not; every control volume lists exactly its sides, its area vectors point outward and add up to zero, and its volume, surface and centroid are those of the element, the volumes adding up to that of the mesh. Adding, replacing and removing faces and cells, setting again and resetting keep ids, indices and next ids coherent. A control volume that is clipped, restored, reset or rebuilt reports the measures of the shape it stands for, and the boundary face search finds exactly the boundary faces at the queried place, also when built again.",
     ["inputs", "histories"], "all cell sizes of two-cell meshes of hexahedra, prisms and tetrahedra in several numberings; add, replace, remove, set, clip and reset histories",
     "The tests build one mesh from ids that equal indices, look at the total volume, and never remove, reset or restore anything.",
     ["fvm/FvmMesh_Imp.hpp", "fvm/FvmFace_Imp.hpp", "fvm/FvmControlVolume_Imp.hpp", "fvm/FvmMeshSearch_Imp.hpp", "geometry/GeoPolyhedron_Imp.hpp"],
     [("faces and owners", "fvm/FvmMesh_Imp.hpp"), ("orientation", "fvm/FvmMesh_Imp.hpp"), ("clipped state", "fvm/FvmControlVolume_Imp.hpp")],
     "abstract interpretation of the construction and of edit histories on symbolic meshes; the accessors' view compared with the definition of the tiling",
     ABS + "Two cells per mesh; the spatial index is replaced by its contract, and the clipping of a polyhedron itself (C06) by an arbitrary other shape. Cells are listed in the order that gives positive volume.")

prop("C12", "Smoothing kernels are normalised and consistent, particle steps exact",
     "Every smoothing kernel, in one, two and three dimensions and for every smoothing length, vanishes beyond its support, integrates to one over space (the Gaussian: before truncation), is continuous at its breakpoints, even and radially symmetric; its gradient is the derivative of the very same function (times h squared, seen from the first particle), finite at coincident points when a tolerance is given, and its Laplacian weight is h (dim W - q W'); the dimension set later counts like the one given at construction. A step of the particle solver sums densities over all particles in reach, moves every particle along its velocity (wrapping at the boundary when cyclic), exchanges values pairwise and keeps prescribed ones, whatever the node identifiers.",
     ["inputs"], "all displacements, smoothing lengths and dimensions for five kernels; all positions, values, velocities and bounds of three particles",
     "The tests take central differences on a few points with tolerances of half the value, at h = 1.",
     ["sph/SphCubicSpline_Imp.hpp", "sph/SphConvex_Imp.hpp", "sph/SphQuintic_Imp.hpp", "sph/SphSpiky_Imp.hpp", "sph/SphGaussian_Imp.hpp", "solvers/SphParticles_Imp.hpp"],
     [("kernel functions", "sph/SphCubicSpline_Imp.hpp"), ("particle step", "solvers/SphParticles_Imp.hpp")],
     "abstract interpretation to piecewise closed forms in q; moments, limits and derivatives computed exactly on the normal form",
     ABS + "Gradients are compared along three directions; neighbour search is replaced by all particles in reach; only particle updates in sequence or simultaneously are told apart from others.")

prop("C13", "Analytical solutions satisfy their equations; functions return what was set",
     "Each reference temperature (steady in one, two and three dimensions, fin between two temperatures, transient in one, two and three dimensions) satisfies its differential equation identically in position, time and parameters, takes the prescribed values (or zero slope) on the boundary, and its series starts from the Fourier coefficients of the prescribed data; the potential of the Burgers solution is two diffusing pulses one period apart moving with speed 4 and the velocity is its logarithmic difference. A constant function evaluates to its constant, with and without variables; a material returns the value or function last added for a property and leaves the others alone. Bisection halves a bracket of the root for every root position, stops at the tolerance or the iteration limit, and reports its iterations; the Brent search finds the root of a linear function wherever it lies in the bracket.",
     ["inputs"], "all positions, times, diffusivities and fin parameters; all root positions in dyadic intervals",
     "The tests compare three solutions at one or two points with tolerances of 0.01 to 0.1; flows, transients, fins and materials are not tested.",
     ["analytical/AnaTemperature_Imp.hpp", "analytical/AnaFlow_Imp.hpp", "analytical/AnaFunction_Imp.hpp", "material/MatMaterial_Imp.hpp"],
     [("series", "analytical/AnaTemperature_Imp.hpp"), ("root search", "analytical/AnaFunction_Imp.hpp"), ("properties", "material/MatMaterial_Imp.hpp")],
     "abstract interpretation to closed forms; residuals, boundary values and Fourier coefficients computed exactly",
     ABS + "Double and triple series are interpreted for their first 3 to 6 terms per index; expressions compiled by exprtk and the convection-radiation fin are outside.")

prop("C14", "One step of the finite-volume solvers is the discrete conservation law",
     "For the flow (PISO), temperature and volume-of-fluid solvers on any cell sizes and fields: the pressure gradient of a cell is the sum of face pressures times outward areas over its volume; the momentum system holds exactly inertia, diffusion, central transport, gravity, minus the pressure gradient and the boundary values, each transported or diffused quantity leaving one cell entering its neighbour; the momentum operators (H and diagonal) come from the cell's own row; the pressure system is the discrete continuity equation, so that after the correction the net outward flux of every cell is the residual of its pressure equation; face fluxes vanish at walls and are the prescribed ones at inlets; cell velocities are corrected to (H minus the pressure gradient) over the diagonal; the lowest pressure is zero unless a boundary prescribes its level. The temperature system is conservative with upwind transport, and the volume-of-fluid mixture properties interpolate the two fluids, its transport conserves the fraction, which stays between zero and one. Storing, setting and residuals report the fields they name, and the sub-steps run in the documented order.",
     ["inputs"], "all cell sizes, fields, materials, time steps and boundary kinds on meshes of two and three cells",
     "Two tests run the flow solver on one cavity or column and compare a few values with wide tolerances; the temperature and volume-of-fluid solvers have no test.",
     ["solvers/FvmPisoSolver_Imp.hpp", "solvers/FvmTemperatureSolver_Imp.hpp", "solvers/FvmVofSolver_Imp.hpp"],
     [("momentum and pressure equations", "solvers/FvmPisoSolver_Imp.hpp"), ("temperature equation", "solvers/FvmTemperatureSolver_Imp.hpp"), ("fraction transport", "solvers/FvmVofSolver_Imp.hpp")],
     "abstract interpretation of each sub-step on symbolic fields; assembled systems recorded at the linear solver and compared with the discrete conservation laws",
     ABS + "The linear solver is replaced by named unknowns, so its accuracy is outside; meshes have two or three hexahedra; the compressive limiter of the fraction transport and the choice of the time step are outside.")

prop("C15", "The lattice Boltzmann step conserves mass and momentum and follows its scheme",
     "For every lattice size, relaxation time and state: the equilibrium distribution has the density, momentum and momentum flux of the macroscopic state, the moving directions come in opposite pairs, the initial state is at rest with unit density, one step is relaxation towards the equilibrium, streaming along the directions and bounce-back at solid nodes, the reported density and velocity are the moments of the distribution, the lid extrapolates the distributions at the prescribed velocity and the other walls keep their state.",
     ["inputs", "histories"], "all distributions, relaxation times and lid velocities on small lattices",
     "No test touches the lattice Boltzmann solver.",
     ["solvers/LbmLidDrivenSolver_Imp.hpp"],
     [("collision, streaming, boundaries", "solvers/LbmLidDrivenSolver_Imp.hpp")],
     "abstract interpretation of one step on symbolic distributions; moments and transported values compared in normal form",
     ABS + "Lattices are small (three to five nodes a side) and one step at a time.")

prop("C16", "Containment, intersection and distance verdicts are the geometric ones",
     "For points, segments, planes, triangles, quadrilaterals and tetrahedra anywhere in space and of any size: a segment contains exactly the points between its ends (its start aside); two segments, a segment and a plane, a triangle and a line that crosses its plane, and two triangles (meeting at a vertex, along an edge, overlapping in a plane, nested, piercing, or apart; whatever the order of their vertices or of the two) are found to intersect when they do, at the point they share and with the kind of contact they have; a triangle and a quadrilateral contain the points of their plane inside or on their sides and no others, a tetrahedron of positive volume the points of its convex hull and no others; and the distance from a point to a triangle is that to its nearest point, which is returned. Configurations within tolerance of changing the verdict, and points off the plane, are outside.",
     ["inputs"], "families of configurations in every region a definition distinguishes, with positive symbols for sizes, offsets and weights, in five frames at a symbolic origin",
     "The tests try a handful of fixed configurations, mostly axis-aligned, few of them at corners, none in reversed orientation.",
     ["geometry/GeoLine_Imp.hpp", "geometry/GeoTriangle_Imp.hpp", "geometry/GeoQuadrilateral_Imp.hpp", "geometry/GeoTetrahedron_Imp.hpp", "geometry/GeoBoundingBox_Imp.hpp"],
     [("segments", "geometry/GeoLine_Imp.hpp"), ("triangles", "geometry/GeoTriangle_Imp.hpp"), ("tetrahedra", "geometry/GeoTetrahedron_Imp.hpp")],
     "abstract interpretation with sign analysis of every test on families of configurations given by positive symbols; verdict, kind and point compared with the geometric ones",
     ABS + "Shapes are sampled (fixed proportions, symbolic size) where sign analysis needs it; machine epsilon and zero tolerances are idealised to exact comparison.")
