# continuation of gen.py's table (executed in its namespace)
prop("C09", "Frames and normals are the documented directions",
     "For any element, the frame at a local point has unit axes built from the derivatives of the element mapping as documented: the first axis of a hexahedron, quad or tetrahedron frame follows the first direction, the frame is right-handed and orthonormal for hexahedra and tetrahedra, and for quads whose two directions are perpendicular, the unit normal of a 3D triangle is perpendicular to both edges and oriented by the node order, and the frame without argument is the frame at the centre.",
     ["inputs"], "every node position / mapping and local point in general position",
     "Tests look at axis-aligned elements, where swapped or unnormalised axes coincide with the right ones.",
     [G + "BaseHexahedron.h", G + "BaseQuad.h", G + "BaseTetrahedron.h", G + "BaseTriangle.h", G + "Hexahedron.h", G + "Quad.h"],
     [("frames", G + "Base*.h frame"), ("normal", G + "BaseTriangle.h normal")], ["element.frame", "triangle.normal()"],
     DF + " with an arbitrary mapping; axes compared with the documented directions as polynomial/radical identities",
     "General position (non-degenerate elements), exact arithmetic.")
prop("C10", "Rectangular elements are the box their centre, size and rotation describe",
     "A rectangular quad or hexahedron maps a local point to centre plus rotation times half-size times local point; the mapping back is its exact inverse, and a world point is contained exactly when its local point is. Each constructor stores the given centre, size and rotation (unit size 2 and identity by default), and a rectangular element built from a regular one takes its centre, edge lengths and frame.",
     ["inputs"], "every centre, size, rotation, local and world point; every rectangular element, order and dimension",
     "Tests use identity rotations and a single size, so a transposed rotation or swapped extent is not seen.",
     [G + x for x in ("BaseRectangularQuad.h", "BaseRectangularHexahedron.h", "RectangularQuad.h", "RectangularHexahedron.h")],
     [("mapping", G + "BaseRectangular*.h world_coordinates / local_coordinates"), ("constructors", G + "Rectangular*.h")],
     ["element.center()", "element.size()", "element.rotation()", "element.world_coordinates", "element.local_coordinates", "element.contains"],
     DF + "; outputs compared with the box description as polynomial identities",
     "Exact arithmetic; rotation entries arbitrary (inverse taken for orthogonal rotations).")
prop("C11", "Hexahedron intersection tests never miss a segment or triangle",
     "A segment is reported as intersecting a hexahedron exactly when one of its points lies in the hexahedron's local box, whichever end is given first; a triangle is reported when a corner lies in the box, an edge crosses it, or the box passes through the triangle's interior, and not when they are separated. A larger tolerance never turns an intersection into a miss.",
     ["inputs"], "every segment and triangle (real coordinates), every tolerance",
     "Touching, crossing and separated configurations form many cases (13 separating axes, signs); tests sample a few.",
     [G + "BaseHexahedron.h", G + "BaseRectangularHexahedron.h"],
     [("intersection tests", G + "BaseHexahedron.h and BaseRectangularHexahedron.h intersects")], ["hexahedron.intersects(segment)", "hexahedron.intersects(triangle)"],
     DF + "; the answer as a boolean formula compared with the separating-axis formula by Fourier-Motzkin elimination and sign analysis",
     "Decided in the element's local coordinates for all positions; degenerate triangles excluded.")
prop("C12", "Deformation gradient and symmetric dyads equal their definitions",
     "The deformation gradient computed from shape gradients and nodal displacements is the identity plus the sum of displacement times gradient over every node, for any number of nodes and dimension, and the 6x6 matrices of the two symmetric dyadic products hold in each entry the documented product of components in the order xx, yy, zz, xy, yz, xz.",
     ["inputs"], "every displacement, gradient and symmetric tensor; every node count and dimension of the elements, both storage orders",
     "No test covers the tensor products and the deformation gradient is only compared on a few states.",
     ["src/Caribou/Mechanics/Elasticity/Strain.h", "src/Caribou/Algebra/Tensor.h"],
     [("deformation gradient", "src/Caribou/Mechanics/Elasticity/Strain.h F"), ("dyads", "src/Caribou/Algebra/Tensor.h symmetric_dyad_1/2")],
     ["strain::F(dN_dx, U)", "symmetric_dyad_1(a)", "symmetric_dyad_2(a)"],
     DF + "; entries compared with the definition as polynomial identities",
     "Exact arithmetic; dyads for symmetric arguments, as documented.")
prop("C13", "Hyperelastic stress and tangent derive from the strain energy",
     "For the Saint-Venant-Kirchhoff and Neo-Hookean materials with any moduli and any symmetric right Cauchy-Green tensor, the second Piola-Kirchhoff stress is the derivative of the strain energy, the reported tangent is the derivative of that stress, and at rest energy and stress vanish and the tangent is that of linear elasticity with the given Young modulus and Poisson ratio.",
     ["inputs"], "every invertible symmetric C (J = sqrt(det C)) and every Young modulus and Poisson ratio",
     "The materials are not built or tested here; a wrong tangent still converges, only slower, so runs do not show it.",
     ["src/SofaCaribou/Material/SaintVenantKirchhoffMaterial.h", "src/SofaCaribou/Material/NeoHookeanMaterial.h"],
     [("materials", "src/SofaCaribou/Material/*.h strain_energy_density, PK2_stress, PK2_stress_jacobian")],
     ["material.strain_energy_density", "material.PK2_stress", "material.PK2_stress_jacobian"],
     DF + "; stress and tangent compared with formal derivatives of the analysed energy and stress (rational functions)",
     "The headers are compiled against minimal stand-ins for SOFA's base classes; exact arithmetic.")
prop("C14", "Grid numbering is a bijection consistent with geometry",
     "For any number of subdivisions in 1D, 2D and 3D: node and cell indices enumerate the grid's nodes and cells exactly once (x fastest, then y, then z) and convert to and from grid coordinates; node positions are anchor plus coordinates times cell size; a cell's nodes are the grid nodes at its corners in element order; edges and faces number every edge and face once and list its own end or corner nodes; the counts agree; and a point of a cell (or on the upper boundary, when asked) is located in that cell, contained exactly when inside the box plus tolerance.",
     ["inputs"], "every anchor, positive size, subdivision count, cell, node, edge, face and point",
     "Tests use one or two small grids; index arithmetic errors that need uneven subdivisions or the last row stay hidden.",
     ["src/Caribou/Topology/Grid/Grid.h", "src/Caribou/Topology/Grid/Internal/BaseGrid.h", "src/Caribou/Topology/Grid/Internal/BaseMultidimensionalGrid.h", "src/Caribou/Topology/Grid/Internal/BaseUnidimensionalGrid.h"],
     [("numbering", "src/Caribou/Topology/Grid/Internal/Base*dimensionalGrid.h"), ("facets", "src/Caribou/Topology/Grid/Grid.h edge, face, node_indices_of"), ("location", "src/Caribou/Topology/Grid/Internal/BaseGrid.h cell_coordinates_at, contains")],
     ["grid.node_index_at", "grid.cell_coordinates_at", "grid.node", "grid.cell_at", "grid.node_indices_of", "grid.edge", "grid.face", "grid.cell_index_containing", "grid.contains"],
     DF + "; integer index arithmetic with symbolic extents (quotients and remainders proved), compared as polynomial identities",
     "Unbounded in the number of subdivisions; indices assumed to fit in 64 bits, exact real arithmetic.")
prop("C15", "Grid queries return exactly the cells around or enclosing positions",
     "For any grid and position, cells_around returns each cell whose closed box contains the position exactly once, in 1D, 2D and 3D, including positions on cell sides, edges, corners and on the grid boundary, and nothing for a position outside of the grid. cells_enclosing returns exactly once each cell of the grid-aligned bounding box of the given positions clipped to the grid, in whatever order the positions come, and nothing when every position is outside of the grid.",
     ["inputs"], "every grid (any anchor, positive size and number of subdivisions), every position or pair of positions, classified by cell interior, cell side, grid boundary and outside on each axis",
     "Positions on cell sides or outside of the grid combine into hundreds of cases per dimension, of which tests sample a few.",
     ["src/Caribou/Topology/Grid/Internal/BaseGrid.h", "src/Caribou/Topology/Grid/Internal/BaseMultidimensionalGrid.h", "src/Caribou/Topology/Grid/Internal/BaseUnidimensionalGrid.h"],
     [("queries", "src/Caribou/Topology/Grid/Internal/BaseGrid.h cells_around, cells_enclosing")],
     ["grid.cells_around", "grid.cells_enclosing"],
     DF + "; containers replaced by transparent models; appended cells with guards and loop ranges compared with the specified set for each class of positions",
     "Exact arithmetic; cells_enclosing shown for pairs of positions; positions exactly at the middle of a cell stand with their neighbours.")
prop("C16", "The hash grid never misses an element near a position",
     "After an element is added to a hash grid, it is stored once in every cell crossed by the box of its nodes, including negative coordinates, for every supported element type and any cell size; a query looks up every cell that contains or touches the position (and only neighbouring cells) and returns all the identifiers they hold. Hence every element whose node box contains the position is returned. Cells with different coordinates are never confused, and equal coordinates always meet in the same cell.",
     ["inputs"], "every element (any node positions), every cell size and every position",
     "A missed element only shows for particular positions (negative side, cell boundaries, uneven elements); no test covers the hash grid directly.",
     ["src/Caribou/Topology/HashGrid.h"],
     [("insertion", "src/Caribou/Topology/HashGrid.h add"), ("query", "src/Caribou/Topology/HashGrid.h get"), ("table", "src/Caribou/Topology/HashGrid.h HashFunction, HashEqual")],
     ["hash_grid.add(element, id)", "hash_grid.get(position)"],
     DF + "; containers replaced by transparent models; loop bounds proved to be the cells of the extreme node coordinates, look-ups compared per class of positions",
     "Exact arithmetic. Curved elements whose surface leaves the box of their nodes are outside of the statement.")
prop("C17", "Embedded points are located and interpolated in an element that contains them",
     "When points are embedded in a domain, every element of the domain is a candidate under its own index; each point is given an element among its candidates that contains it together with its local coordinates in that element, and index -1 exactly when no candidate contains it. The outside nodes are exactly the indices of those points, in order. Interpolating a field writes at each embedded point the interpolation by its element of the values at that element's nodes, for scalar and vector fields, leaves outside points untouched, and refuses inputs or outputs with the wrong number of rows.",
     ["inputs"], "every domain, point and field (symbolic), every combination of containing and not containing candidates",
     "Points in several elements, in none, or first/last in the list combine in ways tests do not cover, and no test interpolates with outside points in each position.",
     ["src/Caribou/Topology/BarycentricContainer.h"],
     [("location", "src/Caribou/Topology/BarycentricContainer.h barycentric_point, set_embedded_points"), ("interpolation", "src/Caribou/Topology/BarycentricContainer.h interpolate"), ("construction", "src/Caribou/Topology/BarycentricContainer.h constructor")],
     ["domain.embed(points)", "container.barycentric_point", "container.outside_nodes()", "container.interpolate"],
     DF + "; instantiated with a symbolic domain, element and hash grid, results compared with the prescribed ones for each containment pattern",
     "Up to 3 candidates per point and 2 embedded points (all patterns enumerated); any number of elements; exact arithmetic.")
prop("C18", "A domain returns exactly the indices and elements it was given",
     "For every element type and index type, the node indices of element i of a domain are row i of the table the domain was built from, whether the table was copied, referenced, or given as a buffer with any strides; its element has as nodes the mesh positions (or the given position rows) at those indices. A copied, cloned, moved or swapped domain answers the same, stays attached to its mesh, and never uses memory of a destroyed domain. A domain attached to one mesh is refused by another.",
     ["inputs", "histories"], "every index table, stride pair and element index; copies, moves and swaps after which the original is destroyed",
     "Tests use contiguous tables that outlive the domain and never copy or move a domain.",
     ["src/Caribou/Topology/Domain.h", "src/Caribou/Topology/BaseDomain.h"],
     [("indices", "src/Caribou/Topology/Domain.h element_indices"), ("elements", "src/Caribou/Topology/Domain.h element"), ("lifetime", "src/Caribou/Topology/Domain.h copy and move constructors, swap, clone")],
     ["domain.element_indices(i)", "domain.element(i)", "domain.element(i, positions)", "domain.clone()"],
     DF + " with tracked heap objects; results compared with the given table for symbolic strides and element index",
     "Buffers of any size; copied tables of 3 elements.")
prop("C19", "A mesh keeps its positions and owns uniquely named domains",
     "A mesh built from a vector, matrix or mapped buffer, in 1D, 2D and 3D, returns exactly the given coordinates for every node, with missing coordinates zero in the 3D node query, and for every kind of index list. Domains are found under the name they were added with; a name or a domain already used is refused; removing by name or by pointer removes and destroys exactly that domain and reports whether it was there. Each domain is attached to the mesh that holds it and destroyed exactly once, also after the mesh is copied, moved, swapped or assigned.",
     ["inputs", "histories"], "every node coordinate; histories of additions and removals of up to three domains; copies, moves and assignments of the mesh",
     "Tests add and remove a single domain and never copy or move a mesh that has domains.",
     ["src/Caribou/Topology/Mesh.h", "src/Caribou/Topology/BaseMesh.h"],
     [("positions", "src/Caribou/Topology/Mesh.h position, node, positions"), ("domains", "src/Caribou/Topology/Mesh.h add_domain, domain, remove, remove_domain"), ("lifetime", "src/Caribou/Topology/Mesh.h copy, move, swap")],
     ["mesh.position(i)", "mesh.node(i)", "mesh.positions(indices)", "mesh.add_domain", "mesh.domain(name)", "mesh.remove_domain(name)"],
     DF + " with tracked heap objects; queries after each listed history compared with the list of named domains",
     "3 nodes with arbitrary coordinates, up to 3 domains, the histories listed in the check.")
prop("C20", "A mesh read from a VTK file has the file's points and cells",
     "Reading a VTK unstructured grid as a 1D, 2D or 3D mesh keeps every point in order with the coordinates along the axes that vary (all three in 3D) and refuses the file when the number of varying axes is not the requested dimension or the file is missing; a file without points gives an empty mesh. Each supported cell type becomes one domain of the corresponding element (VTK segments, triangles, quads, tetrahedra and hexahedra, linear and quadratic) named domain_1, domain_2, ... whose rows are the cells of that type in file order with their node indices; cells of other types are skipped and do not disturb the rest. Nodes in VTK's order end up in Caribou's order. A builder registered for a cell type is called once, with the node indices of all its cells, in place of the default one.",
     ["inputs"], "every point coordinate (classified per axis by which points differ), every node index, cell type and mix of cell types, index type and dimension",
     "The test meshes are a few Gmsh exports lying in standard planes; axes that only vary at one point, mixed cell types or unsupported cells are never read.",
     ["src/Caribou/Topology/IO/VTKReader.h", "src/Caribou/Topology/IO/VTKReader.cpp"],
     [("axes", "src/Caribou/Topology/IO/VTKReader.cpp extract_axes_from_3D_vectors"), ("points and cells", "src/Caribou/Topology/IO/VTKReader.cpp mesh"), ("cell types", "src/Caribou/Topology/IO/VTKReader.cpp constructor, register_element_type")],
     ["VTKReader<D>::Read(file).mesh()", "reader.register_element_type"],
     DF + ", compiled against stand-ins for VTK with symbolic contents; mesh queries compared with the contents of the file",
     "Files of up to 3 points and 3 cells with arbitrary contents; VTK itself is trusted. Known finding: the node order of quadratic hexahedra.")
prop("C21", "A matrix or vector handed to the solvers holds exactly what was put in it",
     "After any history of resize, add of entries or 2x2 / 3x3 blocks, set, clear, clearing of rows and columns, and compress on an EigenMatrix - sparse or dense, row or column major, owning its storage, copying or wrapping an existing Eigen matrix - every entry is the sum of what was added to it since it was last set or cleared (zero otherwise), reading it back with element() and through the wrapped Eigen matrix agrees, and its sizes are those of the last resize. Marking a sparse matrix as symmetric does not change the entries of a symmetric matrix. The same holds for add, set, clear and resize on an EigenVector, and the dot product of any two supported vector types of the same size is the sum of the products of their entries.",
     ["histories", "inputs"], "every value; the listed histories of up to three operations after each of six ways of filling a 4x4 matrix; every storage; every pair of vector types",
     "Which code runs depends on whether the matrix has been compressed, is symmetric, is row major, and which entries exist; no test reaches these combinations because they need SOFA.",
     ["src/SofaCaribou/Algebra/EigenMatrix.h", "src/SofaCaribou/Algebra/EigenVector.h", "src/SofaCaribou/Algebra/BaseVectorOperations.cpp"],
     [("matrix", "src/SofaCaribou/Algebra/EigenMatrix.h add, set, compress, clear*"), ("vector", "src/SofaCaribou/Algebra/EigenVector.h"), ("dot product", "src/SofaCaribou/Algebra/BaseVectorOperations.cpp dot")],
     ["EigenMatrix::element after add / set / clear / clearRow / clearCol / compress", "EigenVector::element", "Algebra::dot"],
     DF + " and heap, compiled against stand-ins for SOFA's base classes; entries compared with the sum of the symbolic values put in",
     "Matrices of 4x4, values symbolic, histories enumerated; SOFA's base classes are stand-ins.")
prop("C22", "The hyperelastic force field integrates the material's stress consistently",
     "For any material and current positions, the force added at each node by a hyperelastic force field is minus the sum, over the integration points of the elements around it, of weight times det J times F S times the gradient of its shape function, on top of the force already there; the potential energy is the weighted sum of the material's energy; the material is only evaluated at F'F and det F of the integration points. The stiffness is the exact derivative of that force (geometric and material part) at the last positions given, is symmetric, is added with the caller's factor and offset into the assembled matrix, and times a displacement gives the force differential, whichever of the two is asked for first.",
     ["inputs"], "every current position (linear tetrahedra), stress, moduli and energy at each integration point, every node count and element family supported; two elements sharing nodes",
     "The force field only runs inside SOFA; a wrong transposition or a dropped symmetric block only shows away from the rest state, as slow or failing convergence.",
     ["src/SofaCaribou/Forcefield/HyperelasticForcefield.h", "src/SofaCaribou/Forcefield/HyperelasticForcefield.inl", "src/SofaCaribou/Forcefield/CaribouForcefield.inl"],
     [("force", "src/SofaCaribou/Forcefield/HyperelasticForcefield.inl addForce"), ("stiffness", "src/SofaCaribou/Forcefield/HyperelasticForcefield.inl assemble_stiffness, addKToMatrix, addDForce"), ("energy", "src/SofaCaribou/Forcefield/HyperelasticForcefield.inl getPotentialEnergy")],
     ["addForce", "addDForce", "addKToMatrix", "getPotentialEnergy", "K()"],
     DF + ", compiled against stand-ins for SOFA with an arbitrary material; compared as polynomials with the virtual work of the element's quadrature and its derivative",
     "Meshes of one or two elements with given rest positions; sequential assembly; SOFA's interfaces are stand-ins.")
prop("N01", "Inverting the mapping of a curved or distorted element finds the point",
     "For a world point inside a valid, possibly distorted element, local_coordinates returns a local point that maps back to it within the requested tolerance.",
     ["inputs"], "every valid element and every point inside it", "Convergence depends on how distorted the element is and where the point lies; tests sample mild cases.",
     [G + "Element.h"], [("Newton iteration", G + "Element.h local_coordinates")], ["element.local_coordinates"],
     na="Convergence of a Newton iteration on a polynomial map is a runtime quantity: it fails for some valid elements and no static argument in reach separates them. C07 decides what is decidable: the step, the stopping rule, the iteration bound, and exactness for affine elements.")
prop("N02", "Linear solvers return the solution within their tolerance",
     "The conjugate gradient, LDLT, LLT and LU solvers return x with |Ax - b| within the requested tolerance whenever they report success.",
     ["inputs"], "every well-posed system", "Accuracy depends on conditioning.",
     ["src/SofaCaribou/Solver/ConjugateGradientSolver.inl", "src/SofaCaribou/Solver/EigenSolver.h"], [("solvers", "src/SofaCaribou/Solver")],
     na="A bound on rounding errors that accumulate over a data-dependent number of iterations and on Eigen's factorizations; not in reach of a static argument here.")
prop("N03", "Nonlinear time integration converges to an equilibrium",
     "A static or implicit Euler step ends with a residual or correction below its thresholds whenever it reports convergence, and its result balances the forces.",
     ["inputs", "histories"], "every scene and time step", "Convergence depends on the scene.",
     ["src/SofaCaribou/Ode/NewtonRaphsonSolver.cpp", "src/SofaCaribou/Ode/StaticODESolver.cpp", "src/SofaCaribou/Ode/BackwardEulerODESolver.cpp"], [("Newton-Raphson", "src/SofaCaribou/Ode/NewtonRaphsonSolver.cpp solve")],
     na="Depends on SOFA's scene graph visitors and on convergence of the scene; SOFA is not installed and stand-ins would decide the outcome.")
prop("N04", "Sub-grid integration of a fictitious grid converges to the embedded volume",
     "The volume ratio and integration points of the boundary cells of a fictitious grid tend to those of the embedded surface or iso-surface as the number of subdivisions grows.",
     ["inputs"], "every surface and grid", "Accuracy statement over arbitrary geometry.",
     ["src/SofaCaribou/Topology/FictitiousGrid.inl"], [("subdivision", "src/SofaCaribou/Topology/FictitiousGrid.inl")],
     na="A statement about approximation errors for arbitrary surfaces; the recursion has no static bound that implies it.")
prop("N05", "Results are insensitive to floating point rounding",
     "Element queries on well-scaled inputs differ from their exact values by a small multiple of the machine precision.",
     ["inputs"], "every well-scaled input", "Rounding differs for every input.",
     [G + "Element.h"], [("element queries", "src/Caribou/Geometry")],
     na="All checks are decided in exact real arithmetic; error propagation through Eigen's inverses and norms for arbitrary geometry has no useful static bound.")
