"""writes properties.jsonl"""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=['src/' + f for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=state or [], observe_at=observe, hook_needed=None)))


prop('C01', 'Tree and forest queries describe exactly the nodes they are defined over',
     'Traversing a refined cell or mesh visits every node of the (flagged) hierarchy exactly once with parents before children, '
     'and the leaf list is exactly the set of (flagged) nodes without (flagged) children. '
     'Marking, unmarking and testing marks act on exactly the node, its descendants or its ancestors as requested, and the '
     'address, depth, nearest marked ancestor and lookup by address of every node agree with the structure of the hierarchy. '
     'Completing a marked set to a rooted subtree, and refining or coarsening a hierarchy, change exactly the nodes the marks ask for.',
     ['inputs', 'histories'], 'for every tree and forest of any shape and depth and every assignment of marks',
     'The tests look at a handful of fixed trees of depth at most three with one or two flags; the statement is an induction over all shapes.',
     ['mesh.py'], [('traversal, leaves, marking, address', 'src/mesh.py: Tree'), ('forest-level queries', 'src/mesh.py: Forest')],
     ['Tree.traverse', 'Tree.get_leaves', 'Tree.mark', 'Forest.get_leaves', 'Forest.refine', 'Forest.coarsen'],
     [dict(name='_children/_parent/_flags', meaning='the hierarchy and its marks', where='src/mesh.py: Tree')])

prop('C02', 'Splitting a cell tiles it exactly',
     'Splitting an interval, an edge or a quadrilateral cell produces children that lie inside the parent, do not overlap, keep its '
     'orientation and together cover it: lengths and areas add up, new vertices are the midpoints (and the centroid), and '
     'neighbouring children share their vertices. '
     'Lengths, areas, normals and direction vectors of cells and edges are the Euclidean ones.',
     ['inputs'], 'for all vertex coordinates of intervals, edges and convex quadrilaterals',
     'Tests split a few unit squares and compare particular coordinates; the guarantee is about all coordinates.',
     ['mesh.py'], [('interval split', 'src/mesh.py: Interval.split'), ('edge split', 'src/mesh.py: HalfEdge.split'),
                   ('quad split', 'src/mesh.py: QuadCell.split')],
     ['Interval.split', 'HalfEdge.split', 'QuadCell.split', 'Cell.area'])

prop('C03', 'Half-edge connectivity stays consistent in every mesh and under every refinement',
     'In every mesh, following next-edges around a cell closes up after visiting each of its edges once, previous is the inverse of '
     'next, and the two sides of an interior edge are twins of one another with opposite end points while boundary edges have no twin. '
     'Refinement in any order keeps this true on every level, and in periodic meshes opposite sides are identified with one another by a translation. '
     'The generated rectangular grid has exactly the cells, vertices and edges of the tensor grid that was asked for.',
     ['inputs', 'histories', 'configurations'], 'for every box, resolution, periodicity and every sequence of refinements',
     'Tests check one or two grids after at most a couple of refinements; the statement ranges over refinement histories.',
     ['mesh.py'], [('cell construction links half-edges', 'src/mesh.py: Cell.__init__'), ('twin bookkeeping', 'src/mesh.py: HalfEdge.split, make_twin, assign_twin'),
                   ('grid construction', 'src/mesh.py: DCEL'), ('periodic identification', 'src/mesh.py: DCEL.make_periodic')],
     ['HalfEdge.twin', 'HalfEdge.next', 'HalfEdge.previous', 'DCEL'],
     [dict(name='half-edge links', meaning='twin/next/previous/cell of every half-edge', where='src/mesh.py: HalfEdge')])

prop('C04', 'Reference maps and their derivatives are exact and mutually inverse',
     'Mapping reference points to a cell is the linear (interval, edge) or bilinear (quadrilateral) interpolation of its vertices, the '
     'map back is its inverse, and the reported Jacobians and Hessians in both directions are the true first and second derivatives of '
     'these maps. '
     'The reported position of a sub-interval or sub-cell inside an ancestor is where the ancestor\'s reference map places it.',
     ['inputs'], 'for all convex cells, all points and any number of points',
     'Tests evaluate the maps at isolated points of one or two cells, mostly squares, and hardly any Hessian entries.',
     ['mesh.py'], [('interval map', 'src/mesh.py: Interval.reference_map'), ('quad map', 'src/mesh.py: QuadCell.reference_map'),
                   ('edge map', 'src/mesh.py: HalfEdge.reference_map'), ('relative position', 'src/mesh.py: subcell_position')],
     ['reference_map', 'subcell_position'])

prop('C05', 'Points are located in cells correctly',
     'A cell reports that it contains a point exactly when the point lies in the closed cell, and an edge or cell reports intersecting '
     'a segment exactly when they meet. '
     'Binning a set of points over a mesh or refined cell puts every point of the domain into exactly one bin, whose cell is a leaf of the requested '
     'sub-mesh and contains that point.',
     ['inputs', 'histories'], 'for all cells, points, segments, refinements and sub-mesh marks',
     'Tests use a few points well inside cells; shared faces, nested sub-meshes and arbitrary geometry are not reached.',
     ['mesh.py'], [('containment', 'src/mesh.py: contains_points'), ('binning', 'src/mesh.py: bin_points'),
                   ('intersection', 'src/mesh.py: intersects_line_segment')],
     ['contains_points', 'bin_points', 'intersects_line_segment'])

prop('C06', 'Neighbour queries and mesh balancing are geometrically right',
     'The neighbour of a cell across an edge, end point or vertex is the cell that actually touches it there, for uniform, adaptively '
     'refined and periodic meshes, and boundary entities have no neighbour. '
     'Balancing a mesh ends with neighbouring leaves differing by at most one level, only ever refines, and leaves an already balanced mesh unchanged.',
     ['inputs', 'histories', 'configurations'], 'for every mesh, periodicity, sub-mesh and history of refinements',
     'Tests query neighbours on one small mesh; hanging, flagged and periodic configurations multiply far beyond that.',
     ['mesh.py'], [('interval neighbour', 'src/mesh.py: Interval.get_neighbor'), ('cell neighbours', 'src/mesh.py: Cell.get_neighbors'),
                   ('balance', 'src/mesh.py: QuadMesh.balance, is_balanced')],
     ['get_neighbor', 'get_neighbors', 'balance', 'is_balanced'])

prop('C07', 'Shape functions are the Lagrange basis and their derivatives are exact',
     'For every supported element and dimension the shape functions are the Lagrange polynomials of the element\'s documented nodes: one at '
     'their own node, zero at all others, summing to one everywhere. '
     'First and second derivatives, on the reference cell or mapped to a cell with the derivatives of its reference map, are the true '
     'derivatives of those polynomials, for every number of points and selection of local functions.',
     ['inputs'], 'for all points of the reference cell, all elements, all derivative orders and all inverse-map derivatives',
     'Tests check nodal values and a few derivatives at sample points; a wrong coefficient away from the samples passes.',
     ['fem.py'], [('polynomial tables', 'src/fem.py: QuadFE.__init__'), ('evaluation and chain rule', 'src/fem.py: QuadFE.shape, phi, dphi, d2phi'),
                  ('node positions', 'src/mesh.py: RInterval, RQuadCell')],
     ['QuadFE.shape', 'QuadFE.reference_nodes'])

prop('C08', 'Quadrature rules are exact to their stated degree on every cell',
     'Every Gauss rule offered, on edges and quadrilaterals, has positive weights and nodes inside the reference cell and integrates every '
     'polynomial up to its degree exactly. '
     'Mapped to an interval, edge or rectangle, weights add up to its length or area and polynomials of the physical variables are integrated exactly.',
     ['inputs'], 'for all polynomials up to the degree (by linearity: all monomials), all rules and all cells of that kind',
     'Tests integrate a few polynomials with a few rules on one cell, so a wrong digit in a seldom used table is invisible.',
     ['assembler.py'], [('tables', 'src/assembler.py: GaussRule'), ('mapping', 'src/assembler.py: Assembler/GaussRule scale and map rules')],
     ['GaussRule.nodes', 'GaussRule.weights', 'mapped rules'])

prop('C09', 'Degrees of freedom are numbered consistently and conformingly',
     'Distributing degrees of freedom numbers them 0,1,2,... without gaps; two cells share a number for a continuous element exactly when '
     'the same node of the mesh belongs to both, a discontinuous element never shares numbers, and the position recorded for a number is the '
     'node of every cell that uses it. '
     'Index maps between the numbers of a sub-mesh and its basis are mutually inverse, and the local shape functions combined through the numbering '
     'give continuous functions across shared edges.',
     ['inputs', 'histories', 'configurations'], 'for every element, mesh, refinement and sub-mesh',
     'Tests compare numberings of two or three small meshes.',
     ['fem.py'], [('numbering', 'src/fem.py: DofHandler.distribute_dofs, share_dofs_with_neighbors, fill_dofs, assign_dofs'),
                  ('positions', 'src/fem.py: DofHandler.set_dof_vertices'), ('index maps', 'src/fem.py: Basis')],
     ['DofHandler.get_cell_dofs', 'DofHandler.get_region_dofs', 'DofHandler.get_dof_vertices', 'Basis.d2i', 'Basis.i2d'])

prop('C10', 'Hanging-node constraints reproduce the coarse trace',
     'On a balanced non-uniform mesh the constraint recorded for every hanging node expresses its value through the supporting nodes on the '
     'coarse side, with the coefficients of the coarse edge\'s shape functions, and no other node is constrained. '
     'Any function satisfying the constraints is continuous across every edge of the mesh.',
     ['inputs', 'histories', 'configurations'], 'for every continuous element and every locally refined mesh',
     'Tests check the constraint table of one mesh per element.',
     ['fem.py'], [('constraint computation', 'src/fem.py: DofHandler.set_hanging_nodes, QuadFE.constraint_coefficients')],
     ['DofHandler.get_hanging_nodes'])

prop('C11', 'Assembled forms equal the integrals they stand for',
     'Assembling a constant, linear or bilinear form on a mesh gives, entry for entry, the sum over cells of the quadrature of kernel times test '
     'times trial function on that cell, with each entry at the row and column of the corresponding degrees of freedom, whatever the '
     'order of the cells, the mix of forms assembled together and the sub-meshes and regions used. '
     'Assembly is linear in the kernel, symmetric forms give symmetric matrices, and samples of a kernel are assembled independently.',
     ['inputs', 'configurations'], 'for every mesh, element, kernel, combination of forms and number of samples',
     'Tests integrate a few fixed functions over small meshes.',
     ['assembler.py'], [('kernel evaluation', 'src/assembler.py: Kernel.eval'), ('local contributions', 'src/assembler.py: Form.eval, IPForm.eval, IIForm.eval'),
                        ('accumulation', 'src/assembler.py: AssembledForm, Assembler.assemble')],
     ['Assembler.assemble', 'Assembler.get_matrix', 'Assembler.get_vector', 'Assembler.get_scalar'])

prop('C12', 'Constrained linear systems are solved exactly',
     'Solving a linear system with Dirichlet or hanging-node constraints returns a vector that satisfies every constraint exactly and, on the free unknowns, the '
     'reduced system obtained by eliminating the constrained ones; unconstrained systems are solved as given. This holds whether the constraints are imposed on the assembled system or during assembly. '
     'The result does not depend on the order of the Dirichlet constraints or of the hanging nodes, on solving repeatedly with the same system '
     '(also after giving it another matrix or right-hand side, or further Dirichlet constraints), or on which factorisation is used.',
     ['inputs', 'histories', 'configurations'], 'for all matrices with a regular reduced system, right-hand sides and constraint sets',
     'Tests solve one Poisson problem per set-up.',
     ['solver.py', 'assembler.py'], [('elimination', 'src/solver.py: LinearSystem; src/assembler.py: Assembler.solve, AssembledForm.distribute'), ('constraint recovery', 'src/solver.py: resolve_constraints')],
     ['LinearSystem.solve_system', 'Assembler.solve', 'get_solution'])

prop('C13', 'Functions evaluate to the mathematical function they represent',
     'Evaluating an explicit, nodal or constant function (or a derivative of it) at any points, alone or on a cell or sub-mesh, gives for each requested sample the value of the underlying formula, '
     'or of the finite-element function with those nodal values, with one row per point and one column per sample. '
     'Interpolation takes the values at the nodes, so it reproduces continuous functions that the target space contains; differentiation commutes with evaluation inside every cell; adding samples or changing nodal values changes nothing else.',
     ['inputs', 'configurations'], 'for all points, nodal values, elements, derivative orders and sample selections',
     'Tests evaluate isolated points and rarely more than one sample or derivative.',
     ['function.py'], [('explicit', 'src/function.py: Explicit.eval'), ('nodal', 'src/function.py: Nodal.eval'), ('constant', 'src/function.py: Constant.eval'),
                       ('interpolant, derivative', 'src/function.py: Map.interpolant, Nodal.differentiate')],
     ['Explicit.eval', 'Constant.eval', 'Nodal.eval', 'Map.interpolant', 'Nodal.differentiate'])

prop('C14', 'Matrix decompositions reproduce the matrix they decompose',
     'For every symmetric positive (semi-)definite matrix, the product, solve, square-root product and square-root solve offered through the Cholesky or '
     'eigenvalue decomposition agree with the matrix itself: the square root times its transpose is the matrix, solving inverts multiplying, '
     'and the transposed operations are the transposes. '
     'A generalised eigendecomposition (with mass matrix M) represents M^-1 C M^-1 in products and square roots, and solves C x = b. '
     'A degenerate matrix handled by the modified Cholesky decomposition is replaced by the nearby matrix with lifted diagonal blocks, consistently in all operations. '
     'On singular matrices the eigen-based solve is the pseudo-inverse, and only positive eigenvalues are used.',
     ['inputs', 'configurations'], 'for all symmetric positive (semi-)definite matrices, vectors and block right-hand sides, dense and sparse',
     'Tests use one or two fixed matrices.',
     ['spd.py'], [('Cholesky', 'src/spd.py: CholeskyDecomposition'), ('eigen', 'src/spd.py: EigenDecomposition'), ('front end', 'src/spd.py: SPDMatrix')],
     ['SPDMatrix.dot', 'SPDMatrix.solve', 'SPDMatrix.sqrt', 'SPDMatrix.sqrt_solve', 'SPDMatrix.reconstruct'])

prop('C15', 'Covariance kernels and distances are symmetric, stationary and correctly scaled',
     'The distance used by covariance kernels is symmetric, zero only for equal points, is the (anisotropically) weighted Euclidean distance and, on periodic '
     'domains, the shortest wrapped one. '
     'Every covariance kernel is symmetric in its two points and follows its documented formula; the stationary ones take the value of the variance at '
     'zero distance and depend on the points only through that distance.',
     ['inputs'], 'for all points, ranges, variances, anisotropies and periodic boxes',
     'Tests evaluate each kernel on one grid and look at plots or a single entry.',
     ['gmrf.py'], [('distance', 'src/gmrf.py: distance'), ('kernels', 'src/gmrf.py: constant, linear, gaussian, exponential, matern, rational, ...')],
     ['distance', 'Covariance kernels', 'CovKernel'])

prop('C16', 'Gaussian fields sample and condition according to their mean and covariance',
     'Whichever representation (covariance or precision, Cholesky or eigen) a Gaussian field was given, a sample is the mean plus a square root of the covariance times the white noise supplied, with one column '
     'per sample. '
     'Conditioning on linear observations or pointwise values gives the mean and covariance of the conditional Gaussian (as samples or as a field, with or without observation noise), and conditioned samples satisfy hard '
     'observations exactly (for observation operators A with A K A^T regular). '
     'A field of low rank is supported on the range of its covariance; a truncated Karhunen-Loeve expansion keeps the requested modes and all modes together have the covariance of the field. '
     'Precision-to-covariance conversions agree.',
     ['inputs', 'configurations'], 'for all means, covariances, noise vectors and observation operators',
     'Tests draw random samples and look at moments or plots with loose tolerances.',
     ['gmrf.py', 'spd.py'], [('sampling', 'src/gmrf.py: GaussianField.sample'), ('conditioning', 'src/gmrf.py: GaussianField.condition'),
                             ('expansion', 'src/gmrf.py: GaussianField.KL_sample')],
     ['GaussianField.sample', 'GaussianField.condition', 'GaussianField.chol_sample', 'GaussianField.KL_sample'])

prop('C17', 'Every accepted point format denotes the same points',
     'A point or set of points given as a number, tuple, vertex, list of tuples, list of vertices, list of arrays or array denotes the same '
     'table of coordinates, one row per point and one column per coordinate, in the given order, and a single point is reported as such. '
     'Ambiguous or inadmissible inputs are resolved by the stated dimension or refused.',
     ['inputs'], 'for all coordinates and all supported formats and sizes',
     'Tests cover a few literal values per format.',
     ['mesh.py'], [('conversion', 'src/mesh.py: convert_to_array'), ('vertex coordinates', 'src/mesh.py: Vertex')],
     ['convert_to_array', 'Vertex.coordinates'])

prop('C18', 'Region marking selects exactly the entities that satisfy the criterion',
     'Marking a region of a mesh with a geometric criterion marks exactly the vertices, edges or cells of the requested (sub-)mesh that satisfy it '
     '(all vertices under strict containment, any vertex otherwise, boundary entities only when asked), and querying the region returns exactly the marked entities. '
     'Boundary queries return exactly the edges and vertices on the boundary of the (sub-)mesh.',
     ['inputs', 'configurations'], 'for every mesh, sub-mesh, criterion and combination of options',
     'Tests mark the left side of the unit square with one or two options.',
     ['mesh.py'], [('marking', 'src/mesh.py: Mesh1D.mark_region, Mesh2D.mark_region'), ('queries', 'src/mesh.py: get_region, get_boundary_segments')],
     ['mark_region', 'get_region', 'get_boundary_edges', 'get_boundary_vertices'])

if __name__ == '__main__':
    for p in P:
        assert len(p['title']) <= 80, p['id']
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
