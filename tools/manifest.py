"""writes MANIFEST.json from the table below"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('contract-based deductive verification: pre/postconditions on the real functions, obligations generated by exhaustive '
        'symbolic execution of the source, discharged by exact rational-function normalisation and z3')
C = {
    'C01': ('proof', 'The recursion steps (traversal, leaves, marks, deletion) are proved for arbitrary children behaving according to the contract (induction over the height of the hierarchy, up to four children per node); addresses, sub-forests, refining and coarsening are decided exhaustively over all hierarchies up to a stated size with all assignments of marks (bounded part, counted apart).'),
    'C04': ('proof', 'Inverse of the map on general (non-parallelogram) quadrilaterals is Newton iteration: bounded stand-in; nesting depth of sub-cell positions enumerated to 2 (quick) or 3.'),
    'C03': ('proof', 'One refinement step (edges, quadrilaterals, intervals, removal of sub-cells) is proved for arbitrary geometry and every state of the neighbours; the generated tables are decided on enumerated resolutions with symbolic boxes, enumerated connectivities and mesh files, and sequences of refinements on enumerated and seeded meshes (bounded part, counted apart).'),
    'C06': ('exploration', 'Neighbour contracts across edges and end points are proved for arbitrary geometry; queries on whole meshes are compared with geometry on exhaustively enumerated interval hierarchies and seeded quadrilateral meshes, balancing on all chains of refinements and seeded patterns (bounded).'),
    'C02': ('proof', 'Intervals, edges and convex quadrilaterals with symbolic coordinates; the number of children of an interval is enumerated (2-4).'),
    'C05': ('proof', 'Containment, intersection and one-step binning contracts for all cells, edges, points; number of points per call enumerated; whole refined meshes additionally searched (bounded).'),
    'C08': ('proof', 'All rules with exact algebraic nodes and weights; the six-point rule is stored with ten digits and compared to 1e-9. Triangle rules are not offered by the constructor (it fails) and are outside the property.'),
    'C09': ('proof', 'Contracts of numbering one cell, sharing with children and neighbours are proved with opaque numbers for every element and relative orientation; continuity across an edge for symbolic coefficients; whole distributions over refinement histories, sub-meshes and periodic meshes are a bounded part.'),
    'C10': ('proof', 'The constraint of one edge (loop body) is proved for every element, orientation and side, with continuity for symbolic coefficients; whole meshes are a bounded part.'),
    'C18': ('proof', 'The criterion is an arbitrary predicate; one cell of any shape and all periodic and plain interval meshes of up to three intervals are proved, two dimensional meshes and boundary queries are enumerated and seeded (bounded).'),
    'C17': ('proof', 'All formats; number of points per call enumerated (1-4), coordinates symbolic.'),
    'C07': ('proof', 'All element tables and the chain rule are proved for all points; number of points per call enumerated (1-3).'),
    'C15': ('proof', 'distance and every kernel proved against its formula for all points, parameters, anisotropies and boxes (one or two points per call, matern smoothness from a list); the Bessel and gamma functions are uninterpreted and cross-checked numerically; covariance matrices on meshes are a bounded part.'),
    'C14': ('proof', 'Every decomposition class and every operation proved on symbolic matrices of size 1-3 (4 for the modified Cholesky factorisation in the thorough tier), dense and sparse, with and without mass matrix, for every pivoting and block structure; the factorisations computed by LAPACK/scipy enter by contract (an arbitrary matrix with the defining equations). Singular matrices searched with real scipy are a bounded part.'),
    'C16': ('proof', 'Every sample is decomposed into its affine dependence on the noise; mean and covariance are proved for symbolic means, square roots, noise and observation operators of fields of size one to three with one or two (soft: one) observations; decompositions enter by the contract proved under C14, dense factorisations by the documented contract of scipy. Larger fields and covariances on meshes with the real libraries are a bounded part. A field conditioned to output a field must keep some randomness.'),
    'C13': ('proof', 'Evaluation proved for arbitrary formulas, nodal values, shape functions and placements of points in cells (1-3 points, 1-3 samples); interpolation and differentiation on meshes of two to five cells with symbolic geometry and data.'),
    'C11': ('proof', 'Local forms, kernels, shape evaluation and accumulation proved for arbitrary quadrature rules, shape values, kernels, constraint coefficients and (box, interval or convex quadrilateral) geometry with one or two quadrature points and samples; whole assemblies proved for arbitrary kernels, rules, nodal data and box geometry on meshes of up to five cells for the listed combinations of forms; refined meshes and mesh files against exact polygon integrals are a bounded part.'),
    'C12': ('proof', 'LinearSystem proved for all matrices, right-hand sides, coefficients and boundary values on systems of one to four equations with every listed arrangement of constraints; the direct solver is assumed to return a solution of the system it is given (scipy/cholmod contract). Assembled systems on refined meshes are a bounded part. One known finding (constraints shared by the sub-meshes of a dof handler).'),
}
NA = {}


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    m = dict(version=1, setup_cmd='./check.py --selftest',
             checks=[dict(property=i, quick_cmd='./check.py %s --tier quick' % i, thorough_cmd='./check.py %s --tier thorough' % i,
                          technique=TECH, level=C[i][0], level_note=C[i][1]) for i in ids if i in C],
             not_applicable=[dict(property=i, reason=NA.get(i, 'contracts for this property are still being written')) for i in ids if i not in C],
             notes='see DESIGN.md')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
