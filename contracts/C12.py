"""C12 constrained linear systems."""
import itertools
from .common import *
from pyvc import spmodel
from scipy import sparse as real_sparse

EXPLANATION = ('LinearSystem is proved for all matrices, right-hand sides, constraint coefficients and boundary values, for systems of one to four '
               'equations and every listed arrangement of Dirichlet and hanging-node constraints; scipy.sparse is replaced by a model over exact reals and '
               'the linear solver by its contract (some x with A x = b). Systems assembled on refined meshes are additionally searched with the real scipy.')
TRUSTED = ['scipy.sparse: dense model of the sparse matrix interface (pyvc/spmodel.py), cross-checked by concrete runs with the real library',
           'scipy.sparse.linalg.spsolve / factorized: return a solution of A x = b']
R2 = range(2)

# name: (n, list of constraints in the order they are recorded); a constraint is (equation, supporting equations) or (equation, None) for Dirichlet
CASES = {
    'free-1': (1, []),
    'free-3': (3, []),
    'free-nonsymmetric': (2, []),
    'dirichlet-nonsymmetric': (2, [(1, None)]),
    'dirichlet-1-of-1': (1, [(0, None)]),
    'dirichlet-1-of-2': (2, [(0, None)]),
    'dirichlet-all': (2, [(1, None), (0, None)]),
    'dirichlet-ends': (3, [(2, None), (0, None)]),
    'dirichlet-twice': (3, [(2, None), (0, None), (2, None)]),
    'hanging': (3, [(1, [0, 2])]),
    'hanging-dirichlet-support': (3, [(1, [0, 2]), (0, None)]),
    'hanging-dirichlet-supports': (4, [(1, [0, 2]), (0, None), (2, None)]),
    'two-hanging': (4, [(1, [0, 2]), (3, [0, 2])]),
    'two-hanging-swapped': (4, [(3, [2, 0]), (1, [0, 2])]),
    'two-hanging-dirichlet': (4, [(3, [0, 2]), (1, [0, 2]), (2, None)]),
    'hanging-three-supports': (4, [(2, [0, 1, 3])]),
    'hanging-and-dirichlet-apart': (4, [(1, [0, 2]), (3, None)]),
}


def sol():
    return mod('solver')


class Dh(object):
    """a dof handler as LinearSystem sees it"""

    def __init__(self, dofs, cons):
        self.dofs = dofs
        self.constraints = cons
        self.calls = []

    def set_hanging_nodes(self, subforest_flag=None):
        self.calls.append(subforest_flag)

    def n_dofs(self, subforest_flag=None):
        return len(self.dofs)

    # what adding Dirichlet constraints asks for
    mesh = property(lambda self: self)

    def dim(self):
        return 1

    def get_region_dofs(self, entity_flag=None, **kw):
        return [entity_flag]

    def get_dof_vertices(self, dofs):
        return [(0.,) for d in dofs]


class Bs(object):
    def __init__(self, dh, flag):
        self.dh, self.flag = dh, flag

    def dofs(self):
        return list(self.dh.dofs)

    def n_dofs(self):
        return len(self.dh.dofs)

    def subforest_flag(self):
        return self.flag

    def dofhandler(self):
        return self.dh


def _patch(ctx, both=True):
    if not ctx.sym:
        return []
    m = spmodel.make()
    return [(sol(), 'sparse', m), (sol(), 'linalg', m.linalg), (sol(), 'cholmod_cholesky', ctx.choice('cholmod', [spmodel.cholmod, None] if both else [spmodel.cholmod]))]


def _matrix(ctx, A):
    a = ctx.arr(A)
    return spmodel.Sp(a) if ctx.sym else real_sparse.csr_matrix(a)


def _rhs(ctx, B, form):
    a = ctx.arr(B)
    if form == 'flat':
        return a[:, 0]
    if form == 'sparse':
        return spmodel.Sp(a) if ctx.sym else real_sparse.csc_matrix(a)
    return a


def setup(ctx, n, cons, sparse_numbers):
    dofs = [i + sum(1 for q in (0, 2) if q <= i) for i in range(n)] if sparse_numbers else list(range(n))
    K = dict(constrained_dofs=[], supporting_dofs=[], coefficients=[], affine_terms=[])
    C = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    d = [0] * n
    seen = {}
    for k, sup in cons:
        if k not in seen:
            seen[k] = ctx.real('g%d' % k, lo=-3, hi=3) if sup is None else \
                [ctx.real('c%d_%d' % (k, s), sample=lambda r: r.uniform(.2, .9)) for s in sup]
            if sup is not None:
                for v in seen[k]:
                    ctx.assume((v > 0) | (v < 0))
        K['constrained_dofs'].append(dofs[k])
        C[k] = [0] * n
        if sup is None:
            K['supporting_dofs'].append([])
            K['coefficients'].append([])
            K['affine_terms'].append(seen[k])
            d[k] = seen[k]
        else:
            K['supporting_dofs'].append([dofs[s] for s in sup])
            K['coefficients'].append(list(seen[k]))
            K['affine_terms'].append(0)
            for s, v in zip(sup, seen[k]):
                C[k][s] = v
    return dofs, K, C, d, sorted(seen)


def mmul(A, B):
    return [[sum((A[i][k] * B[k][j] for k in range(len(B)) if not (isinstance(A[i][k], int) and A[i][k] == 0)
                  and not (isinstance(B[k][j], int) and B[k][j] == 0)), 0) for j in range(len(B[0]))] for i in range(len(A))]


def tr(A):
    return [list(r) for r in zip(*A)]


def system(ctx, case, second):
    """solve: constraints hold exactly, free unknowns solve the reduced system"""
    s = sol()
    ctx.fn('solver.LinearSystem.' + 'solve_system', *['solver.LinearSystem.' + f for f in (
        '__init__', 'set_constraint_relation', 'constrain_matrix', 'constrain_rhs', 'invert_matrix', 'factor_matrix', 'resolve_constraints',
        'set_matrix', 'set_rhs', 'get_solution', 'dof2eqn')])
    n, cons = CASES[case]
    non = 'nonsymmetric' in case
    big = 'two-h' in case or 'three-s' in case
    numbers = ctx.choice('gaps', [False] if non else [True] if big else [False, True])
    dofs, K, C, d, fixed = setup(ctx, n, cons, numbers)
    free = [i for i in range(n) if i not in fixed]
    diag = (lambda i, j: (lambda r: r.uniform(4, 8) if i == j else r.uniform(-1, 1)))
    A = [[ctx.real('a%d_%d' % (i, j), sample=diag(i, j)) for j in range(n)] for i in range(n)]
    factor = ctx.choice('factor', [True] if non else [False, True])
    symmetric = factor and 'nonsymmetric' not in case
    if symmetric:
        A = [[A[max(i, j)][min(i, j)] for j in range(n)] for i in range(n)]
    elif factor:
        for row in A:
            for v in row:
                ctx.assume((v < 10) & (v > -10))
        ctx.assume(A[0][1] - A[1][0] > (Fr(1, 10) if ctx.sym else .1))
    m = ctx.choice('columns', [2] if big and second else [1] if big else [1, 2])
    form = ctx.choice('form', ['flat', 'array', 'sparse'] if m == 1 else ['array', 'sparse'])
    rounds = 2 if second else 1
    Bs_ = [[[ctx.real('b%d_%d_%d' % (r, i, j), lo=-3, hi=3) for j in range(m)] for i in range(n)] for r in range(rounds)]
    # what the reduced system is
    R = mmul(tr(C), mmul(A, C))
    if ctx.sym:
        for i in free:
            ctx.assume(R[i][i] > 0)
    flag = None if second or big else ctx.choice('flag', [None, 's'])
    dh = Dh(dofs, K)
    seen = []
    ctx.solve_hook = lambda a, b: seen.append((a.copy(), np.asarray(b).copy()))
    A0, B0 = _matrix(ctx, A), [_rhs(ctx, B, form) for B in Bs_]
    with patched(*_patch(ctx)):
        how = ctx.choice('how', ['constructor'] if non else ['setters', 'later'] if big else ['constructor', 'setters', 'later'])
        if how == 'constructor':
            S = s.LinearSystem(Bs(dh, flag), A=A0, b=B0[0])
        else:
            S = s.LinearSystem(Bs(dh, flag))
            S.set_matrix(A0)
            if how == 'setters':
                S.set_rhs(B0[0])
        ctx.prove('hanging-nodes-of-the-sub-mesh', dh.calls == [flag])
        for i in range(n):
            ctx.prove('numbering', int(S.dof2eqn(dofs[i])) == i)
        for r in range(rounds):
            if r == 0 and how != 'later':
                S.solve_system(factor=factor)
            else:
                S.solve_system(B0[r], factor=factor)
            u = S.get_solution(as_function=False)
            ctx.prove('shape', np.shape(u) == (n, m), np.shape(u))
            for j in range(m):
                for k in fixed:
                    ctx.prove_eq('constraint-holds', u[k, j], sum((C[k][i] * u[i, j] for i in range(n) if not isinstance(C[k][i], int)), d[k]), (case, r))
            Ad = mmul(A, [[v] for v in d])
            for j in range(m):
                rhs = mmul(tr(C), [[Bs_[r][i][j] - Ad[i][0]] for i in range(n)])
                for i in free:
                    res = sum((R[i][q] * u[q, j] for q in range(n)), 0) - rhs[i][0]
                    done = False
                    if ctx.sym and len(seen) == (r + 1) * (m if factor else 1) and seen[-1][0].shape == (n, n):
                        a, b = seen[r * m + j] if factor else seen[r]
                        bb = b if b.ndim == 1 else b[:, 0 if factor else j]
                        row = sum((a[i, q] * u[q, j] for q in range(n)), 0) - bb[i]
                        if isinstance(res, SymReal) and isinstance(row, SymReal) and (res - row).r.is_zero():
                            # the residual of the reduced system is the residual of a solved equation
                            ctx.prove_eq('reduced-system', res, row, (case, r))
                            done = True
                    if not done:
                        ctx.prove_eq('reduced-system', res, 0, (case, r))
    if ctx.sym and free:
        for a, b in seen:
            if a.shape == (n, n):
                det = np_det(a)
                red = np_det(ctx.arr([[R[i][q] for q in free] for i in free]))
                f = 1
                for k in fixed:
                    ctx.prove('constrained-equation-regular', a[k, k] > 0)
                    f = f * a[k, k]
                ctx.prove_eq('regular-if-the-reduced-system-is', det, f * red)
                break


def np_det(a):
    n = len(a)
    if n == 1:
        return a[0, 0]
    t = 0
    for j in range(n):
        if isinstance(a[0, j], SymReal) and a[0, j].r.is_zero() or isinstance(a[0, j], (int, float)) and a[0, j] == 0:
            continue
        mi = np.delete(np.delete(a, 0, 0), j, 1)
        t = t + (-1) ** j * a[0, j] * np_det(mi)
    return t


def history(ctx, case, steps=False):
    """one system object: matrix, right-hand side and constraints are replaced or added between solves, each solve is of the latest system"""
    s = sol()
    ctx.fn(*['solver.LinearSystem.' + f for f in ('set_matrix', 'set_rhs', 'add_dirichlet_constraint', 'solve_system', 'constrain_matrix', 'constrain_rhs',
                                                  'set_constraint_relation', 'factor_matrix', 'invert_matrix', 'resolve_constraints')])
    n, cons = {'dirichlet': (2, [(0, None)]), 'hanging': (3, [(1, [0, 2])]), 'free': (2, [])}[case]
    dofs, K, C, d, fixed = setup(ctx, n, cons, False)
    dh = Dh(dofs, K)
    diag = (lambda i, j: (lambda r: r.uniform(4, 8) if i == j else r.uniform(-1, 1)))

    def matrix(k):
        A = [[ctx.real('a%d_%d_%d' % (k, max(i, j), min(i, j)), sample=diag(i, j)) for j in range(n)] for i in range(n)]
        if ctx.sym:
            for i in range(n):
                ctx.assume(A[i][i] > 0)
        return A
    rhs = lambda k: [[ctx.real('b%s_%d' % (k, i), lo=-3, hi=3)] for i in range(n)]
    seen = []
    ctx.solve_hook = lambda a, b: seen.append((a.copy(), np.asarray(b).copy()))
    A, B = matrix(0), rhs(0)
    with patched(*_patch(ctx, case != 'hanging')):
        S = s.LinearSystem(Bs(dh, None), A=_matrix(ctx, A), b=_rhs(ctx, B, 'array'))
        done = []
        for r in range(1 if steps else 3 if case != 'hanging' or not ctx.sym else 2):
            arg = None
            if r:
                op = ctx.choice('op%d' % r, ['matrix', 'constraint', 'both', 'rhs', 'argument', 'nothing'])
                done.append(op)
                if op in ('matrix', 'both'):
                    A = matrix(r)
                    S.set_matrix(_matrix(ctx, A))
                if op in ('rhs', 'both', 'argument'):
                    B = rhs(r)
                    if op == 'argument':
                        arg = _rhs(ctx, B, 'array')
                    else:
                        S.set_rhs(_rhs(ctx, B, 'array'))
                if op == 'constraint':
                    # another value at a constrained end, or a new constraint at the last dof
                    k = fixed[0] if case == 'dirichlet' and r == 1 else n - 1
                    g = (2.5, -1.25)[r - 1]
                    S.add_dirichlet_constraint(dofs[k], g)
                    C = [list(row) for row in C]
                    C[k], d = [0] * n, d[:k] + [g] + d[k + 1:]
                    fixed = sorted(set(fixed) | {k})
            del seen[:]
            if r == 0 or case == 'dirichlet' or not ctx.sym:
                factor = ctx.choice('factor%d' % r, [False] if ctx.sym and case == 'hanging' else [False, True])
            if steps:
                by_hand(ctx, S, _rhs(ctx, rhs('x'), 'array'), _rhs(ctx, B, 'array'), factor)
            else:
                S.solve_system(arg, factor=factor)
            u = S.get_solution(as_function=False)
            Cf, df = [list(row) for row in C], list(d)
            for h, sup in cons:
                for t in sup or []:
                    if t in fixed and t != h:       # a hanging node with a fixed support
                        w = C[h][t]
                        Cf[h] = [Cf[h][q] + w * C[t][q] if q != t else w * C[t][t] for q in range(n)]
                        df[h] = df[h] + w * d[t]
            free = [i for i in range(n) if i not in fixed]
            ctx.prove('shape', np.shape(u) == (n, 1), np.shape(u))
            for k in fixed:
                ctx.prove_eq('constraint-holds', u[k, 0], sum((C[k][i] * u[i, 0] for i in range(n) if not isinstance(C[k][i], int)), d[k]), (case, done))
            R = mmul(tr(Cf), mmul(A, Cf))
            Ad = mmul(A, [[v] for v in df])
            want = mmul(tr(Cf), [[B[i][0] - Ad[i][0]] for i in range(n)])
            for i in free:
                res = sum((R[i][q] * u[q, 0] for q in range(n)), 0) - want[i][0]
                if ctx.sym:
                    # the residual of the reduced system is the residual of the equation that was solved
                    ctx.prove('solved-once', len(seen) == 1, len(seen))
                    a, b = seen[0]
                    row = sum((a[i, q] * u[q, 0] for q in range(n)), 0) - (b if b.ndim == 1 else b[:, 0])[i]
                    if isinstance(res, SymReal) and isinstance(row, SymReal) and (res - row).r.is_zero():
                        ctx.prove_eq('reduced-system', res, row, (case, done))
                        continue
                ctx.prove_eq('reduced-system', res, 0, (case, done))
        if steps:
            # any vector can be made to satisfy the constraints
            x = [[ctx.real('x%d' % i)] for i in range(n)]
            v = S.resolve_constraints(_rhs(ctx, x, 'array' if ctx.choice('dense', [True, False]) else 'sparse'))
            ctx.prove('shape', np.shape(v) == (n, 1), np.shape(v))
            for i in range(n):
                w = x[i][0] if i not in fixed else sum((C[i][q] * v[q, 0] for q in range(n) if not isinstance(C[i][q], int)), d[i])
                ctx.prove_eq('vector-made-to-satisfy-the-constraints', v[i, 0], w)
            ctx.prove('solution-kept', S.get_solution(as_function=False) is u)


def by_hand(ctx, S, other, B, factor):
    """the steps of solving called one by one"""
    S.set_constraint_relation()
    how = ctx.choice('steps', ['stored', 'given', 'replaced'])
    S.constrain_matrix()
    if how != 'given':
        if how == 'replaced':
            S.set_rhs(other)
            S.constrain_rhs()
            S.set_rhs(B)
        S.constrain_rhs()
        S.constrain_rhs()       # nothing left to do
    if factor and ctx.choice('factored-before', [True, False]):
        S.factor_matrix()
    if how == 'given':
        S.invert_matrix(B, factor=factor)
    else:
        S.invert_matrix(factor=factor)
    S.resolve_constraints()


def refuses(ctx):
    ctx.fn('solver.LinearSystem.set_matrix', 'solver.LinearSystem.set_rhs')
    K = dict(constrained_dofs=[], supporting_dofs=[], coefficients=[], affine_terms=[])
    B = Bs(Dh([0, 1], K), None)
    case = ctx.choice('case', ['not-square', 'matrix-size', 'rhs-size', 'no-rhs'])
    try:
        if case == 'not-square':
            sol().LinearSystem(B, A=real_sparse.csr_matrix(np.ones((2, 3))))
        elif case == 'matrix-size':
            sol().LinearSystem(B, A=real_sparse.csr_matrix(np.ones((3, 3))))
        elif case == 'rhs-size':
            sol().LinearSystem(B, A=real_sparse.csr_matrix(np.eye(2)), b=np.ones(3))
        else:
            sol().LinearSystem(B, A=real_sparse.csr_matrix(np.eye(2))).solve_system()
        ok = False
    except AssertionError:
        ok = True
    ctx.prove('inadmissible-input-refused', ok, case)


def dirichlet(ctx, dim):
    """Dirichlet constraints: exactly the nodes of the marked part of the boundary, with the values of the given function"""
    ctx.fn('solver.LinearSystem.add_dirichlet_constraint')
    m, fem = M(), mod('fem')
    if dim == 1:
        mesh = m.Mesh1D(box=[0, 2], resolution=(2,))
    else:
        mesh = m.QuadMesh(box=[0, 2, 0, 1], resolution=(2, 1))
    side = ctx.choice('side', ['left', 'right', 'all'])
    test = {'left': lambda x: abs(x) < 1e-9, 'right': lambda x: abs(x - 2) < 1e-9, 'all': None}[side]
    if ctx.choice('refined', [False, True]):
        mesh.cells.get_child(0).split() if dim == 2 else mesh.cells.get_child(0).split()
    if test:
        if dim == 1:
            mesh.mark_region('g', test, entity_type='vertex', on_boundary=True)
        else:
            mesh.mark_region('g', lambda x, y: test(x), entity_type='half_edge', on_boundary=True)
    el = ctx.choice('element', ['Q1', 'Q2', 'Q3'])
    dh = fem.DofHandler(mesh, fem.QuadFE(dim, el))
    dh.distribute_dofs()
    b = fem.Basis(dh)
    S = sol().LinearSystem(b)
    before = {k: list(v) for k, v in dh.constraints.items()}
    val = ctx.choice('value', ['zero', 'number', 'function'])
    if val == 'zero':
        S.add_dirichlet_constraint('g' if test else None)
        want = lambda x: 0
    elif val == 'number':
        g = ctx.choice('g', [2.5, -1])
        S.add_dirichlet_constraint('g' if test else None, g)
        want = lambda x: g
    else:
        def f(x):
            out = np.empty(len(x), dtype=object if ctx.sym else float)
            for i in range(len(x)):
                out[i] = ctx.ufun('g', list(x[i]))
            return out
        S.add_dirichlet_constraint('g' if test else None, mod('function').Explicit(f, dim=dim))
        want = lambda x: ctx.ufun('g', list(x))
    K = dh.constraints
    nb = len(before['constrained_dofs'])
    ctx.prove('earlier-constraints-kept', all(K[k][:nb] == before[k] for k in K))
    ctx.prove('same-length', len(set(len(v) for v in K.values())) == 1)
    new = K['constrained_dofs'][nb:]
    # nodes on the marked part of the boundary
    nodes = set()
    for c in mesh.cells.get_leaves():
        X = c.reference_map(dh.element.reference_nodes())
        for dof, x in zip(dh.get_cell_dofs(c), np.array(X, dtype=float)):
            on = [abs(x[0]) < 1e-9, abs(x[0] - 2) < 1e-9] + ([abs(x[1]) < 1e-9, abs(x[1] - 1) < 1e-9] if dim == 2 else [])
            if {'left': on[0], 'right': on[1], 'all': any(on)}[side]:
                nodes.add(dof)
    ctx.prove('exactly-the-boundary-nodes', sorted(new) == sorted(nodes), (sorted(new), sorted(nodes)))
    for i, dof in enumerate(new):
        ctx.prove('no-support', K['supporting_dofs'][nb + i] == [] and K['coefficients'][nb + i] == [])
        ctx.prove_eq('boundary-value', K['affine_terms'][nb + i], want(dh.get_dof_vertices([dof])[0]))


def assembled(ctx, dim):
    """bounded: assembled systems on refined meshes with the real sparse solver"""
    m, fem, asm, s = M(), mod('fem'), mod('assembler'), sol()
    ctx.fn('solver.LinearSystem.solve_system')
    mesh = m.Mesh1D(resolution=(2,)) if dim == 1 else m.QuadMesh(resolution=(2, 2))
    for i in range(ctx.choice('levels', [0, 1, 2])):
        leaves = mesh.cells.get_leaves()
        leaves[ctx.choice('cell%d' % i, list(range(4))) % len(leaves)].mark('r')
        mesh.cells.refine(refinement_flag='r')
        mesh.cells.unmark('r') if hasattr(mesh.cells, 'unmark') else None
        if dim == 2:
            mesh.balance()
    el = ctx.choice('element', ['Q1', 'Q2', 'Q3'])
    dh = fem.DofHandler(mesh, fem.QuadFE(dim, el))
    dh.distribute_dofs()
    u, ux, uy = fem.Basis(dh, 'v'), fem.Basis(dh, 'vx'), fem.Basis(dh, 'vy') if dim == 2 else None
    prob = [asm.Form(1, test=ux, trial=ux), asm.Form(1, test=u, trial=u), asm.Form(mod('function').Explicit(lambda x: 1 + x[:, 0] ** 2, dim=dim), test=u)]
    if dim == 2:
        prob.append(asm.Form(1, test=uy, trial=uy))
    a = asm.Assembler([prob], mesh)
    a.assemble()
    A, b = a.get_matrix(), a.get_vector()
    S = s.LinearSystem(u, A=A.copy(), b=b.copy())
    g = mod('function').Explicit(lambda x: 2 + x[:, 0] - .5 * x[:, -1], dim=dim)
    S.add_dirichlet_constraint(None, g)
    S.solve_system(factor=ctx.choice('factor', [False, True]))
    un = S.get_solution(as_function=False)
    n = u.n_dofs()
    C, d = np.eye(n), np.zeros(n)
    K = dh.constraints
    for dof, sup, co, af in zip(K['constrained_dofs'], K['supporting_dofs'], K['coefficients'], K['affine_terms']):
        C[u.d2i(dof)] = 0
    for dof, sup, co, af in zip(K['constrained_dofs'], K['supporting_dofs'], K['coefficients'], K['affine_terms']):
        d[u.d2i(dof)] = af
        for q, v in zip(sup, co):
            C[u.d2i(dof), u.d2i(q)] = v
    cd = set(int(u.d2i(q)) for q in K['constrained_dofs'])
    fr = [i for i in range(n) if i not in cd]
    A, b = A.toarray(), np.reshape(b.toarray() if hasattr(b, 'toarray') else b, -1)
    x = un[:, 0]
    for k in sorted(cd):
        ctx.prove_eq('constraint-holds', x[k], C[k].dot(x) + d[k], (el, k))
    r = C.T.dot(b - A.dot(d)) - C.T.dot(A).dot(C).dot(x)
    if fr:
        ctx.prove('reduced-system', np.max(np.abs(r[fr])) < 1e-8, np.max(np.abs(r[fr])))
    b2 = b * np.linspace(1, 2, n)
    S.solve_system(b2)
    x = S.get_solution(as_function=False)[:, 0]
    r = C.T.dot(b2 - A.dot(d)) - C.T.dot(A).dot(C).dot(x)
    for k in sorted(cd):
        ctx.prove_eq('constraint-holds-again', x[k], C[k].dot(x) + d[k], (el, k))
    if fr:
        ctx.prove('reduced-system-again', np.max(np.abs(r[fr])) < 1e-8, np.max(np.abs(r[fr])))
    f = S.get_solution()
    ctx.prove_all_eq('solution-as-function', np.reshape(f.data(), -1), x)
    for r in range(2):
        op = ctx.choice('op%d' % r, ['matrix', 'rhs', 'values'])
        if op == 'matrix':
            A = A * (1.5 + r) + np.diag(np.linspace(1, 2, n))
            S.set_matrix(real_sparse.csr_matrix(A))
        elif op == 'rhs':
            b2 = b * np.linspace(2 + r, -1, n)
            S.set_rhs(b2)
        else:
            h = mod('function').Explicit(lambda x, r=r: 1 - r + x[:, 0] * x[:, -1], dim=dim)
            S.add_dirichlet_constraint(None, h)
            for dof, af in zip(K['constrained_dofs'], K['affine_terms']):
                d[u.d2i(dof)] = af
            for dof, x in zip(*(lambda q: (q, dh.get_dof_vertices(q)))([q for q, sup in zip(K['constrained_dofs'], K['supporting_dofs']) if not len(sup)])):
                ctx.prove_eq('new-boundary-value', d[u.d2i(dof)], h.eval(np.array([x]))[0, 0])
        S.solve_system(factor=ctx.choice('factor%d' % r, [False, True]))
        x = S.get_solution(as_function=False)[:, 0]
        res = C.T.dot(b2 - A.dot(d)) - C.T.dot(A).dot(C).dot(x)
        for k in sorted(cd):
            ctx.prove_eq('constraint-holds-later', x[k], C[k].dot(x) + d[k], (el, k, op))
        if fr:
            ctx.prove('reduced-system-later', np.max(np.abs(res[fr])) < 1e-7, (op, np.max(np.abs(res[fr]))))


def two_sub_meshes(ctx):
    """bounded: systems on two sub-meshes of one dof handler (each with its own hanging nodes)"""
    ctx.fn('solver.LinearSystem.__init__', 'solver.LinearSystem.set_constraint_relation')
    m, fem, asm, s = M(), mod('fem'), mod('assembler'), sol()
    mesh = m.QuadMesh(resolution=(2, 2))
    mesh.record('0')
    which = ctx.choice('cell', [0, 1, 2, 3])
    mesh.cells.get_child(which).mark('r')
    mesh.cells.refine(refinement_flag='r')
    mesh.record('1')
    for c in mesh.cells.get_leaves():
        if c.get_parent() is None or c.get_depth() == 1:
            c.mark('r1')
    mesh.cells.refine(refinement_flag='r1')
    mesh.record('2')
    dh = fem.DofHandler(mesh, fem.QuadFE(2, ctx.choice('element', ['Q1', 'Q2'])))
    dh.distribute_dofs()
    first = ctx.choice('first', ['0', '1', '2'])
    last = ctx.choice('last', ['0', '1', '2'])
    f = mod('function').Explicit(lambda x: x[:, 0] + x[:, 1] ** 2, dim=2)

    def solve(dh, flag):
        u = fem.Basis(dh, 'v', subforest_flag=flag)
        a = asm.Assembler([[asm.Form(1, test=u, trial=u), asm.Form(f, test=u)]], mesh, subforest_flag=flag)
        a.assemble()
        S = s.LinearSystem(u, A=a.get_matrix(), b=a.get_vector())
        S.solve_system()
        return S.get_solution(as_function=False)
    fresh = fem.DofHandler(mesh, dh.element)
    fresh.distribute_dofs()
    want = solve(fresh, last)[:, 0]
    try:
        solve(dh, first)
        got = solve(dh, last)[:, 0]
        ok = bool(np.max(np.abs(got - want)) < 1e-7)
    except IndexError as e:
        ok = False
    ctx.prove('independent-of-other-sub-meshes', ok, (which, first, last))


def assembler_system(ctx, dim, el):
    """
    systems constrained during assembly: Assembler.solve returns a vector that takes the boundary values, satisfies the hanging node
    relations and solves the reduced system of the matrix and vector assembled without constraints
    """
    m, fem, asm = M(), mod('fem'), mod('assembler')
    ctx.fn(*['assembler.Assembler.' + f for f in ('add_dirichlet', 'get_dirichlet', 'add_hanging_nodes', 'get_hanging_nodes', 'hanging_node_matrix',
                                                  'assembled_bnd', 'get_dofs', 'solve', 'assemble', 'get_matrix', 'get_vector')],
           'assembler.AssembledForm.distribute', 'assembler.AssembledForm.consolidate')
    mesh = m.Mesh1D(box=[0, 2], resolution=(2,)) if dim == 1 else m.QuadMesh(box=[0, 2, 0, 1], resolution=(2, 1))
    mesh.cells.record('c')
    if ctx.choice('refined', [True] if ctx.sym and dim == 2 else [True, False]):
        mesh.cells.get_child(ctx.choice('which', [0] if ctx.sym else [0, 1])).split()
    sf = ctx.choice('sub-mesh', [None] if ctx.sym and dim == 2 else [None, 'c'])
    sides = ctx.choice('sides', [['left', 'right'], ['all'], [], ['left']])
    test = {'left': lambda x: abs(x) < 1e-9, 'right': lambda x: abs(x - 2) < 1e-9}
    for sd in sides:
        if sd in test:
            if dim == 1:
                mesh.mark_region(sd, test[sd], entity_type='vertex', on_boundary=True, subforest_flag=sf)
            else:
                mesh.mark_region(sd, lambda x, y, g=test[sd]: g(x), entity_type='half_edge', on_boundary=True, subforest_flag=sf)
    dh = fem.DofHandler(mesh, fem.QuadFE(dim, el))
    dh.distribute_dofs()
    u, ux = fem.Basis(dh, 'v', subforest_flag=sf), fem.Basis(dh, 'vx', subforest_flag=sf)
    dofs, n = sorted(u.dofs()), u.n_dofs()
    leaves = mesh.cells.get_leaves(subforest_flag=sf)
    small = dim == 2 and ctx.sym
    Sa, Sb = ctx.choice('samples', [(1, 2)] if small else [(1, 2), (2, 1)] if ctx.sym else [(1, 2), (2, 1), (1, 1), (2, 2)])
    # one form has one sample, the other all of them
    kern = lambda S: asm.Kernel(mod('function').Explicit([(lambda x, k=k: 1 + .5 * k + x[:, 0] ** 2) for k in range(S)] if S > 1 else
                                                         (lambda x: 1 + .3 * x[:, 0]), dim=dim))
    forms = [asm.Form(kern(1), test=u, trial=u), asm.Form(kern(Sa), test=ux, trial=ux), asm.Form(kern(Sb), test=u)]
    where = ctx.choice('problem', [1] if ctx.sym else [1, 0])
    other = [asm.Form(kern(1), test=u)]
    problems = [forms, other] if where == 0 else [other, forms]
    loc = {}

    def value(form, cell, *rest):
        k = forms.index(form) if form in forms else 9
        c = leaves.index(cell)
        if (k, c) not in loc:
            nl = len(u.dofs(cell))
            shp = (nl,) * (2 if k < 2 else 1) + ({1: Sa, 2: Sb}.get(k, 1),)
            a = np.empty(shp, dtype=object)
            for ix in np.ndindex(*shp):
                a[ix] = ctx.real('v%d_%d_%s' % (k, c, '_'.join(map(str, ix))))
            loc[k, c] = a
        return loc[k, c].copy()
    model = spmodel.make()
    seen = []
    vals = {}
    with patched(*([(asm, 'sparse', model), (asm, 'spla', model.linalg), (asm.Form, 'eval', value)] if ctx.sym else [])):
        free_ = asm.Assembler([list(p) for p in problems], mesh, subforest_flag=sf)
        free_.assemble()
        im, iv = ctx.choice('matrix', list(range(Sa))), ctx.choice('vector', list(range(Sb)))
        A, b = free_.get_matrix(where, im).toarray(), free_.get_vector(where, iv)
        ctx.prove('all-dofs', list(free_.get_dofs('interior', where)) == dofs and np.shape(A) == (n, n))
        a = asm.Assembler([list(p) for p in problems], mesh, subforest_flag=sf)
        for sd in sides:
            kind = ctx.choice('value-' + sd, ['function', 'number'] if small else ['function', 'number', 'nodal'])
            if kind == 'number':
                g = ctx.choice('number', [2.5]) if ctx.sym else ctx.choice('number', [2.5, 0, -1, 3])
                fn, want = g, lambda x, g=g: g
            elif kind == 'function':
                def f(x, sd=sd):
                    out = np.empty(len(x), dtype=object if ctx.sym else float)
                    for i in range(len(x)):
                        out[i] = ctx.ufun('g' + sd, list(x[i]))
                    return out
                fn, want = mod('function').Explicit(f, dim=dim), lambda x, sd=sd: ctx.ufun('g' + sd, list(x))
            else:
                D = ctx.arr([[ctx.real('nd%s%d' % (sd, i))] for i in range(n)])
                fn = mod('function').Nodal(data=D.copy(), basis=u, dim=dim)
                want = lambda x, D=D: D[[i for i in range(n) if all(abs(p - q) < 1e-9 for p, q in zip(X[dofs[i]], x))][0], 0]
            X = {}
            for c in leaves:
                for dof, x in zip(dh.get_cell_dofs(c), np.array(c.reference_map(dh.element.reference_nodes()), dtype=float)):
                    X[dof] = tuple(x)
            a.add_dirichlet(None if sd == 'all' else sd, fn, i_problem=where)
            for dof, x in X.items():
                on = [abs(x[0]) < 1e-9, abs(x[0] - 2) < 1e-9] + ([abs(x[1]) < 1e-9, abs(x[1] - 1) < 1e-9] if dim == 2 else [])
                if {'left': on[0], 'right': on[1], 'all': any(on)}[sd]:
                    vals[dof] = want(x)
        ctx.prove('exactly-the-boundary-nodes', sorted(a.get_dofs('dirichlet', where)) == sorted(vals))
        dd, dv = a.get_dirichlet(where, asdict=False)
        for q, w in zip(dd, dv):
            ctx.prove_eq('boundary-value', np.ravel(w)[0], vals[q])
        ctx.prove('other-problem-unconstrained', a.get_dofs('dirichlet', 1 - where) == [] and a.get_dofs('hanging_nodes', 1 - where) == [])
        hang = {}
        if dim == 2 or ctx.choice('hanging', [False] if ctx.sym else [False, True]):
            a.add_hanging_nodes(i_problem=where)
            fresh = fem.DofHandler(mesh, dh.element)
            fresh.distribute_dofs()
            hang = {q: (list(s), list(c)) for q, (s, c) in fresh.get_hanging_nodes(subforest_flag=sf).items()}
        ctx.prove('hanging-nodes', sorted(a.get_dofs('hanging_nodes', where)) == sorted(hang))
        for t in range(ctx.choice('assembled', [2] if dim == 1 else [1])):
            a.assemble()
        ctx.solve_hook = lambda p, q: seen.append((p.copy(), np.asarray(q).copy()))
        fixed = [q for q in dofs if q in vals or q in hang]
        free = [q for q in dofs if q not in fixed]
        ctx.prove('free-dofs', list(a.get_dofs('interior', where)) == free)
        x = a.solve(where, im, iv)
        ctx.prove('shape', np.shape(x) == (n,), np.shape(x))
    ix = {q: i for i, q in enumerate(dofs)}
    ctx.prove('numbering', all(int(u.d2i(q)) == ix[q] for q in dofs))
    for q in vals:
        if q not in hang:
            ctx.prove_eq('boundary-value-attained', x[ix[q]], vals[q], q)
    for q, (s, c) in hang.items():
        ctx.prove_eq('hanging-node-relation', x[ix[q]], sum(w * x[ix[t]] for t, w in zip(s, c)), q)
    row, const = [], []
    for q in dofs:
        if q in hang:
            row.append(dict((ix[s], w if isinstance(w, SymReal) else float(w)) for s, w in zip(*hang[q])))
            const.append(0)
        else:
            row.append({} if q in vals else {ix[q]: 1})
            const.append(vals.get(q, 0) if q not in hang else 0)
    for q, (s, c) in hang.items():
        r, k = {}, 0
        for t, w in row[ix[q]].items():
            ctx.prove('supports-are-not-hanging', dofs[t] not in hang)
            k = k + w * const[t]
            for o, v in row[t].items():
                r[o] = r.get(o, 0) + w * v
        row[ix[q]], const[ix[q]] = r, k
    for e, q in enumerate(free):
        res = 0
        for i in range(n):
            w = row[i].get(ix[q], 0)
            if not isinstance(w, int) or w:
                res = res + w * (sum((A[i, j] * x[j] for j in range(n)), 0) - b[i])
        if ctx.sym:
            P, Q = seen[0]
            Q = Q if Q.ndim == 1 else Q[:, 0]
            ctx.prove_eq('reduced-system', res, sum((P[e, j] * x[ix[o]] for j, o in enumerate(free)), 0) - Q[e], q)
        else:
            ctx.prove('reduced-system', abs(res) < 1e-7, (q, res))


# callees enter by contract: a failure there is an undischarged obligation, not yet a failing input
MODULAR = {'system', 'history', 'assembler_system'}


def harnesses(tier):
    H = Harness
    out = []
    for c in CASES:
        for second in (False, True):
            if second and not CASES[c][1]:
                continue
            out.append(H(system, 'system-%s%s' % (c, '-repeated' if second else ''), params=dict(case=c, second=second),
                         opts=dict(feas_ms=300, prove_ms=20000), budget=300))
    out += [H(history, 'history-' + c, params=dict(case=c), opts=dict(feas_ms=300, prove_ms=20000), searches=30) for c in ('free', 'dirichlet', 'hanging')]
    out += [H(history, 'steps-' + c, params=dict(case=c, steps=True), opts=dict(feas_ms=300, prove_ms=20000), searches=30) for c in ('free', 'dirichlet', 'hanging')]
    out += [H(refuses)]
    out += [H(dirichlet, 'dirichlet-%dd' % d, params=dict(dim=d)) for d in (1, 2)]
    out += [H(assembler_system, 'assembler-%dd-%s' % (d, e), params=dict(dim=d, el=e), searches=12, opts=dict(feas_ms=300, prove_ms=20000, **({} if y else dict(symbolic=False))),
              **({} if y else dict(kind='bounded', bound='Q2 on two or five cells')))
            for d, e, y in ((1, 'Q1', 1), (1, 'Q2', 1), (2, 'Q1', 1), (2, 'Q2', 0))]
    out += [H(assembled, 'assembled-%dd' % d, kind='bounded', params=dict(dim=d), opts=dict(symbolic=False), searches=40, tol=1e-9,
              bound='Laplace plus mass on two to four cells refined up to twice, Q1-Q3') for d in (1, 2)]
    out += [H(two_sub_meshes, kind='bounded', opts=dict(symbolic=False), searches=12, tol=1e-7,
              bound='three sub-meshes of a refined 2x2 grid')]
    return out
