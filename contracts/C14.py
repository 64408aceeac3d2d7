"""C14 matrix decompositions."""
import itertools
from .common import *
from pyvc import lamodel, spmodel
from scipy import sparse as real_sparse
from scipy import linalg as real_linalg

EXPLANATION = ('Every operation of the Cholesky and eigenvalue decompositions is proved against the matrix for all entries, for matrices of size one to '
               'three (four in the thorough tier for the pivoted factorisation), every pivot order and block structure and one or two right-hand sides. '
               'The factorisations of scipy and CHOLMOD are assumed to satisfy their documented contracts: the contracts quantify over the factors, '
               'which reach every matrix of the class.')
TRUSTED = ['scipy.linalg.cholesky / ldl / eigh, sksparse.cholmod.cholesky: factors with their documented properties (pyvc/lamodel.py)',
           'scipy.sparse: dense model of the sparse matrix interface (pyvc/spmodel.py)']
ASSUMPTIONS = ['matrices of size at most three (four): sizes above are covered by the same code but not quantified over']


def spd():
    return mod('spd')


class Factor(object):
    """contract of a CHOLMOD factor: A[p][:,p] = L L^T"""

    def __init__(self, ctx, L, p):
        self._L, self._p = L, list(p)
        ctx.trust('sksparse.cholmod.cholesky: A[p][:,p] = L L^T with L lower triangular')

    def P(self):
        return np.array(self._p)

    def L(self):
        return spmodel.Sp(self._L.copy())

    def _unit(self):
        return np.array([[self._L[i, j] / self._L[j, j] for j in range(len(self._L))] for i in range(len(self._L))], dtype=object)

    def L_D(self):
        return spmodel.Sp(self._unit()), spmodel.Sp(np.diag(self.D()))

    def D(self):
        return np.array([self._L[i, i] * self._L[i, i] for i in range(len(self._L))], dtype=object)

    @staticmethod
    def _d(b):
        return b.toarray() if hasattr(b, 'toarray') else np.asarray(b)

    def apply_P(self, b):
        return self._d(b)[self._p]

    def apply_Pt(self, b):
        b = self._d(b)
        out = np.empty(b.shape, dtype=object)
        out[self._p] = b
        return out

    def _tri(self, a, b, lower):
        b = self._d(b)
        return lamodel.make(lamodel.Facts(CTX[0]))[0].solve_triangular(a, b, lower=lower)

    def solve_L(self, b, use_LDLt_decomposition=True):
        return self._tri(self._unit() if use_LDLt_decomposition else self._L, b, True)

    def solve_Lt(self, b, use_LDLt_decomposition=True):
        return self._tri((self._unit() if use_LDLt_decomposition else self._L).T, b, False)

    def solve_D(self, b):
        b = self._d(b)
        return np.array([b[i] / d for i, d in enumerate(self.D())], dtype=object)

    def solve_LD(self, b):
        return self.solve_D(self.solve_L(b))

    def solve_DLt(self, b):
        return self.solve_Lt(self.solve_D(b))

    def solve_A(self, b):
        return self.apply_Pt(self._tri(self._L.T, self._tri(self._L, self.apply_P(b), True), False))

    __call__ = solve_A


CTX = [None]


class NotPD(Exception):
    pass


def patches(ctx, facts, chol=None):
    if not ctx.sym:
        return []
    CTX[0] = ctx
    s = spd()
    la, nla = lamodel.make(facts)
    sp = spmodel.make()
    P = [(s, 'linalg', la), (s, 'sp', sp), (s, 'spla', sp.linalg), (s, 'CholmodNotPositiveDefiniteError', NotPD)]
    P += [(s.np.linalg, k, v) for k, v in nla.items()]
    P.append((s, 'cholesky', chol or (lambda *a, **k: (_ for _ in ()).throw(Unsupported('cholmod')))))
    return P


def mat(rows):
    return np.array(rows, dtype=object)


def mm(A, B):
    return np.dot(np.asarray(A, dtype=object), np.asarray(B, dtype=object))


def dense(a):
    return a.toarray() if hasattr(a, 'toarray') else np.asarray(a)


def as_input(ctx, C, sparse):
    C = ctx.arr([list(r) for r in C])
    if not sparse:
        return C
    return spmodel.Sp(C) if ctx.sym else real_sparse.csc_matrix(C.astype(float))


def eqs(ctx, label, A, B, info=None, scale=1):
    A, B = dense(A), np.asarray(B, dtype=object)
    ctx.prove(label + '-shape', A.shape == B.shape, (A.shape, B.shape, info))
    if A.shape == B.shape:
        for ix in np.ndindex(*A.shape):
            ctx.prove_eq(label, A[ix] / scale if scale != 1 else A[ix], B[ix] / scale if scale != 1 else B[ix], (ix, info))


def rhs(ctx, n, few=False):
    m = ctx.choice('columns', [None, 2] if few else [None, 1, 2])
    B = [[ctx.real('b%d_%d' % (i, j), lo=-2, hi=2) for j in range(m or 1)] for i in range(n)]
    B = ctx.arr(B)
    return B[:, 0] if m is None else B


def lower(ctx, n, name='l', unit=False):
    """every lower triangular matrix with positive (or unit) diagonal"""
    L = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            L[i][j] = ctx.real('%s%d%d' % (name, i, j), lo=-1, hi=1)
        L[i][i] = 1 if unit else ctx.real('%s%d%d' % (name, i, i), lo=Fr(1, 1000) if ctx.sym else .4, hi=None if ctx.sym else 2)
    return mat(L)


def roots(ctx, c, M, b, n, what, tol_scale=1):
    """c represents M: its root times its transpose is M, and every solve inverts the corresponding product"""
    I = ctx.arr([[1. if i == j else 0. for j in range(n)] for i in range(n)])
    if what == 'product':
        R = dense(c.sqrt_dot(I))
        eqs(ctx, 'root-times-transpose-is-the-matrix', mm(R, R.T), M, scale=tol_scale)
        eqs(ctx, 'root-product', c.sqrt_dot(b), mm(R, b), scale=tol_scale)
        eqs(ctx, 'transposed-root-product', c.sqrt_dot(b, transpose=True), mm(R.T, b), scale=tol_scale)
    elif what == 'root-solve':
        eqs(ctx, 'root-solve-inverts-the-root', c.sqrt_dot(c.sqrt_solve(b)), b)
        eqs(ctx, 'transposed-root-solve-inverts-the-transposed-root', c.sqrt_dot(c.sqrt_solve(b, transpose=True), transpose=True), b)
    else:
        eqs(ctx, 'solve-inverts-multiplication', mm(M, c.solve(b)), b)


WHAT = ['product', 'root-solve', 'solve', 'queries']


def cholesky_dense(ctx, n):
    """positive definite dense matrices"""
    ctx.fn(*['spd.CholeskyDecomposition.' + f for f in ('__init__', 'decompose', 'reconstruct', 'dot', 'solve', 'sqrt_dot', 'sqrt_solve', 'get_factors')])
    L = lower(ctx, n)
    C = mm(L, L.T)
    facts = lamodel.Facts(ctx)
    facts.add('cholesky', (C,), L)
    b = rhs(ctx, n)
    what = ctx.choice('what', WHAT)
    with patched(*patches(ctx, facts)):
        A = as_input(ctx, C, False)
        c = spd().CholeskyDecomposition(A)
        if what == 'queries':
            ctx.prove('regular', c.is_degenerate() is False and not c.is_sparse() and c.get_size() == n)
            eqs(ctx, 'matrix', c.get_matrix(), C)
            eqs(ctx, 'reconstruction', c.reconstruct(), C)
            eqs(ctx, 'product', c.dot(b), mm(C, b))
            F = dense(c.get_factors())
            for i in range(n):
                for j in range(i + 1, n):
                    ctx.prove_eq('triangular', F[i, j], 0)
        else:
            roots(ctx, c, C, b, n, what)
        eqs(ctx, 'input-unchanged', A, C)


def cholesky_sparse(ctx, n):
    """positive definite sparse matrices: any fill-reducing permutation"""
    ctx.fn(*['spd.CholeskyDecomposition.' + f for f in ('decompose', 'reconstruct', 'dot', 'solve', 'sqrt_dot', 'sqrt_solve')])
    perms = list(itertools.permutations(range(n)))
    p = ctx.choice('permutation', perms if ctx.sym else [tuple(range(n))])
    L = lower(ctx, n)
    LL = mm(L, L.T)
    C = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            C[p[i], p[j]] = LL[i, j]
    b = rhs(ctx, n)
    what = ctx.choice('what', WHAT)

    def chol(A, *a, **k):
        ctx.prove('factorised-matrix', lamodel._same(dense(A), C))
        if k.get('beta', 0) != 0 or (a and a[0] != 0):
            raise Unsupported('shifted factorisation')
        return Factor(ctx, L, p)

    with patched(*patches(ctx, lamodel.Facts(ctx), chol)):
        A = as_input(ctx, C, True)
        c = spd().CholeskyDecomposition(A)
        if what == 'queries':
            ctx.prove('regular', c.is_degenerate() is False and c.is_sparse() and c.get_size() == n)
            eqs(ctx, 'matrix', c.get_matrix(), C)
            eqs(ctx, 'reconstruction', c.reconstruct(), C)
            eqs(ctx, 'product', c.dot(b), mm(C, b))
            if b.ndim == 2:
                bs = spmodel.Sp(b.copy()) if ctx.sym else real_sparse.csr_matrix(b.astype(float))
                eqs(ctx, 'sparse-product', c.dot(bs), mm(C, b))
        else:
            roots(ctx, c, C, b, n, what)
        eqs(ctx, 'input-unchanged', A, C)


def rotation2(ctx, k):
    """every rotation of the plane"""
    p, q = ctx.real('p%d' % k, lo=-1, hi=1), ctx.real('q%d' % k, lo=-1, hi=1)
    s = p * p + q * q
    ctx.assume(s > (0 if ctx.sym else .1))
    return mat([[(p * p - q * q) / s, -2 * p * q / s], [2 * p * q / s, (p * p - q * q) / s]])


def degenerate(ctx, blocks, what, sparse):
    """matrices that are not positive definite: P (C + E) P^T = L D L^T with the blocks of D lifted to the tolerance"""
    ctx.fn(*['spd.CholeskyDecomposition.' + f for f in ('modchol_ldlt', 'decompose', 'reconstruct', 'dot', 'solve', 'sqrt_dot', 'sqrt_solve')])
    n = sum(blocks)
    p = ctx.choice('pivots', list(itertools.permutations(range(n))))
    L = lower(ctx, n, unit=True)
    facts = lamodel.Facts(ctx)
    D0, D1 = mat([[0] * n for _ in range(n)]), mat([[0] * n for _ in range(n)])
    delta = ctx.real('delta', pos=True)
    k = 0
    for s in blocks:
        if s == 1:
            d = ctx.real('d%d' % k)
            D0[k, k] = d
            D1[k, k] = d if d > delta else delta
        else:
            L[k + 1, k] = 0
            # the eigenvectors and eigenvalues of the block are left free: what follows only uses that U T U^T is positive definite when T is
            off = ctx.choice('turn%d' % k, [1, -1]) * ctx.real('o%d' % k, pos=True)
            E = mat([[ctx.real('a%d' % k), off], [off, ctx.real('c%d' % k)]])
            u, v = ctx.real('u%d' % k, pos=True), ctx.real('v%d' % k, pos=True)     # off the axes, as the block is not diagonal
            if ctx.choice('direction%d' % k, [0, 1]):
                v = -v
            U = mat([[u, -v], [v, u]])
            t = [ctx.real('t%d' % k)]
            t.append(t[0] + ctx.real('w%d' % k, pos=True))
            D0[k:k + 2, k:k + 2] = E
            facts.add('eigh', (E,), (mat(t), U))
            t1 = [v if v > delta else delta for v in t]
            E1 = mm(U, mm(mat([[t1[0], 0], [0, t1[1]]]), U.T))
            D1[k:k + 2, k:k + 2] = E1
            r = E1[0, 0].sqrt()
            facts.add('cholesky', (E1,), mat([[r, 0], [E1[1, 0] / r, t1[0].sqrt() * t1[1].sqrt() * (u * u + v * v) / r]]))
        k += s
    T = mm(L, mm(D0, L.T))
    M1 = mm(L, mm(D1, L.T))
    C, M = np.empty((n, n), dtype=object), np.empty((n, n), dtype=object)
    lu = np.empty((n, n), dtype=object)
    for i in range(n):
        lu[p[i]] = L[i]
        for j in range(n):
            C[p[i], p[j]], M[p[i], p[j]] = T[i, j], M1[i, j]
    facts.add('ldl', (C,), (lu, D0, np.array(p)))
    facts.add('cholesky', (C,), 'not positive definite')
    facts.add('norm', (C,), delta * 2 ** 26)       # the tolerance is sqrt(eps) = 2**-26 times the norm
    b = rhs(ctx, n, True) if what != 'queries' else None

    def chol(A, *a, **k):
        raise NotPD()

    with patched(*patches(ctx, facts, chol)):
        A = as_input(ctx, C, sparse)
        c = spd().CholeskyDecomposition(A)
        if what == 'queries':
            ctx.prove('degenerate', c.is_degenerate() is True and not c.is_sparse() and c.get_size() == n)
            eqs(ctx, 'matrix', c.get_matrix(), C)
            eqs(ctx, 'unmodified-reconstruction', c.reconstruct(degenerate=True), C)
            eqs(ctx, 'modified-reconstruction', c.reconstruct(), M)
        elif what == 'dot':
            eqs(ctx, 'product', c.dot(b), mm(C, b))
        else:
            roots(ctx, c, M, b, n, what)


def degenerate_search(ctx, n, rank):
    """singular matrices, with the real scipy: the represented matrix differs from the given one by the tolerance only"""
    ctx.fn(*['spd.CholeskyDecomposition.' + f for f in ('modchol_ldlt', 'decompose', 'reconstruct', 'solve', 'sqrt_dot', 'sqrt_solve')])
    X = np.array([[float(ctx.choice('x%d%d' % (i, j), [-2, -1, 0, 1, 2, 3])) for j in range(rank)] for i in range(n)])
    C = X @ X.T
    ctx.assume(bool(C.any()))
    sparse = ctx.choice('sparse', [False, True])
    c = spd().CholeskyDecomposition(real_sparse.csc_matrix(C) if sparse else C)
    ctx.assume(bool(c.is_degenerate()))
    N = np.linalg.norm(C)
    I = np.eye(n)
    M = c.reconstruct()
    ctx.prove('exact-reconstruction', bool(np.allclose(c.reconstruct(degenerate=True), C, atol=1e-9 * N)))
    ctx.prove('close-to-the-matrix', bool(np.allclose(M, C, atol=1e-5 * N)))
    R = c.sqrt_dot(I)
    ctx.prove('root', bool(np.allclose(R @ R.T, M, atol=1e-9 * N)))
    ctx.prove('transposed-root', bool(np.allclose(c.sqrt_dot(I, transpose=True), R.T, atol=1e-9 * N)))
    b = C @ np.arange(1., n + 1)
    ctx.prove('consistent-system-solved', bool(np.allclose(C @ c.solve(b), b, atol=1e-5 * N * n)))
    ctx.prove('root-solve', bool(np.allclose(R @ c.sqrt_solve(b), b, atol=1e-6 * N * n)))
    y = R.T @ np.arange(1., n + 1)
    ctx.prove('transposed-root-solve', bool(np.allclose(R.T @ c.sqrt_solve(y, transpose=True), y, atol=1e-6 * N * n)))


def orthogonal(ctx, n):
    """every orthogonal matrix of size n"""
    flip = ctx.choice('reflection', [1, -1])
    if n == 1:
        return mat([[flip]])
    if n == 2:
        V = rotation2(ctx, 0)
    else:
        a, b, c, d = [ctx.real('q%d' % i, lo=-1, hi=1) for i in range(4)]
        s = a * a + b * b + c * c + d * d
        ctx.assume(s > (0 if ctx.sym else .1))
        V = mat([[(a * a + b * b - c * c - d * d) / s, 2 * (b * c - a * d) / s, 2 * (b * d + a * c) / s],
                 [2 * (b * c + a * d) / s, (a * a - b * b + c * c - d * d) / s, 2 * (c * d - a * b) / s],
                 [2 * (b * d - a * c) / s, 2 * (c * d + a * b) / s, (a * a - b * b - c * c + d * d) / s]])
    if flip < 0:
        V[:, 0] = -V[:, 0]
    return V


EPS = Fr(1, 2 ** 52)


def eigen(ctx, n, what, mass, bound):
    """R = V sqrt(D): eigenvalues below the bound are lifted to it, the others kept"""
    ctx.fn('spd.diagonal_pseudo_inverse', *['spd.EigenDecomposition.' + f for f in (
        '__init__', 'decompose', 'set_eigenvalue_lower_bound', 'reconstruct', 'dot', 'solve', 'sqrt_dot', 'sqrt_solve')])
    facts = lamodel.Facts(ctx)
    sparse = ctx.choice('sparse', [False, True] if what == 'queries' else [False])
    gap = ctx.choice('gap', ['distinct', 'repeated'] if n > 1 and what == 'queries' else ['distinct'])
    # ascending eigenvalues of either sign
    d = [ctx.real('d0', lo=None if ctx.sym else -1, hi=None if ctx.sym else 1)]
    for i in range(1, n):
        d.append(d[-1] if gap == 'repeated' else d[-1] + ctx.real('e%d' % i, lo=0, hi=None if ctx.sym else 1))
    if mass:
        W = mat([[ctx.real('w%d%d' % (i, j), sample=(lambda r, i=i, j=j: r.uniform(1, 2) if i == j else r.uniform(-.3, .3))) for j in range(n)] for i in range(n)])
        dt = sum((-1) ** j * W[0, j] * (W[1, 1 - j] if n == 2 else 1) for j in range(n))
        ctx.assume((dt > 0) | (dt < 0))
        Mm = mm(W, W.T)
        Vi = mat([[1 / W[0, 0]]]) if n == 1 else mat([[W[1, 1] / dt, -W[0, 1] / dt], [-W[1, 0] / dt, W[0, 0] / dt]])
        V = Vi.T                                    # V^T M V = I
        C = mm(W, mm(np.diag(mat(d)), W.T))         # C V = M V D
    else:
        V = orthogonal(ctx, n)
        Mm = None
        C = mm(V, mm(np.diag(mat(d)), V.T))
    if bound == 'default':
        norm = ctx.real('norm', lo=0) if ctx.sym else float(np.linalg.norm(np.asarray(C, dtype=float)))
        if ctx.sym:
            facts.add('norm', (C,), norm)
        delta, given = norm * (Fr(1, 2 ** 26) if ctx.sym else 2. ** -26), None
    elif bound == 'zero':
        delta, given = 0, 0
    else:
        delta = given = ctx.real('delta', lo=Fr(1, 1000) if ctx.sym else .001, hi=None if ctx.sym else .8)
    facts.add('eigh', (C,) if Mm is None else (C, Mm), (mat(d), V))
    lam = [v if v > delta else delta for v in d]
    if not ctx.sym:
        ctx.assume(all(abs(v - delta) > 1e-3 for v in d))
        ctx.assume(all(y - x > 1e-3 for x, y in zip(d, d[1:])) or gap == 'repeated')
    K = mm(V, mm(np.diag(mat(lam)), V.T))
    b = rhs(ctx, n)
    with patched(*patches(ctx, facts)):
        A = as_input(ctx, C, sparse)
        mass_in = None if Mm is None else as_input(ctx, Mm, sparse)
        args = {} if given is None else dict(delta=given)
        e = spd().EigenDecomposition(A, mass_in, **args) if mass else spd().EigenDecomposition(A, **args)
        if what == 'queries':
            dd, VV = e.get_factors()
            ctx.prove('factor-shapes', np.shape(dd) == (n,) and np.shape(VV) == (n, n))
            for i in range(n):
                ctx.prove_eq('eigenvalues-in-decreasing-order', dd[i], lam[n - 1 - i])
                ctx.prove('eigenvalue-not-below-the-bound', ctx.le(delta, dd[i]))
            ctx.prove_eq('bound', e.get_eigenvalue_lower_bound(), delta)
            if Mm is None:
                eqs(ctx, 'orthonormal-eigenvectors', mm(dense(VV).T, dense(VV)), [[1 if i == j else 0 for j in range(n)] for i in range(n)])
                eqs(ctx, 'reconstruction', e.reconstruct(), K)
            else:
                eqs(ctx, 'orthonormal-eigenvectors', mm(dense(VV).T, mm(Mm, dense(VV))), [[1 if i == j else 0 for j in range(n)] for i in range(n)])
                r = e.reconstruct()
                eqs(ctx, 'reconstruction', r[0], K)
                eqs(ctx, 'mass-matrix', r[1], Mm)
            ctx.prove('sizes', e.size() == n and e.get_size() == n and e.is_sparse() == sparse and e.has_mass_matrix() == mass)
            eqs(ctx, 'matrix', e.get_matrix(), C)
            eqs(ctx, 'input-unchanged', A, C)
        elif what == 'product':
            R = dense(e.sqrt_dot(ctx.arr([[1. if i == j else 0. for j in range(n)] for i in range(n)])))
            eqs(ctx, 'root-times-transpose-is-the-matrix', mm(R, R.T), K)
            eqs(ctx, 'product', e.dot(b), mm(K, b))
            eqs(ctx, 'root-product', e.sqrt_dot(b), mm(R, b))
            eqs(ctx, 'transposed-root-product', e.sqrt_dot(b, transpose=True), mm(R.T, b))
        else:
            cut = ctx.choice('cut', [None, Fr(1, 10)])
            tol = EPS if cut is None else cut
            kw = {} if cut is None else dict(eps=cut if ctx.sym else float(cut))
            if not ctx.sym:
                ctx.assume(all(abs(v - tol) > 1e-3 or v == 0 for v in lam) and all(abs(max(v, 0) ** .5 - tol) > 1e-3 or v == 0 for v in lam))
            if what == 'solve':
                inv = [1 / v if v > tol else 0 for v in lam]
                Ki = mm(V, mm(np.diag(mat(inv)), V.T))
                eqs(ctx, 'pseudo-inverse', e.solve(b, **kw), mm(Ki, b))
                if Mm is not None:
                    eqs(ctx, 'generalized-pseudo-inverse', e.solve(b, generalized=True, **kw), mm(Ki, mm(Mm, b)))
                if all(not isinstance(v, int) for v in inv) and Mm is None:
                    eqs(ctx, 'solve-inverts-multiplication', e.dot(e.solve(b, **kw)), b)
            else:
                x, y = e.sqrt_solve(b, **kw), e.sqrt_solve(b, transpose=True, **kw)
                keep = [v > tol * tol for v in lam]
                # projection on the retained eigenvectors
                Z = mm(V, mm(np.diag(mat([1 if k else 0 for k in keep])), V.T))
                if Mm is not None:
                    Z = mm(Z, Mm)
                eqs(ctx, 'root-solve', e.sqrt_dot(x), mm(Z, b))
                pr = [1 if k else 0 for k in reversed(keep)]
                eqs(ctx, 'transposed-root-solve', e.sqrt_dot(y, transpose=True), mm(np.diag(mat(pr)), b))
                # nothing of the dropped directions enters the solution
                eqs(ctx, 'root-solution-in-the-range', mm(np.diag(mat([1 - v for v in pr])), x), mm(np.diag(mat([0] * n)), b))


def ranks(ctx, n):
    """rank, range and null space split the eigenvectors at the tolerance"""
    ctx.fn(*['spd.EigenDecomposition.' + f for f in ('get_rank', 'get_range', 'get_nullspace')] + ['spd.SPDMatrix.is_degenerate'])
    V = orthogonal(ctx, n)
    zeros = ctx.choice('zeros', list(range(n + 1)))
    d = [0] * zeros
    for i in range(zeros, n):
        d.append((d[-1] if d else 0) + ctx.real('e%d' % i, lo=Fr(1, 1000) if ctx.sym else .1, hi=None if ctx.sym else 1))
    C = mm(V, mm(np.diag(mat(d)), V.T))
    facts = lamodel.Facts(ctx)
    facts.add('eigh', (C,), (mat(d), V))
    tol = ctx.choice('tol', [None, Fr(1, 10 ** 4)]) if ctx.sym else 1e-6
    kw = {} if tol is None else dict(tol=tol)
    with patched(*patches(ctx, facts)):
        e = spd().EigenDecomposition(as_input(ctx, C, False), delta=0)
        ctx.prove('rank', int(e.get_rank(**kw)) == n - zeros)
        if ctx.sym:
            ctx.prove('singular-exactly-if-an-eigenvalue-vanishes', bool(e.is_degenerate()) == (zeros > 0))
        N, R = dense(e.get_nullspace(**kw)), dense(e.get_range(**kw))
        ctx.prove('dimensions', N.shape == (n, zeros) and R.shape == (n, n - zeros), (N.shape, R.shape))
        eqs(ctx, 'null-space-is-annihilated', mm(C, N) if zeros else np.zeros((n, 0)), np.zeros((n, zeros)))
        eqs(ctx, 'orthonormal', mm(N.T, N), np.eye(zeros, dtype=int))
        eqs(ctx, 'range-orthonormal', mm(R.T, R), np.eye(n - zeros, dtype=int))
        eqs(ctx, 'range-is-kept', mm(R, mm(R.T, C)), C)


def pseudo_inverse(ctx, n):
    ctx.fn('spd.diagonal_pseudo_inverse')
    d = ctx.arr([ctx.real('d%d' % i, lo=None if ctx.sym else -1, hi=None if ctx.sym else 1) for i in range(n)])
    eps = ctx.choice('eps', [None, Fr(1, 4)])
    tol = EPS if eps is None else eps
    if not ctx.sym:
        ctx.assume(all(abs(abs(v) - tol) > 1e-3 for v in d))
    d0 = list(d)
    D = spd().diagonal_pseudo_inverse(d) if eps is None else spd().diagonal_pseudo_inverse(d, eps=eps if ctx.sym else float(eps))
    ctx.prove('shape', np.shape(D) == (n, n))
    for i in range(n):
        for j in range(n):
            if i != j:
                ctx.prove_eq('diagonal', D[i, j], 0)
        if (d[i] > tol) | (d[i] < -tol):
            ctx.prove_eq('reciprocal', D[i, i] * d[i], 1)
        else:
            ctx.prove_eq('small-entries-dropped', D[i, i], 0)
        ctx.prove_eq('input-unchanged', d[i], d0[i])


def refuses(ctx):
    ctx.fn('spd.SPDMatrix.__init__', 'spd.CholeskyDecomposition.dot', 'spd.EigenDecomposition.set_eigenvalue_lower_bound', 'spd.diagonal_pseudo_inverse',
           'spd.SPDMatrix.set_rank')
    s = spd()
    case = ctx.choice('case', ['not-square', 'rows', 'negative-bound', 'eps', 'rank', 'asymmetric'])
    I = np.eye(2)
    try:
        if case == 'not-square':
            s.CholeskyDecomposition(np.ones((2, 3)))
        elif case == 'rows':
            s.CholeskyDecomposition(I).dot(np.ones(3))
        elif case == 'negative-bound':
            s.EigenDecomposition(I, delta=-1.)
        elif case == 'eps':
            s.diagonal_pseudo_inverse(np.ones(2), eps=-1.)
        elif case == 'rank':
            s.SPDMatrix(I).set_rank(3)
        else:
            s.CholeskyDecomposition(np.array([[0., 1.], [0., 0.]]))
        ok = False
    except AssertionError:
        ok = True
    ctx.prove('inadmissible-input-refused', ok, case)
    m = s.SPDMatrix(I)
    m.set_rank(1)
    ctx.prove('rank-recorded', m.get_rank() == 1 and m.is_degenerate() is True)
    m.set_rank(2)
    ctx.prove('full-rank', m.get_rank() == 2 and m.is_degenerate() is False)


def harnesses(tier):
    out = []
    for n in (1, 2, 3):
        out.append(Harness(cholesky_dense, 'cholesky-dense[%d]' % n, params=dict(n=n), searches=10))
        out.append(Harness(cholesky_sparse, 'cholesky-sparse[%d]' % n, params=dict(n=n), searches=10))
        out.append(Harness(ranks, 'ranks[%d]' % n, params=dict(n=n), searches=10))
        out.append(Harness(pseudo_inverse, 'pseudo-inverse[%d]' % n, params=dict(n=n), searches=20))
    blocks = [(1,), (1, 1), (2,), (1, 1, 1), (2, 1), (1, 2)] + ([(1, 2, 1), (2, 2)] if tier == 'thorough' else [])
    for bl in blocks:
        for what in ('product', 'root-solve', 'solve', 'dot', 'queries'):
            for sparse in (False, True):
                if sparse and what != 'queries':
                    continue
                out.append(Harness(degenerate, 'cholesky-modified[%s,%s%s]' % ('-'.join(map(str, bl)), what, ',sparse' if sparse else ''),
                                   params=dict(blocks=bl, what=what, sparse=sparse), searches=0, concrete=False))
    for n in (2, 3, 4, 5):
        for r in range(1, n):
            out.append(Harness(degenerate_search, 'cholesky-singular[%d,%d]' % (n, r), kind='bounded', params=dict(n=n, rank=r), searches=25,
                               opts=dict(symbolic=False), bound='seeded integer factors with entries -2..3'))
    for n in (1, 2, 3):
        for what in ('product', 'solve', 'root-solve', 'queries'):
            for mass in (False, True):
                if mass and n == 3:
                    continue
                for bound in ('default', 'zero', 'given'):
                    out.append(Harness(eigen, 'eigen[%d,%s,%s,%s]' % (n, what, 'mass' if mass else 'standard', bound),
                                       params=dict(n=n, what=what, mass=mass, bound=bound), searches=6))
    out.append(Harness(refuses, searches=0))
    return out
