"""C16 Gaussian fields."""
import contextlib
import io
from .common import *
from pyvc import lamodel, npmodel, spmodel
from scipy import sparse as real_sparse
from . import C14
from .C14 import mat, mm, dense, eqs, orthogonal, rotation2

EXPLANATION = ('A sample is compared with its law: as a function of the white noise it is affine, its constant part is the (conditional) mean and the linear '
               'part times its transpose is the (conditional) covariance, for every mean, noise, square root of the covariance and observation operator. '
               'Decompositions enter by their contract (C14), factorisations of numpy arrays by the contract of scipy.linalg.eigh / cholesky.')
TRUSTED = ['scipy.linalg.solve / eigh: solution, factors with their documented properties (pyvc/lamodel.py)',
           'decompositions satisfy the contract proved under C14']
ASSUMPTIONS = ['fields of size two or three, one or two observations; larger ones by the bounded search with the real libraries',
               'A*K*A^T is regular for hard observations (the code raises LinAlgError otherwise)']


def gm():
    return mod('gmrf')


def inv(ctx, A):
    return npmodel.inv(A) if ctx.sym else np.linalg.inv(np.asarray(A, dtype=float))


def det(A):
    if len(A) == 1:
        return A[0, 0]
    return sum((-1) ** j * A[0, j] * det(np.delete(A[1:], j, axis=1)) for j in range(len(A)))


def identity(n):
    return np.array([[1 if i == j else 0 for j in range(n)] for i in range(n)], dtype=object)


def represented(ctx, R, inverse=False, mass=None, sparse=False):
    """a decomposition satisfying its contract: of K = R R^T, or (inverse) of Q = (R R^T)^-1; R is any square root"""
    base = gm().CholeskyDecomposition if mass is None else gm().EigenDecomposition
    K = mm(R, R.T)

    def out(x):
        x = np.asarray(x, dtype=object)
        return x if ctx.sym else x.astype(float)

    class Decomposition(base):
        def __init__(self):
            pass

        def _b(self, b):
            b = dense(b)
            if b.shape[0] != len(R):
                raise AssertionError('incompatible dimensions')
            return b

        def get_size(self):
            return len(R)

        size = get_size

        def is_sparse(self):
            return False

        def is_degenerate(self):
            return False

        def has_mass_matrix(self):
            return mass is not None

        def get_mass_matrix(self):
            return mass

        def get_matrix(self):
            if mass is not None:
                return out(mm(mass, mm(K, mass)))
            return out(inv(ctx, K) if inverse else K)

        def reconstruct(self, degenerate=False):
            return self.get_matrix()

        def dot(self, b):
            return out(mm(inv(ctx, K) if inverse else K, self._b(b)))

        def solve(self, b, eps=None, generalized=False):
            return out(mm(K if inverse else inv(ctx, K), self._b(b)))

        def sqrt_dot(self, b, transpose=False):
            if inverse:
                return out(mm(inv(ctx, R) if transpose else inv(ctx, R).T, self._b(b)))
            return out(mm(R.T if transpose else R, self._b(b)))

        def sqrt_solve(self, b, transpose=False, eps=None):
            if inverse:
                return out(mm(R if transpose else R.T, self._b(b)))
            return out(mm(inv(ctx, R).T if transpose else inv(ctx, R), self._b(b)))

        def get_factors(self):
            raise Unsupported('factors of a decomposition given by contract')

        get_eigenvalues = get_eigenvectors = get_factors
    return Decomposition()


class Noise(object):
    """stand-in for numpy's generator: hands out the given numbers and records what was asked for"""

    def __init__(self, ctx, give=None):
        self.ctx, self.calls, self.give = ctx, [], give

    def normal(self, loc=0., scale=1., size=None):
        self.ctx.prove('standard-normal-noise', loc == 0 and scale == 1)
        size = tuple(int(i) for i in np.atleast_1d(size))
        k = len(self.calls)
        self.calls.append(size)
        if self.give is not None:
            z = self.give
            self.ctx.prove('noise-of-the-requested-size', size == np.shape(z), (size, np.shape(z)))
            return z
        return self.ctx.arr([[self.ctx.real('noise%d_%d_%d' % (k, i, j), lo=-2, hi=2) for j in range(size[1])] for i in range(size[0])])

    def patches(self):
        rnd = np.random
        return [(rnd, 'normal', self.normal), (rnd, 'standard_normal', lambda size=None: self.normal(size=size)),
                (rnd, 'randn', lambda *s: self.normal(size=s))]


@contextlib.contextmanager
def world(ctx, facts=None, noise=None):
    g = gm()
    P = C14.patches(ctx, facts or lamodel.Facts(ctx))
    if ctx.sym:
        la, _ = lamodel.make(facts or lamodel.Facts(ctx))
        P += [(g, 'linalg', la), (g, 'sp', spmodel.make())]
    P += (noise or Noise(ctx)).patches()
    with patched(*P):
        with contextlib.redirect_stdout(io.StringIO()):
            yield


def number(ctx, name, lo=-1, hi=1):
    return ctx.real(name, sample=lambda r: r.uniform(float(lo), float(hi)))


def root(ctx, n, name='r'):
    """any square matrix"""
    return mat([[ctx.real('%s%d%d' % (name, i, j), sample=(lambda r, i=i, j=j: r.uniform(1, 2) if i == j else r.uniform(-.5, .5))) for j in range(n)]
                for i in range(n)])


def columns(ctx, n, m, name):
    return mat([[number(ctx, '%s%d_%d' % (name, i, j), -2, 2) for j in range(m)] for i in range(n)])


def given(ctx, A):
    return ctx.arr([list(r) for r in A])


def law(ctx, draw, m, n):
    """the sample as an affine function of m noise numbers: constant and linear part; linearity itself is proved on an arbitrary column"""
    star = columns(ctx, m, 1, 'z')
    Z = np.concatenate([mat([[0]] * m), identity(m), star], axis=1)
    X = dense(draw(ctx.arr([[v if isinstance(v, SymReal) else float(v) for v in row] for row in Z]) if not ctx.sym else Z))
    ctx.prove('one-column-per-sample', X.shape == (n, m + 2), (X.shape,))
    X0, P = X[:, :1], X[:, 1:m + 1] - X[:, :1]
    eqs(ctx, 'affine-in-the-noise', X[:, -1:], X0 + mm(P, star))
    return X0, P


# ---------------------------------------------------------------- sampling

def sampling(ctx, n, mode, kind):
    """mean + root * noise for every representation"""
    ctx.fn('gmrf.GaussianField.sample', 'gmrf.GaussianField.mean', 'gmrf.GaussianField.__init__', 'gmrf.GaussianField.set_mean',
           'gmrf.GaussianField.set_covariance', 'gmrf.GaussianField.set_precision', 'gmrf.GaussianField.compute_mean')
    facts = lamodel.Facts(ctx)
    means = ctx.choice('means', [0, 1, 2])
    mu = columns(ctx, n, max(means, 1), 'm')
    if kind == 'contract':
        R = root(ctx, n)
        M = mm(R, R.T)
        give = represented(ctx, R, inverse=mode != 'covariance')
        goal = M
    else:
        # the represented matrix C = F F^T (covariance or precision)
        if kind in ('eig', 'array-eig', 'array-eig-sparse', 'set-eig'):
            V = orthogonal(ctx, n)
            d = [ctx.real('d0', lo=Fr(1, 1000) if ctx.sym else .5, hi=None if ctx.sym else 1)]
            for i in range(1, n):
                d.append(d[-1] + ctx.real('e%d' % i, lo=0, hi=None if ctx.sym else 1))
            C = mm(V, mm(np.diag(mat(d)), V.T))
            facts.add('eigh', (C,), (mat(d), V))
            if ctx.sym:
                norm = ctx.real('norm', lo=0)
                facts.add('norm', (C,), norm)
                ctx.assume(norm * Fr(1, 2 ** 26) < d[0])          # a well conditioned matrix: no eigenvalue is lifted
            G = V
        else:
            L = C14.lower(ctx, n)
            C = mm(L, L.T)
            facts.add('cholesky', (C,), L)
        goal = C
        give = C14.as_input(ctx, C, kind == 'array-eig-sparse')
    with world(ctx, facts):
        g = gm()
        kw = {} if means == 0 else dict(mean=given(ctx, mu))
        if kind == 'eig':
            give = g.EigenDecomposition(give)
        elif kind == 'chol':
            give = g.CholeskyDecomposition(give)
        which = 'covariance' if mode == 'covariance' else 'precision'
        if kind.startswith('set-'):
            f = g.GaussianField(n, **kw)
            (f.set_covariance if which == 'covariance' else f.set_precision)(give, decomposition=kind[4:])
        else:
            f = g.GaussianField(n, **dict(kw, **{which: give}))
        if kind in ('eig', 'chol', 'contract'):
            ctx.prove('stored', (f.covariance() if which == 'covariance' else f.precision()) is give)
        col = ctx.choice('column', [None, 0] + ([1] if means == 2 else []))
        sk = {} if col is None else dict(m_col=col)
        if mode != 'covariance' or ctx.choice('explicit', [True, False]):
            sk['mode'] = mode
        exp = mu[:, [col or 0]] if means else mat([[0]] * n)
        if mode == 'canonical':
            b = columns(ctx, n, max(means, 1), 'b') if ctx.choice('canonical-mean', [True, False]) else None
            if b is not None:
                f.set_canonical_mean(given(ctx, b))
        how = ctx.choice('noise', ['given', 'drawn'])
        if how == 'given':
            X0, P = law(ctx, lambda Z: f.sample(z=Z, **sk), n, n)
        else:
            m = ctx.choice('samples', [None, 2])
            X0, P = None, None
            noise = Noise(ctx)
            with patched(*noise.patches()):
                X = dense(f.sample(**sk) if m is None else f.sample(m, **sk))
            ctx.prove('one-draw-per-sample', noise.calls == [(n, m or 1)], noise.calls)
            ctx.prove('one-column-per-drawn-sample', X.shape == (n, m or 1))
            return
        if mode == 'canonical' and b is not None:
            # Q * mean = canonical mean
            if kind == 'contract':
                eqs(ctx, 'mean-from-the-canonical-mean', X0, mm(goal, b[:, [col or 0]]))
            else:
                eqs(ctx, 'mean-from-the-canonical-mean', mm(goal, X0), b[:, [col or 0]])
        else:
            eqs(ctx, 'mean', X0, exp)
        if mode == 'covariance' or kind == 'contract':
            eqs(ctx, 'covariance', mm(P, P.T), goal)
        else:
            eqs(ctx, 'inverse-of-the-precision', mm(goal, mm(P, P.T)), identity(n))
        if means:
            eqs(ctx, 'mean-unchanged', f.mean(), mu[:, :1]) if not (mode == 'canonical' and b is not None) else None


def means(ctx, n):
    """mean, copies of it, and the canonical mean"""
    ctx.fn(*['gmrf.GaussianField.' + s for s in ('mean', 'get_mean', 'set_mean', 'compute_mean', 'compute_canonical_mean', 'set_canonical_mean',
                                                 'get_canonical_mean', 'b')])
    R = root(ctx, n)
    dt = det(R)
    ctx.assume((dt > 0) | (dt < 0) if ctx.sym else abs(dt) > .1)
    K = mm(R, R.T)
    m = ctx.choice('columns', [1, 2])
    mu = columns(ctx, n, m, 'm')
    which = ctx.choice('which', ['covariance', 'precision'])
    with world(ctx):
        g = gm()
        f = g.GaussianField(n, mean=given(ctx, mu), **{which: represented(ctx, R, inverse=which == 'precision')})
        ctx.prove('size', f.size() == n and f.get_size() == n)
        what = ctx.choice('what', ['mean', 'from-canonical', 'to-canonical', 'b', 'default', 'set'])
        if what == 'mean':
            for c in range(m):
                eqs(ctx, 'column', f.mean(c), mu[:, [c]])
                for k in (1, 3):
                    eqs(ctx, 'copies', f.mean(c, k), np.concatenate([mu[:, [c]]] * k, axis=1))
            eqs(ctx, 'all', f.get_mean(), mu)
            eqs(ctx, 'first', f.mean(), mu[:, [0]])
            eqs(ctx, 'copies-of-first', f.mean(n_copies=2), np.concatenate([mu[:, [0]]] * 2, axis=1))
        elif what == 'from-canonical':
            b = columns(ctx, n, m, 'b')
            f.set_canonical_mean(given(ctx, b))
            f.compute_mean()
            eqs(ctx, 'mean-is-covariance-times-canonical-mean', f.get_mean(), mm(K, b))
            eqs(ctx, 'canonical-mean-kept', f.get_canonical_mean(), b)
        elif what in ('to-canonical', 'b'):
            if what == 'b':
                b = f.b()
            else:
                f.compute_canonical_mean()
                b = f.get_canonical_mean()
            eqs(ctx, 'covariance-times-canonical-mean-is-the-mean', mm(K, b), mu[:, [0]])
            eqs(ctx, 'mean-kept', f.get_mean(), mu)
        elif what == 'default':
            f = g.GaussianField(n, **{which: represented(ctx, R, inverse=which == 'precision')})
            eqs(ctx, 'zero-mean', f.mean(), mat([[0]] * n))
            ctx.prove('no-canonical-mean', f.get_canonical_mean() is None)
            ctx.prove('other-matrix-unset', (f.precision() if which == 'covariance' else f.covariance()) is None)
            ctx.prove('no-support', f.support() is None)
        else:
            nu = columns(ctx, n, 1, 'n')
            f.set_mean(given(ctx, nu))
            eqs(ctx, 'replaced', f.mean(), nu)
            try:
                f.set_mean(ctx.arr([[0.]] * (n + 1)))
                ok = False
            except AssertionError:
                ok = True
            ctx.prove('wrong-size-refused', ok)


def expansion(ctx, n, lo, hi):
    """Karhunen-Loeve samples: only the requested eigenpairs enter"""
    ctx.fn('gmrf.GaussianField.KL_sample')
    V = orthogonal(ctx, n)
    d = [ctx.real('d0', lo=0, hi=None if ctx.sym else 1)]
    for i in range(1, n):
        d.append(d[-1] + ctx.real('e%d' % i, lo=0 if ctx.sym else .1, hi=None if ctx.sym else 1))
    C = mm(V, mm(np.diag(mat(d)), V.T))
    facts = lamodel.Facts(ctx)
    facts.add('eigh', (C,), (mat(d), V))
    mu = columns(ctx, n, 1, 'm')
    top = n - 1 if hi is None else hi
    keep = [lo <= n - 1 - i <= top for i in range(n)]            # eigenvalues are counted from the largest one
    K = mm(V, mm(np.diag(mat([v if k else 0 for v, k in zip(d, keep)])), V.T))
    m = sum(keep)
    with world(ctx, facts):
        g = gm()
        f = g.GaussianField(n, mean=given(ctx, mu), covariance=g.EigenDecomposition(C14.as_input(ctx, C, False), delta=0))
        kw = {}
        if lo or ctx.choice('explicit', [True, False]):
            kw['i_min'] = lo
        if hi is not None:
            kw['i_max'] = hi
        if ctx.choice('noise', ['given', 'drawn']) == 'given':
            X0, P = law(ctx, lambda Z: f.KL_sample(z=Z, **kw), m, n)
            eqs(ctx, 'mean', X0, mu)
            eqs(ctx, 'covariance-of-the-range', mm(P, P.T), K)
        else:
            k = ctx.choice('samples', [None, 3])
            noise = Noise(ctx)
            with patched(*noise.patches()):
                X = f.KL_sample(**kw) if k is None else f.KL_sample(n_samples=k, **kw)
            ctx.prove('one-column-per-drawn-sample', np.shape(X) == (n, k or 1), np.shape(X))


def basis(ctx, n, m):
    """orthonormal n x m"""
    return orthogonal(ctx, n)[:, :m]


def supported(ctx, n, m, mode):
    """a field restricted to a subspace: samples are mean + V * root * noise, and projections split vectors"""
    ctx.fn(*['gmrf.GaussianField.' + s for s in ('sample', 'set_support', 'support', 'project', 'iid_gauss')])
    W = basis(ctx, n, m)
    R = root(ctx, m)
    mu = columns(ctx, n, 1, 'm')
    with world(ctx):
        g = gm()
        f = g.GaussianField(n, mean=given(ctx, mu), support=given(ctx, W), **{mode: represented(ctx, R, inverse=mode == 'precision')})
        what = ctx.choice('what', ['sample', 'project', 'iid'])
        if what == 'sample':
            X0, P = law(ctx, lambda Z: f.sample(z=Z, mode=mode), m, n)
            eqs(ctx, 'mean', X0, mu)
            eqs(ctx, 'covariance', mm(P, P.T), mm(W, mm(mm(R, R.T), W.T)))
        elif what == 'project':
            b = columns(ctx, n, 2, 'b')
            B = given(ctx, b)
            eqs(ctx, 'range', f.project(B), mm(W, mm(W.T, b)))
            eqs(ctx, 'range-by-name', f.project(B, 'range'), mm(W, mm(W.T, b)))
            eqs(ctx, 'nullspace', f.project(B, 'nullspace'), b - mm(W, mm(W.T, b)))
            eqs(ctx, 'support', f.support(), W)
        else:
            noise = Noise(ctx)
            with patched(*noise.patches()):
                z = f.iid_gauss(2)
            ctx.prove('noise-lives-on-the-support', np.shape(z) == (m, 2) and noise.calls == [(m, 2)])
            f.set_support(None)
            with patched(*noise.patches()):
                z = f.iid_gauss()
            ctx.prove('full-noise-without-support', np.shape(z) == (n, 1))


def narrowing(ctx, n, zeros, mode, prior, kind):
    """update_support: the field's law is unchanged, and its covariance is positive definite on the new support"""
    ctx.fn(*['gmrf.GaussianField.' + s for s in ('update_support', 'sample', 'set_support')])
    facts = lamodel.Facts(ctx)
    V = orthogonal(ctx, n)
    d = [0] * zeros
    for i in range(zeros, n):
        d.append((d[-1] if d else 0) + ctx.real('e%d' % i, lo=Fr(1, 1000) if ctx.sym else .1, hi=None if ctx.sym else 1))
    K = mm(V, mm(np.diag(mat(d)), V.T))
    facts.add('eigh', (K,), (mat(d), V))
    kept = d[zeros:]
    r = len(kept)
    flip = mat([[1 if i + j == r - 1 else 0 for j in range(r)] for i in range(r)])
    facts.add('eigh', (np.diag(mat(list(reversed(kept)))),), (mat(kept), flip))
    if ctx.sym:
        facts.add('norm', (K,), ctx.real('norm', lo=0))
    N = n
    W0 = identity(n)
    if prior:
        N = n + 1
        W0 = basis(ctx, 2, 1) if n == 1 else np.concatenate([identity(n), mat([[0] * n])], axis=0)[[1, n, 0] if n == 2 else list(range(n, -1, -1))]
    mu = columns(ctx, N, 1, 'm')
    with world(ctx, facts):
        g = gm()
        if kind == 'contract':
            Rt = V if zeros else mm(V, np.diag(mat([v.sqrt() if isinstance(v, SymReal) else v ** .5 for v in d])))
            give = represented(ctx, Rt)
            if zeros:
                raise Unsupported('singular contract')
        elif kind == 'mass':
            sq = [v.sqrt() if isinstance(v, SymReal) else float(v) ** .5 for v in d]
            Mm = root(ctx, n, 'w')
            give = represented(ctx, mm(V, np.diag(mat(sq))), mass=Mm)
        elif kind == 'array':
            give = C14.as_input(ctx, K, False)
        else:
            give = g.EigenDecomposition(C14.as_input(ctx, K, False), delta=0)
        f = g.GaussianField(N, mean=given(ctx, mu), support=given(ctx, W0) if prior else None, **{mode: give})
        f.update_support(mode)
        W = dense(f.support())
        ctx.prove('dimension-is-the-rank', W.shape == (N, r), W.shape)
        eqs(ctx, 'orthonormal-support', mm(W.T, W), identity(r))
        rep = f.covariance() if mode == 'covariance' else f.precision()
        eqs(ctx, 'matrix-on-the-support', mm(W, mm(dense(rep.dot(given(ctx, identity(r) * (1 if ctx.sym else 1.)))), W.T)), mm(W0, mm(K, W0.T)))
        X0, P = law(ctx, lambda Z: f.sample(z=Z, mode=mode), r, N)
        eqs(ctx, 'mean', X0, mu)
        if mode == 'covariance':
            eqs(ctx, 'law-unchanged', mm(P, P.T), mm(W0, mm(K, W0.T)))
        else:
            A = mm(W0, mm(K, W0.T))
            eqs(ctx, 'precision-of-the-law', mm(A, mm(mm(P, P.T), A)), A)


def truncation(ctx, n, level, prior):
    ctx.fn('gmrf.GaussianField.truncate', 'gmrf.GaussianField.update_support')
    facts = lamodel.Facts(ctx)
    V = orthogonal(ctx, n)
    d = [ctx.real('e0', lo=Fr(1, 1000) if ctx.sym else .1, hi=None if ctx.sym else 1)]
    for i in range(1, n):
        d.append(d[-1] + ctx.real('e%d' % i, lo=Fr(1, 1000) if ctx.sym else .1, hi=None if ctx.sym else 1))
    C = mm(V, mm(np.diag(mat(d)), V.T))
    facts.add('eigh', (C,), (mat(d), V))
    dk = [0] * (n - level) + d[n - level:]
    W0 = identity(n)
    N = n
    full, dn = V, dk
    if prior:
        N = n + 1
        W0 = np.concatenate([identity(n), mat([[0] * n])], axis=0)
        full = np.concatenate([np.concatenate([mat([[0]] * n), mat([[1]])], axis=0), mm(W0, V)], axis=1)
        dn = [0] + dk
    K = mm(full, mm(np.diag(mat(dn)), full.T))
    facts.add('eigh', (K,), (mat(dn), full))
    facts.add('eigh', (np.diag(mat(list(reversed(d[n - level:])))),),
              (mat(d[n - level:]), mat([[1 if i + j == level - 1 else 0 for j in range(level)] for i in range(level)])))
    if ctx.sym:
        norm = ctx.real('norm', lo=0)
        facts.add('norm', (K,), norm)
    mu = columns(ctx, N, 1, 'm')
    with world(ctx, facts):
        g = gm()
        f = g.GaussianField(N, mean=given(ctx, mu), support=given(ctx, W0) if prior else None,
                            covariance=g.EigenDecomposition(C14.as_input(ctx, C, False), delta=0))
        t = f.truncate(level)
        ctx.prove('size', t.size() == N)
        X0, P = law(ctx, lambda Z: t.sample(z=Z), level, N)
        eqs(ctx, 'mean-kept', X0, mu)
        eqs(ctx, 'leading-components', mm(P, P.T), K)
        eqs(ctx, 'field-unchanged', f.covariance().get_matrix(), C)
        try:
            f.truncate(N + 1)
            ok = False
        except AssertionError:
            ok = True
        ctx.prove('too-high-level-refused', ok)


# ---------------------------------------------------------------- conditioning

def operator(ctx, A, how):
    if how == 'sparse':
        return spmodel.Sp(A.copy()) if ctx.sym else real_sparse.csr_matrix(A.astype(float))
    return given(ctx, A)


def hard_samples(ctx, mode, how):
    """size two, one observation: the complete law of conditioned samples"""
    ctx.fn('gmrf.GaussianField.condition', 'gmrf.GaussianField.sample')
    n, k = 2, 1
    R = root(ctx, n)
    K = mm(R, R.T)
    if how == 'points':
        i = ctx.choice('point', [0, 1])
        A, give = mat([[1 if j == i else 0 for j in range(n)]]), np.array([i])
    else:
        A = mat([[number(ctx, 'a%d' % j, .5, 1.5) for j in range(n)]])
        give = operator(ctx, A, how)
    S = mm(A, mm(K, A.T))[0, 0]
    ctx.assume(S > 0)
    G = mm(K, A.T)
    mu = columns(ctx, n, 1, 'm')
    several = ctx.choice('observations', ['one', 'per-sample'])
    e = columns(ctx, 1, 1 if several == 'one' else n + 2, 'e')
    with world(ctx):
        f = gm().GaussianField(n, mean=given(ctx, mu), **{mode: represented(ctx, R, inverse=mode == 'precision')})
        kw = {} if mode == 'covariance' and ctx.choice('explicit', [False, True]) is False else dict(mode=mode)
        if several == 'one':
            X0, P = law(ctx, lambda Z: f.condition(give, given(ctx, e), z=Z, **kw), n, n)
            eqs(ctx, 'conditional-mean', S * X0, S * mu - mm(G, mm(A, mu) - e))
            eqs(ctx, 'conditional-covariance', S * mm(P, P.T), S * K - mm(G, G.T))
            eqs(ctx, 'observations-hold', mm(A, X0), e)
            eqs(ctx, 'no-noise-in-the-observations', mm(A, P), mat([[0] * n]))
        else:
            Z = columns(ctx, n, n + 2, 'z')
            X = dense(f.condition(give, given(ctx, e), z=given(ctx, Z), **kw))
            eqs(ctx, 'observations-hold-per-sample', mm(A, X), e)
        eqs(ctx, 'field-unchanged', f.mean(), mu)


def hard_three(ctx, mode, k, how, prior):
    """size three: one or two observations, with or without restricted support; parametrised by the correction, which reaches all observed values"""
    ctx.fn('gmrf.GaussianField.condition', 'gmrf.GaussianField.project')
    n = 3
    m = 2 if prior else 3
    W = basis_fixed(ctx, prior)
    R = root(ctx, m)
    K = mm(R, R.T)
    if how == 'points':
        pts = ctx.choice('points', [[0, 1], [2, 0], [1, 2]] if k == 2 else [[0], [1], [2]])
        A, give = mat([[1 if j == i else 0 for j in range(n)] for i in pts]), np.array(pts)
    else:
        A = columns(ctx, k, n, 'a')
        give = operator(ctx, A, how)
    Ak = mm(A, W)
    S = mm(Ak, mm(K, Ak.T))
    mu = columns(ctx, n, 1, 'm')
    Z = columns(ctx, m, 2, 'z')
    Xs = mu + mm(W, mm(R, Z))
    facts = lamodel.Facts(ctx)
    U = columns(ctx, k, 2, 'u')
    e = mm(A, Xs) - mm(S, U)
    facts.add('solve', (S, mm(A, Xs) - e), U)
    if not ctx.sym:
        ctx.assume(abs(np.linalg.det(np.asarray(S, dtype=float))) > 1e-3)
    with world(ctx, facts):
        f = gm().GaussianField(n, mean=given(ctx, mu), support=given(ctx, W) if prior else None,
                               **{mode: represented(ctx, R, inverse=mode == 'precision')})
        X = dense(f.condition(give, given(ctx, e), z=given(ctx, Z), mode=mode))
        eqs(ctx, 'sample-minus-correction', X, Xs - mm(W, mm(K, mm(Ak.T, U))))
        eqs(ctx, 'observations-hold', mm(A, X), e)


def basis_fixed(ctx, prior):
    if not prior:
        return identity(3)
    Q = rotation2(ctx, 9)
    V = np.concatenate([np.concatenate([Q, mat([[0], [0]])], axis=1), mat([[0, 0, 1]])], axis=0)
    return V[:, 1:]


def hard_field(ctx, n, k, mode, how, prior):
    """the conditional field: mean, covariance, and samples that satisfy the observations; every covariance is K_c + G G^T with K_c the conditional one"""
    ctx.fn('gmrf.GaussianField.condition', 'gmrf.GaussianField.update_support')
    facts = lamodel.Facts(ctx)
    r = n - k
    if how == 'points':
        pts = ctx.choice('points', [[i] for i in range(n)] if k == 1 else [[0, 1], [2, 0]])
        rest = [i for i in range(n) if i not in pts]
        O = identity(n)[rest + pts].T
        T = identity(k)
    else:
        O = orthogonal(ctx, n) if n == 2 else embedded(ctx)
        T = C14.lower(ctx, k, 't')
    U, N = O[:, :r], O[:, r:]
    d = []
    for i in range(r):
        d.append((d[-1] if d else 0) + ctx.real('d%d' % i, lo=Fr(1, 1000) if ctx.sym else .1, hi=None if ctx.sym else 1))
    J = C14.lower(ctx, k, 'j')
    H = columns(ctx, r, k, 'h')
    G = mm(U, H) + mm(N, J)
    TJ = mm(T, J)
    ex = n + 1 if prior else n
    W = identity(n)
    if prior:
        W = np.concatenate([mat([[0] * n]), identity(n)], axis=0)
    A = mm(T, mm(N.T, W.T))
    if prior:
        A = A + mm(columns(ctx, k, 1, 'q'), mat([[1] + [0] * n]))
    Kc = mm(W, mm(mm(U, mm(np.diag(mat(d)), U.T)), W.T))
    sq = [v.sqrt() if ctx.sym else float(v) ** .5 for v in d]
    R = np.concatenate([mm(U, np.diag(mat(sq))), G], axis=1)
    vec = np.concatenate([mm(W, N), mm(W, U)], axis=1)
    if prior:
        vec = np.concatenate([mat([[1]] + [[0]] * n), vec], axis=1)
    facts.add('eigh', (Kc,), (mat([0] * (ex - r) + d), vec))
    facts.add('eigh', (np.diag(mat(list(reversed(d)))),), (mat(d), mat([[1 if i + j == r - 1 else 0 for j in range(r)] for i in range(r)])))
    if ctx.sym:
        facts.add('norm', (Kc,), ctx.real('norm', lo=0))
    S = mm(TJ, TJ.T)
    Ti = inv_lower(TJ)
    facts.add('inverse', (S,), mm(Ti.T, Ti))
    mu = columns(ctx, ex, 1, 'm')
    w = columns(ctx, k, 1, 'w')
    e = mm(A, mu) - mm(TJ, w)
    with world(ctx, facts):
        f = gm().GaussianField(ex, mean=given(ctx, mu), support=given(ctx, W) if prior else None,
                               **{mode: represented(ctx, R, inverse=mode == 'precision')})
        give = np.array(pts) if how == 'points' and not prior else operator(ctx, A, how)
        X = f.condition(give, given(ctx, e), output='field', mode=mode)
        ctx.prove('size', X.size() == ex)
        eqs(ctx, 'conditional-mean', X.mean(), mu - mm(W, mm(G, w)))
        X0, P = law(ctx, lambda Z: X.sample(z=Z), r, ex)
        eqs(ctx, 'samples-around-the-conditional-mean', X0, mu - mm(W, mm(G, w)))
        eqs(ctx, 'conditional-covariance', mm(P, P.T), Kc)
        eqs(ctx, 'observations-hold', mm(A, X0), e)
        eqs(ctx, 'no-noise-in-the-observations', mm(A, P), mat([[0] * r] * k))
        eqs(ctx, 'field-unchanged', f.mean(), mu)


def inv_lower(L):
    n = len(L)
    X = mat([[0] * n for _ in range(n)])
    for j in range(n):
        for i in range(j, n):
            t = (1 if i == j else 0) - sum((L[i, q] * X[q, j] for q in range(j, i)), 0)
            X[i, j] = t / L[i, i]
    return X


def embedded(ctx):
    """rotations of the plane combined with permutations of the axes of space"""
    Q = rotation2(ctx, 7)
    V = np.concatenate([np.concatenate([Q, mat([[0], [0]])], axis=1), mat([[0, 0, 1]])], axis=0)
    return V[:, ctx.choice('axes', [[0, 1, 2], [0, 2, 1], [2, 0, 1]])]


def soft(ctx, mode, how, output, scalar, prior):
    """size two (or three, supported on a plane), one noisy observation: the complete law, or the conditional field"""
    ctx.fn('gmrf.GaussianField.condition')
    n = 2
    ex = 3 if prior else 2
    W = mat([[0, 0], [1, 0], [0, 1]]) if prior else identity(2)
    if prior and output == 'sample' and how == 'points':
        W = basis_fixed(ctx, True)
    facts = lamodel.Facts(ctx)
    if output == 'field':
        O = orthogonal(ctx, n)
        d = [ctx.real('d0', lo=Fr(1, 1000) if ctx.sym else .1, hi=None if ctx.sym else 1)]
        d.append(d[0] + ctx.real('d1', lo=0, hi=None if ctx.sym else 1))
        Kc = mm(O, mm(np.diag(mat(d)), O.T))
    if how == 'points':
        i = ctx.choice('point', list(range(ex)))
        Af, give = mat([[1 if j == i else 0 for j in range(ex)]]), np.array([i])
    else:
        a = mat([[number(ctx, 'a%d' % j, .5, 1.5) for j in range(n)]])
        Af = mm(a, O.T) if output == 'field' else a
        if prior:
            Af = mm(Af, W.T) + mat([[number(ctx, 'q%d' % j) if j == 0 else 0 for j in range(ex)]])
        give = operator(ctx, Af, how)
    A = mm(Af, W)
    mu = columns(ctx, ex, 1, 'm')
    e = columns(ctx, 1, 1, 'e')
    if output == 'field':
        # K_c is the conditional covariance: every covariance K arises as K_c + q q^T / t with q = K_c A^T and t = v - A q > 0
        q = mm(Kc, A.T)
        t = ctx.real('t', lo=Fr(1, 1000) if ctx.sym else .1, hi=None if ctx.sym else 2)
        v = mm(A, q)[0, 0] + t
        K = Kc + mm(q, q.T) / t
        S = v * v / t
        if prior:
            Oe = mat([[1, 0, 0], [0, O[0, 0], O[0, 1]], [0, O[1, 0], O[1, 1]]])
        Kc = mm(W, mm(Kc, W.T))
        facts.add('eigh', (Kc,), (mat([0] + d if prior else d), Oe if prior else O))
        facts.add('eigh', (np.diag(mat(list(reversed(d)))),), (mat(d), mat([[0, 1], [1, 0]])))
        if ctx.sym:
            facts.add('norm', (Kc,), ctx.real('norm', lo=0))
        rep = symmetric(ctx, K, mode == 'precision')
    else:
        R = root(ctx, n)
        K = mm(R, R.T)
        rep = represented(ctx, R, inverse=mode == 'precision')
        v = ctx.real('v', lo=Fr(1, 1000) if ctx.sym else .1, hi=None if ctx.sym else 2)
        S = v + mm(A, mm(K, A.T))[0, 0]
    Ko = mat([[v]])
    facts.add('eigh', (Ko,), (mat([v]), mat([[1]])))
    if ctx.sym:
        ctx.assume(v > 0)
        facts.add('norm', (Ko,), v)
    G = mm(K, A.T)
    if ctx.sym:
        facts.add('inverse', (mat([[S]]),), mat([[1 / S]]))
    obs = float(v) if scalar and not ctx.sym else v if scalar else given(ctx, Ko)
    with world(ctx, facts):
        f = gm().GaussianField(ex, mean=given(ctx, mu), support=given(ctx, W) if prior else None, **{mode: rep})
        if output == 'sample':
            zeta = columns(ctx, 1, 1, 'y')
            star = columns(ctx, n, 1, 'z')
            Z = np.concatenate([mat([[0]] * n), identity(n), mat([[0]] * n), star], axis=1)
            Y = np.concatenate([mat([[0] * (n + 1)]), mat([[1]]), zeta], axis=1)
            noise = Noise(ctx, give=given(ctx, Y * (1 if ctx.sym else 1.)))
            with patched(*noise.patches()):
                X = dense(f.condition(give, given(ctx, e), Ko=obs, z=given(ctx, Z * (1 if ctx.sym else 1.)), mode=mode))
            ctx.prove('one-column-per-sample', X.shape == (ex, n + 3) and len(noise.calls) == 1)
            X0 = X[:, :1]
            P = X[:, 1:n + 2] - X0
            eqs(ctx, 'affine-in-the-noise', X[:, -1:], X0 + mm(P[:, :n], star) + mm(P[:, n:], zeta))
            eqs(ctx, 'conditional-mean', S * X0, S * mu - mm(W, mm(G, mm(Af, mu) - e)))
            eqs(ctx, 'conditional-covariance', S * mm(P, P.T), mm(W, mm(S * K - mm(G, G.T), W.T)))
        else:
            X = f.condition(give, given(ctx, e), Ko=obs, output='field', mode=mode)
            eqs(ctx, 'conditional-mean', S * X.mean(), S * mu - mm(W, mm(G, mm(Af, mu) - e)))
            X0, P = law(ctx, lambda Z: X.sample(z=Z), n, ex)
            eqs(ctx, 'samples-around-the-conditional-mean', S * X0, S * mu - mm(W, mm(G, mm(Af, mu) - e)))
            eqs(ctx, 'conditional-covariance', mm(P, P.T), Kc)


def symmetric(ctx, K, inverse):
    """decomposition of K (or of K^-1) of which only products and solves are used"""
    d = represented(ctx, identity(len(K)))
    f = lambda b, **k: mm(K, dense(b)) if ctx.sym else mm(K, dense(b)).astype(float)
    d.dot = (lambda b: (_ for _ in ()).throw(Unsupported('product with the inverse'))) if inverse else f
    d.solve = f if inverse else (lambda b: (_ for _ in ()).throw(Unsupported('solve')))
    d.sqrt_dot = d.sqrt_solve = lambda *a, **k: (_ for _ in ()).throw(Unsupported('square root'))
    d.get_matrix = lambda: (_ for _ in ()).throw(Unsupported('inverse')) if inverse else K
    return d


def dependence(ctx):
    """which decomposition represents what is given"""
    ctx.fn('gmrf.GaussianField.set_covariance', 'gmrf.GaussianField.set_precision', 'gmrf.GaussianField.set_dependence')
    g = gm()
    C = np.array([[2., 1.], [1., 3.]])
    which = ctx.choice('which', ['covariance', 'precision'])
    how = ctx.choice('how', ['constructor', 'eig', 'chol', 'dependence', 'object', 'refused', 'none', 'size', 'support'])
    I = np.eye(2)
    kind = {'covariance': g.EigenDecomposition, 'precision': g.CholeskyDecomposition}[which]
    f = g.GaussianField(2)
    give = real_sparse.csc_matrix(C) if how != 'object' and ctx.choice('sparse', [False, True]) else C
    get = getattr(f, 'get_' + which)
    if how == 'constructor':
        f = g.GaussianField(2, **{which: give})
        get = getattr(f, 'get_' + which)
    elif how in ('eig', 'chol'):
        kind = {'eig': g.EigenDecomposition, 'chol': g.CholeskyDecomposition}[how]
        getattr(f, 'set_' + which)(give, how)
    elif how == 'dependence':
        V = np.array([[.6], [.8]])
        if ctx.choice('reduced', [False, True]):
            f.set_support(V)
            f.set_dependence(give, which)
            ctx.prove('reduced-matrix', bool(np.allclose(dense(get().dot(np.eye(1))), V.T @ C @ V)))
            ctx.prove('other-unset', (f.get_precision() if which == 'covariance' else f.get_covariance()) is None)
            return
        f.set_dependence(give, which)
        ctx.prove('other-unset', (f.get_precision() if which == 'covariance' else f.get_covariance()) is None)
    elif how == 'object':
        for o in (g.EigenDecomposition(C), g.CholeskyDecomposition(C)):
            getattr(f, 'set_' + which)(o)
            ctx.prove('same-object', get() is o and getattr(f, which)() is o)
        return
    elif how == 'refused':
        for bad in ('x', 3, [[1.]]):
            try:
                getattr(f, 'set_' + which)(bad)
                ok = False
            except Exception:
                ok = True
            ctx.prove('refused', ok)
        return
    elif how == 'none':
        getattr(f, 'set_' + which)(None)
        ctx.prove('unset', get() is None)
        try:
            f.sample(mode=which)
            ok = False
        except AssertionError:
            ok = True
        ctx.prove('sampling-without-matrix-refused', ok)
        return
    elif how == 'size':
        for bad in (0, -1, 2.5):
            try:
                g.GaussianField(bad)
                ok = False
            except AssertionError:
                ok = True
            ctx.prove('size-refused', ok, bad)
        return
    elif how == 'support':
        for bad in (np.ones((3, 1)), np.ones((2, 3)), np.ones((2, 1))):
            try:
                f.set_support(bad)
                ok = False
            except AssertionError:
                ok = True
            ctx.prove('support-refused', ok)
        return
    ctx.prove('kind', type(get()) is kind)
    ctx.prove('matrix', bool(np.allclose(dense(get().dot(I)), C)))


# ---------------------------------------------------------------- bounded: the real libraries

def _affine(draw, m):
    rng = np.random.RandomState(5)
    z = rng.normal(size=(m, 1))
    X = np.asarray(draw(np.hstack([np.zeros((m, 1)), np.eye(m), z])))
    X0, P = X[:, :1], X[:, 1:m + 1] - X[:, :1]
    return X0, P, bool(np.allclose(X[:, -1:], X0 + P @ z))


def end_to_end(ctx):
    """random fields of size up to eight, every representation, with the real factorisations"""
    ctx.fn(*['gmrf.GaussianField.' + s for s in ('sample', 'condition', 'KL_sample', 'update_support', 'truncate')])
    g = gm()
    rng = np.random.RandomState(ctx.choice('seed', list(range(10 ** 6))))
    n = rng.randint(2, 9)
    F = rng.normal(size=(n, n)) + 2 * np.eye(n)
    if rng.rand() < .3:
        F *= rng.rand(n, n) < .5
        F += np.diag(3 + rng.rand(n))
    K = F @ F.T
    Q = np.linalg.inv(K)
    Q = (Q + Q.T) / 2
    mu = rng.normal(size=(n, 2))
    mode = ['covariance', 'precision', 'canonical'][rng.randint(3)]
    C = K if mode == 'covariance' else Q
    kind = rng.randint(7)
    if kind == 6 and mode == 'covariance':
        W = rng.normal(size=(n, n)) * .2 + np.eye(n)
        M = W @ W.T
        rep = g.EigenDecomposition(M @ K @ M, M)
    else:
        rep = [lambda: C, lambda: real_sparse.csc_matrix(C), lambda: g.EigenDecomposition(C), lambda: g.CholeskyDecomposition(C),
               lambda: g.CholeskyDecomposition(real_sparse.csc_matrix(C)), lambda: g.EigenDecomposition(real_sparse.csc_matrix(C)),
               lambda: g.EigenDecomposition(C, delta=0)][kind]()
    with contextlib.redirect_stdout(io.StringIO()):
        f = g.GaussianField(n, mean=mu.copy(), **{'covariance' if mode == 'covariance' else 'precision': rep})
        col = rng.randint(2)
        m = mu[:, [col]]
        if mode == 'canonical' and rng.rand() < .5:
            f.set_mean(np.zeros((n, 1)))
            f.set_canonical_mean(Q @ mu)
        X0, P, lin = _affine(lambda Z: f.sample(z=Z, mode=mode, m_col=col), n)
        close = lambda a, b: bool(np.allclose(a, b, atol=1e-6, rtol=1e-6))
        ctx.prove('affine', lin)
        ctx.prove('sample-mean', close(X0, m))
        ctx.prove('sample-covariance', close(P @ P.T, K))
        ctx.prove('sample-shape', f.sample(3, mode=mode).shape == (n, 3) and f.sample(mode=mode).shape == (n, 1))
        if mode == 'canonical':
            return
        k = rng.randint(1, n)
        how = rng.randint(3)
        pts = rng.permutation(n)[:k]
        A = np.eye(n)[pts] if how == 2 else rng.normal(size=(k, n))
        give = [A, real_sparse.csr_matrix(A), pts][how]
        e = rng.normal(size=(k, 1))
        m = mu[:, [0]]
        S = A @ K @ A.T
        ctx.assume(np.linalg.cond(S) < 1e5)
        Gain = np.linalg.solve(S, A @ K).T
        mc, Kc = m - Gain @ (A @ m - e), K - Gain @ A @ K
        f.set_mean(mu.copy())
        X0, P, lin = _affine(lambda Z: f.condition(give, e, z=Z, mode=mode), n)
        ctx.prove('conditioned-affine', lin)
        ctx.prove('conditioned-mean', close(X0, mc))
        ctx.prove('conditioned-covariance', close(P @ P.T, Kc))
        X = f.condition(give, e, n_samples=4, mode=mode)
        ctx.prove('observations', X.shape == (n, 4) and close(A @ X, e @ np.ones((1, 4))))
        h = f.condition(give, e, output='field', mode=mode)
        X0, P, lin = _affine(lambda Z: h.sample(z=Z), h.support().shape[1])
        ctx.prove('field-mean', close(h.mean(), mc) and close(X0, mc))
        ctx.prove('field-covariance', bool(np.allclose(P @ P.T, Kc, atol=1e-5)))
        # a second observation on top of the first
        if k < n - 1:
            B = rng.normal(size=(1, n))
            AB = np.vstack([A, B])
            if np.linalg.cond(AB @ K @ AB.T) < 1e5:
                x2 = np.vstack([e, [[.7]]])
                X = h.condition(B, np.array([[.7]]), n_samples=3)
                ctx.prove('both-observations', bool(np.allclose(AB @ X, x2 @ np.ones((1, 3)), atol=1e-4)))
                h2 = h.condition(B, np.array([[.7]]), output='field')
                G2 = np.linalg.solve(AB @ K @ AB.T, AB @ K).T
                ctx.prove('sequential-mean', bool(np.allclose(h2.mean(), m - G2 @ (AB @ m - x2), atol=1e-4)))
                V = h2.support()
                ctx.prove('sequential-covariance', bool(np.allclose(V @ dense(h2.covariance().dot(np.eye(V.shape[1]))) @ V.T, K - G2 @ AB @ K, atol=1e-4)))
        # noisy observations
        B = rng.normal(size=(k, k))
        Ko = B @ B.T + .1 * np.eye(k)
        Gain = np.linalg.solve(S + Ko, A @ K).T
        h = f.condition(give, e, Ko=Ko, output='field', mode=mode)
        X0, P, lin = _affine(lambda Z: h.sample(z=Z), h.support().shape[1])
        ctx.prove('noisy-field-mean', close(X0, m - Gain @ (A @ m - e)))
        ctx.prove('noisy-field-covariance', bool(np.allclose(P @ P.T, K - Gain @ A @ K, atol=1e-5)))
        Z = np.hstack([np.zeros((n, 1)), np.eye(n), np.zeros((n, k))])
        Y = np.hstack([np.zeros((k, n + 1)), np.eye(k)])
        noise = Noise(ctx, give=Y)
        with patched(*noise.patches()):
            X = f.condition(give, e, Ko=Ko, z=Z, mode=mode)
        P = X[:, 1:] - X[:, :1]
        ctx.prove('noisy-samples', close(X[:, :1], m - Gain @ (A @ m - e)) and bool(np.allclose(P @ P.T, K - Gain @ A @ K, atol=1e-5)))
        if mode == 'covariance' and isinstance(f.covariance(), g.EigenDecomposition):
            t = f.truncate(k)
            ctx.prove('truncation-rank', t.support().shape == (n, k))
            X0, P, lin = _affine(lambda Z: t.sample(z=Z), k)
            X1, P1, lin = _affine(lambda Z: f.KL_sample(i_max=k - 1, z=Z), k)
            ctx.prove('truncation-is-the-leading-expansion', bool(np.allclose(P @ P.T, P1 @ P1.T, atol=1e-5)))
            X1, P2, lin = _affine(lambda Z: f.KL_sample(i_min=k, z=Z), n - k)
            ctx.prove('expansion-splits', bool(np.allclose(P2 @ P2.T + P1 @ P1.T, K, atol=1e-5)))


def on_meshes(ctx):
    """fields with a covariance kernel on a mesh: the covariance of samples at the nodes is the kernel; conditioning on a coarser mesh"""
    ctx.fn('gmrf.Covariance.__init__', 'gmrf.Covariance.set_kernel', 'gmrf.Covariance.assemble', 'gmrf.GaussianField.sample', 'gmrf.GaussianField.condition')
    g, m, fem = gm(), mod('mesh'), mod('fem')
    rng = np.random.RandomState(ctx.choice('seed', list(range(10 ** 6))))
    dim = 1 + rng.randint(2)
    mesh = m.Mesh1D(resolution=(int(rng.randint(2, 6)),)) if dim == 1 else m.QuadMesh(resolution=(int(rng.randint(1, 3)), int(rng.randint(1, 4))))
    dh = fem.DofHandler(mesh, fem.QuadFE(dim, ['Q1', 'DQ0', 'Q2'][rng.randint(3)]))
    dh.distribute_dofs()
    name, par = [('exponential', dict(sgm=1.5, l=.4)), ('matern', dict(sgm=1.2, nu=1.5, l=.3)), ('exponential', dict(l=.7)),
                 ('rational', dict(a=1.5))][rng.randint(4)]
    n = dh.n_dofs()
    x = dh.get_dof_vertices()
    fn = getattr(g, name)
    I, J = np.mgrid[0:n, 0:n]
    K = np.asarray(fn(x[I.ravel()], x[J.ravel()], **par)).reshape(n, n)
    ctx.assume(np.linalg.eigvalsh(K)[0] > 1e-4)
    with contextlib.redirect_stdout(io.StringIO()):
        cov = g.Covariance(dh, name=name, parameters=par) if rng.rand() < .7 else g.Covariance(dh, cov_fn=fn, parameters=par)
        mu = rng.normal(size=(n, 1))
        f = g.GaussianField(n, mean=mu, covariance=cov)
        X0, P, lin = _affine(lambda Z: f.sample(z=Z), n)
        ctx.prove('mean-at-the-nodes', bool(np.allclose(X0, mu)))
        ctx.prove('covariance-at-the-nodes-is-the-kernel', bool(np.allclose(P @ P.T, K, atol=1e-5)))
        ctx.assume(n > 1)                    # some randomness remains
        k = rng.randint(1, max(2, n // 2))

        pts = rng.permutation(n)[:k]
        A = np.eye(n)[pts]
        e = rng.normal(size=(k, 1))
        Gain = np.linalg.solve(A @ K @ A.T, A @ K).T
        X0, P, lin = _affine(lambda Z: f.condition(pts, e, z=Z), n)
        ctx.prove('conditioned-on-nodes', bool(np.allclose(X0, mu - Gain @ (A @ mu - e), atol=1e-5)) and bool(np.allclose(P @ P.T, K - Gain @ A @ K, atol=1e-5)))
        h = f.condition(pts, e, output='field')
        V = h.support()
        ctx.prove('conditional-field-on-nodes', bool(np.allclose(h.mean(), mu - Gain @ (A @ mu - e), atol=1e-5)) and
                  bool(np.allclose(V @ dense(h.covariance().dot(np.eye(V.shape[1]))) @ V.T, K - Gain @ A @ K, atol=1e-5)))


# callees enter by contract: a failure there is an undischarged obligation, not yet a failing input
MODULAR = {'sampling', 'means', 'expansion', 'supported', 'narrowing', 'truncation', 'hard_samples', 'hard_three', 'hard_field', 'soft', 'dependence'}


def harnesses(tier):
    out = []
    for mode in ('covariance', 'precision', 'canonical'):
        for kind in ('contract', 'eig', 'chol', 'array', 'array-eig', 'array-eig-sparse', 'set-eig', 'set-chol'):
            if kind == 'array' and mode == 'covariance' or kind.startswith('array-eig') and mode != 'covariance':
                continue
            out.append(Harness(sampling, 'sampling[2,%s,%s]' % (mode, kind), params=dict(n=2, mode=mode, kind=kind), searches=10))
        out.append(Harness(sampling, 'sampling[3,%s,contract]' % mode, params=dict(n=3, mode=mode, kind='contract'), searches=10))
    thorough = tier == 'thorough'
    for n in (1, 2, 3) if thorough else (1, 2):
        out.append(Harness(means, 'means[%d]' % n, params=dict(n=n), searches=15))
    for n, lo, hi in ((1, 0, None), (2, 0, None), (2, 0, 0), (2, 1, None), (2, 1, 1), (3, 0, None), (3, 0, 1), (3, 1, 1), (3, 1, 2), (3, 2, None)):
        out.append(Harness(expansion, 'expansion[%d,%d,%s]' % (n, lo, hi), params=dict(n=n, lo=lo, hi=hi), searches=10))
    for n, m in ((2, 1), (3, 2), (3, 1)):
        for mode in ('covariance', 'precision'):
            out.append(Harness(supported, 'supported[%d,%d,%s]' % (n, m, mode), params=dict(n=n, m=m, mode=mode), searches=10))
    for mode in ('covariance', 'precision'):
        for kind in ('array', 'eig') + (('mass', 'contract') if mode == 'covariance' else ()):
            for n, zeros in ((1, 0), (2, 0), (2, 1), (3, 1), (3, 2)):
                if kind == 'contract' and zeros or kind == 'array' and mode == 'precision' and zeros or kind != 'eig' and n == 3:
                    continue
                if kind == 'array' and mode == 'precision':
                    continue
                for prior in (False, True):
                    if prior and (n == 3 or kind == 'mass'):
                        continue
                    out.append(Harness(narrowing, 'narrowing[%d,%d,%s,%s%s]' % (n, zeros, mode, kind, ',prior' if prior else ''),
                                       params=dict(n=n, zeros=zeros, mode=mode, prior=prior, kind=kind), searches=10))
    for n, level in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2)):
        for prior in (False, True):
            if not (prior and n == 3):
                out.append(Harness(truncation, 'truncation[%d,%d%s]' % (n, level, ',prior' if prior else ''), params=dict(n=n, level=level, prior=prior), searches=10))
    for mode in ('covariance', 'precision'):
        for how in ('dense', 'sparse', 'points'):
            out.append(Harness(hard_samples, 'hard-samples[%s,%s]' % (mode, how), params=dict(mode=mode, how=how), searches=10))
            for k in (1, 2):
                for prior in (False, True):
                    if prior and how == 'points' and k == 2:
                        continue
                    out.append(Harness(hard_three, 'hard-three[%s,%d,%s%s]' % (mode, k, how, ',support' if prior else ''),
                                       params=dict(mode=mode, k=k, how=how, prior=prior), searches=10))
            for n, k in ((2, 1), (3, 1), (3, 2)):
                for prior in (False, True):
                    if prior and (n == 3 or how == 'points'):
                        continue
                    out.append(Harness(hard_field, 'hard-field[%d,%d,%s,%s%s]' % (n, k, mode, how, ',support' if prior else ''),
                                       params=dict(n=n, k=k, mode=mode, how=how, prior=prior), searches=10))
            for output in ('sample', 'field'):
                for scalar in (False, True):
                    for prior in (False, True):
                        if not (prior and scalar):
                            out.append(Harness(soft, 'soft[%s,%s,%s,%s%s]' % (mode, how, output, 'scalar' if scalar else 'matrix', ',support' if prior else ''),
                                               params=dict(mode=mode, how=how, output=output, scalar=scalar, prior=prior), searches=10))
    out.append(Harness(dependence, searches=0))
    out.append(Harness(end_to_end, 'end-to-end', kind='bounded', searches=1500 if thorough else 300, opts=dict(symbolic=False),
                       bound='seeded fields of size 2..8, all representations and operators'))
    out.append(Harness(on_meshes, 'on-meshes', kind='bounded', searches=300 if thorough else 60, opts=dict(symbolic=False),
                       bound='seeded meshes of up to six cells, kernels and elements'))
    return out
