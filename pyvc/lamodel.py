"""
Dense factorisations over exact reals.  A harness registers, for the matrices it builds, one factorisation of each (every matrix of
the class arises from some choice of the factors, so quantifying over the factors quantifies over the matrices); the model of the
library returns the registered factors when it is handed that matrix.  Triangular solves and small Cholesky factors are computed by
their definitions.  In concrete runs the real scipy is used.
"""
import types
import numpy as np
from . import sym as S
from . import npmodel
from .sym import SymReal, Unsupported


def _same(a, b):
    if np.shape(a) != np.shape(b):
        return False
    for x, y in zip(np.asarray(a, dtype=object).reshape(-1), np.asarray(b, dtype=object).reshape(-1)):
        d = x - y
        if isinstance(d, SymReal):
            if not d.r.is_zero() and not (S.CUR is not None and S.CUR.pow_square_reduce(d.r).is_zero()):
                return False
        elif abs(d) > 1e-12:
            return False
    return True


class Facts(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.table = []

    def add(self, kind, args, result):
        self.table.append((kind, args, result))

    def find(self, kind, *args):
        for k, a, r in self.table:
            if k == kind and len(a) == len(args) and all(_same(x, y) for x, y in zip(a, args)):
                return r
        return None


def _arr(a):
    if hasattr(a, 'a') and hasattr(a, 'toarray'):
        raise ValueError('dense factorisation of a sparse matrix')
    return np.asarray(a, dtype=object)


def _obj(a):
    return np.array(a, dtype=object)


def chol_formula(a):
    n = len(a)
    out = _obj(np.zeros((n, n)))
    for j in range(n):
        s = S.SymReal.lift(a[j, j]) - sum((out[j, k] * out[j, k] for k in range(j)), 0)
        if not (s > 0):
            raise np.linalg.LinAlgError('not positive definite')
        out[j, j] = s.sqrt()
        for i in range(j + 1, n):
            out[i, j] = (a[i, j] - sum((out[i, k] * out[j, k] for k in range(j)), 0)) / out[j, j]
    return out


def make(facts):
    """-> (stand-in for scipy.linalg, dict for numpy.linalg)"""
    ctx = facts.ctx

    def norm(a, ord=None, axis=None, keepdims=False, check_finite=True):
        if hasattr(a, 'toarray'):
            raise ValueError('Improper number of dimensions to norm.')
        a = _arr(a)
        if ord not in (None, 'fro') or axis is not None:
            raise Unsupported('norm')
        r = facts.find('norm', a)
        if r is None:
            r = npmodel.norm(a)
        return r

    def cholesky(a, lower=False, overwrite_a=False, check_finite=True):
        a = _arr(a)
        r = facts.find('cholesky', a)
        if r is None:
            if len(a) > 2:
                raise Unsupported('cholesky of an unregistered matrix')
            r = chol_formula(a)
        if isinstance(r, str):
            raise np.linalg.LinAlgError(r)
        ctx.trust('scipy.linalg.cholesky: the triangular factor with positive diagonal, or LinAlgError when the matrix is not positive definite')
        return r.copy() if lower else r.T.copy()

    def ldl(A, lower=True, hermitian=True, overwrite_a=False, check_finite=True):
        r = facts.find('ldl', _arr(A))
        if r is None or not lower:
            raise Unsupported('ldl of an unregistered matrix')
        ctx.trust('scipy.linalg.ldl: A = lu d lu^T with lu[perm] unit lower triangular and d block diagonal')
        return tuple(v.copy() for v in r)

    def eigh(a, b=None, **k):
        if any(k.get(x) not in (None, False, True) for x in ('subset_by_index', 'subset_by_value')) or k.get('eigvals_only'):
            raise Unsupported('eigh options')
        a = _arr(a)
        r = facts.find('eigh', a) if b is None else facts.find('eigh', a, _arr(b))
        if r is None:
            raise Unsupported('eigenvalues of an unregistered matrix')
        ctx.trust('scipy.linalg.eigh: ascending eigenvalues d and V with V^T B V = I, A V = B V diag(d)')
        return r[0].copy(), r[1].copy()

    def solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, overwrite_b=False, check_finite=True):
        a, b = _arr(a), _arr(b)
        if trans in (1, 'T', 2, 'C'):
            a, lower = a.T, not lower
        n = len(a)
        flat = b.ndim == 1
        bb = b[:, None] if flat else b
        if a.shape != (n, n) or bb.shape[0] != n:
            raise ValueError('incompatible dimensions')
        x = np.empty(bb.shape, dtype=object)
        for j in range(bb.shape[1]):
            for i in (range(n) if lower else range(n - 1, -1, -1)):
                t = S.SymReal.lift(bb[i, j]) - sum((a[i, k] * x[k, j] for k in (range(i) if lower else range(i + 1, n))), 0)
                if not unit_diagonal:
                    if S.SymReal.lift(a[i, i]) == 0:
                        raise np.linalg.LinAlgError('singular matrix')
                    t = t / a[i, i]
                x[i, j] = t
        return x[:, 0] if flat else x

    def solve(a, b, **k):
        a, b = _arr(a), b.toarray() if hasattr(b, 'toarray') else _arr(b)
        if a.shape[0] != a.shape[1] or a.shape[0] != b.shape[0]:
            raise ValueError('incompatible dimensions')
        r = facts.find('solve', a, b)
        if r is not None:
            return r.copy()
        v = facts.find('inverse', a)
        if v is not None:
            return np.dot(v, b)
        d = npmodel.det(a)
        if S.SymReal.lift(d) == 0:
            raise np.linalg.LinAlgError('Matrix is singular.')
        return np.dot(npmodel.inv(a), b)

    def inv(a, **k):
        a = _arr(a)
        v = facts.find('inverse', a)
        if v is not None:
            return v.copy()
        if S.SymReal.lift(npmodel.det(a)) == 0:
            raise np.linalg.LinAlgError('singular matrix')
        return npmodel.inv(a)

    m = types.ModuleType('scipy_linalg_over_the_reals')
    for f in (norm, cholesky, ldl, eigh, solve_triangular, solve, inv):
        setattr(m, f.__name__, f)
    m.det = npmodel.det
    m.LinAlgError = np.linalg.LinAlgError
    m.block_diag = lambda *bs: _block(bs)

    def ga(n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('scipy.linalg.%s' % n)
    m.__getattr__ = ga
    return m, dict(norm=norm, cholesky=lambda a, **k: cholesky(a, lower=True), eigh=lambda a, UPLO='L': eigh(a), solve=solve, inv=inv)


def _block(bs):
    bs = [np.atleast_2d(_arr(b)) for b in bs]
    n = sum(len(b) for b in bs)
    out = _obj(np.zeros((n, n)))
    k = 0
    for b in bs:
        out[k:k + len(b), k:k + len(b)] = b
        k += len(b)
    return out
