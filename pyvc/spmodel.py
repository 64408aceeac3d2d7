"""
Model of the scipy.sparse interface over exact reals: a dense table of values plus the set of stored entries.
This is an assumed contract on the library; in concrete runs the real scipy.sparse is used.
"""
import types
import numpy as np
from scipy import sparse as _sp
from scipy.sparse import linalg as _spl
from . import sym as S
from .sym import SymReal, Unsupported
from .ring import snap
from fractions import Fraction


def _obj(a):
    b = np.empty(np.shape(a), dtype=object)
    b[...] = a
    return b


def _iszero(v):
    if isinstance(v, SymReal):
        return v.r.is_zero()
    return v == 0


class Sp(object):
    __array_ufunc__ = None
    __array_priority__ = 100.0

    def __init__(self, a, mask=None, format='csr'):
        self.a = a if a.dtype == object else _obj(a)
        self.mask = np.array([[not _iszero(v) for v in row] for row in self.a], dtype=bool).reshape(self.a.shape) if mask is None else mask
        self.format = format
        self.pend = None

    def _settle(self):
        if self.pend is not None:
            for ix in np.ndindex(*self.a.shape):
                if self.pend[ix] and self.mask[ix] and _zero_now(self.a[ix]):
                    self.mask[ix] = False
            self.pend = None
        return self.mask

    # ---- conversions
    def _as(self, f):
        r = Sp(self.a.copy(), self.mask.copy(), f)
        r.pend = None if self.pend is None else self.pend.copy()
        return r

    def __getattr__(self, n):
        if n in ('tocsr', 'tocsc', 'tocoo', 'tolil', 'todia', 'tobsr', 'todok'):
            return lambda copy=False: self._as(n[2:])
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('sparse matrix attribute %s' % n)

    def asformat(self, f, copy=False):
        return self._as(f)

    def copy(self):
        return self._as(self.format)

    def toarray(self, order=None, out=None):
        return self.a.copy()

    def todense(self):
        return self.a.copy()

    @property
    def A(self):
        return self.a.copy()

    @property
    def shape(self):
        return self.a.shape

    ndim = 2

    @property
    def dtype(self):
        return np.dtype(float)

    @property
    def T(self):
        return Sp(self.a.T.copy(), self.mask.T.copy(), self.format)

    def transpose(self, axes=None, copy=False):
        return self.T

    def get_shape(self):
        return self.shape

    @property
    def nnz(self):
        return int(self._settle().sum())

    def getnnz(self, axis=None):
        return self.nnz if axis is None else self._settle().sum(axis=axis)

    def count_nonzero(self):
        return sum(1 for v in self.a.ravel() if not _zero_now(v))

    def eliminate_zeros(self):
        for ix in np.ndindex(*self.a.shape):
            if self.mask[ix] and _zero_now(self.a[ix]):
                self.mask[ix] = False

    def sum_duplicates(self):
        pass

    sort_indices = sort_index = sum_duplicates

    @property
    def data(self):
        return self.a[self._settle()]

    @property
    def row(self):
        return np.nonzero(self._settle())[0]

    @property
    def col(self):
        return np.nonzero(self._settle())[1]

    @property
    def indices(self):
        return self.col

    @property
    def indptr(self):
        return np.concatenate([[0], np.cumsum(self._settle().sum(axis=1))])

    def nonzero(self):
        return np.nonzero(self._settle())

    # ---- parts
    def getrow(self, i):
        r = Sp(self.a[[i], :], self.mask[[i], :])
        r.pend = None if self.pend is None else self.pend[[i], :]
        return r

    def getcol(self, i):
        r = Sp(self.a[:, [i]], self.mask[:, [i]])
        r.pend = None if self.pend is None else self.pend[:, [i]]
        return r

    def diagonal(self, k=0):
        return np.array([self.a[i, i + k] for i in range(max(0, -k), min(self.shape[0], self.shape[1] - k))], dtype=object)

    def setdiag(self, v, k=0):
        for i in range(min(self.shape)):
            self.a[i, i] = v[i] if np.ndim(v) else v
            self.mask[i, i] = True

    def _key(self, k):
        k = k if isinstance(k, tuple) else (k, slice(None))
        scalar = all(isinstance(q, (int, np.integer)) for q in k)
        k = tuple([q] if isinstance(q, (int, np.integer)) else q for q in k)
        ix = [np.arange(n)[np.asarray(q) if not isinstance(q, slice) else q] for q, n in zip(k, self.shape)]
        return scalar, ix

    def __getitem__(self, k):
        scalar, ix = self._key(k)
        if scalar:
            return self.a[ix[0][0], ix[1][0]]
        if all(np.ndim(i) == 1 for i in ix):
            if isinstance(k, tuple) and all(isinstance(q, (list, np.ndarray)) for q in k):
                v = np.empty((1, len(ix[0])), dtype=object)
                v[0, :] = self.a[ix[0], ix[1]]
                return Sp(v)
            return Sp(self.a[np.ix_(*ix)], self.mask[np.ix_(*ix)])
        return Sp(self.a[ix[0], ix[1]], self.mask[ix[0], ix[1]])

    def __setitem__(self, k, v):
        scalar, ix = self._key(k)
        v = v.a if isinstance(v, Sp) else v
        if all(np.ndim(i) == 1 for i in ix) and not (isinstance(k, tuple) and all(isinstance(q, (list, np.ndarray)) for q in k)):
            ix = np.ix_(*ix)
        self.a[tuple(ix)] = v
        self.mask[tuple(ix)] = True

    def __len__(self):
        raise TypeError('sparse matrix length is ambiguous')

    # ---- arithmetic
    def _prune(self, a, mask):
        # sums drop entries that are zero; whether an entry with symbolic value is, is only decided when someone asks
        m = mask.copy()
        for ix in np.ndindex(*a.shape):
            if m[ix] and _iszero(a[ix]):
                m[ix] = False
        r = Sp(a, m)
        r.pend = m.copy()
        return r

    def __add__(self, o):
        if isinstance(o, Sp):
            if o.shape != self.shape:
                raise ValueError('inconsistent shapes')
            return self._prune(self.a + o.a, self.mask | o.mask)
        if _iszero(o) if np.ndim(o) == 0 else False:
            return self.copy()
        return self.a + o

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        if isinstance(o, Sp):
            if o.shape != self.shape:
                raise ValueError('inconsistent shapes')
            return self._prune(self.a - o.a, self.mask | o.mask)
        return self.a - o

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return Sp(-self.a, self.mask.copy())

    def _scale(self, c):
        return Sp(self.a * c, self.mask.copy())

    def __mul__(self, o):
        if np.ndim(o) == 0 and not isinstance(o, Sp):
            return self._scale(o)
        return self.dot(o)

    def __rmul__(self, o):
        if np.ndim(o) == 0 and not isinstance(o, Sp):
            return self._scale(o)
        return self.T.dot(np.asarray(o).T).T

    def __matmul__(self, o):
        return self.dot(o)

    def __rmatmul__(self, o):
        return self.T.dot(np.asarray(o).T).T

    def __truediv__(self, c):
        return Sp(self.a / c, self.mask.copy())

    def __abs__(self):
        return Sp(np.array([[abs(v) if not isinstance(v, SymReal) else _Abs(v) for v in r] for r in self.a], dtype=object).reshape(self.a.shape),
                  self.mask.copy())

    def _extreme(self, sign):
        # the largest entry, as a fresh value with the defining property (entries of abs() stay unevaluated)
        vals = [v for v in self.a.ravel() if not _iszero(v)] if self.a.size else []
        if all(not isinstance(v, (SymReal, _Abs)) for v in self.a.ravel()):
            w = [float(v) for v in self.a.ravel()]
            return max(w) if sign > 0 else min(w)
        if sign < 0:
            raise Unsupported('minimum of a sparse matrix')
        ctx = S.CUR
        m = SymReal(S.Rat(S.Poly.var(ctx.fresh('max'))))
        hit = None
        full = len(vals) == self.a.size
        for v in vals + ([] if full else [0]):
            if isinstance(v, _Abs):
                ctx.assume((m >= v.v) & (m >= -v.v))
                e = (m == v.v) | (m == -v.v)
            else:
                ctx.assume(m >= v)
                e = m == v
            hit = e if hit is None else hit | e
        ctx.assume(hit)
        return m

    def max(self, axis=None):
        return self._extreme(1)

    def min(self, axis=None):
        return self._extreme(-1)

    def multiply(self, o):
        b = o.a if isinstance(o, Sp) else np.asarray(o)
        return Sp(self.a * b, self.mask & (o.mask if isinstance(o, Sp) else True))

    def power(self, n):
        return Sp(self.a ** n, self.mask.copy())

    def dot(self, o):
        if isinstance(o, Sp):
            return Sp(mm(self.a, o.a), (self.mask.astype(int) @ o.mask.astype(int)) > 0)
        if np.ndim(o) == 0:
            return self._scale(o)
        o = np.asarray(o)
        return mm(self.a, o)

    def sum(self, axis=None):
        if axis is None:
            t = 0
            for v in self.a.ravel():
                t = t + v
            return t
        r = np.empty(self.shape[1 - axis % 2], dtype=object)
        for i in range(len(r)):
            t = 0
            for v in (self.a[:, i] if axis % 2 == 0 else self.a[i, :]):
                t = t + v
            r[i] = t
        return r.reshape((1, -1) if axis % 2 == 0 else (-1, 1))

    def __repr__(self):
        return 'Sp(%r)' % (self.a,)


class _Abs(object):
    """|v|, not split into cases"""
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return self.v == o

    __hash__ = None


def cholmod(A):
    """contract of sksparse.cholmod.cholesky: symmetric matrices only"""
    ctx = S.CUR
    a = A.a if isinstance(A, Sp) else np.asarray(A)
    for i in range(len(a)):
        for j in range(i):
            ctx.prove_eq('cholesky-of-a-symmetric-matrix', a[i, j], a[j, i])
    return factorized(A)


def _zero_now(v):
    return bool(v == 0)


def mm(a, b):
    """matrix product over object arrays, skipping structural zeros"""
    if b.ndim == 1:
        return mm(a, b[:, None])[:, 0]
    if a.shape[1] != b.shape[0]:
        raise ValueError('dimension mismatch')
    out = np.empty((a.shape[0], b.shape[1]), dtype=object)
    nz = [[k for k in range(a.shape[1]) if not _iszero(a[i, k])] for i in range(a.shape[0])]
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            t = 0.0
            for k in nz[i]:
                if not _iszero(b[k, j]):
                    t = t + a[i, k] * b[k, j]
            out[i, j] = t
    return out


def _build(fmt):
    def make(arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, Sp):
            return arg._as(fmt)
        if _sp.issparse(arg):
            return Sp(_obj(arg.toarray()), None, fmt)
        if isinstance(arg, tuple) and len(arg) == 2 and not isinstance(arg[1], tuple) and not isinstance(arg[1], list) and np.ndim(arg[0]) == 0:
            return Sp(_obj(np.zeros(arg)), None, fmt)
        if isinstance(arg, tuple) and len(arg) == 2:
            v, (r, c) = arg
            r, c = [int(i) for i in r], [int(i) for i in c]
            if shape is None:
                shape = (max(r) + 1, max(c) + 1)
            a, m = _obj(np.zeros(shape)), np.zeros(shape, dtype=bool)
            for x, i, j in zip(v, r, c):
                if not (0 <= i < shape[0] and 0 <= j < shape[1]):
                    raise ValueError('index exceeds matrix dimension')
                a[i, j] = a[i, j] + x if m[i, j] else x
                m[i, j] = True
            return Sp(a, m, fmt)
        if isinstance(arg, tuple):
            raise Unsupported('sparse constructor from %d-tuple' % len(arg))
        a = np.asarray(arg)
        if a.ndim == 1:
            a = a[None, :]
        return Sp(_obj(a), None, fmt)
    return make


def dia_matrix(arg, shape=None, dtype=None, copy=False):
    if isinstance(arg, tuple) and shape is not None:
        d, off = arg
        d = np.atleast_2d(np.asarray(d, dtype=object))
        a = _obj(np.zeros(shape))
        for row, k in zip(d, np.atleast_1d(off)):
            for j in range(shape[1]):
                i = j - int(k)
                if 0 <= i < shape[0] and j < len(row):
                    a[i, j] = row[j]
        return Sp(a, None, 'dia')
    return _build('dia')(arg, shape)


def diags(d, offsets=0, shape=None, format=None, dtype=None):
    d = [d] if np.ndim(d[0]) == 0 else d
    offs = np.atleast_1d(offsets)
    n = max(len(v) + abs(int(k)) for v, k in zip(d, offs)) if shape is None else None
    a = _obj(np.zeros(shape or (n, n)))
    for v, k in zip(d, offs):
        k = int(k)
        length = min(a.shape[0] + min(k, 0), a.shape[1] - max(k, 0))
        if len(v) == 1 and shape is not None:
            v = list(v) * length         # scalar diagonals are broadcast
        if len(v) != length:
            raise ValueError('diagonal length does not agree with the matrix size')
        for q in range(length):
            a[q + max(0, -k), q + max(0, k)] = v[q]
    return Sp(a)


def eye(n, m=None, k=0, dtype=None, format=None):
    return Sp(_obj(np.eye(n, m, k)))


def issparse(x):
    return isinstance(x, Sp) or _sp.issparse(x)


def hstack(blocks, format=None, dtype=None):
    return Sp(np.concatenate([b.a if isinstance(b, Sp) else _obj(np.asarray(b.toarray() if _sp.issparse(b) else b)) for b in blocks], axis=1))


def vstack(blocks, format=None, dtype=None):
    return Sp(np.concatenate([b.a if isinstance(b, Sp) else _obj(np.asarray(b.toarray() if _sp.issparse(b) else b)) for b in blocks], axis=0))


def bmat(rows, format=None, dtype=None):
    out = []
    for r in rows:
        h = [b for b in r if b is not None][0].shape[0]
        out.append((r, h))
    widths = [[r[j] for r in rows if r[j] is not None][0].shape[1] for j in range(len(rows[0]))]
    return vstack([hstack([Sp(_obj(np.zeros((h, w)))) if b is None else b for b, w in zip(r, widths)]) for r, h in out])


def solution(ctx, A, b, name):
    """assumed contract of a linear solver: some x with A x = b"""
    ctx.trust('linear solver of scipy: returns x with A x = b')
    if b.ndim == 1:
        return solution(ctx, A, b[:, None], name)[:, 0]
    n, m = A.shape[1], b.shape[1]
    k = getattr(ctx, '_solves', 0)
    ctx._solves = k + 1
    x = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            x[i, j] = SymReal(S.Rat(S.Poly.var(ctx.fresh('%s%d_%d_%d' % (name, k, i, j)))))
    settled, found = set(), True
    while found:
        # an equation with one unknown left and a number as its coefficient settles that unknown
        found = False
        for i in range(A.shape[0]):
            cols = [q for q in range(n) if not _nil(A[i, q])]
            new = [q for q in cols if q not in settled]
            if len(new) == 1 and isinstance(_const(A[i, new[0]]), Fraction):
                q = new[0]
                a = _const(A[i, q])
                for j in range(m):
                    x[q, j] = (b[i, j] - sum((A[i, k] * x[k, j] for k in cols if k != q), 0)) * (1 / a)
                settled.add(q)
                found = True
    r = mm(A, x)
    for i in range(A.shape[0]):
        for j in range(m):
            ctx.assume(r[i, j] == b[i, j])
    return x


def _const(v):
    """the value of a number, None for anything else"""
    if isinstance(v, SymReal):
        return v.r.n.const_value() if v.r.is_const() else None
    return snap(float(v)) if np.isfinite(v) else None


def _nil(v):
    return _const(v) == 0


def spsolve(A, b, permc_spec=None, use_umfpack=True):
    ctx = S.CUR
    a = A.a if isinstance(A, Sp) else np.asarray(A)
    isp = isinstance(b, Sp)
    v = b.a if isp else np.asarray(b)
    hook = getattr(ctx, 'solve_hook', None)
    if hook:
        hook(a, v)
    vec = v.ndim == 1 or v.shape[1] == 1
    x = solution(ctx, a, v if v.ndim == 2 else v[:, None], 'x')
    if vec:
        return x[:, 0]
    return Sp(x) if isp else x


def factorized(A):
    ctx = S.CUR
    a = A.a.copy()

    def solve(b):
        hook = getattr(ctx, 'solve_hook', None)
        if hook:
            hook(a, b)
        return solution(ctx, a, np.asarray(b), 'x')
    return solve


class _LU(object):
    def __init__(self, A):
        self.f = factorized(A)

    def solve(self, b, trans='N'):
        if trans != 'N':
            raise Unsupported('splu transposed solve')
        return self.f(b)


def make():
    m = types.ModuleType('sparse_over_the_reals')
    for f in ('csr', 'csc', 'coo', 'lil', 'dok', 'bsr'):
        setattr(m, f + '_matrix', _build(f))
        setattr(m, f + '_array', _build(f))
    for k, v in dict(dia_matrix=dia_matrix, dia_array=dia_matrix, diags=diags, eye=eye, identity=eye, issparse=issparse, isspmatrix=issparse,
                     hstack=hstack, vstack=vstack, bmat=bmat, spmatrix=Sp, eye_array=eye, diags_array=diags).items():
        setattr(m, k, v)
    la = types.ModuleType('sparse_linalg_over_the_reals')
    la.spsolve, la.factorized, la.splu = spsolve, factorized, _LU

    def ga(n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('scipy.sparse.%s' % n)
    m.__getattr__ = ga
    la.__getattr__ = ga
    m.linalg = la
    return m
