"""
The numpy the real code sees during symbolic runs: stock numpy, except that
floating-point arrays hold exact reals (dtype object) and the few routines that
refuse object arrays are replaced by their definitions over the reals.
"""
import types
import numpy as np
from . import sym as S
from .sym import SymReal, SymBool, Unsupported

_F = (float, np.float64, np.float32, np.double, 'float', 'd', 'f8')


def _isf(dt):
    if dt is None or dt is object:
        return True
    if isinstance(dt, np.dtype):
        return dt.kind in 'fO'
    try:
        return dt in _F
    except Exception:
        return False


def obj(a):
    """float ndarray -> object ndarray; everything else unchanged"""
    if isinstance(a, np.ndarray) and a.dtype.kind == 'f':
        return a.astype(object)
    return a


def _map(f, *arrs):
    arrs = np.broadcast_arrays(*[np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a for a in arrs])
    out = np.empty(arrs[0].shape, dtype=object)
    for ix in np.ndindex(*out.shape):
        out[ix] = f(*[a[ix] for a in arrs])
    return out if out.shape else out[()]


def _isobj(*xs):
    for x in xs:
        if isinstance(x, (SymReal, SymBool)):
            return True
        if isinstance(x, np.ndarray) and x.dtype == object:
            return True
        if isinstance(x, (list, tuple)) and _isobj(*x):
            return True
    return False


def lift(x):
    return SymReal.lift(x)


def zeros(shape, dtype=None, order='C', **k):
    if not _isf(dtype):
        return np.zeros(shape, dtype)
    a = np.empty(shape, dtype=object)
    a.fill(0.0)
    return a


def ones(shape, dtype=None, order='C', **k):
    if not _isf(dtype):
        return np.ones(shape, dtype)
    a = np.empty(shape, dtype=object)
    a.fill(1.0)
    return a


def full(shape, v, dtype=None, **k):
    if not _isf(dtype) or (dtype is None and isinstance(v, (int, bool, np.integer)) and not isinstance(v, float)):
        return np.full(shape, v, dtype)
    a = np.empty(shape, dtype=object)
    a.fill(v)
    return a


def empty(shape, dtype=None, order='C', **k):
    if not _isf(dtype):
        return np.empty(shape, dtype)
    a = np.empty(shape, dtype=object)
    for ix in np.ndindex(*a.shape):
        a[ix] = S.CUR.real(S.CUR.fresh('uninitialised')) if S.CUR is not None and S.CUR.sym else 0.0
    return a


def eye(n, m=None, k=0, dtype=None, **kw):
    if not _isf(dtype):
        return np.eye(n, m, k, dtype)
    return np.eye(n, m, k).astype(object)


def identity(n, dtype=None):
    return eye(n, dtype=dtype)


def zeros_like(a, dtype=None, **k):
    a = np.asarray(a)
    return np.zeros_like(a, dtype) if (dtype is not None and not _isf(dtype)) or (dtype is None and a.dtype.kind in 'iub') else zeros(a.shape)


def ones_like(a, dtype=None, **k):
    a = np.asarray(a)
    return np.ones_like(a, dtype) if (dtype is not None and not _isf(dtype)) or (dtype is None and a.dtype.kind in 'iub') else ones(a.shape)


def empty_like(a, dtype=None, **k):
    a = np.asarray(a)
    return np.empty_like(a, dtype) if (dtype is not None and not _isf(dtype)) or (dtype is None and a.dtype.kind in 'iub') else empty(a.shape)


def array(x, dtype=None, copy=True, ndmin=0, **k):
    if dtype is not None and not _isf(dtype):
        if _isobj(x):
            return np.array(np.array(x, dtype=object), dtype=dtype, ndmin=ndmin)
        return np.array(x, dtype=dtype, ndmin=ndmin)
    if _isobj(x):
        return np.array(x, dtype=object, ndmin=ndmin)
    a = np.array(x, ndmin=ndmin)
    if dtype is not None and a.dtype.kind in 'iub':
        a = a.astype(float)
    return obj(a)


def asarray(x, dtype=None, **k):
    if isinstance(x, np.ndarray) and (dtype is None or (_isf(dtype) and x.dtype == object)):
        return x if x.dtype.kind != 'f' else obj(x)
    return array(x, dtype)


def linspace(a, b, n=50, endpoint=True, **k):
    if not _isobj(a, b):
        return obj(np.linspace(a, b, n, endpoint=endpoint, **k))
    n = int(n)
    out = np.empty(n, dtype=object)
    m = (n - 1) if endpoint else n
    for i in range(n):
        out[i] = a + (b - a) * S.Fraction(i, m) if m else a
    if endpoint and n > 1:
        out[n - 1] = lift(b)
    return out


def _unary(name, f):
    real = getattr(np, name)

    def g(x, *a, **k):
        if _isobj(x):
            return _map(f, x)
        r = real(x, *a, **k)
        return obj(r)
    g.__name__ = name
    return g


def _sqrt1(v):
    return lift(v).sqrt()


def _exp1(v):
    return lift(v).exp()


def _abs1(v):
    return abs(lift(v))


def _sign1(v):
    v = lift(v)
    return 1 if v > 0 else (-1 if v < 0 else 0)


def _uf(name):
    return lambda v: S.CUR.ufun(name, [v])


def isnan(x, *a, **k):
    if _isobj(x):
        x = np.asarray(x, dtype=object)
        out = np.zeros(x.shape, dtype=bool)
        for ix in np.ndindex(*x.shape):
            v = x[ix]
            out[ix] = isinstance(v, float) and v != v
        return out if out.shape else bool(out[()])
    return np.isnan(x, *a, **k)


def isfinite(x, *a, **k):
    if _isobj(x):
        return ~np.asarray(isnan(x))
    return np.isfinite(x, *a, **k)


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if not _isobj(a, b):
        return np.isclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol, atol)
    def close(p, q):
        d = lift(p) - lift(q)
        return d.r.is_zero() or bool(abs(d) <= atol + rtol * abs(lift(q)))
    r = _map(close, a, b)
    return r.astype(bool) if isinstance(r, np.ndarray) else r


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return bool(np.all(isclose(a, b, rtol, atol)))


def _truth(x):
    x = np.asarray(x, dtype=object)
    out = np.zeros(x.shape, dtype=bool)
    for ix in np.ndindex(*x.shape):
        out[ix] = bool(x[ix])
    return out


def any_(x, axis=None, **k):
    return np.any(_truth(x) if _isobj(x) else x, axis=axis, **k)


def all_(x, axis=None, **k):
    return np.all(_truth(x) if _isobj(x) else x, axis=axis, **k)


def _logic(name):
    real = getattr(np, name)

    def g(*xs, **k):
        return real(*[_truth(x) if _isobj(x) else x for x in xs], **k)
    return g


def where(c, *ab):
    if _isobj(c):
        c = _truth(c)
    if ab and _isobj(*ab):
        return np.where(c, *[np.asarray(v, dtype=object) for v in ab])
    return np.where(c, *ab)


def nonzero(x):
    return np.nonzero(_truth(x) if _isobj(x) else x)


def prod(x, axis=None, **k):
    return np.prod(np.asarray(x, dtype=object) if _isobj(x) else x, axis=axis, **k)


def sum_(x, axis=None, **k):
    if _isobj(x):
        return np.sum(np.asarray(x, dtype=object), axis=axis, **k)
    return np.sum(x, axis=axis, **k)


def mean(x, axis=None, **k):
    if _isobj(x):
        x = np.asarray(x, dtype=object)
        n = x.size if axis is None else x.shape[axis]
        return np.sum(x, axis=axis) / n
    return np.mean(x, axis=axis, **k)


def maximum(a, b, **k):
    if _isobj(a, b):
        return _map(lambda p, q: p if lift(p) >= q else q, a, b)
    return np.maximum(a, b, **k)


def minimum(a, b, **k):
    if _isobj(a, b):
        return _map(lambda p, q: p if lift(p) <= q else q, a, b)
    return np.minimum(a, b, **k)


def hypot(a, b):
    return _map(lambda p, q: (lift(p) * p + lift(q) * q).sqrt(), a, b)


def clip(x, lo, hi, **k):
    if _isobj(x, lo, hi):
        return minimum(maximum(x, lo), hi)
    return np.clip(x, lo, hi, **k)


def power(a, b):
    if _isobj(a, b):
        return _map(lambda p, q: lift(p) ** q, a, b)
    return np.power(a, b)


def norm(x, ord=None, axis=None, **k):
    if not _isobj(x):
        return np.linalg.norm(x, ord, axis)
    x = np.asarray(x, dtype=object)
    if ord not in (None, 2, 'fro') or (ord == 2 and x.ndim == 2 and axis is None):
        raise Unsupported('norm of this order')
    s = np.sum(x * x, axis=axis)
    return sqrt(s)


def det(A):
    if not _isobj(A):
        return np.linalg.det(A)
    A = np.asarray(A, dtype=object)
    if A.ndim > 2:
        out = np.empty(A.shape[:-2], dtype=object)
        for ix in np.ndindex(*out.shape):
            out[ix] = det(A[ix])
        return out
    n = A.shape[0]
    if n == 1:
        return lift(A[0, 0])
    if n == 2:
        return lift(A[0, 0]) * A[1, 1] - lift(A[0, 1]) * A[1, 0]
    return sum((-1) ** j * lift(A[0, j]) * det(np.delete(np.delete(A, 0, 0), j, 1)) for j in range(n))


def inv(A):
    if not _isobj(A):
        return np.linalg.inv(A)
    A = np.asarray(A, dtype=object)
    if A.ndim > 2:
        out = np.empty(A.shape, dtype=object)
        for ix in np.ndindex(*A.shape[:-2]):
            out[ix] = inv(A[ix])
        return out
    n = A.shape[0]
    d = det(A)
    out = np.empty((n, n), dtype=object)
    if n == 1:
        out[0, 0] = 1 / d
        return out
    for i in range(n):
        for j in range(n):
            out[j, i] = (-1) ** (i + j) * det(np.delete(np.delete(A, i, 0), j, 1)) / d
    return out


def solve(A, b, **k):
    if not _isobj(A, b):
        return np.linalg.solve(A, b)
    return np.dot(inv(A), b)


def eigvals(A):
    if not _isobj(A):
        return np.linalg.eigvals(A)
    A = np.asarray(A, dtype=object)
    if A.shape != (2, 2):
        raise Unsupported('eigenvalues of a symbolic matrix larger than 2x2')
    a, b, c, d = [lift(v) for v in A.reshape(-1)]
    S.CUR.trust('numpy.linalg.eigvals of a 2x2 matrix with real spectrum: roots of its characteristic polynomial')
    r = ((a - d) * (a - d) + 4 * b * c).sqrt()
    return np.array([(a + d + r) / 2, (a + d - r) / 2], dtype=object)


def argsort(x, axis=-1, **k):
    if _isobj(x):
        x = np.asarray(x, dtype=object)
        k.pop('kind', None)
        return np.argsort(x, axis=axis, kind='stable')
    return np.argsort(x, axis=axis, **k)


def bincount(x, weights=None, minlength=0):
    if weights is None or not _isobj(weights):
        return np.bincount(x, weights, minlength)
    x = np.asarray(x, dtype=int)
    out = np.zeros(max([minlength] + [int(i) + 1 for i in x]), dtype=object)
    for i, v in zip(x, np.asarray(weights, dtype=object)):
        out[i] = out[i] + v
    return out


_sqrt0 = _unary('sqrt', _sqrt1)


def sqrt(x, *a, **k):
    # constants stay machine numbers unless the contract asks for exact algebraic constants
    if S.CUR is not None and S.CUR.sym and S.CUR.opts.get('exact_sqrt') and not _isobj(x):
        return _map(_sqrt1, np.asarray(x, dtype=object))
    return _sqrt0(x, *a, **k)


def make(extra=None):
    m = types.ModuleType('numpy_over_the_reals')
    table = dict(zeros=zeros, ones=ones, full=full, empty=empty, eye=eye, identity=identity,
                 zeros_like=zeros_like, ones_like=ones_like, empty_like=empty_like, array=array,
                 asarray=asarray, asanyarray=asarray, linspace=linspace, sqrt=sqrt, exp=_unary('exp', _exp1),
                 abs=_unary('abs', _abs1), absolute=_unary('absolute', _abs1), fabs=_unary('abs', _abs1),
                 sign=_unary('sign', _sign1), log=_unary('log', _uf('log')), sin=_unary('sin', _uf('sin')),
                 cos=_unary('cos', _uf('cos')), square=_unary('square', lambda v: lift(v) * v),
                 isnan=isnan, isfinite=isfinite, isclose=isclose, allclose=allclose, any=any_, all=all_,
                 logical_and=_logic('logical_and'), logical_or=_logic('logical_or'),
                 logical_not=_logic('logical_not'), logical_xor=_logic('logical_xor'), where=where,
                 nonzero=nonzero, prod=prod, sum=sum_, mean=mean, maximum=maximum, minimum=minimum,
                 hypot=hypot, clip=clip, power=power, argsort=argsort, bincount=bincount, float64=_FloatType)
    table.update(extra or {})
    for k, v in table.items():
        setattr(m, k, v)
    la = types.ModuleType('linalg_over_the_reals')
    for k, v in dict(norm=norm, det=det, inv=inv, solve=solve, eigvals=eigvals).items():
        setattr(la, k, v)
    la.__getattr__ = lambda n: getattr(np.linalg, n)
    m.linalg = la
    m.__getattr__ = lambda n: getattr(np, n)
    return m


class _FM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.float64, SymReal))


class _FloatType(metaclass=_FM):
    def __new__(cls, x=0.0):
        return x if isinstance(x, SymReal) else np.float64(x)
