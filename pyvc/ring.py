"""
Exact multivariate polynomials and rational functions over Q.

This is the term language of pyvc's real numbers and, at the same time, one of
its two proof back ends: an equation between two rational functions whose
difference normalises to the zero polynomial is valid, and needs no solver.
"""
from fractions import Fraction
import math

_names = []          # variable index -> name
_index = {}          # name -> index


def reset_vars():
    del _names[:]
    _index.clear()


def var_index(name):
    i = _index.get(name)
    if i is None:
        i = len(_names)
        _index[name] = i
        _names.append(name)
    return i


def var_name(i):
    return _names[i]


def snap(x):
    """
    The rational a float stands for.  A float within 4 ulp of a rational with
    denominator <= 60000 is read as that rational (so that 1/3 computed in
    Python means one third); any other float is read as its exact binary value.
    """
    f = Fraction(x)
    if f.denominator == 1:
        return f
    g = f.limit_denominator(60000)
    if abs(float(g) - x) <= 4 * math.ulp(x):
        return g
    return f


def _mmul(a, b):
    # product of two monomials, tuples of (var, exp) sorted by var
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


class Poly(object):
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c != 0 else {})

    @staticmethod
    def var(name):
        return Poly({((var_index(name), 1),): Fraction(1)})

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), Fraction(0))

    def key(self):
        if self._h is None:
            self._h = frozenset(self.t.items())
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __add__(self, o):
        if len(self.t) < len(o.t):
            self, o = o, self
        r = dict(self.t)
        for m, c in o.t.items():
            s = r.get(m, 0) + c
            if s == 0:
                r.pop(m, None)
            else:
                r[m] = s
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return Poly({})
        if k == 1:
            return self
        return Poly({m: c * k for m, c in self.t.items()})

    def __mul__(self, o):
        if self.is_const():
            return o.scale(self.const_value())
        if o.is_const():
            return self.scale(o.const_value())
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mmul(m1, m2)
                r[m] = r.get(m, 0) + c1 * c2
        return Poly({m: c for m, c in r.items() if c != 0})

    def __pow__(self, n):
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def degree(self):
        return max([sum(e for _, e in m) for m in self.t] or [0])

    def vars(self):
        return {v for m in self.t for v, _ in m}

    def diff(self, v):
        r = {}
        for m, c in self.t.items():
            d = dict(m)
            e = d.get(v, 0)
            if e:
                if e == 1:
                    del d[v]
                else:
                    d[v] = e - 1
                k = tuple(sorted(d.items()))
                r[k] = r.get(k, 0) + c * e
        return Poly({m: c for m, c in r.items() if c != 0})

    def subs(self, env):
        """Replace variables (by index) by Polys."""
        r = ZERO
        for m, c in self.t.items():
            p = Poly.const(c)
            for v, e in m:
                p = p * (env[v] ** e if v in env else Poly({((v, e),): Fraction(1)}))
            r = r + p
        return r

    def eval(self, env):
        s = 0
        for m, c in self.t.items():
            x = c
            for v, e in m:
                x = x * env[v] ** e
            s = s + x
        return s

    def lead(self):
        m = max(self.t)
        return m, self.t[m]

    def primitive(self):
        """(unit, monic-in-lead-coefficient poly)"""
        if not self.t:
            return Fraction(1), self
        m, c = self.lead()
        return c, self.scale(1 / c)

    def divexact(self, o):
        """quotient if o divides self exactly (simple multivariate division), else None"""
        if self.is_zero():
            return ZERO
        if o.is_const():
            return self.scale(1 / o.const_value())
        vs = sorted(self.vars() | o.vars())

        def k(m):
            d = dict(m)
            return tuple(d.get(v, 0) for v in vs)
        lo = max(o.t, key=k)
        klo = k(lo)
        co = o.t[lo]
        rem, q = dict(self.t), {}
        n = 0
        while rem:
            n += 1
            if n > 400:
                return None
            lm = max(rem, key=k)
            kl = k(lm)
            if any(a < b for a, b in zip(kl, klo)):
                return None
            m = tuple((v, a - b) for v, a, b in zip(vs, kl, klo) if a != b)
            c = rem[lm] / co
            q[m] = c
            for mo, cc in o.t.items():
                mm = _mmul(m, mo)
                s = rem.get(mm, 0) - c * cc
                if s == 0:
                    rem.pop(mm, None)
                else:
                    rem[mm] = s
        return Poly(q)

    def __str__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items(), reverse=True):
            f = '*'.join(var_name(v) + ('^%d' % e if e > 1 else '') for v, e in m)
            out.append((str(c) + ('*' + f if f else '')) if c != 1 or not f else f)
        s = ' + '.join(out)
        return s if len(s) < 300 else s[:300] + '...'


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


class Rat(object):
    """num / prod(f**e for f,e in den): den is a dict of monic Polys to powers."""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}

    @staticmethod
    def of(x):
        if isinstance(x, Rat):
            return x
        if isinstance(x, Poly):
            return Rat(x)
        if isinstance(x, float):
            return Rat(Poly.const(snap(x)))
        return Rat(Poly.const(Fraction(x)))

    def is_const(self):
        return not self.d and self.n.is_const()

    def is_zero(self):
        return self.n.is_zero()

    def denom(self):
        p = ONE
        for f, e in self.d.items():
            p = p * f ** e
        return p

    @staticmethod
    def _over(d, target):
        p = ONE
        for f, e in target.items():
            k = e - d.get(f, 0)
            if k:
                p = p * f ** k
        return p

    def __add__(self, o):
        if self.d == o.d:
            return Rat(self.n + o.n, self.d)._reduce() if self.d else Rat(self.n + o.n)
        t = dict(self.d)
        for f, e in o.d.items():
            t[f] = max(t.get(f, 0), e)
        return Rat(self.n * Rat._over(self.d, t) + o.n * Rat._over(o.d, t), t)._reduce()

    def __neg__(self):
        return Rat(-self.n, self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if not self.d and not o.d:
            return Rat(self.n * o.n)
        t = dict(self.d)
        for f, e in o.d.items():
            t[f] = t.get(f, 0) + e
        return Rat(self.n * o.n, t)._reduce()

    def inv(self):
        u, f = self.n.primitive()
        num = self.denom().scale(1 / u)
        if f.is_const():
            return Rat(num)
        return Rat(num, {f: 1})

    def __truediv__(self, o):
        if o.is_const():
            return Rat(self.n.scale(1 / o.n.const_value()), self.d)
        return self * o.inv()

    def _reduce(self):
        if not self.d:
            return self
        if self.n.is_zero():
            return Rat(ZERO)
        n, d = self.n, dict(self.d)
        for f in list(d):
            while d[f] > 0:
                q = n.divexact(f)
                if q is None:
                    break
                n = q
                d[f] -= 1
            if d[f] == 0:
                del d[f]
        return Rat(n, d)

    def diff(self, v):
        D = self.denom()
        num = self.n.diff(v) * D - self.n * D.diff(v)
        return (Rat(num) / Rat(D)) / Rat(D) if not D.is_const() else Rat(num).__truediv__(Rat(D * D))

    def vars(self):
        s = set(self.n.vars())
        for f in self.d:
            s |= f.vars()
        return s

    def __str__(self):
        if not self.d:
            return str(self.n)
        return '(%s)/(%s)' % (self.n, ' * '.join('(%s)^%d' % (f, e) for f, e in self.d.items()))
