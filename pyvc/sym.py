"""
Symbolic values and the path explorer.

A harness is a Python function h(ctx).  It builds a pre-state (ctx.real,
ctx.integer, ctx.boolean, ctx.choice, ctx.assume: the requires clause), calls
the real code, and states the ensures clauses with ctx.prove / ctx.prove_eq.

The same harness runs in two modes:
  sym       values are symbolic; every branch of the real code that depends on
            them is explored; every ctx.prove is an obligation that must be
            valid under the path condition (for all reals, not for samples)
  concrete  values are floats taken from a model or a seeded generator and the
            real code runs on stock numpy; ctx.prove is evaluated with a
            tolerance.  Used to replay counter-models, to search for failing
            inputs and to cross-check the symbolic semantics against CPython.
"""
import json
import numbers
import os
import random
import select
import signal
import sys
import time
import traceback
from fractions import Fraction
import math
import numpy as np
import z3

from .ring import Poly, Rat, ONE, ZERO, snap, var_index, var_name, reset_vars


class Unsupported(Exception):
    """the construct is outside the verifier's reach"""


class PathEnd(BaseException):
    """abandon this path silently (infeasible assumption)"""


class Reject(BaseException):
    """concrete mode: the generated input violates the precondition"""


class PathLimit(Exception):
    pass


CUR = None     # current context
GUARD = False  # run every query in a child process with a hard time limit


# ----------------------------------------------------------------------------
# formulas
# ----------------------------------------------------------------------------
class SymBool(object):
    __slots__ = ('k', 'a')
    # k: 'lit' (bool), 'atom' (op, Poly) op in '==','>','>=' (poly op 0), 'var' name,
    #    'and','or','not'

    def __init__(self, k, a):
        self.k = k
        self.a = a

    def z3(self, cx):
        k, a = self.k, self.a
        if k == 'lit':
            return z3.BoolVal(a)
        if k == 'var':
            return z3.Bool(a)
        if k == 'atom':
            op, p = a
            e = cx.poly_z3(p)
            return e == 0 if op == '==' else (e > 0 if op == '>' else e >= 0)
        if k == 'not':
            return z3.Not(a.z3(cx))
        f = z3.And if k == 'and' else z3.Or
        return f([x.z3(cx) for x in a])

    def __bool__(self):
        return CUR.branch(self)

    def __and__(self, o):
        return conj([self, o])

    def __rand__(self, o):
        return conj([o, self])

    def __or__(self, o):
        return disj([self, o])

    def __ror__(self, o):
        return disj([o, self])

    def __invert__(self):
        return neg(self)

    def __xor__(self, o):
        o = sbool(o)
        return disj([conj([self, neg(o)]), conj([neg(self), o])])

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool)):
            return neg(self ^ sbool(o))
        if isinstance(o, numbers.Real):
            return bool(self) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return NotImplemented if r is NotImplemented else neg(r)

    def __hash__(self):
        return hash(self.key())

    def key(self):
        k, a = self.k, self.a
        if k in ('lit', 'var'):
            return (k, a)
        if k == 'atom':
            return (k, a[0], a[1].key())
        if k == 'not':
            return (k, a.key())
        return (k, tuple(x.key() for x in a))

    # numpy calls these on object arrays
    def logical_not(self):
        return neg(self)

    def logical_and(self, o):
        return conj([self, o])

    def logical_or(self, o):
        return disj([self, o])

    def __mul__(self, o):
        return (1 if self else 0) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return (1 if self else 0) + o
    __radd__ = __add__

    def __repr__(self):
        k, a = self.k, self.a
        if k == 'atom':
            return '(%s %s 0)' % (a[1], a[0])
        if k in ('and', 'or'):
            return '(' + (' %s ' % k).join(map(repr, a)) + ')'
        return '%s' % (a,) if k != 'not' else 'not %r' % (a,)


TRUE = SymBool('lit', True)
FALSE = SymBool('lit', False)


def sbool(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymReal):
        return neg(x == 0)
    return TRUE if x else FALSE


def neg(x):
    if not isinstance(x, SymBool):
        return not x
    if x.k == 'lit':
        return FALSE if x.a else TRUE
    if x.k == 'not':
        return x.a
    if x.k == 'atom' and x.a[0] != '==':
        op, p = x.a
        return SymBool('atom', ('>=' if op == '>' else '>', -p))
    return SymBool('not', x)


def conj(xs):
    out = []
    for x in xs:
        x = sbool(x)
        if x.k == 'lit':
            if not x.a:
                return FALSE
            continue
        if x.k == 'and':
            out.extend(x.a)
        else:
            out.append(x)
    return TRUE if not out else (out[0] if len(out) == 1 else SymBool('and', out))


def disj(xs):
    out = []
    for x in xs:
        x = sbool(x)
        if x.k == 'lit':
            if x.a:
                return TRUE
            continue
        if x.k == 'or':
            out.extend(x.a)
        else:
            out.append(x)
    return FALSE if not out else (out[0] if len(out) == 1 else SymBool('or', out))


def implies(a, b):
    return disj([neg(sbool(a)), b])


def _strip(op, p):
    """divide out factors whose sign the path condition fixes"""
    if CUR is None or not CUR.sym or p.is_const():
        return op, p
    vs = p.vars()
    for f, fv, pos in CUR.factors:
        if fv <= vs and (pos or op == '=='):
            while True:
                q = p.divexact(f)
                if q is None:
                    break
                p = q
                if p.is_const():
                    return op, p
            vs = p.vars()
    return op, p


def _atom(op, p, raw=False):
    if not raw:
        op, p = _strip(op, p)
    if p.is_const():
        c = p.const_value()
        r = c == 0 if op == '==' else (c > 0 if op == '>' else c >= 0)
        return TRUE if r else FALSE
    c, q = p.primitive()
    if op == '==':
        return SymBool('atom', (op, q))
    return SymBool('atom', (op, q if c > 0 else -q))


def cmp0(op, r):
    """formula  r op 0  for a Rat r"""
    if op == '==':
        return _atom('==', r.n)
    p = r.n
    for f, e in r.d.items():
        if e % 2:
            s = CUR.sign_of(f)
            if s == 0:
                p = p * f
            elif s < 0:
                p = -p
    return _atom(op, p)


# ----------------------------------------------------------------------------
# reals
# ----------------------------------------------------------------------------
_num = (int, float, Fraction, np.integer, np.floating, np.bool_)


class SymReal(object):
    __slots__ = ('r',)

    def __init__(self, r):
        self.r = r

    @staticmethod
    def lift(x):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, (bool, np.bool_)):
            return SymReal(Rat.of(int(x)))
        if isinstance(x, (int, np.integer)):
            return SymReal(Rat.of(int(x)))
        if isinstance(x, (float, np.floating)):
            x = float(x)
            if x != x or x in (math.inf, -math.inf):
                raise Unsupported('non-finite float in symbolic arithmetic')
            return SymReal(Rat.of(x))
        if isinstance(x, Fraction):
            return SymReal(Rat.of(x))
        if isinstance(x, SymBool):
            return SymReal(Rat.of(1 if x else 0))
        if isinstance(x, np.ndarray) and x.size == 1:
            return SymReal.lift(x.reshape(-1)[0])
        return None

    def _bin(self, o, f):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        if isinstance(o, (float, np.floating)) and o != o:
            return float('nan')
        q = SymReal.lift(o)
        if q is None:
            return NotImplemented
        return f(self.r, q.r)

    def __add__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return np.add(_o0(self), o)
        return self._bin(o, lambda a, b: SymReal(a + b))

    def __radd__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return np.add(o, _o0(self))
        return self._bin(o, lambda a, b: SymReal(b + a))

    def __sub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return np.subtract(_o0(self), o)
        return self._bin(o, lambda a, b: SymReal(a - b))

    def __rsub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return np.subtract(o, _o0(self))
        return self._bin(o, lambda a, b: SymReal(b - a))

    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return np.multiply(_o0(self), o)
        return self._bin(o, lambda a, b: SymReal(a * b))

    def __rmul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return np.multiply(o, _o0(self))
        return self._bin(o, lambda a, b: SymReal(b * a))

    def __truediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return np.true_divide(_o0(self), o)
        return self._bin(o, _div)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return np.true_divide(o, _o0(self))
        return self._bin(o, lambda a, b: _div(b, a))

    def __pow__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return np.power(_o0(self), o)
        if isinstance(o, SymReal):
            if not o.r.is_const():
                return CUR.ufun('pow', [self, o])
            o = o.r.n.const_value()
        o = snap(float(o)) if not isinstance(o, Fraction) else o
        if o.denominator == 1:
            n = int(o)
            if abs(n) > 12:
                return CUR.ufun('pow', [self, SymReal.lift(o)])
            r = SymReal(Rat.of(1))
            for _ in range(abs(n)):
                r = r * self
            return r if n >= 0 else 1 / r
        if o.denominator == 2 and abs(o) < 8:
            h = self.sqrt()
            return h if o == Fraction(1, 2) else self ** ((o - Fraction(1, 2)).numerator) * h
        return CUR.ufun('pow', [self, SymReal.lift(o)])

    def __rpow__(self, o):
        return CUR.ufun('pow', [SymReal.lift(o), self])

    def __neg__(self):
        return SymReal(-self.r)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def sqrt(self):
        return CUR.sqrt(self)

    def exp(self):
        return CUR.exp(self)

    def conjugate(self):
        return self

    # numpy ufuncs on object arrays look these up
    def isnan(self):
        return False

    def floor(self):
        raise Unsupported('floor of a symbolic real')

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: cmp0('>', b - a))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: cmp0('>=', b - a))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: cmp0('>', a - b))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: cmp0('>=', a - b))

    def _cmp(self, o, f):
        if isinstance(o, (float, np.floating)) and o in (math.inf, -math.inf):
            # compare with infinity
            r = f(Rat.of(0), Rat.of(1 if o > 0 else -1))
            return r
        return self._bin(o, f)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._bin(o, lambda a, b: cmp0('==', a - b))

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        r = self.__eq__(o)
        return r if r is NotImplemented else neg(r)

    def __bool__(self):
        return bool(neg(cmp0('==', self.r)))

    def __hash__(self):
        if self.r.is_const():
            return hash(self.r.n.const_value())
        raise Unsupported('hash of a symbolic real')

    def _const(self, what):
        if self.r.is_const():
            return self.r.n.const_value()
        raise Unsupported('%s of a symbolic real' % what)

    def __float__(self):
        return float(self._const('float()'))

    def __int__(self):
        return int(self._const('int()'))

    def __index__(self):
        c = self._const('index')
        if c.denominator != 1:
            raise TypeError('not an integer')
        return int(c)

    def __round__(self, n=None):
        return round(self._const('round()'), n)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def item(self):
        return self

    def __repr__(self):
        return '<%s>' % self.r


numbers.Real.register(SymReal)


def _o0(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _div(a, b):
    if b.is_const():
        if b.is_zero():
            raise ZeroDivisionError('division by zero')
        return SymReal(a / b)
    if CUR.branch(cmp0('==', b), hint='division by zero'):
        raise ZeroDivisionError('division by a quantity that can be zero')
    return SymReal(a / b)


def is_sym(x):
    if isinstance(x, (SymReal, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(is_sym(y) for y in x)
    return False


# ----------------------------------------------------------------------------
# contexts
# ----------------------------------------------------------------------------
class Stats(object):
    def __init__(self):
        self.paths = 0
        self.covered = 0
        self.ob = {}            # obligation name -> [vcs, by ring, by z3]
        self.solver_s = 0.0
        self.solver_calls = 0
        self.failed = []        # dicts
        self.undecided = []
        self.feas_unknown = 0
        self.assumed = set()    # assumed contracts / axioms used
        self.fns = set()
        self.bounded = {}       # bounded check name -> count


class BaseCtx(object):
    sym = False

    def fn(self, *names):
        """record that the named function is executed under contract"""
        self.st.fns.update(names)

    def trust(self, text):
        self.st.assumed.add(text)

    def reals(self, name, n, **kw):
        return [self.real('%s%d' % (name, i), **kw) for i in range(n)]

    def arr(self, rows):
        """2-d array of numbers (object dtype when symbolic)"""
        a = np.array(rows, dtype=object if self.sym else float)
        return a

    def prove_all_eq(self, name, A, B, note=''):
        A, B = np.asarray(A), np.asarray(B)
        if A.shape != B.shape:
            self.prove(name, False, 'shapes %s and %s differ. %s' % (A.shape, B.shape, note))
            return
        for ix in np.ndindex(*A.shape):
            self.prove_eq(name, A[ix], B[ix], '%s at %s' % (note, list(ix)))


_T0 = [None, 0.]


def cpu():
    t = os.times()
    return t.user + t.system + t.children_user + t.children_system


def clock():
    """seconds of processor time: budgets do not shrink on a busy machine"""
    return cpu()


def restart_clock():
    _T0[:] = [time.time(), cpu()]


def slow():
    """how much longer than its processor time this process takes (solver limits are wall-clock times)"""
    if _T0[0] is None:
        return 1.
    wall, own = time.time() - _T0[0], cpu() - _T0[1]
    if wall < 1:
        return max(1., min(6., os.getloadavg()[0] / (os.cpu_count() or 1)))
    return max(1., min(6., wall / max(own, .1)))


class SymCtx(BaseCtx):
    sym = True

    def __init__(self, st, prefix, opts):
        reset_vars()
        self.st = st
        self.prefix = prefix
        self.pos = 0
        self.trace = []          # decisions taken (bools or ints)
        self.alts = []           # alternative prefixes discovered
        self.opts = opts
        self.pc = []             # SymBools assumed
        self.solver = z3.Solver()
        self.solver.set('timeout', opts.get('feas_ms', 4000))
        self.lin = z3.Solver()
        self.known = {}          # atom key -> bool
        self.env = {}            # name -> ('real'|'int'|'bool'|'choice', value/None)
        self.sqrts = {}
        self.sqsub = {}
        self.factors = []
        self.ufuns = {}
        self._z3p = {}
        self._signs = {}
        self.intvars = set()
        self._fresh = 0
        self.deadline = opts.get('deadline')
        self.log = []

    # ---- z3 translation
    def poly_z3(self, p):
        k = p.key()
        e = self._z3p.get(k)
        if e is None:
            terms = []
            for m, c in p.t.items():
                fs = []
                for v, ex in m:
                    zv = self.zvar(v)
                    fs.extend([zv] * ex)
                t = z3.RealVal(str(c))
                if fs:
                    q = fs[0]
                    for f in fs[1:]:
                        q = q * f
                    t = q if c == 1 else t * q
                terms.append(t)
            e = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
            self._z3p[k] = e
        return e

    def zvar(self, v):
        n = var_name(v)
        if n in self.intvars:
            return z3.ToReal(z3.Int(n))
        return z3.Real(n)

    def _check(self, extra, ms=None):
        """sat/unsat/unknown for pc and extra formulas"""
        if self.deadline and clock() > self.deadline:
            raise PathLimit('time budget of the harness exhausted')
        t = time.time()
        try:
            zs = [x.z3(self) for x in extra]
            ms = int((ms or self.opts.get('feas_ms', 4000)) * slow())
            if GUARD or self.opts.get('guard'):
                return self._guarded(zs, ms)
            return self._check1(zs, ms)
        finally:
            self.st.solver_s += time.time() - t
            self.st.solver_calls += 1

    def _check1(self, zs, ms):
        self.solver.set('timeout', ms)
        r = self.solver.check(*zs) if zs else self.solver.check()
        model = None
        if r == z3.sat:
            model = self.solver.model()
        elif r == z3.unknown:
            s = z3.SolverFor('QF_NRA') if not self.intvars else z3.Solver()
            s.set('timeout', ms)
            s.add(*self.solver.assertions())
            s.add(*zs)
            r = s.check()
            if r == z3.sat:
                model = s.model()
        return r, model

    def _guarded(self, zs, ms):
        """the same query in a child process that is ended when the solver overruns its time limit"""
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                r, m = self._check1(zs, ms)
                os.write(wr, json.dumps([str(r), self.model_env(m) if m is not None else None]).encode())
            except BaseException:
                pass
            os._exit(0)
        os.close(wr)
        end = time.time() + ms / 1000. * 3 + 2
        buf = b''
        while True:
            left = end - time.time()
            ok = left > 0 and select.select([rd], [], [], left)[0]
            if not ok:
                break
            c = os.read(rd, 1 << 16)
            if not c:
                break
            buf += c
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        os.close(rd)
        try:
            r, env = json.loads(buf.decode())
        except ValueError:
            return z3.unknown, None
        return {'sat': z3.sat, 'unsat': z3.unsat}.get(r, z3.unknown), env

    def _add(self, f):
        f = sbool(f)
        if f.k == 'and':
            for g in f.a:
                self._add(g)
            return
        self.pc.append(f)
        self.known[f.key()] = True
        n = neg(f)
        self.known[n.key()] = False
        if f.k == 'atom' and f.a[0] == '>':
            p = f.a[1]
            self.known[_atom('>=', p, raw=True).key()] = True
            self.known[_atom('==', p, raw=True).key()] = False
            self._signs.clear()
            self._factor(p, True)
        elif f.k == 'not' and f.a.k == 'atom' and f.a.a[0] == '==':
            self._signs.clear()
            self._factor(f.a.a[1], False)
        elif f.k == 'atom' or f.k == 'not':
            self._signs.clear()
        self.solver.add(f.z3(self))

    def _factor(self, p, pos):
        if p.is_const() or len(self.factors) > 40:
            return
        self.factors.append((p, p.vars(), pos))

    # ---- branching
    def branch(self, f, hint=None):
        f = sbool(f)
        if f.k == 'lit':
            return f.a
        kn = self.known.get(f.key())
        if kn is not None:
            return kn
        if self.pos < len(self.prefix):
            b = self.prefix[self.pos]
        else:
            rt, _ = self._check([f])
            if rt == z3.unsat:
                b = False
            else:
                rf, _ = self._check([neg(f)])
                if rt == z3.unknown or rf == z3.unknown:
                    self.st.feas_unknown += 1
                if rf == z3.unsat:
                    b = True
                else:
                    b = (hint is None)
                    self.alts.append(self.trace + [not b])
        self.pos += 1
        self.trace.append(b)
        self._add(f if b else neg(f))
        if len(self.trace) > self.opts.get('max_depth', 4000):
            raise PathLimit('path deeper than the decision limit (loop not terminating?)')
        return b

    def choice(self, name, options):
        options = list(options)
        n = len(options)
        if n == 1:
            i = 0
        elif self.pos < len(self.prefix):
            i = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(i)
        else:
            i = 0
            self.alts.extend([self.trace + [j] for j in range(1, n)])
            self.pos += 1
            self.trace.append(i)
        self.env[name] = ('choice', i)
        return options[i]

    # ---- values
    def real(self, name, lo=None, hi=None, pos=False, sample=None):
        x = SymReal(Rat(Poly.var(name)))
        self.env[name] = ('real', None)
        if pos:
            self.assume(x > 0)
        if lo is not None:
            self.assume(x >= lo)
        if hi is not None:
            self.assume(x <= hi)
        return x

    def integer(self, name, lo=None, hi=None, sample=None):
        self.intvars.add(name)
        x = SymReal(Rat(Poly.var(name)))
        self.env[name] = ('int', None)
        if lo is not None:
            self.assume(x >= lo)
        if hi is not None:
            self.assume(x <= hi)
        return x

    def boolean(self, name):
        self.env[name] = ('bool', None)
        return SymBool('var', name)

    def sign_of(self, p):
        """+1/-1 if the path condition entails the sign of p, else 0"""
        k = p.key()
        s = self._signs.get(k)
        if s is None:
            a = _atom('>', p)
            if a.k == 'lit':
                s = 1 if a.a else -1
            elif self.known.get(a.key()) is True:
                s = 1
            elif self.known.get(_atom('>', -p).key()) is True:
                s = -1
            elif self._check([_atom('>=', -p)], 1500)[0] == z3.unsat:
                s = 1
            elif self._check([_atom('>=', p)], 1500)[0] == z3.unsat:
                s = -1
            else:
                s = 0
            self._signs[k] = s
        return s

    def assume(self, f):
        f = sbool(f)
        if f.k == 'lit':
            if not f.a:
                raise PathEnd()
            return
        self._add(f)
        if self.pos >= len(self.prefix):
            r, _ = self._check([])
            if r == z3.unsat:
                raise PathEnd()

    def fresh(self, stem):
        self._fresh += 1
        return '%s!%d' % (stem, self._fresh)

    def _ratkey(self, r):
        # canonical enough: cross-multiplied compare against stored terms
        return r

    def _memo(self, table, r):
        for q, v in table:
            if (q - r).is_zero():
                return v
        return None

    def sqrt(self, x):
        r = x.r
        if r.is_const():
            c = r.n.const_value()
            if c < 0:
                raise ValueError('sqrt of a negative number')
            a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if a * a == c.numerator and b * b == c.denominator:
                return SymReal(Rat.of(Fraction(a, b)))
        tab = self.sqrts.setdefault('sqrt', [])
        v = self._memo(tab, r)
        if v is not None:
            return v
        if self.branch(cmp0('>', -r), hint='negative radicand'):
            raise ValueError('sqrt of a quantity that can be negative')
        n = self.fresh('sqrt')
        s = SymReal(Rat(Poly.var(n)))
        tab.append((r, s))
        self.sqsub[var_index(n)] = r
        self._add(cmp0('>=', s.r))
        self._add(cmp0('==', s.r * s.r - r))
        if r.is_const() and r.n.const_value() > 0:
            self._add(cmp0('>', s.r))
        self.trust('sqrt(t) is the non-negative real whose square is t')
        return s

    def exp(self, x):
        r = x.r
        if r.is_zero():
            return SymReal(Rat.of(1))
        return self.ufun('exp', [x], axioms=self._exp_axioms)

    def _exp_axioms(self, v, args, others):
        self._add(cmp0('>', v.r))
        t = args[0]
        self._add(implies(t == 0, v == 1))
        self._add(implies(t < 0, v < 1))
        self._add(implies(t > 0, v > 1))
        for a, w in others:
            self._add(implies(t <= a[0], v <= w))
            self._add(implies(a[0] <= t, w <= v))
        self.trust('exp: positive, increasing, exp(0)=1')

    def ufun(self, name, args, axioms=None):
        args = [SymReal.lift(a) for a in args]
        tab = self.ufuns.setdefault(name, [])
        for a, v in tab:
            if len(a) == len(args) and all((p.r - q.r).is_zero() for p, q in zip(a, args)):
                return v
        v = SymReal(Rat(Poly.var(self.fresh(name))))
        for a, w in tab:      # congruence
            self._add(implies(conj([p == q for p, q in zip(a, args)]), v == w))
        if axioms:
            axioms(v, args, tab)
        else:
            self.trust('%s is an uninterpreted function (same arguments, same value)' % name)
        tab.append((args, v))
        return v

    def pow_square_reduce(self, r):
        """rewrite even powers of sqrt variables"""
        if not self.sqsub:
            return r
        for _ in range(6):
            vs = [v for v in r.n.vars() if v in self.sqsub]
            todo = None
            for v in vs:
                if any(dict(m).get(v, 0) >= 2 for m in r.n.t):
                    todo = v
                    break
            if todo is None:
                break
            out = Rat(ZERO)
            for m, c in r.n.t.items():
                d = dict(m)
                e = d.get(todo, 0)
                k = e // 2
                if k:
                    d[todo] = e - 2 * k
                    if not d[todo]:
                        del d[todo]
                term = Rat(Poly({tuple(sorted(d.items())): c}))
                for _i in range(k):
                    term = term * self.sqsub[todo]
                out = out + term
            r = out * Rat(ONE, dict(r.d)) if r.d else out
        return r

    # ---- obligations
    def _rec(self, name, how):
        r = self.st.ob.setdefault(name, [0, 0, 0])
        r[0] += 1
        r[1 if how == 'ring' else 2] += 1

    def prove_eq(self, name, a, b, note=''):
        if not (isinstance(a, SymReal) or isinstance(b, SymReal)):
            if isinstance(a, _num) and isinstance(b, _num):
                # both sides are concrete machine numbers: equality up to rounding
                self.prove(name, abs(a - b) <= 1e-10 * (1 + abs(a) + abs(b)), '%s: %r, contract says %r' % (note, a, b))
                return
            else:
                self.prove(name, a == b, note)
                return
        a2, b2 = SymReal.lift(a), SymReal.lift(b)
        if a2 is None or b2 is None:
            self.prove(name, False, '%r is not a number: %s' % ((a, b), note))
            return
        d = self.pow_square_reduce(a2.r - b2.r)
        if d.is_zero():
            self._rec(name, 'ring')
            return
        self.prove(name, cmp0('==', d), note or '%r == %r' % (a, b))

    def prove(self, name, f, note=''):
        if isinstance(f, np.ndarray):
            f = conj([x for x in f.reshape(-1)])
        f = sbool(f)
        if f.k == 'lit' and f.a:
            self._rec(name, 'ring')
            return
        if self.known.get(f.key()) is True:
            self._rec(name, 'ring')
            return
        if f.k == 'and':
            for g in f.a:
                self.prove(name, g, note)
            return
        r, model = self._check([neg(f)], self.opts.get('prove_ms', 20000))
        if r == z3.unsat:
            self._rec(name, 'z3')
            self._add(f)
            return
        rec = {'obligation': name, 'note': str(note)[:600], 'formula': repr(f)[:600],
               'env': self.model_env(model) if model is not None else self.model_env(None)}
        self.st.ob.setdefault(name, [0, 0, 0])
        if r == z3.sat:
            self.st.failed.append(rec)
        else:
            rec['reason'] = 'solver answered unknown'
            self.st.undecided.append(rec)
        raise PathEnd()

    def lemma(self, f):
        """prove an intermediate fact then use it (cut)"""
        self.prove('lemma', f)

    def model_env(self, model):
        if isinstance(model, dict):
            return model
        env = {}
        for n, (k, v) in self.env.items():
            if k == 'choice':
                env[n] = v
            elif model is None:
                continue
            elif k == 'bool':
                env[n] = bool(z3.is_true(model.eval(z3.Bool(n), model_completion=True)))
            elif k == 'int':
                env[n] = model.eval(z3.Int(n), model_completion=True).as_long()
            else:
                q = model.eval(z3.Real(n), model_completion=True)
                if z3.is_rational_value(q):
                    env[n] = float(Fraction(q.numerator_as_long(), q.denominator_as_long()))
                else:
                    a = q.approx(30)
                    env[n] = float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
        return env

    # specs
    def eq(self, a, b):
        return a == b

    def le(self, a, b):
        return a <= b

    def lt(self, a, b):
        return a < b


class Failure(BaseException):
    def __init__(self, rec):
        self.rec = rec


class ConcCtx(BaseCtx):
    """concrete execution on stock numpy: replay of a model, or seeded search"""
    sym = False

    def __init__(self, st, env=None, rng=None, tol=1e-7):
        self.st = st
        self.env_in = env
        self.rng = rng
        self.env = {}
        self.tol = tol
        self.n_ob = 0

    def _get(self, name, gen):
        if self.env_in is not None and name in self.env_in:
            v = self.env_in[name]
        else:
            v = gen()
        self.env[name] = v
        return v

    def real(self, name, lo=None, hi=None, pos=False, sample=None):
        def gen():
            r = self.rng or random.Random(0)
            if sample is not None:
                return float(sample(r))
            a = lo if isinstance(lo, numbers.Real) else None
            b = hi if isinstance(hi, numbers.Real) else None
            if pos and a is None:
                a = 0.05
            if a is None and b is None:
                a, b = -3.0, 3.0
            elif a is None:
                a = b - 3.0
            elif b is None:
                b = a + 3.0
            if r.random() < 0.15:
                return float(r.choice([a, b, (a + b) / 2.0])) if not pos else float(b)
            return r.uniform(a, b)
        x = float(self._get(name, gen))
        if pos:
            self.assume(x > 0)
        if lo is not None:
            self.assume(x >= lo)
        if hi is not None:
            self.assume(x <= hi)
        return x

    def integer(self, name, lo=None, hi=None, sample=None):
        def gen():
            r = self.rng or random.Random(0)
            return sample(r) if sample else r.randint(lo if lo is not None else -5, hi if hi is not None else (lo or 0) + 8)
        x = int(self._get(name, gen))
        self.assume((lo is None or x >= lo) and (hi is None or x <= hi))
        return x

    def boolean(self, name):
        return bool(self._get(name, lambda: (self.rng or random.Random(0)).random() < 0.5))

    def choice(self, name, options):
        options = list(options)
        i = self._get(name, lambda: (self.rng or random.Random(0)).randrange(len(options)))
        if not 0 <= i < len(options):
            raise Reject()
        return options[i]

    def assume(self, f):
        if not bool(f):
            raise Reject()

    def prove(self, name, f, note=''):
        self.n_ob += 1
        if isinstance(f, np.ndarray):
            f = bool(np.all(f))
        if not bool(f):
            raise Failure({'obligation': name, 'note': str(note)[:600], 'env': dict(self.env)})

    def prove_eq(self, name, a, b, note=''):
        try:
            ok = self.eq(a, b)
        except Exception as e:
            ok, note = False, 'values %r and %r are not comparable numbers. %s' % (a, b, note)
        self.prove(name, ok, '%s: got %r, contract says %r' % (note, a, b))

    lemma = lambda self, f: None

    def eq(self, a, b):
        if isinstance(a, numbers.Real) and isinstance(b, numbers.Real):
            return abs(a - b) <= self.tol * (1 + abs(a) + abs(b))
        return a == b

    def le(self, a, b):
        return a <= b + self.tol * (1 + abs(a) + abs(b))

    def lt(self, a, b):
        return a < b + self.tol * (1 + abs(a) + abs(b))

    def ufun(self, name, args, axioms=None):
        # some fixed smooth function of its arguments
        h = sum(ord(c) * (i + 1) for i, c in enumerate(name)) % 97
        return math.sin(h + sum((1 + .37 * i) * float(x) for i, x in enumerate(args)))


def code_frames(tb, root='/repo/src'):
    """frames of the real code in a traceback, innermost last"""
    out = []
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(root):
            out.append('%s:%s in %s' % (f.filename[len(root) + 1:], f.lineno, f.name))
    return out
