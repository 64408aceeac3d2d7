"""helpers shared by the contracts"""
from fractions import Fraction as Fr
import numpy as np
from pyvc.engine import mod, patched, Harness
from pyvc.sym import Unsupported, SymReal


def M():
    return mod('mesh')


def rkey(v):
    """representative of the numbers close to v; the grid is irrational so that no nice number lies between two points of it"""
    return round(float(v) * 70710678.11865475) / 70710678.11865475 + 0.


def interval(ctx, name='', x0=None, x1=None, lib=None):
    """an interval with symbolic end points x0 < x1"""
    m = M()
    if x0 is None:
        x0 = ctx.real(name + 'x0', lo=-3, hi=3)
    if x1 is None:
        w = ctx.real(name + 'w', pos=True)
        x1 = x0 + w
    return m.Interval(m.Vertex((x0,)), m.Vertex((x1,))), x0, x1


def quad_from(pts, rotate=0):
    m = M()
    vs = [m.Vertex((x, y)) for x, y in pts]
    vs = vs[rotate:] + vs[:rotate]
    return m.QuadCell([m.HalfEdge(vs[i], vs[(i + 1) % 4]) for i in range(4)])


# ---- the same region in different situations: what a region reports may depend on its geometry alone
def situation(ctx, name='where', four=False, alone=False):
    return ctx.choice(name, (['root'] if alone else ['root', 'child1']) if ctx.sym else ['root', 'child1', 'child0', 'split', 'marked'] + (['child2', 'child3'] if four else []))


def _settle(r, where):
    if where == 'split':
        r.split()
    elif where == 'marked':
        r.mark('some flag')
    return r


def quad_in(ctx, P, name='where', alone=False):
    """
    a cell with the corners P: free standing, or obtained by splitting a larger cell, possibly refined or marked itself
    (alone: only the free standing cell is examined symbolically)
    """
    where = situation(ctx, name, four=True, alone=alone)
    if not where.startswith('child'):
        return _settle(quad_from(P), where)
    k = int(where[-1])
    Q = [None] * 4
    Q[k] = P[k]
    Q[(k + 1) % 4], Q[(k + 3) % 4] = [tuple(2 * P[j][i] - P[k][i] for i in (0, 1)) for j in ((k + 1) % 4, (k + 3) % 4)]
    Q[(k + 2) % 4] = tuple(4 * P[(k + 2) % 4][i] - Q[k][i] - Q[(k + 1) % 4][i] - Q[(k + 3) % 4][i] for i in (0, 1))
    if not ctx.sym:
        for i in range(4):      # the larger cell has to be convex
            a, b, c = Q[i - 1], Q[i], Q[(i + 1) % 4]
            ctx.assume((b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0]) > .01)
    c = quad_from(Q)
    c.split()
    return c.get_child(k)


def interval_in(ctx, name='', where='where'):
    """an interval with symbolic end points, free standing or half of a larger one"""
    m = M()
    I, x0, x1 = interval(ctx, name)
    w = situation(ctx, where)
    if not w.startswith('child'):
        return _settle(I, w), x0, x1
    a, b = (x0, 2 * x1 - x0) if w == 'child0' else (2 * x0 - x1, x1)
    I = m.Interval(m.Vertex((a,)), m.Vertex((b,)))
    I.split()
    return I.get_child(int(w[-1])), x0, x1


def edge_in(ctx, p, q, name='where'):
    """a half-edge from p to q, free standing or half of a longer one"""
    m = M()
    w = situation(ctx, name)
    if not w.startswith('child'):
        return _settle(m.HalfEdge(m.Vertex(tuple(p)), m.Vertex(tuple(q))), w)
    a, b = (p, [2 * y - x for x, y in zip(p, q)]) if w == 'child0' else ([2 * x - y for x, y in zip(p, q)], q)
    he = m.HalfEdge(m.Vertex(tuple(a)), m.Vertex(tuple(b)))
    he.split()
    return he.get_child(int(w[-1]))


def rect_pts(ctx, name=''):
    x0 = ctx.real(name + 'x0', lo=-3, hi=3)
    y0 = ctx.real(name + 'y0', lo=-3, hi=3)
    # the code treats lengths below 1e-10 as zero: sizes of at least 1/1000 are required
    w = ctx.real(name + 'w', lo=Fr(1, 1000) if ctx.sym else .001, sample=lambda r: r.uniform(.2, 3))
    h = ctx.real(name + 'h', lo=Fr(1, 1000) if ctx.sym else .001, sample=lambda r: r.uniform(.2, 3))
    return [(x0, y0), (x0 + w, y0), (x0 + w, y0 + h), (x0, y0 + h)]


def quad_pts(ctx, name=''):
    """
    four corners, counter-clockwise, of an arbitrary strictly convex quadrilateral.  Every such quadrilateral is
    p0, p0+u, p0+a*u+b*v, p0+v with u x v > 0, a > 0, b > 0, a + b > 1 (a, b: coordinates of the far corner).
    """
    S = lambda c, r=.3: (lambda rnd: c + rnd.uniform(-r, r))
    R = lambda n, c: ctx.real(name + n, sample=S(c))
    p0 = (R('p0x', 0), R('p0y', 0))
    u, v = (R('ux', 1), R('uy', 0)), (R('vx', 0), R('vy', 1))
    ctx.assume(u[0] * v[1] - u[1] * v[0] > 0)
    a, b = R('a', 1), R('b', 1)
    ctx.assume(a > 0)
    ctx.assume(b > 0)
    ctx.assume(a + b > 1)
    return [p0, (p0[0] + u[0], p0[1] + u[1]), (p0[0] + a * u[0] + b * v[0], p0[1] + a * u[1] + b * v[1]),
            (p0[0] + v[0], p0[1] + v[1])]


def not_axis(ctx, pts):
    """the quadrilateral is recognisably not a rectangle"""
    (x0, y0), (x1, y1) = pts[0], pts[1]
    ctx.assume(x1 - x0 > Fr(1, 100) if ctx.sym else x1 - x0 > .01)
    ctx.assume(y1 - y0 > Fr(1, 100) if ctx.sym else y1 - y0 > .01)


def pts01(ctx, n, dim, name='t'):
    rows = [[ctx.real('%s%d_%d' % (name, i, j), lo=0, hi=1) for j in range(dim)] for i in range(n)]
    return rows


# ---- exact univariate polynomials as coefficient lists (low order first)
def padd(p, q):
    n = max(len(p), len(q))
    return [(p[i] if i < len(p) else 0) + (q[i] if i < len(q) else 0) for i in range(n)]


def pmul(p, q):
    r = [Fr(0)] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            r[i + j] += a * b
    return r


def pder(p):
    return [i * p[i] for i in range(1, len(p))] or [Fr(0)]


def pev(p, x):
    """Horner; x float or symbolic"""
    s = 0
    for c in reversed(p):
        s = s * x + (c if isinstance(x, SymReal) else float(c))
    return s


def lagrange(nodes):
    out = []
    for i, a in enumerate(nodes):
        p = [Fr(1)]
        for j, b in enumerate(nodes):
            if i != j:
                p = pmul(p, [-b / (a - b), Fr(1) / (a - b)])
        out.append(p)
    return out


# ---- node tables read off the element documentation
T3 = [Fr(0), Fr(1), Fr(1, 3), Fr(2, 3)]
T2 = [Fr(0), Fr(1), Fr(1, 2)]
T1 = [Fr(0), Fr(1)]
_v = [(0, 0), (1, 0), (1, 1), (0, 1)]
_h, _a, _b = Fr(1, 2), Fr(1, 3), Fr(2, 3)
NODES = {
    (1, 0): [_h], (1, 1): T1, (1, 2): T2, (1, 3): T3,
    (2, 0): [(_h, _h)],
    (2, 1): _v,
    (2, 2): _v + [(_h, 0), (1, _h), (_h, 1), (0, _h), (_h, _h)],
    (2, 3): _v + [(_a, 0), (_b, 0), (1, _a), (1, _b), (_b, 1), (_a, 1), (0, _b), (0, _a),
                  (_a, _a), (_b, _a), (_a, _b), (_b, _b)],
}
N1 = {0: [_h], 1: T1, 2: T2, 3: T3}


def basis_polys(dim, deg):
    """local shape functions: list of (px,) or (px,py) coefficient lists"""
    one = lagrange(N1[deg])
    if dim == 1:
        return [(p,) for p in one]
    out = []
    for (x, y) in NODES[(2, deg)]:
        out.append((one[N1[deg].index(Fr(x))], one[N1[deg].index(Fr(y))]))
    return out


def shape_val(polys, x, der=()):
    """value of the product polynomial's derivative; der: tuple of variable numbers"""
    v = 1
    for k, p in enumerate(polys):
        for d in der:
            if d == k:
                p = pder(p)
        v = v * pev(p, x[k])
    return v


ETYPES = ['DQ0', 'Q1', 'DQ1', 'Q2', 'DQ2', 'Q3', 'DQ3']
