"""C04 reference maps: interpolation of the vertices, inverse, derivatives, sub-cell positions."""
from .common import *

EXPLANATION = ('Forward maps, their Jacobians and Hessians and those of the inverse are proved for all vertex positions and points; the inverse '
               'map is proved for intervals, edges, rectangles and parallelograms. For general convex quadrilaterals the inverse is a '
               'Newton iteration: bounded check to 1e-6 on moderately distorted cells. Depth of sub-cells for the position formula is '
               'enumerated (<=3), the one-level lemma is proved for all quadrilaterals.')
ALL = dict(jac_p2r=True, jac_r2p=True, hess_p2r=True, hess_r2p=True)
R2 = range(2)


def interval_map(ctx):
    ctx.fn('mesh.Interval.reference_map', 'mesh.Interval.get_vertex')
    I, x0, x1 = interval_in(ctx)
    n = ctx.choice('n', [1, 2, 3])
    t = pts01(ctx, n, 1)
    to = ctx.choice('to', ['physical', 'reference'])
    xs = [x0 + (x1 - x0) * r[0] for r in t]
    src = [r[0] for r in t] if to == 'physical' else xs
    trg = xs if to == 'physical' else [r[0] for r in t]
    fmt = ctx.choice('fmt', ['column', 'vertices', 'vector'])
    arg = ctx.arr([[v] for v in src]) if fmt == 'column' else (
        ctx.arr(src) if fmt == 'vector' else [M().Vertex(v) for v in src])
    y = I.reference_map(arg, mapsto=to)
    ctx.prove('shape', y.shape == (n, 1), y.shape)
    y2, mg = I.reference_map(arg, mapsto=to, **ALL)
    for i in range(n):
        ctx.prove_eq('interval-point', y[i, 0], trg[i])
        ctx.prove_eq('interval-point', y2[i, 0], trg[i])
    L = x1 - x0
    for k, v in (('jac_r2p', L), ('jac_p2r', 1 / L), ('hess_r2p', 0), ('hess_p2r', 0)):
        ctx.prove('one-derivative-per-point', len(mg[k]) == n)
        for i in range(n):
            ctx.prove_eq('interval-' + k, mg[k][i], v)
    one = ctx.choice('only', sorted(ALL))
    y3, mg = I.reference_map(arg, mapsto=to, **{one: True})
    ctx.prove('only-requested', set(mg) == {one})


def bil(P, s, t):
    w = [(1 - s) * (1 - t), s * (1 - t), s * t, (1 - s) * t]
    return [sum(w[i] * P[i][k] for i in range(4)) for k in R2]


def bil_jac(P, s, t):
    ds = [-(1 - t), 1 - t, t, -t]
    dt = [-(1 - s), -s, s, 1 - s]
    return [[sum(d[i] * P[i][k] for i in range(4)) for d in (ds, dt)] for k in R2]


def _derivs(ctx, P, mg, n, st, name, rect):
    tw = [P[0][k] - P[1][k] + P[2][k] - P[3][k] for k in R2]
    for i in range(n):
        J = bil_jac(P, *st[i])
        det = J[0][0] * J[1][1] - J[0][1] * J[1][0]
        Ji = [[J[1][1] / det, -J[0][1] / det], [-J[1][0] / det, J[0][0] / det]]
        for a in R2:
            for b in R2:
                if 'jac_r2p' in mg:
                    ctx.prove_eq('jacobian-forward', mg['jac_r2p'][i][a, b], J[a][b], name)
                if 'jac_p2r' in mg:
                    ctx.prove_eq('jacobian-inverse', mg['jac_p2r'][i][a, b], Ji[a][b], name)
                for k in R2:
                    if 'hess_r2p' in mg:
                        ctx.prove_eq('hessian-forward', mg['hess_r2p'][i][a, b, k], 0 if a == b else tw[k], name)
                    if 'hess_p2r' in mg:
                        # d2 xi_k / dx_a dx_b = - sum_m dxi_k/dx_m * sum_pq d2x_m/dxi_p dxi_q dxi_p/dx_a dxi_q/dx_b
                        h = -sum(Ji[k][m] * tw[m] * (Ji[0][a] * Ji[1][b] + Ji[1][a] * Ji[0][b]) for m in R2)
                        ctx.prove_eq('hessian-inverse', mg['hess_p2r'][i][a, b, k], h, name)
    for k, v in mg.items():
        ctx.prove('one-derivative-per-point', len(v) == n, k)


def _rot(P, r):
    return P[r:] + P[:r]


def quad_forward(ctx, kind):
    ctx.fn('mesh.QuadCell.reference_map', 'mesh.QuadCell.__init__', 'mesh.Cell.get_vertices')
    if kind == 'rect':
        P = _rot(rect_pts(ctx), ctx.choice('start', [0, 1, 2, 3]))
    else:
        P = quad_pts(ctx)
        if ctx.sym:
            not_axis(ctx, P)
    n = ctx.choice('n', [1, 2])
    t = pts01(ctx, n, 2)
    c = quad_in(ctx, P, alone=kind == 'quad')
    x = c.reference_map(ctx.arr(t), mapsto='physical')
    ctx.prove('shape', x.shape == (n, 2), x.shape)
    for i in range(n):
        w = bil(P, *t[i])
        for k in R2:
            ctx.prove_eq('bilinear', x[i, k], w[k])
    which = ctx.choice('which', ['all', 'jac_p2r', 'jac_r2p', 'hess_p2r', 'hess_r2p'])
    want = ALL if which == 'all' else {which: True}
    x, mg = c.reference_map(ctx.arr(t), mapsto='physical', **want)
    ctx.prove('only-requested', set(mg) == set(want))
    for i in range(n):
        w = bil(P, *t[i])
        for k in R2:
            ctx.prove_eq('bilinear', x[i, k], w[k])
    _derivs(ctx, P, mg, n, t, kind, kind == 'rect')


def affine_inverse(ctx, kind):
    """rectangles (any starting corner) and parallelograms: exact inverse, round trips, derivatives at the image"""
    ctx.fn('mesh.QuadCell.reference_map')
    if kind == 'rect':
        P = _rot(rect_pts(ctx), ctx.choice('start', [0, 1, 2, 3]))
    else:
        x0, y0 = ctx.real('x0'), ctx.real('y0')
        u = [ctx.real('u0', lo=.1, hi=2), ctx.real('u1', lo=.1, hi=2)]
        v = [ctx.real('v0', lo=-2, hi=-.1), ctx.real('v1', lo=.1, hi=2)]
        P = [(x0, y0), (x0 + u[0], y0 + u[1]), (x0 + u[0] + v[0], y0 + u[1] + v[1]), (x0 + v[0], y0 + v[1])]
        ctx.assume(u[0] * v[1] - u[1] * v[0] > 0)
    c = quad_in(ctx, P)
    n = ctx.choice('n', [1, 2] if kind == 'rect' else [1])
    t = pts01(ctx, n, 2)
    xs = [bil(P, *r) for r in t]
    s = c.reference_map(ctx.arr(xs), mapsto='reference')
    ctx.prove('shape', s.shape == (n, 2), s.shape)
    for i in range(n):
        for k in R2:
            ctx.prove_eq('inverse', s[i, k], t[i][k], kind)
    s, mg = c.reference_map(ctx.arr(xs), mapsto='reference', **ALL)
    _derivs(ctx, P, mg, n, t, kind, kind == 'rect')
    y = c.reference_map(s, mapsto='physical')
    for i in range(n):
        for k in R2:
            ctx.prove_eq('round-trip', y[i, k], xs[i][k], kind)


def newton_inverse(ctx):
    """bounded: general convex quadrilaterals"""
    ctx.fn('mesh.QuadCell.reference_map')
    P = quad_pts(ctx)
    c = quad_in(ctx, P, alone=True)
    n = ctx.choice('n', [1, 3])
    t = pts01(ctx, n, 2)
    for r in t:
        J = bil_jac(P, *r)
        ctx.assume(J[0][0] * J[1][1] - J[0][1] * J[1][0] > .25)
    xs = [bil(P, *r) for r in t]
    s, mg = c.reference_map(ctx.arr(xs), mapsto='reference', **ALL)
    for i in range(n):
        for k in R2:
            ctx.prove_eq('inverse', s[i, k], t[i][k], P)
    _derivs(ctx, P, mg, n, t, 'quad', False)


def rectangle_flag(ctx):
    """a free cell is treated as a rectangle exactly when its reference axes are the physical axes"""
    ctx.fn('mesh.QuadCell.__init__', 'mesh.QuadCell.is_rectangle', 'mesh.QuadCell.split')
    kind = ctx.choice('kind', ['rect', 'quad'])
    if kind == 'rect':
        c = quad_from(rect_pts(ctx))
        ctx.prove('rectangle', c.is_rectangle())
        c.split()
        for ch in c.get_children():
            ctx.prove('rectangle', ch.is_rectangle())
    else:
        P = quad_pts(ctx)
        not_axis(ctx, P)
        c = quad_from(P)
        ctx.prove('not-a-rectangle', not c.is_rectangle())
        c.split()
        for ch in c.get_children():
            ctx.prove('not-a-rectangle', not ch.is_rectangle())


def edge(ctx, kind):
    m = M()
    x0, y0 = ctx.real('x0', lo=-3, hi=3), ctx.real('y0', lo=-3, hi=3)
    d = ctx.real('d', lo=.1, hi=3)
    e = ctx.real('e', lo=.1, hi=3)
    sg = [ctx.choice('sx', [1, -1]), ctx.choice('sy', [1, -1])]
    v = {'horizontal': (sg[0] * d, 0.0), 'vertical': (0.0, sg[1] * e), 'skew': (sg[0] * d, sg[1] * e)}[kind]
    P = [(x0, y0), (x0 + v[0], y0 + v[1])]
    return edge_in(ctx, P[0], P[1]), P, v


def inner(ctx, n):
    # strictly inside: end points are proved to be accepted in C05 over the reals
    return [ctx.real('t%d' % i, lo=Fr(1, 10) if ctx.sym else .1, hi=Fr(9, 10) if ctx.sym else .9) for i in range(n)]


def edge_map(ctx, kind):
    ctx.fn('mesh.HalfEdge.reference_map', 'mesh.HalfEdge.contains_points', 'mesh.HalfEdge.to_vector')
    he, P, v = edge(ctx, kind)
    n = ctx.choice('n', [1, 2])
    t = inner(ctx, n)
    xs = [[P[0][k] + v[k] * ti for k in R2] for ti in t]
    y = he.reference_map(ctx.arr(t), mapsto='physical')
    ctx.prove('shape', len(y) == n)
    for i in range(n):
        for k in R2:
            ctx.prove_eq('edge-point', y[i][k], xs[i][k])
    y, mg = he.reference_map(ctx.arr(t), mapsto='physical', **ALL)
    s, mh = he.reference_map(ctx.arr(xs), mapsto='reference', **ALL)
    for i in range(n):
        for k in R2:
            ctx.prove_eq('edge-point', y[i][k], xs[i][k])
        ctx.prove_eq('edge-inverse', s[i], t[i])
    for g in (mg, mh):
        for k in ALL:
            ctx.prove('one-derivative-per-point', len(g[k]) == n, k)
        for i in range(n):
            for k in R2:
                ctx.prove_eq('edge-jacobian', g['jac_r2p'][i][k, 0], v[k])
            ctx.prove_eq('edge-jacobian-inverse', sum(g['jac_p2r'][i][0, k] * v[k] for k in R2), 1)
            for a in R2:
                for b in R2:
                    ctx.prove_eq('edge-hessian', g['hess_r2p'][i][a, b], 0)
                    ctx.prove_eq('edge-hessian', g['hess_p2r'][i][a, b], 0)


def edge_position(ctx, kind):
    ctx.fn('mesh.HalfEdge.subcell_position', 'mesh.HalfEdge.length')
    m = M()
    he, P, v = edge(ctx, kind)
    a = inner(ctx, 1)[0]
    b = ctx.real('b', lo=.1, hi=.9)
    ctx.assume(b > a + (Fr(1, 100) if ctx.sym else .01))
    q = [tuple(P[0][k] + v[k] * w for k in R2) for w in (a, b)]
    sub = m.HalfEdge(m.Vertex(q[0]), m.Vertex(q[1]))
    pos, width = he.subcell_position(sub)
    ctx.prove_eq('position', pos, a)
    if ctx.sym:
        # width is a ratio of lengths (square roots): compare squares and signs
        ctx.prove_eq('width', width * width, (b - a) * (b - a))
        ctx.prove('width', width >= 0)
    else:
        ctx.prove_eq('width', width, b - a)
    far = m.HalfEdge(m.Vertex(q[0]), m.Vertex((P[1][0] + v[0], P[1][1] + v[1])))
    try:
        he.subcell_position(far)
        ctx.prove('outside-refused', False)
    except AssertionError:
        ctx.prove('outside-refused', True)


def interval_position(ctx):
    ctx.fn('mesh.Interval.subcell_position')
    I, x0, x1 = interval(ctx)
    a = ctx.real('a', lo=0, hi=1)
    b = ctx.real('b', lo=0, hi=1)
    ctx.assume(b > a)
    sub, y0, y1 = interval(ctx, x0=x0 + (x1 - x0) * a, x1=x0 + (x1 - x0) * b)
    pos, width = I.subcell_position(sub)
    ctx.prove_eq('position', pos, a)
    ctx.prove_eq('width', width, b - a)
    out, _, _ = interval(ctx, x0=x1 + ctx.real('g', lo=.1, hi=1), x1=x1 + 2)
    try:
        I.subcell_position(out)
        ctx.prove('outside-refused', False)
    except AssertionError:
        ctx.prove('outside-refused', True)


CORNER = [(0, 0), (1, 0), (1, 1), (0, 1)]


def one_level(ctx, kind):
    """lemma: the k-th child's map is the parent's map on the k-th quadrant"""
    ctx.fn('mesh.QuadCell.split', 'mesh.HalfEdge.split')
    P = rect_pts(ctx) if kind == 'rect' else quad_pts(ctx)
    if kind == 'quad' and ctx.sym:
        not_axis(ctx, P)
    c = quad_from(P)
    c.split()
    s, t = ctx.real('s', lo=0, hi=1), ctx.real('t', lo=0, hi=1)
    half = Fr(1, 2) if ctx.sym else .5
    for k in range(4):
        y = c.get_child(k).reference_map(ctx.arr([[s, t]]))
        w = bil(P, half * (CORNER[k][0] + s), half * (CORNER[k][1] + t))
        for j in R2:
            ctx.prove_eq('child-map', y[0, j], w[j], 'child %d' % k)


def quad_position(ctx, kind, depth):
    """relative position of a sub-cell, for a free cell and for a cell inside a hierarchy"""
    ctx.fn('mesh.QuadCell.subcell_position', 'mesh.Tree.contains', 'mesh.Tree.get_node_address')
    P = rect_pts(ctx) if kind == 'rect' else quad_pts(ctx)
    if kind == 'quad' and ctx.sym:
        not_axis(ctx, P)
    root = quad_from(P)
    top = ctx.choice('top', [0, 1])
    ref = root
    if top:
        root.split()
        ref = root.get_child(ctx.choice('k', range(4)))
    sub = ref
    for l in range(depth):
        sub.split()
        sub = sub.get_child(ctx.choice('k%d' % l, range(4)))
    pos, width = ref.subcell_position(sub)
    pos = [pos[0], pos[1]]
    for i, (a, b) in enumerate(CORNER):
        y = ref.reference_map(ctx.arr([[pos[0] + a * width, pos[1] + b * width]]))
        for k in R2:
            ctx.prove_eq('position', y[0, k], sub.get_vertex(i).coordinates()[k], 'corner %d' % i)


def quad_position_refused(ctx):
    root = quad_from(rect_pts(ctx))
    root.split()
    for c in root.get_children():
        c.split()
    a, b = ctx.choice('a', range(4)), ctx.choice('b', range(4))
    sub = root.get_child(b).get_child(ctx.choice('c', range(4)))
    try:
        root.get_child(a).subcell_position(sub)
        ok = a == b
    except (AssertionError, IndexError):
        ok = a != b
    ctx.prove('position-refused-exactly-outside', ok)


def harnesses(tier):
    hs = [Harness(interval_map), Harness(interval_position),
          Harness(rectangle_flag, searches=10),
          Harness(newton_inverse, kind='bounded', opts=dict(symbolic=False), searches=150, tol=1e-6,
                  bound='seeded convex quadrilaterals within 0.35 of the unit square, det > 1/4'),
          Harness(quad_position_refused, searches=10)]
    for k in ('rect', 'quad'):
        hs.append(Harness(quad_forward, 'quad-forward-' + k, params=dict(kind=k), searches=20, budget=240, tol=1e-6))
        hs.append(Harness(one_level, 'one-level-' + k, params=dict(kind=k), searches=10))
        for d in (0, 1, 2) + ((3,) if tier == 'thorough' else ()):
            hs.append(Harness(quad_position, 'quad-position-%s-%d' % (k, d), params=dict(kind=k, depth=d), searches=10, budget=300,
                              bound='depth %d of nesting' % d))
    for k in ('rect', 'para'):
        hs.append(Harness(affine_inverse, 'affine-inverse-' + k, params=dict(kind=k), searches=20, budget=240, tol=1e-6))
    for k in ('horizontal', 'vertical', 'skew'):
        hs.append(Harness(edge_map, 'edge-map-' + k, params=dict(kind=k), searches=20))
        hs.append(Harness(edge_position, 'edge-position-' + k, params=dict(kind=k), searches=20))
    return hs
