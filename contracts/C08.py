"""C08 quadrature rules."""
from .common import *

EXPLANATION = ('Every rule offered on intervals and quadrilaterals (1-6 points per direction) is executed over the reals with exact algebraic '
               'square roots; moments are compared with 1/((p+1)(q+1)) for every exponent up to the degree. The six-point rule is stored '
               'with ten digits: its moments are compared to 1e-9. Mapped rules are proved for all intervals, edges, rectangles and (weights, '
               'nodes, area) all parallelograms and non-rectangular convex quadrilaterals; exactness of mapped rules follows because the maps are affine.')
R2 = range(2)
EXACT = dict(exact_sqrt=True, prove_ms=60000)


def G(n, **k):
    return mod('assembler').GaussRule(n, **k)


def _tol(n):
    return 1e-8 if n == 6 else None


def close(ctx, name, a, b, n, note=''):
    if n == 6:
        ctx.prove(name, (a - b < 1e-9) & (b - a < 1e-9), (note, a, b))
    else:
        ctx.prove_eq(name, a, b, note)


def rule_1d(ctx, n):
    ctx.fn('assembler.GaussRule.__init__', 'assembler.GaussRule.nodes', 'assembler.GaussRule.weights', 'assembler.GaussRule.n_nodes')
    how = ctx.choice('how', ['shape', 'element'])
    if how == 'shape':
        g = G(n, shape='interval')
    else:
        fem = mod('fem')
        g = G(n, element=fem.QuadFE(1, ctx.choice('element', ETYPES)))
    x, w = list(g.nodes()), list(g.weights())
    ctx.prove('size', len(x) == n and len(w) == n and g.n_nodes() == n and g.dim() == 1 and g.shape() == 'interval')
    for i in range(n):
        ctx.prove('positive-weight', w[i] > 0)
        ctx.prove('node-inside', (x[i] > 0) & (x[i] < 1))
        for j in range(i):
            ctx.prove('distinct-nodes', (x[i] - x[j]) * (x[i] - x[j]) > (Fr(1, 10 ** 4) if ctx.sym else 1e-4))
    for p in range(2 * n):
        s = sum(w[i] * x[i] ** p for i in range(n))
        close(ctx, 'moment', s, Fr(1, p + 1) if ctx.sym else 1. / (p + 1), n, p)


def rule_2d(ctx, n):
    ctx.fn('assembler.GaussRule.__init__')
    if ctx.choice('how', ['shape', 'element']) == 'shape':
        g = G(n * n, shape='quadrilateral')
    else:
        g = G(n * n, element=mod('fem').QuadFE(2, 'Q2'))
    x, w = g.nodes(), g.weights()
    ctx.prove('size', np.shape(x) == (n * n, 2) and len(w) == n * n and g.n_nodes() == n * n and g.dim() == 2 and g.shape() == 'quadrilateral')
    for i in range(n * n):
        ctx.prove('positive-weight', w[i] > 0)
        for k in R2:
            ctx.prove('node-inside', (x[i][k] > 0) & (x[i][k] < 1))
    if ctx.sym:
        w = [SymReal.lift(v) for v in w]
        x = [[SymReal.lift(v) for v in r] for r in x]
    for p in range(2 * n):
        for q in range(2 * n):
            s = sum(w[i] * x[i][0] ** p * x[i][1] ** q for i in range(n * n))
            close(ctx, 'moment', s, Fr(1, (p + 1) * (q + 1)) if ctx.sym else 1. / ((p + 1) * (q + 1)), n, (p, q))


def refused(ctx):
    ctx.fn('assembler.GaussRule.__init__')
    shape, bad = ctx.choice('what', [('interval', 0), ('interval', 7), ('interval', 16), ('quadrilateral', 2), ('quadrilateral', 3),
                                     ('quadrilateral', 49), ('hexagon', 1)])
    try:
        G(bad, shape=shape)
        ok = False
    except AssertionError:
        ok = True
    ctx.prove('unsupported-rules-are-refused', ok)


def _region(ctx, kind):
    m = M()
    if kind == 'interval':
        I, x0, x1 = interval_in(ctx)
        return I, lambda t: [x0 + (x1 - x0) * t[0]], lambda t: x1 - x0, x1 - x0
    if kind in ('horizontal', 'vertical', 'skew'):
        x0, y0 = ctx.real('x0', lo=-3, hi=3), ctx.real('y0', lo=-3, hi=3)
        lo = Fr(1, 10) if ctx.sym else .1
        d, e = ctx.real('d', lo=lo, hi=3), ctx.real('e', lo=lo, hi=3)
        sx, sy = ctx.choice('sx', [1, -1]), ctx.choice('sy', [1, -1])
        v = {'horizontal': (sx * d, 0), 'vertical': (0, sy * e), 'skew': (sx * d, sy * e)}[kind]
        he = edge_in(ctx, (x0, y0), (x0 if kind == 'vertical' else x0 + v[0], y0 if kind == 'horizontal' else y0 + v[1]))
        L = {'horizontal': d, 'vertical': e}.get(kind)
        if L is None:
            L = (d * d + e * e).sqrt() if ctx.sym else (d * d + e * e) ** .5
        return he, lambda t: [x0 + v[0] * t[0], y0 + v[1] * t[0]], lambda t: L, L
    P = rect_pts(ctx) if kind == 'rect' else quad_pts(ctx)
    if kind == 'quad':
        not_axis(ctx, P)

    def fmap(t):
        w = [(1 - t[0]) * (1 - t[1]), t[0] * (1 - t[1]), t[0] * t[1], (1 - t[0]) * t[1]]
        return [sum(w[i] * P[i][k] for i in range(4)) for k in R2]

    def det(t):
        ds, dt = [-(1 - t[1]), 1 - t[1], t[1], -t[1]], [-(1 - t[0]), -t[0], t[0], 1 - t[0]]
        a, b = [sum(ds[i] * P[i][k] for i in range(4)) for k in R2], [sum(dt[i] * P[i][k] for i in range(4)) for k in R2]
        return a[0] * b[1] - a[1] * b[0]
    S = sum(P[i][0] * P[(i + 1) % 4][1] - P[i][1] * P[(i + 1) % 4][0] for i in range(4))
    return quad_in(ctx, P, alone=kind == 'quad'), fmap, det, (S / 2 if ctx.sym else S / 2.)


def _as_rows(x):
    return [[v for v in (r if np.ndim(r) else [r])] for r in x]


def mapped(ctx, kind):
    """every rule mapped to a region: nodes are the images of the nodes, weights carry the Jacobian, and add up to the size"""
    ctx.fn('assembler.GaussRule.mapped_rule', 'assembler.GaussRule.map_rule', 'mesh.Interval.reference_map',
           'mesh.HalfEdge.reference_map', 'mesh.QuadCell.reference_map')
    reg, fmap, det, size = _region(ctx, kind)
    two = kind in ('rect', 'quad')
    n = ctx.choice('n', [1, 2, 3] if two else [1, 2, 3, 4, 5, 6])
    g = G(n * n if two else n, shape='quadrilateral' if two else 'interval')
    how = ctx.choice('how', ['mapped_rule', 'mapped_rule-derivatives', 'map_rule'])
    if how == 'mapped_rule':
        xg, wg = g.mapped_rule(reg)
    elif how == 'map_rule':
        xg, wg = g.map_rule(reg)
    else:
        want = ctx.choice('derivatives', [dict(jac_p2r=True), dict(hess_p2r=True), dict(jac_p2r=True, hess_p2r=True)])
        xg, wg, mg = g.mapped_rule(reg, **want)
        for k in want:
            ctx.prove('inverse-derivatives-returned', len(mg[k]) == g.n_nodes(), k)
    ref = _as_rows(g.nodes())
    wr = list(g.weights())
    ctx.prove('size', len(xg) == len(ref) and np.shape(wg) == (len(ref),), np.shape(wg))
    for i, t in enumerate(ref):
        y = fmap(t)
        for k, v in enumerate(y):
            ctx.prove_eq('node-is-the-image-of-the-node', np.asarray(xg[i]).reshape(-1)[k], v, kind)
        ctx.prove_eq('weight-carries-the-jacobian', wg[i], wr[i] * det(t), kind)
    if n < 6:
        ctx.prove_eq('weights-add-up-to-the-size', sum(wg), size, kind)
    if how == 'map_rule':
        ts = [[ctx.real('s%d%d' % (i, k), lo=0, hi=1) for k in range(2 if two else 1)] for i in range(2)]
        x = g.map_rule(reg, nodes=ctx.arr(ts) if two else ctx.arr([t[0] for t in ts]))
        for i, t in enumerate(ts):
            for k, v in enumerate(fmap(t)):
                ctx.prove_eq('given-nodes-mapped', np.asarray(x[i]).reshape(-1)[k], v, kind)


def mapped_refuses(ctx):
    ctx.fn('assembler.GaussRule.mapped_rule')
    m = M()
    he = m.HalfEdge(m.Vertex((0, 0)), m.Vertex((1, 1)))
    I = m.Interval(m.Vertex((0,)), m.Vertex((1,)))
    q = quad_from([(0, 0), (1, 0), (1, 1), (0, 1)])
    g, reg = ctx.choice('pair', [(G(4, shape='quadrilateral'), he), (G(4, shape='quadrilateral'), I), (G(2, shape='interval'), q),
                                 (G(2, shape='interval'), m.Vertex((0, 0)))])
    try:
        g.mapped_rule(reg)
        ok = False
    except Exception:
        ok = True
    ctx.prove('incompatible-rule-refused', ok)


def exact_on_region(ctx, kind):
    """end to end: every monomial of the physical variables up to the degree, on every interval / edge / rectangle"""
    ctx.fn('assembler.GaussRule.mapped_rule')
    reg, fmap, det, size = _region(ctx, kind)
    two = kind == 'rect'
    n = ctx.choice('n', [1, 2] if two else [1, 2, 3])
    g = G(n * n if two else n, shape='quadrilateral' if two else 'interval')
    xg, wg = g.mapped_rule(reg)
    X = [list(np.asarray(r).reshape(-1)) for r in xg]
    deg = 2 * n
    if kind == 'interval':
        a, b = fmap([0])[0], fmap([1])[0]
        for p in range(deg):
            ctx.prove_eq('integral', sum(w * x[0] ** p for w, x in zip(wg, X)), (b ** (p + 1) - a ** (p + 1)) / (p + 1), p)
    elif kind == 'rect':
        (a, c), (b, d) = fmap([0, 0]), fmap([1, 1])
        for p in range(deg):
            for q in range(deg):
                ctx.prove_eq('integral', sum(w * x[0] ** p * x[1] ** q for w, x in zip(wg, X)),
                             (b ** (p + 1) - a ** (p + 1)) * (d ** (q + 1) - c ** (q + 1)) / ((p + 1) * (q + 1)), (p, q))
    else:
        a, b = fmap([0]), fmap([1])
        for p in range(deg):
            for q in range(deg - p):
                # int_0^1 (a0+t v0)^p (a1+t v1)^q dt, expanded
                poly = [1]
                for k, e in ((0, p), (1, q)):
                    for _ in range(e):
                        poly = pmul(poly, [a[k], b[k] - a[k]]) if not ctx.sym else _pm(poly, [a[k], b[k] - a[k]])
                ctx.prove_eq('integral', sum(w * x[0] ** p * x[1] ** q for w, x in zip(wg, X)),
                             size * sum(c / (i + 1) for i, c in enumerate(poly)), (p, q))


def _pm(p, q):
    r = [0] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            r[i + j] = r[i + j] + a * b
    return r


def scaled(ctx, dim):
    """rule on a sub-region of the reference cell at a position with a scale"""
    ctx.fn('assembler.GaussRule.scale_rule')
    n = ctx.choice('n', [1, 2, 3])
    g = G(n if dim == 1 else n * n, shape='interval' if dim == 1 else 'quadrilateral')
    s = ctx.real('scale', lo=Fr(1, 100) if ctx.sym else .01, hi=1)
    pos = [ctx.real('pos%d' % k, lo=0, hi=1) for k in range(dim)]
    p = pos[0] if dim == 1 else ctx.arr([pos])
    x, w = g.scale_rule(p, s)
    ref = _as_rows(g.nodes())
    x = _as_rows(x)
    for i, t in enumerate(ref):
        for k in range(dim):
            ctx.prove_eq('scaled-node', x[i][k], pos[k] + s * t[k])
        ctx.prove_eq('scaled-weight', w[i], s ** dim * g.weights()[i])
    ctx.prove_eq('weights-add-up-to-the-size', sum(w), s ** dim)
    t = [[ctx.real('t%d%d' % (i, k), lo=0, hi=1) for k in range(dim)] for i in range(2)]
    y = _as_rows(g.scale_rule(p, s, nodes=ctx.arr(t)))
    for i in range(2):
        for k in range(dim):
            ctx.prove_eq('scaled-given-node', y[i][k], pos[k] + s * t[i][k])


def assembled(ctx, kind):
    """the quadrature the assembler performs on a whole mesh cell: integrals of monomials over the cell and its edges"""
    asm, fn, m = mod('assembler'), mod('function'), M()
    ctx.fn('assembler.Assembler.shape_eval', 'assembler.Assembler.assemble')
    one = kind == '1d'
    x0 = ctx.real('x0', lo=-3, hi=3)
    w = ctx.real('w', lo=Fr(1, 1000) if ctx.sym else .001, hi=5)
    if one:
        mesh = m.Mesh1D(box=[x0, x0 + w], resolution=(1,))
        p = ctx.choice('p', [0, 1, 2, 3])
        f = fn.Explicit(lambda x: x ** p, dim=1)
        want = ((x0 + w) ** (p + 1) - x0 ** (p + 1)) / (p + 1)
    else:
        y0 = ctx.real('y0', lo=-3, hi=3)
        h = ctx.real('h', lo=Fr(1, 1000) if ctx.sym else .001, hi=5)
        mesh = m.QuadMesh(box=[x0, x0 + w, y0, y0 + h], resolution=(1, 1))
        p, q = ctx.choice('pq', [(0, 0), (1, 0), (2, 1), (3, 3)])
        f = fn.Explicit(lambda x: x[:, 0] ** p * x[:, 1] ** q, dim=2)
        X = lambda e: ((x0 + w) ** (e + 1) - x0 ** (e + 1)) / (e + 1)
        Y = lambda e: ((y0 + h) ** (e + 1) - y0 ** (e + 1)) / (e + 1)
        if kind == '2d':
            want = X(p) * Y(q)
        else:
            want = X(p) * (y0 ** q + (y0 + h) ** q) + Y(q) * (x0 ** p + (x0 + w) ** p)
    a = asm.Assembler([asm.Form(kernel=asm.Kernel(f), dmu='ds' if kind == 'edges' else 'dx')], mesh, n_gauss=(2, 4))
    a.assemble()
    ctx.prove_eq('integral-over-the-mesh', a.get_scalar(), want, kind)


def harnesses(tier):
    H = Harness
    out = [H(rule_1d, 'rule_1d-%d' % n, params=dict(n=n), opts=EXACT if n < 6 else {}, searches=10) for n in range(1, 7)]
    out += [H(rule_2d, 'rule_2d-%d' % n, params=dict(n=n), opts=EXACT if n < 6 else {}, searches=4, heavy=n > 3, budget=300) for n in range(1, 7)]
    out += [H(refused), H(mapped_refuses)]
    out += [H(mapped, 'mapped-' + k, params=dict(kind=k), opts=dict(EXACT, guard=True, feas_ms=500) if k == 'quad' else EXACT, budget=300) for k in ('interval', 'horizontal', 'vertical', 'skew', 'rect', 'quad')]
    out += [H(exact_on_region, 'exact-' + k, params=dict(kind=k), opts=EXACT) for k in ('interval', 'horizontal', 'vertical', 'skew', 'rect')]
    out += [H(scaled, 'scaled-%dd' % d, params=dict(dim=d)) for d in (1, 2)]
    out += [H(assembled, 'assembled-' + k, params=dict(kind=k), opts=dict(EXACT, guard=True, feas_ms=700) if k == 'edges' else EXACT, budget=300) for k in ('1d', '2d', 'edges')]
    return out
