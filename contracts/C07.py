"""C07 shape functions: Lagrange basis, derivatives, chain rule on cells."""
from .common import *

TRUSTED = []
EXPLANATION = ('Every shape function of every element, its first and second derivatives on the reference cell and mapped '
               'to a cell, is proved equal to the Lagrange polynomial of the documented node table for all points of the '
               'reference cell; point counts are enumerated (1, 2, 3), coordinates are symbolic.')


def ders(dim):
    if dim == 1:
        return [(0,), (1, 0), (2, 0, 0)]
    return [(0,), (1, 0), (1, 1), (2, 0, 0), (2, 0, 1), (2, 1, 0), (2, 1, 1)]


def node_table(ctx, dim, et):
    fem = mod('fem')
    e = fem.QuadFE(dim, et)
    deg = int(et[-1])
    nodes = NODES[(dim, deg)]
    ctx.fn('fem.QuadFE.__init__', 'fem.QuadFE.n_dofs', 'fem.QuadFE.reference_nodes', 'mesh.RInterval', 'mesh.RQuadCell')
    ctx.prove('node-count', e.n_dofs() == len(nodes))
    x = e.reference_nodes()
    ctx.prove('node-shape', x.shape == (len(nodes), dim), x.shape)
    for i, nd in enumerate(nodes):
        nd = nd if dim == 2 else (nd,)
        for k in range(dim):
            ctx.prove_eq('node-position', x[i, k], float(nd[k]), 'node %d coordinate %d of %s' % (i, k, et))
    ctx.prove('polynomial-degree', e.polynomial_degree() == deg)
    ctx.prove('torn', e.torn_element() == (et[0] == 'D'))
    # shape functions are nodal at the element's own reference nodes
    p = e.shape(x)
    for i in range(len(nodes)):
        for j in range(len(nodes)):
            ctx.prove_eq('nodal', p[i, j], 1 if i == j else 0, 'shape %d at node %d' % (j, i))


def _points(ctx, dim, deg):
    n = ctx.choice('n', [1, 2, 3])
    return n, pts01(ctx, n, dim)


def reference(ctx, dim, et):
    fem = mod('fem')
    e = fem.QuadFE(dim, et)
    P = basis_polys(dim, int(et[-1]))
    ctx.fn('fem.QuadFE.shape', 'fem.QuadFE.phi', 'fem.QuadFE.dphi', 'fem.QuadFE.d2phi', 'mesh.convert_to_array')
    n, t = _points(ctx, dim, int(et[-1]))
    D = ders(dim)
    mode = ctx.choice('mode', ['list', 'single', 'subset'])
    if mode == 'list':
        out = e.shape(ctx.arr(t), derivatives=list(D))
        ctx.prove('result-is-list', type(out) is list and len(out) == len(D))
        loc = range(len(P))
    elif mode == 'single':
        D = [ctx.choice('der', D)]
        out = [e.shape(ctx.arr(t), derivatives=D[0])]
        loc = range(len(P))
    else:
        loc = ctx.choice('loc', [[len(P) - 1], list(range(len(P) - 1, -1, -2)), [0, len(P) - 1, 0]])
        out = e.shape(ctx.arr(t), derivatives=list(D), local_dofs=list(loc))
    for d, p in zip(D, out):
        ctx.prove('result-shape', np.shape(p) == (n, len(loc)), np.shape(p))
        for i in range(n):
            for j, k in enumerate(loc):
                ctx.prove_eq('lagrange' if d == (0,) else 'derivative', p[i, j], shape_val(P[k], t[i], d[1:]),
                             'derivative %s of shape %d of %s' % (d, k, et))


def sums(ctx, dim, et):
    """partition of unity and vanishing derivative sums follow for all points"""
    fem = mod('fem')
    e = fem.QuadFE(dim, et)
    t = pts01(ctx, 1, dim)
    p, px = e.shape(ctx.arr(t), derivatives=[(0,), (1, 0)])
    ctx.prove_eq('partition-of-unity', sum(p[0, :]), 1)
    ctx.prove_eq('derivatives-sum-to-zero', sum(px[0, :]), 0)


class _Cell(object):
    pass


def mapped(ctx, dim, et, kind):
    """shape on a cell = chain rule for ANY Jacobian/Hessian of the inverse map"""
    fem = mod('fem')
    e = fem.QuadFE(dim, et)
    deg = int(et[-1])
    P = basis_polys(dim, deg)
    ctx.fn('fem.QuadFE.shape')
    n = ctx.choice('n', [1, 2])
    t = pts01(ctx, n, dim)
    D = ders(dim)
    if kind == 'interval':
        cell, x0, x1 = interval_in(ctx)
        J = [ctx.real('J%d' % i) for i in range(n)]
        H = [0.0] * n
        Jm = [[[j]] for j in J]
        Hm = [[[[0]]]] * n
    else:
        pts = rect_pts(ctx) if kind == 'rect' else [(0.0, 0.0), (2.0, 0.5), (2.5, 3.0), (-0.5, 2.0)]
        cell = quad_in(ctx, pts)
        ctx.prove('cell-kind', cell.is_rectangle() == (kind == 'rect'))
        if kind == 'rect':
            Jm = [[[ctx.real('J%d0' % i), 0], [0, ctx.real('J%d1' % i)]] for i in range(n)]
            Hm = [[[[0, 0], [0, 0]], [[0, 0], [0, 0]]] for i in range(n)]
        else:
            Jm = [[[ctx.real('J%d%d%d' % (i, a, b)) for b in (0, 1)] for a in (0, 1)] for i in range(n)]
            # hess[i,j,k]: second derivative of reference coordinate k w.r.t. x_i, x_j (symmetric)
            Hm = []
            for i in range(n):
                h = {}
                for k in (0, 1):
                    for ab in ((0, 0), (0, 1), (1, 1)):
                        h[ab + (k,)] = ctx.real('H%d_%d%d%d' % ((i,) + ab + (k,)))
                Hm.append([[[h[(min(a, b), max(a, b), k)] for k in (0, 1)] for b in (0, 1)] for a in (0, 1)])
        J = [ctx.arr(x) for x in Jm]
        H = [ctx.arr(x) for x in Hm]
    loc = 'all' if deg < 3 or dim == 1 else ctx.choice('loc', [[0, 2, 5, 8], [11, 12, 14, 3], [1, 7, 1]])
    out = e.shape(ctx.arr(t), cell=cell, derivatives=D, jac_p2r=J, hess_p2r=H,
                  local_dofs=loc if loc == 'all' else list(loc))
    loc = range(len(P)) if loc == 'all' else loc
    for d, p in zip(D, out):
        ctx.prove('result-shape', np.shape(p) == (n, len(loc)), np.shape(p))
        for i in range(n):
            for j, k in enumerate(loc):
                v = lambda *der: shape_val(P[k], t[i], der)
                R = range(dim)
                if d[0] == 0:
                    w = v()
                elif d[0] == 1:
                    w = sum(v(a) * Jm[i][a][d[1]] for a in R)
                else:
                    w = sum(v(a, b) * Jm[i][a][d[1]] * Jm[i][b][d[2]] for a in R for b in R) + \
                        sum(v(a) * Hm[i][d[1]][d[2]][a] for a in R)
                ctx.prove_eq('chain-rule', p[i, j], w, 'derivative %s of shape %d of %s on %s' % (d, k, et, kind))


def requires(ctx, dim, et):
    """asking for derivatives on a cell without the map's derivatives, or outside the reference cell, is refused"""
    fem = mod('fem')
    e = fem.QuadFE(dim, et)
    if dim == 1:
        cell, _, _ = interval(ctx)
    else:
        cell = quad_from(rect_pts(ctx))
    t = pts01(ctx, 1, dim)
    for d, kw in (((1, 0), {}), ((2, 0, 0), dict(jac_p2r=[1]))):
        try:
            e.shape(ctx.arr(t), cell=cell, derivatives=d, **kw)
            ctx.prove('missing-map-derivative-refused', False)
        except AssertionError:
            ctx.prove('missing-map-derivative-refused', True)
    bad = ctx.real('bad', sample=lambda r: r.choice([-1.0, 1.5]))
    ctx.assume((bad < 0) | (bad > 1))
    row = list(t[0])
    row[ctx.choice('k', list(range(dim)))] = bad
    try:
        e.shape(ctx.arr([row]))
        ctx.prove('outside-refused', False)
    except AssertionError:
        ctx.prove('outside-refused', True)


def parse(ctx):
    fem = mod('fem')
    ctx.fn('fem.parse_derivative_info')
    T = {'v': (0,), 'ux': (1, 0), 'qy': (1, 1), 'vxx': (2, 0, 0), 'vxy': (2, 0, 1), 'uyx': (2, 1, 0), 'vyy': (2, 1, 1)}
    for s, t in T.items():
        ctx.prove('derivative-code', fem.parse_derivative_info(s) == t and fem.parse_derivative_info(t) == t, s)
    for s in ('vz', 'vxz', 'vxxx'):
        try:
            fem.parse_derivative_info(s)
            ok = False
        except Exception:
            ok = True
        ctx.prove('bad-derivative-code-refused', ok, s)


def harnesses(tier):
    hs = [Harness(parse)]
    for dim in (1, 2):
        for et in ETYPES:
            k = dict(dim=dim, et=et)
            s = '%dd-%s' % (dim, et)
            hs.append(Harness(node_table, 'nodes-' + s, params=k, searches=1))
            hs.append(Harness(reference, 'reference-' + s, params=k, searches=10, budget=300))
            hs.append(Harness(sums, 'sums-' + s, params=k, searches=5))
            for kind in (['interval'] if dim == 1 else ['rect', 'quad']):
                hs.append(Harness(mapped, 'mapped-%s-%s' % (kind, s), params=dict(k, kind=kind), searches=8, budget=300))
        hs.append(Harness(requires, 'requires-%dd' % dim, params=dict(dim=dim, et='Q1'), searches=5))
    return hs
