"""C02 splitting tiles the parent; lengths, areas, normals."""
from .common import *

EXPLANATION = 'All intervals, edges and convex quadrilaterals (symbolic coordinates); number of children of an interval 2-4.'
R2 = range(2)


def H(ctx):
    return Fr(1, 2) if ctx.sym else .5


def interval_split(ctx):
    m = M()
    ctx.fn('mesh.Interval.split', 'mesh.Interval.__init__')
    k = ctx.choice('k', [2, 3, 4])
    x0, x1 = ctx.real('x0', lo=-3, hi=3), None
    w = ctx.real('w', pos=True)
    x1 = x0 + w
    I = m.Interval(m.Vertex(x0), m.Vertex(x1), n_children=k)
    if ctx.choice('arg', [False, True]):
        I.split(n_children=k)
    else:
        I.split()
    ch = list(I.get_children())
    ctx.prove('number-of-children', len(ch) == k and I.n_children() == k)
    ctx.prove('end-vertices-kept', ch[0].base() is I.base() and ch[-1].head() is I.head())
    tot = 0
    for i, c in enumerate(ch):
        ctx.prove('child-links', c.get_parent() is I and c.get_node_position() == i and I.get_child(i) is c)
        a, = c.base().coordinates()
        b, = c.head().coordinates()
        ctx.prove_eq('equal-parts', a, x0 + (x1 - x0) * i / k)
        ctx.prove_eq('equal-parts', b, x0 + (x1 - x0) * (i + 1) / k)
        ctx.prove('orientation-kept', ctx.lt(a, b))
        tot = tot + (b - a)
        if i:
            ctx.prove('shared-vertex', c.base() is ch[i - 1].head())
            ctx.prove('chain', c.previous() is ch[i - 1] and ch[i - 1].next() is c)
        ctx.prove('child-unsplit', not c.has_children())
    ctx.prove_eq('lengths-add-up', tot, x1 - x0)


def mk_edge(ctx, dim=2, anywhere=True):
    m = M()
    p = tuple(ctx.real('p%d' % i, lo=-3, hi=3) for i in range(dim))
    v = tuple(ctx.real('v%d' % i, lo=-3, hi=3) for i in range(dim))
    n2 = sum(x * x for x in v)
    ctx.assume(n2 > (Fr(1, 10000) if ctx.sym else 1e-4))
    q = tuple(a + b for a, b in zip(p, v))
    return (edge_in(ctx, p, q) if anywhere else m.HalfEdge(m.Vertex(p), m.Vertex(q))), p, v, q


def edge_measures(ctx):
    ctx.fn('mesh.HalfEdge.to_vector', 'mesh.HalfEdge.length', 'mesh.HalfEdge.unit_normal')
    he, p, v, q = mk_edge(ctx)
    w = he.to_vector()
    for k in R2:
        ctx.prove_eq('direction', w[k], v[k])
    L = he.length()
    ctx.prove_eq('length', L * L, v[0] * v[0] + v[1] * v[1])
    ctx.prove('length', L >= 0)
    n = he.unit_normal()
    ctx.prove_eq('unit', n[0] * n[0] + n[1] * n[1], 1)
    ctx.prove_eq('orthogonal', n[0] * v[0] + n[1] * v[1], 0)
    ctx.prove('points-right', v[0] * n[1] - v[1] * n[0] < 0)


def edge_split(ctx):
    m = M()
    ctx.fn('mesh.HalfEdge.split', 'mesh.HalfEdge.make_twin', 'mesh.HalfEdge.assign_twin')
    he, p, v, q = mk_edge(ctx, anywhere=False)
    case = ctx.choice('twin', ['none', 'unsplit', 'split', 'periodic'])
    tw = None
    if case in ('unsplit', 'split'):
        tw = he.make_twin()
        ctx.prove('twins', tw.twin() is he and he.twin() is tw and tw.base() is he.head() and tw.head() is he.base())
        if case == 'split':
            tw.split()
    elif case == 'periodic':
        sh = (ctx.real('s0'), ctx.real('s1'))
        tw = m.HalfEdge(m.Vertex((q[0] + sh[0], q[1] + sh[1])), m.Vertex((p[0] + sh[0], p[1] + sh[1])), periodic=True)
        he.set_periodic()
        he.assign_twin(tw)
        tw.assign_twin(he)
        tw.split()
    he.split()
    a, b = he.get_child(0), he.get_child(1)
    ctx.prove('end-vertices-kept', a.base() is he.base() and b.head() is he.head())
    ctx.prove('shared-vertex', a.head() is b.base())
    for k in R2:
        ctx.prove_eq('midpoint', a.head().coordinates()[k], (p[k] + q[k]) * H(ctx))
        ctx.prove_eq('half-vector', a.to_vector()[k], v[k] * H(ctx))
        ctx.prove_eq('half-vector', b.to_vector()[k], v[k] * H(ctx))
    for i, c in enumerate((a, b)):
        ctx.prove('child-links', c.get_parent() is he and c.get_node_position() == i)
        ctx.prove('periodicity-inherited', c.is_periodic() == he.is_periodic())
    if case in ('split', 'periodic'):
        t0, t1 = tw.get_child(0), tw.get_child(1)
        ctx.prove('twins', a.twin() is t1 and b.twin() is t0 and t1.twin() is a and t0.twin() is b)
        if case == 'split':
            ctx.prove('shared-vertex', a.head() is t0.head())
        else:
            for k in R2:
                ctx.prove_eq('periodic-shift', t0.head().coordinates()[k] - a.head().coordinates()[k], sh[k])
    else:
        ctx.prove('twins', a.twin() is None and b.twin() is None)
    if case == 'unsplit':
        tw.split()
        t0, t1 = tw.get_child(0), tw.get_child(1)
        ctx.prove('twins', a.twin() is t1 and b.twin() is t0 and t1.twin() is a and t0.twin() is b)
        ctx.prove('shared-vertex', a.head() is t0.head())


def shoelace(P):
    n = len(P)
    return sum(P[i][0] * P[(i + 1) % n][1] - P[(i + 1) % n][0] * P[i][1] for i in range(n))


def cell_pts(ctx, kind):
    return rect_pts(ctx) if kind == 'rect' else quad_pts(ctx)


def quad_split(ctx, kind):
    m = M()
    ctx.fn('mesh.QuadCell.split', 'mesh.QuadCell.__init__', 'mesh.Cell.area', 'mesh.HalfEdge.split')
    P = cell_pts(ctx, kind)
    if kind == 'quad' and ctx.sym:
        not_axis(ctx, P)
    c = quad_from(P)
    pre = ctx.choice('presplit', [[], [1], [0, 2]])
    for i in pre:
        c.get_half_edge(i).split()
    mids = {i: c.get_half_edge(i).get_child(0).head() for i in pre}
    flag = ctx.choice('flag', [None, 'f'])
    c.split(flag) if flag else c.split()
    ch = list(c.get_children())
    ctx.prove('number-of-children', len(ch) == 4 and all(isinstance(x, m.QuadCell) for x in ch))
    h = H(ctx)
    mid = [[(P[i][k] + P[(i + 1) % 4][k]) * h for k in R2] for i in range(4)]
    cen = [(P[0][k] + P[1][k] + P[2][k] + P[3][k]) * h * h for k in R2]
    tot = 0
    for i, x in enumerate(ch):
        ctx.prove('child-links', x.get_parent() is c and x.get_node_position() == i)
        # vertices start at the corner that plays the same role: vertex i of child i is vertex i of the parent
        want = [None] * 4
        want[i] = P[i]
        want[(i + 1) % 4] = mid[i]
        want[(i + 2) % 4] = cen
        want[(i + 3) % 4] = mid[(i - 1) % 4]
        for j in range(4):
            for k in R2:
                ctx.prove_eq('child-vertices', x.get_vertex(j).coordinates()[k], want[j][k], 'vertex %d of child %d' % (j, i))
        ctx.prove('shared-vertex', x.get_vertex(i) is c.get_vertex(i))
        ctx.prove('shared-vertex', x.get_vertex((i + 2) % 4) is ch[0].get_vertex(2))
        ctx.prove('shared-vertex', x.get_vertex((i + 1) % 4) is ch[(i + 1) % 4].get_vertex(i))
        if i in mids:
            ctx.prove('shared-vertex', x.get_vertex((i + 1) % 4) is mids[i])
        a = x.area()
        ctx.prove_eq('area', 2 * a, shoelace(want))
        ctx.prove('orientation-kept', a > 0)
        tot = tot + a
        ctx.prove('marked-as-asked', x.is_marked('f') == (flag == 'f'))
        # half-edges of the child close up and belong to it
        for j in range(4):
            e = x.get_half_edge(j)
            ctx.prove('edges-closed', e.cell() is x and e.next() is x.get_half_edge((j + 1) % 4) and
                      e.next().previous() is e and e.head() is e.next().base())
        # outer edges are the children of the parent's edges; inner edges are paired with the sibling
        ctx.prove('outer-edges', x.get_half_edge(i) is c.get_half_edge(i).get_child(0) and
                  x.get_half_edge((i + 3) % 4) is c.get_half_edge((i - 1) % 4).get_child(1))
        e = x.get_half_edge((i + 1) % 4)
        sib = ch[(i + 1) % 4]
        f = e.twin()
        ctx.prove('inner-twins', f is not None and f.twin() is e and f.cell() is sib and f.base() is e.head() and f.head() is e.base())
    ctx.prove_eq('areas-add-up', tot, c.area())
    ctx.prove_eq('area', 2 * c.area(), shoelace(P))
    ctx.prove('parent-kept', all(c.get_vertex(j).coordinates()[k] is P[j][k] or not ctx.sym for j in range(4) for k in R2))
    try:
        c.split()
        ok = False
    except AssertionError:
        ok = True
    ctx.prove('second-split-refused', ok and list(c.get_children()) == ch)


def neighbours_split(ctx):
    """two cells sharing an edge stay glued, whichever is split first"""
    m = M()
    ctx.fn('mesh.QuadCell.split', 'mesh.HalfEdge.split')
    P = rect_pts(ctx)
    w2 = ctx.real('w2', lo=Fr(1, 1000) if ctx.sym else .001)
    Q = [P[1], (P[1][0] + w2, P[1][1]), (P[2][0] + w2, P[2][1]), P[2]]
    v = [m.Vertex(p) for p in P]
    u = [v[1], m.Vertex(Q[1]), m.Vertex(Q[2]), v[2]]
    hp = [m.HalfEdge(v[i], v[(i + 1) % 4]) for i in range(4)]
    hq = [m.HalfEdge(u[i], u[(i + 1) % 4]) for i in range(3)] + [hp[1].make_twin()]
    c, d = m.QuadCell(hp), m.QuadCell(hq)
    for x in ctx.choice('order', [(c, d), (d, c)]):
        x.split()
    a, b = hp[1].get_child(0), hp[1].get_child(1)
    s, t = hq[3].get_child(0), hq[3].get_child(1)
    ctx.prove('twins', a.twin() is t and t.twin() is a and b.twin() is s and s.twin() is b)
    ctx.prove('shared-vertex', a.head() is s.head())
    ctx.prove('twin-cells', a.cell() is c.get_child(1) and t.cell() is d.get_child(0) and
              b.cell() is c.get_child(2) and s.cell() is d.get_child(3))


def polygon(ctx):
    """area, bounding box and vertex access of a cell"""
    m = M()
    ctx.fn('mesh.Cell.area', 'mesh.Cell.bounding_box', 'mesh.Cell.incident_half_edge', 'mesh.Cell.get_vertices',
           'mesh.Cell.check_winding_order')
    k = ctx.choice('kind', ['quad', 'tri'])
    P = quad_pts(ctx)
    if k == 'tri':
        P = [P[0], P[1], P[3]]
    n = len(P)
    v = [m.Vertex(p) for p in P]
    hs = [m.HalfEdge(v[i], v[(i + 1) % n]) for i in range(n)]
    c = m.Cell(hs)
    ctx.prove_eq('area', 2 * c.area(), shoelace(P))
    ctx.prove('vertices', c.get_vertices() == v and c.n_vertices() == n and all(c.get_vertex(i) is v[i] for i in range(n)))
    for i in range(n):
        ctx.prove('incident-edge', c.incident_half_edge(v[i]) is hs[i - 1] and c.incident_half_edge(v[i], reverse=True) is hs[i])
    ctx.prove('incident-edge', c.incident_half_edge(m.Vertex((0.0, 0.0))) is None)
    w = [v[i] for i in reversed(range(n))]
    try:
        m.Cell([m.HalfEdge(w[i], w[(i + 1) % n]) for i in range(n)])
        ok = False
    except AssertionError:
        ok = True
    ctx.prove('clockwise-refused', ok)


def box(ctx):
    m = M()
    ctx.fn('mesh.Cell.bounding_box')
    P = quad_pts(ctx)
    v = [m.Vertex(p) for p in P]
    c = m.Cell([m.HalfEdge(v[i], v[(i + 1) % 4]) for i in range(4)])
    b = c.bounding_box()
    for k in R2:
        lo, hi = b[2 * k], b[2 * k + 1]
        for p in P:
            ctx.prove('box-contains', ctx.le(lo, p[k]))
            ctx.prove('box-contains', ctx.le(p[k], hi))
        o = [ctx.eq(lo, p[k]) for p in P], [ctx.eq(hi, p[k]) for p in P]
        for x in o:
            r = x[0]
            for y in x[1:]:
                r = r | y
            ctx.prove('box-tight', r)


def harnesses(tier):
    return [Harness(interval_split), Harness(edge_measures), Harness(edge_split), Harness(neighbours_split, searches=15),
            Harness(quad_split, 'quad-split-rect', params=dict(kind='rect'), searches=15),
            Harness(quad_split, 'quad-split-quad', params=dict(kind='quad'), searches=15, budget=300),
            Harness(polygon), Harness(box, budget=300)]
