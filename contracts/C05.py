"""C05 containment, intersection and binning of points."""
from .common import *

EXPLANATION = ('Containment: every interval, edge (horizontal, vertical, skew), strictly convex quadrilateral and triangle, every point '
               '(outside by more than the tolerance 1e-9). Intersection: every pair of segments, cells by axis-aligned boxes and by the '
               'contract of the edge test. Binning by induction on the hierarchy: the body of bin_points is proved against the contract '
               'of bin_points on its children / parent (arbitrary marks, arbitrary covering membership), together with the covering lemma.')
ASSUMPTIONS = ['a sub-mesh contains either all or none of the children of a cell, except where its roots are torn off']
R2 = range(2)


def tol(ctx, k=9):
    return Fr(1, 10 ** k) if ctx.sym else 10. ** -k


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def sub(a, b):
    return [a[0] - b[0], a[1] - b[1]]


# ------------------------------------------------------------------ containment
def interval_contains(ctx):
    ctx.fn('mesh.Interval.contains_points')
    I, x0, x1 = interval_in(ctx)
    n = ctx.choice('n', [1, 2, 3])
    x = [ctx.real('x%d' % i, sample=lambda r: r.uniform(-4, 6)) for i in range(n)]
    if ctx.choice('end', [False, True]):
        x[0] = ctx.choice('which', [x0, x1])
    fmt = ctx.choice('fmt', ['col', 'list', 'tuples', 'vertices'])
    arg = {'col': lambda: ctx.arr([[v] for v in x]), 'list': lambda: ctx.arr(x), 'tuples': lambda: [(v,) for v in x],
           'vertices': lambda: [M().Vertex((v,)) for v in x]}[fmt]()
    r = I.contains_points(arg)
    ctx.prove('shape', np.shape(r) == (n,), r)
    for i in range(n):
        ctx.prove('closed-interval', bool(r[i]) == bool((x[i] >= x0) & (x[i] <= x1)))


def _cell_contains(ctx, c, P, name):
    """membership: exactly the closed cell, up to the tolerance outside"""
    k = len(P)
    n = ctx.choice('n', [1, 2] if name == 'rect' else [1])
    kinds = [ctx.choice('kind%d' % i, ['in'] + ['out%d' % j for j in range(k)]) for i in range(n)]
    xs = []
    for i, kd in enumerate(kinds):
        x = [ctx.real('x%d_%d' % (i, j), sample=lambda r: r.uniform(-1, 2)) for j in R2]
        g = [cross(sub(P[(j + 1) % k], P[j]), sub(x, P[j])) for j in range(k)]
        for j in range(k):
            if kd == 'in':
                ctx.assume(g[j] >= 0)
            elif kd == 'out%d' % j:
                ctx.assume(g[j] < -tol(ctx))
        xs.append(x)
    r = c.contains_points(ctx.arr(xs))
    ctx.prove('shape', np.shape(r) == (n,), r)
    for i, kd in enumerate(kinds):
        ctx.prove('contains-' + ('inside' if kd == 'in' else 'outside'), bool(r[i]) == (kd == 'in'), (name, kd))


def quad_contains(ctx, kind):
    ctx.fn('mesh.Cell.contains_points', 'mesh.Cell.get_half_edges')
    P = rect_pts(ctx) if kind == 'rect' else quad_pts(ctx)
    rot = ctx.choice('start', [0, 1]) if kind == 'rect' else 0
    if kind == 'quad':
        not_axis(ctx, P)
    _cell_contains(ctx, quad_in(ctx, P[rot:] + P[:rot], alone=kind == 'quad'), P, kind)


def tri_contains(ctx):
    ctx.fn('mesh.Cell.contains_points')
    m = M()
    P = [(ctx.real('x%d' % i), ctx.real('y%d' % i)) for i in range(3)]
    ctx.assume(cross(sub(P[1], P[0]), sub(P[2], P[0])) > tol(ctx, 3))
    vs = [m.Vertex(p) for p in P]
    c = m.Cell([m.HalfEdge(vs[i], vs[(i + 1) % 3]) for i in range(3)])
    _cell_contains(ctx, c, P, 'triangle')


def image_inside(ctx):
    """lemma: the image of the reference square under the bilinear map satisfies the half-plane conditions of the cell"""
    P = quad_pts(ctx)
    not_axis(ctx, P)
    c = quad_from(P)
    s, t = pts01(ctx, 1, 2)[0]
    ctx.fn('mesh.Cell.contains_points', 'mesh.QuadCell.reference_map')
    w = [(1 - s) * (1 - t), s * (1 - t), s * t, (1 - s) * t]
    x = [sum(w[i] * P[i][k] for i in range(4)) for k in R2]
    for j in range(4):
        ctx.prove('image-left-of-every-edge', ctx.le(0, cross(sub(P[(j + 1) % 4], P[j]), sub(x, P[j]))))
    ctx.prove('image-contained', bool(c.contains_points(ctx.arr([x]))[0]))


def sub_covering(ctx, kind, quadrant):
    """lemma: a point of the parent is in at least one of its children, a point of a child is in the parent"""
    ctx.fn('mesh.QuadCell.split', 'mesh.Cell.contains_points')
    P = quad_pts(ctx)
    not_axis(ctx, P)
    c = quad_from(P)
    s, t = pts01(ctx, 1, 2)[0]
    c.split()
    w = [(1 - s) * (1 - t), s * (1 - t), s * t, (1 - s) * t]
    x = [sum(w[i] * P[i][k] for i in range(4)) for k in R2]
    half = Fr(1, 2) if ctx.sym else .5
    i, j = quadrant
    for z, side in ((s, i), (t, j)):
        ctx.assume(z >= half if side else z <= half)
    ch = [k for k in c.get_children() if k.get_vertex(0) is not None]
    # the child that owns corner (i,j) of the parent
    corner = c.get_vertices()[{(0, 0): 0, (1, 0): 1, (1, 1): 2, (0, 1): 3}[(i, j)]]
    own = [k for k in ch if corner in k.get_vertices()]
    ctx.prove('one-child-per-corner', len(own) == 1)
    V = [v.coordinates() for v in own[0].get_vertices()]
    for e in range(4):
        g = cross(sub(V[(e + 1) % 4], V[e]), sub(x, V[e]))
        ctx.prove('covered-by-the-child-of-its-quadrant', ctx.le(0, g + (0 if ctx.sym else 1e-12)))
    ctx.prove('child-contains', bool(own[0].contains_points(ctx.arr([x]))[0]))


def mk_edge(ctx, kind):
    m = M()
    d, e = ctx.real('d', lo=tol(ctx, 2), hi=5), ctx.real('e', lo=tol(ctx, 2), hi=5)
    sx, sy = ctx.choice('sx', [1, -1]), ctx.choice('sy', [1, -1])
    x0, y0 = ctx.real('x0', lo=-3, hi=3), ctx.real('y0', lo=-3, hi=3)
    if kind == '1d':
        return m.HalfEdge(m.Vertex((x0,)), m.Vertex((x0 + sx * d,))), (x0, 0), (sx * d, 0)
    v = {'horizontal': (sx * d, 0), 'vertical': (0, sy * e), 'skew': (sx * d, sy * e)}[kind]
    p = (x0, y0)
    q = (x0 if kind == 'vertical' else x0 + v[0], y0 if kind == 'horizontal' else y0 + v[1])
    return edge_in(ctx, p, q), p, v


def edge_contains(ctx, kind):
    ctx.fn('mesh.HalfEdge.contains_points', 'mesh.HalfEdge.to_vector')
    he, p, v = mk_edge(ctx, kind)
    n = ctx.choice('n', [1, 2])
    xs, want = [], []
    for i in range(n):
        t = ctx.real('t%d' % i, sample=lambda r: r.uniform(-1, 2))
        cs = ctx.choice('case%d' % i, ['on', 'end', 'beyond', 'off'] if kind != '1d' else ['on', 'end', 'beyond'])
        eps = 0
        if cs == 'on':
            lo = 0 if ctx.sym else 1e-6
            ctx.assume(t >= lo)
            ctx.assume(t <= 1 - lo)
        elif cs == 'end':
            t = ctx.choice('endpoint%d' % i, [0, 1]) if ctx.sym or kind != 'skew' else .5
        elif cs == 'beyond':
            ctx.assume((t < 0) | (t > 1) if ctx.sym else (t < -1e-9 or t > 1 + 1e-9))
        else:
            eps = ctx.real('off%d' % i, sample=lambda r: r.choice([-1, 1]) * 10 ** r.uniform(-6, 0))
            ctx.assume((eps >= tol(ctx, 6)) | (eps <= -tol(ctx, 6)))
        x = [p[0] + t * v[0] - eps * v[1], p[1] + t * v[1] + eps * v[0]]
        xs.append(x[:1] if kind == '1d' else x)
        want.append(cs in ('on', 'end'))
    r = he.contains_points(ctx.arr(xs))
    ctx.prove('shape', np.shape(r) == (n,), r)
    for i in range(n):
        ctx.prove('edge-contains-exactly-its-points', bool(r[i]) == want[i], kind)


# ------------------------------------------------------------------ intersections
def segments(ctx, case):
    """edge p + t r, segment q + u s with every relative position"""
    ctx.fn('mesh.HalfEdge.intersects_line_segment')
    m = M()
    S = lambda rnd: rnd.uniform(-2, 2)
    R = lambda n: ctx.real(n, sample=S)
    p, r = (R('px'), R('py')), (R('rx'), R('ry'))
    ctx.assume(r[0] * r[0] + r[1] * r[1] > tol(ctx, 4))
    if case == 'crossing':
        s = (R('sx'), R('sy'))
        D = cross(r, s)
        sg = ctx.choice('side', [1, -1])
        ctx.assume(sg * D > tol(ctx, 6))
        t, u = R('t'), R('u')
        q = [p[k] + t * r[k] - u * s[k] for k in R2]
        want = (t >= 0) & (t <= 1) & (u >= 0) & (u <= 1)
        if not ctx.sym:
            ctx.assume(min(abs(t), abs(1 - t), abs(u), abs(1 - u)) > 1e-9)
    else:
        l = R('l')
        s = (l * r[0], l * r[1])
        t = R('t')
        off = 0
        if case == 'parallel':
            off = R('off')
            ctx.assume(off * off > tol(ctx, 4))
            want = False
        else:
            t1 = t + l
            want = ((t >= 0) | (t1 >= 0)) & ((t <= 1) | (t1 <= 1))
            if not ctx.sym:
                ctx.assume(min(abs(t), abs(1 - t), abs(t1), abs(1 - t1)) > 1e-9)
        q = [p[0] + t * r[0] - off * r[1], p[1] + t * r[1] + off * r[0]]
        if not ctx.sym:      # rounding decides whether a machine edge and segment are parallel
            ctx.assume(abs(cross([p[k] + r[k] - p[k] for k in R2], [q[k] + s[k] - q[k] for k in R2])) < 1e-14)
            if case == 'collinear':
                ctx.assume(abs(cross(sub(q, p), r)) < 1e-14)
    he = edge_in(ctx, p, (p[0] + r[0], p[1] + r[1]))
    res = he.intersects_line_segment([tuple(q), (q[0] + s[0], q[1] + s[1])])
    ctx.prove('meets-exactly-when-they-share-a-point', bool(res) == bool(want), case)


def cell_segment_logic(ctx):
    """the cell meets the segment iff both ends are inside or some edge meets it"""
    ctx.fn('mesh.Cell.intersects_line_segment')
    c = quad_in(ctx, [(0, 0), (1, 0), (1, 1), (0, 1)])
    seg = [(0.5, 2.0), (3.0, 0.25)]
    ins = [ctx.choice('in%d' % i, [True, False]) for i in R2]
    hits = [ctx.choice('hit%d' % i, [True, False]) for i in range(4)]
    ok = []
    c.contains_points = lambda x, *a, **k: np.array([ins[[tuple(map(float, q)) for q in seg].index(tuple(map(float, y)))] for y in np.array(x).reshape(-1, 2)])
    for he, h in zip(c.get_half_edges(), hits):
        def f(line, h=h):
            ok.append([tuple(map(float, q)) for q in line] == seg)
            return h
        he.intersects_line_segment = f
    # geometry: if exactly one end is inside the convex cell, some edge meets the segment
    ctx.assume(all(ins) or not any(ins) or any(hits))
    r = c.intersects_line_segment(seg)
    ctx.prove('segment-passed-on', all(ok))
    ctx.prove('inside-or-meets-an-edge', bool(r) == (all(ins) or any(hits)))


def _box_hits(a, b):
    """separating axes for the unit square and the segment ab (closed)"""
    if min(a[0], b[0]) > 1 or max(a[0], b[0]) < 0 or min(a[1], b[1]) > 1 or max(a[1], b[1]) < 0:
        return False
    g = [cross(sub(b, a), sub(p, a)) for p in ((0, 0), (1, 0), (1, 1), (0, 1))]
    return not (all(v > 0 for v in g) or all(v < 0 for v in g))


def cell_segment(ctx):
    """the unit square against every segment"""
    ctx.fn('mesh.Cell.intersects_line_segment', 'mesh.HalfEdge.intersects_line_segment', 'mesh.Cell.contains_points')
    S = lambda rnd: rnd.uniform(-1, 2)
    a = [ctx.real('a%d' % k, lo=-4, hi=4, sample=S) for k in R2]
    b = [ctx.real('b%d' % k, lo=-4, hi=4, sample=S) for k in R2]
    # positions that the tolerances treat as touching are left to the edge contract
    e = tol(ctx, 6)
    for z in (a[0], a[1], b[0], b[1], a[0] - 1, a[1] - 1, b[0] - 1, b[1] - 1, a[0] - b[0], a[1] - b[1]):
        ctx.assume((z > e) | (z < -e))
    for p in ((0, 0), (1, 0), (1, 1), (0, 1)):
        z = cross(sub(b, a), sub(p, a))
        ctx.assume((z > e) | (z < -e))
    c = quad_in(ctx, [(0, 0), (1, 0), (1, 1), (0, 1)])
    r = c.intersects_line_segment([tuple(a), tuple(b)])
    ctx.prove('cell-meets-segment', bool(r) == bool(_box_hits(a, b)))


# ------------------------------------------------------------------ binning
def _mk_cell(ctx, dim):
    m = M()
    if dim == 1:
        c = m.Interval(m.Vertex((0,)), m.Vertex((1,)))
    else:
        c = quad_from([(0, 0), (1, 0), (1, 1), (0, 1)])
    return c


def _stub(ch, name, member, log):
    ids = lambda x: [int(v) for v in np.array(x, dtype=float)[:, 0]]

    def contains(x, *a, **k):
        x = M().convert_to_array(x)
        return np.array([member[i] for i in ids(x)], dtype=bool)

    def bins(points, i_points=None, subforest_flag=None):
        points = np.array(points, dtype=float)
        ip = list(i_points)
        log.append((name, ids(points), ip, subforest_flag))
        return [((name, 'leaf'), np.array(ip, dtype=int))]
    ch.contains_points = contains
    ch.bin_points = bins


def _points(n, dim):
    # coordinates are only read by the stubs: point i is the point number i
    return np.array([[float(i)] * dim for i in range(n)])


def cell_bin(ctx, dim):
    """
    bin_points of a cell of the sub-mesh, against the contract of bin_points on its children: every point that is in some
    child is handed to exactly one child that contains it, with its index and the flag; a leaf of the sub-mesh keeps all.
    """
    ctx.fn('mesh.Interval.bin_points' if dim == 1 else 'mesh.QuadCell.bin_points', 'mesh.Tree.get_children', 'mesh.Tree.has_children')
    c = _mk_cell(ctx, dim)
    sf = ctx.choice('flag', [None, 'sub'])
    state = ctx.choice('state', ['leaf', 'split', 'children-outside'] if sf else ['leaf', 'split'])
    n = ctx.choice('n', [1, 2, 3] if dim == 1 else [1, 2])
    x = _points(n, dim)
    offs = ctx.choice('indices', ['none', 'given'])
    idx = np.array([7, 3, 5][:n]) if offs == 'given' else None
    want_idx = [7, 3, 5][:n] if offs == 'given' else list(range(n))
    log = []
    if sf:
        c.mark(sf)
    member = []
    if state != 'leaf':
        c.split()
        ch = list(c.get_children())
        for k, h in enumerate(ch):
            mem = [ctx.choice('member%d_%d' % (k, i), [True, False]) for i in range(n)]
            member.append(mem)
            _stub(h, k, mem, log)
            if state == 'split' and sf:
                h.mark(sf)
        for i in range(n):
            ctx.assume(any(mem[i] for mem in member))
    c.contains_points = lambda p, *a, **k: np.ones(len(M().convert_to_array(p)), dtype=bool)
    before = x.copy()
    out = c.bin_points(x, idx, subforest_flag=sf) if idx is not None else c.bin_points(x, subforest_flag=sf)
    ctx.prove('points-untouched', bool((before == x).all()))
    if state == 'split':
        ctx.prove('flag-passed-down', all(l[3] == sf for l in log))
        seen = []
        for name, pts, ip, _ in log:
            ctx.prove('indices-travel-with-points', [want_idx[p] for p in pts] == ip, log)
            ctx.prove('child-contains-its-points', all(member[name][p] for p in pts), log)
            seen += ip
        ctx.prove('every-point-binned-once', sorted(seen) == sorted(want_idx), log)
        ctx.prove('child-bins-returned', sorted((b[0][0], tuple(b[1])) for b in out) == sorted((l[0], tuple(l[2])) for l in log))
    else:
        ctx.prove('leaf-keeps-its-points', len(out) == 1 and out[0][0] is c and list(out[0][1]) == want_idx, out)


def cell_bin_up(ctx, dim):
    """a cell outside the sub-mesh hands its points to its parent"""
    ctx.fn('mesh.Interval.bin_points' if dim == 1 else 'mesh.QuadCell.bin_points')
    p = _mk_cell(ctx, dim)
    p.split()
    c = list(p.get_children())[ctx.choice('child', [0, 1])]
    n = ctx.choice('n', [1, 2])
    sf = 'sub'
    if ctx.choice('children-marked', [False, True]):
        c.split()
    log = []
    _stub(p, 'parent', [True] * n, log)
    c.contains_points = lambda q, *a, **k: np.ones(len(M().convert_to_array(q)), dtype=bool)
    given = ctx.choice('given', [True, False])
    idx = np.array([4, 9][:n]) if given else None
    want = [4, 9][:n] if given else list(range(n))
    out = c.bin_points(_points(n, dim), idx, subforest_flag=sf)
    ctx.prove('handed-to-parent', len(log) == 1 and log[0][1] == list(range(n)) and log[0][2] == want and log[0][3] == sf, log)
    ctx.prove('bins-of-parent-returned', len(out) == 1 and out[0][0] == ('parent', 'leaf') and list(out[0][1]) == want)
    out = p.__class__.bin_points(_orphan(dim, n), _points(n, dim), subforest_flag=sf)
    ctx.prove('no-cell-in-the-submesh', out == [])


def _orphan(dim, n):
    c = _mk_cell(None, dim)
    c.contains_points = lambda q, *a, **k: np.ones(len(M().convert_to_array(q)), dtype=bool)
    return c


def cell_bin_refuses(ctx, dim):
    ctx.fn('mesh.Interval.bin_points' if dim == 1 else 'mesh.QuadCell.bin_points')
    c = _mk_cell(ctx, dim)
    if ctx.choice('split', [False, True]):
        c.split()
    x = [ctx.real('x%d' % k, lo=-4, hi=4) for k in range(dim)]
    e = tol(ctx, 6)
    k = ctx.choice('axis', list(range(dim)))
    ctx.assume((x[k] < -e) | (x[k] > 1 + e))
    try:
        c.bin_points(ctx.arr([x]))
        ok = False
    except AssertionError:
        ok = True
    ctx.prove('points-outside-are-refused', ok)


def mesh_bin(ctx, dim):
    """the mesh: roots of the sub-mesh with arbitrary marks and membership"""
    m = M()
    ctx.fn('mesh.Mesh1D.bin_points' if dim == 1 else 'mesh.QuadMesh.bin_points', 'mesh.Forest.get_children')
    mesh = m.Mesh1D(resolution=(3,)) if dim == 1 else m.QuadMesh(resolution=(3, 1))
    sf = ctx.choice('flag', [None, 'sub'])
    n = ctx.choice('n', [1, 2])
    roots = list(mesh.cells.get_children())
    log, member, marked = [], [], []
    for k, c in enumerate(roots):
        mk = True if sf is None else ctx.choice('marked%d' % k, [True, False])
        if sf and mk:
            c.mark(sf)
        mem = [ctx.choice('member%d_%d' % (k, i), [True, False]) for i in range(n)]
        marked.append(mk)
        member.append(mem)
        _stub(c, k, mem, log)
    dom = all(any(mem[i] and mk for mem, mk in zip(member, marked)) for i in range(n))
    given = ctx.choice('given', [True, False])
    idx = np.array([4, 9][:n]) if given else None
    want = [4, 9][:n] if given else list(range(n))
    try:
        out = mesh.bin_points(_points(n, dim), idx, subforest_flag=sf)
        refused = False
    except AssertionError:
        refused = True
    ctx.prove('outside-the-domain-refused', refused == (not dom), (member, marked))
    if refused:
        return
    seen = []
    for name, pts, ip, f in log:
        ctx.prove('flag-passed-down', f == sf)
        ctx.prove('root-of-the-submesh', marked[name])
        ctx.prove('indices-travel-with-points', [want[p] for p in pts] == ip, log)
        ctx.prove('root-contains-its-points', all(member[name][p] for p in pts), log)
        seen += ip
    ctx.prove('every-point-binned-once', sorted(seen) == sorted(want), log)
    ctx.prove('bins-returned', sorted((b[0][0], tuple(b[1])) for b in out) == sorted((l[0], tuple(l[2])) for l in log))


def locate(ctx):
    """locate_point returns a (flagged) cell of the mesh that contains the point, None if there is none"""
    m = M()
    ctx.fn('mesh.Mesh2D.locate_point')
    mesh = m.QuadMesh(resolution=(2, 1))
    sf = ctx.choice('flag', [None, 'sub'])
    roots = list(mesh.cells.get_children())
    ok = []
    for k, c in enumerate(roots):
        mk = True if sf is None else ctx.choice('marked%d' % k, [True, False])
        if sf and mk:
            c.mark(sf)
        elif sf and ctx.choice('child-marked%d' % k, [False, True]):
            # marks of smaller cells do not matter
            c.split()
            c.get_child(0).mark(sf)
        mem = ctx.choice('member%d' % k, [True, False])
        c.contains_points = lambda x, *a, mem=mem, **kw: np.array([mem])
        ok.append(mem and mk)
    r = mesh.locate_point((.5, .5), flag=sf)
    if any(ok):
        ctx.prove('contains-the-point', r in [c for c, o in zip(roots, ok) if o])
    else:
        ctx.prove('none-when-outside', r is None)


# ------------------------------------------------------------------ whole meshes (search on the real code)
def _random_mesh(ctx, dim):
    m = M()
    if dim == 1:
        mesh = m.Mesh1D(box=[-1, 2], resolution=(ctx.choice('nx', [1, 2, 3]),))
    else:
        mesh = m.QuadMesh(box=[-1, 2, 0, 1], resolution=(ctx.choice('nx', [1, 2]), ctx.choice('ny', [1, 2])))
    for step in range(ctx.choice('steps', [0, 1, 2, 3])):
        for i, leaf in enumerate(mesh.cells.get_leaves()):
            if ctx.choice('split%d_%d' % (step, i % 9), [True, False, False]):
                leaf.mark('r')
        if ctx.choice('how%d' % step, [True, False]):
            mesh.cells.refine(refinement_flag='r')
        else:
            # refinement recorded in a sub-mesh: label of this step
            for c in mesh.cells.get_leaves(flag='r'):
                c.split()
        for c in mesh.cells.traverse():
            c.unmark('r')
        mesh.cells.record('lev%d' % step)
    return mesh


def whole(ctx, dim):
    ctx.fn('mesh.Mesh1D.bin_points' if dim == 1 else 'mesh.QuadMesh.bin_points')
    mesh = _random_mesh(ctx, dim)
    steps = ctx.env['steps']
    flags = [None] + ['lev%d' % k for k in range(4)]
    flags = [f for f in flags if f is None or any(c.is_marked(f) for c in mesh.cells.get_children())]
    sf = ctx.choice('flag', flags)
    n = ctx.choice('n', [1, 4, 9])
    box = [(-1, 2), (0, 1)][:dim]
    x = np.array([[(lo + (hi - lo) * (ctx.choice('g%d_%d' % (i, k), list(range(9))) / 8. if ctx.choice('on-grid%d' % i, [True, False])
                    else ctx.real('f%d_%d' % (i, k), lo=0, hi=1))) for k, (lo, hi) in enumerate(box)] for i in range(n)])
    bins = mesh.bin_points(x, subforest_flag=sf)
    seen = []
    leaves = mesh.cells.get_leaves(subforest_flag=sf)
    for c, ip in bins:
        ctx.prove('leaf-of-the-submesh', c in leaves)
        P = np.array([v.coordinates() for v in c.get_vertices()]).reshape(-1, dim)
        for i in ip:
            ctx.prove('cell-contains-point', bool((x[i] >= P.min(0) - 1e-12).all() and (x[i] <= P.max(0) + 1e-12).all()))
            seen.append(int(i))
    ctx.prove('every-point-binned-once', sorted(seen) == list(range(n)), bins)


def harnesses(tier):
    H = Harness
    th = tier == 'thorough'
    out = [H(interval_contains), H(tri_contains), H(image_inside, opts=dict(guard=True, feas_ms=500))]
    out += [H(sub_covering, 'sub_covering-%s-%d%d' % (k, i, j), params=dict(kind=k, quadrant=(i, j)), budget=400, opts=dict(guard=True, feas_ms=300), searches=40)
            for k in ('rect', 'quad') for i in R2 for j in R2]
    out += [H(quad_contains, 'quad_contains-' + k, params=dict(kind=k), budget=400, heavy=k == 'quad', opts=dict(guard=True, feas_ms=150) if k == 'quad' else {}) for k in ('rect', 'quad')]
    out += [H(edge_contains, 'edge_contains-' + k, params=dict(kind=k)) for k in ('1d', 'horizontal', 'vertical', 'skew')]
    out += [H(segments, 'segments-' + k, params=dict(case=k), searches=200) for k in ('crossing', 'parallel', 'collinear')]
    out += [H(cell_segment_logic), H(cell_segment, searches=200, heavy=True, budget=300)]
    for d in (1, 2):
        out += [H(f, '%s-%dd' % (f.__name__, d), params=dict(dim=d)) for f in (cell_bin, cell_bin_up, cell_bin_refuses, mesh_bin)]
        out.append(H(whole, 'whole-%dd' % d, kind='bounded', params=dict(dim=d), searches=150 if not th else 400,
                     opts=dict(symbolic=False), bound='seeded meshes: at most 3 roots per axis, 3 refinements, 9 points'))
    out += [H(locate)]
    return out
