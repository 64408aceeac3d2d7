"""C06 neighbour queries and balancing."""
import itertools
import random
from .common import *
from . import meshinv as MI
from .C03 import BASES, base_mesh, build, CONN

EXPLANATION = ('Neighbours: contracts of get_neighbors (edge: the cell of the twin; vertex: the cells met when turning about the vertex, for '
               'every number of cells around it, closed or open) over the connectivity contract of C03; of get_neighbor on intervals by '
               'induction over the levels (the ancestor whose side is linked, then the descendants next to the pivot). Queries on whole '
               'meshes are compared with geometry on enumerated hierarchies and sub-meshes, and balancing is decided on enumerated and '
               'seeded refinement patterns, sub-meshes and periodic meshes (bounded).')
ASSUMPTIONS = ['the connectivity contract of C03 holds on every level']


# ------------------------------------------------------------------------------------------------ edges and vertices, contracts
def edge_neighbor(ctx):
    ctx.fn('mesh.Cell.get_neighbors')
    m = M()
    c = quad_from(rect_pts(ctx))
    k = ctx.choice('edge', [0, 1, 2, 3])
    h = c.get_half_edge(k)
    st = ctx.choice('state', ['boundary', 'neighbour', 'marked', 'no-cell'])
    other = None
    if st != 'boundary':
        t = h.make_twin()
        if st != 'no-cell':
            P = [t.base().coordinates(), t.head().coordinates()]
            w = ctx.real('s', pos=True)
            d = [(0, -1), (1, 0), (0, 1), (-1, 0)][k]
            q = [m.Vertex((P[1][0] + d[0] * w, P[1][1] + d[1] * w)), m.Vertex((P[0][0] + d[0] * w, P[0][1] + d[1] * w))]
            other = m.QuadCell([t, m.HalfEdge(t.head(), q[0]), m.HalfEdge(q[0], q[1]), m.HalfEdge(q[1], t.base())])
            if st == 'marked':
                other.mark('f')
            if ctx.choice('other-is-split', [0, 1]):
                other.split()
    ctx.prove('across-an-edge', c.get_neighbors(h) is other)
    if st != 'no-cell':
        ctx.prove('across-an-edge-marked', c.get_neighbors(h, flag='f') is (other if st == 'marked' else None))
    ctx.prove('other-edges-are-boundary', all(c.get_neighbors(e) is None for e in c.get_half_edges() if e is not h))


def fan(m, n, closed, hub=(0., 0.)):
    """n triangles/quads about one vertex; closed: all around"""
    V = m.Vertex(hub)
    k = n if closed else n + 1
    ang = [2 * np.pi * i / (n if closed else n + 1.5) for i in range(k)]
    rim = [m.Vertex((np.cos(a), np.sin(a))) for a in ang]
    cells = []
    spokes = {}
    for i in range(n):
        a, b = rim[i], rim[(i + 1) % k]
        if i % 2:
            hs = [m.HalfEdge(V, a), m.HalfEdge(a, b), m.HalfEdge(b, V)]
        else:
            am = .5 * (ang[i] + (ang[i + 1] if i + 1 < k else 2 * np.pi))
            far = m.Vertex((1.4 * np.cos(am), 1.4 * np.sin(am)))
            hs = [m.HalfEdge(V, a), m.HalfEdge(a, far), m.HalfEdge(far, b), m.HalfEdge(b, V)]
        spokes[i] = (hs[0], hs[-1])
        r = i % len(hs)
        hs = hs[r:] + hs[:r]
        cells.append((m.QuadCell if len(hs) == 4 else m.Cell)(hs))
    for i in range(n if closed else n - 1):
        x, y = spokes[i][1], spokes[(i + 1) % n][0]
        x.assign_twin(y)
        y.assign_twin(x)
    return V, rim, cells


def vertex_neighbors(ctx, n):
    """turning about a vertex meets every other cell around it, in order, once"""
    ctx.fn('mesh.Cell.get_neighbors', 'mesh.Cell.incident_half_edge')
    m = M()
    closed = ctx.choice('closed', [False, True] if n > 2 else [False])
    V, rim, cells = fan(m, n, closed)
    marks = [ctx.choice('mark%d' % i, [0, 1]) if n <= 5 else i % 2 for i in range(n)]
    for c, x in zip(cells, marks):
        if x:
            c.mark('f')
    for i, c in enumerate(cells):
        r = c.get_neighbors(V)
        ctx.prove('about-a-vertex', len(r) == n - 1 and set(map(id, r)) == set(id(x) for x in cells if x is not c))
        r = c.get_neighbors(V, flag='f')
        ctx.prove('about-a-vertex-marked', sorted(map(id, r)) == sorted(id(x) for x, k in zip(cells, marks) if x is not c and k))
        for v in c.get_vertices():
            if v is not V:
                want = [x for x in cells if x is not c and any(v is w for w in x.get_vertices())]
                ctx.prove('about-a-rim-vertex', sorted(map(id, c.get_neighbors(v))) == sorted(map(id, want)))


# ------------------------------------------------------------------------------------------------ intervals
def grow(c, shape):
    if shape:
        c.split()
        for ch, s in zip(list(c.get_children()), shape):
            grow(ch, s)


def shapes(nc, depth):
    out = [()]
    if depth > 0:
        out += list(itertools.product(shapes(nc, depth - 1), repeat=nc))
    return out


def subshapes(s):
    """rooted sub-hierarchies (all or none of the children)"""
    out = [()]
    if s:
        out += list(itertools.product(*[subshapes(x) for x in s]))
    return out


def mark_shape(c, s, flag):
    c.mark(flag)
    if s:
        for ch, x in zip(c.get_children(), s):
            mark_shape(ch, x, flag)


def interval_queries(ctx, cells, flag, period, tag=''):
    """compare both kinds of neighbours of every interval with the geometry"""
    bad = []
    nodes = []
    for lv in MI.levels(cells):
        nodes += [c for c in lv if flag is None or c.is_marked(flag)]
    leaves = [c for c in nodes if not any(flag is None or x.is_marked(flag) for x in c.get_children())]
    r = rkey
    L = lambda c: (r(c.base().coordinates()[0]), r(c.head().coordinates()[0]))
    x0, x1 = min(L(c)[0] for c in cells), max(L(c)[1] for c in cells)
    starts, ends, by = {}, {}, {}
    for c in leaves:
        starts[L(c)[0]] = c
        ends[L(c)[1]] = c
    for c in nodes:
        by[('s', c.get_depth(), L(c)[0])] = c
        by[('e', c.get_depth(), L(c)[1])] = c
    for c in nodes:
        a, b = L(c)
        left = ends.get(a if not (period and a == x0) else x1)
        right = starts.get(b if not (period and b == x1) else x0)
        lleft = by.get(('e', c.get_depth(), a if not (period and a == x0) else x1))
        lright = by.get(('s', c.get_depth(), b if not (period and b == x1) else x0))
        for name, got, want in (('left', c.get_neighbor(0, subforest_flag=flag), left), ('right', c.get_neighbor(1, subforest_flag=flag), right),
                                ('left by point', c.get_neighbor(c.base(), subforest_flag=flag), left),
                                ('right by point', c.get_neighbor(c.head(), subforest_flag=flag), right),
                                ('left on level', c.get_neighbor(0, subforest_flag=flag, mode='level-wise'), lleft),
                                ('right on level', c.get_neighbor(1, subforest_flag=flag, mode='level-wise'), lright)):
            if got is not want:
                bad.append('%s neighbour of %s is %s instead of %s%s' % (name, (a, b), got and L(got), want and L(want), tag))
    return bad


def interval_neighbors(ctx, roots, depth, nc, periodic, part):
    ctx.fn('mesh.Interval.get_neighbor')
    m = M()
    combos = list(itertools.product(shapes(nc, depth), repeat=roots))
    chunk = 40
    ks = list(range((len(combos) + chunk - 1) // chunk))
    k = ctx.choice('chunk', ks)
    bad = []
    for co in combos[k * chunk:(k + 1) * chunk]:
        if nc == 2:
            mesh = m.Mesh1D(box=[-1., 2.], resolution=(roots,), periodic=periodic)
            cells = list(mesh.cells.get_children())
        else:
            vs = [m.Vertex((float(i),)) for i in range(roots + 1)]
            cells = [m.Interval(vs[i], vs[i + 1], n_children=nc) for i in range(roots)]
            for a, b in zip(cells, cells[1:]):
                a.assign_next(b)
        for c, s in zip(cells, co):
            grow(c, s)
        bad += interval_queries(ctx, cells, None, periodic, ' in %s' % (co,))
        subs = list(itertools.product(*[[None] + subshapes(s) for s in co]))
        rnd = random.Random(repr(co))
        for i, sub in enumerate(subs if len(subs) <= 12 else rnd.sample(subs, 12)):
            f = 'f%d' % i
            if all(s is None for s in sub):
                continue
            for c, s in zip(cells, sub):
                if s is not None:
                    mark_shape(c, s, f)
            bad += interval_queries(ctx, cells, f, periodic, ' in %s within %s' % (sub, co))
        if bad:
            break
    ctx.prove('interval-neighbours', not bad, bad[:3])


def interval_step(ctx):
    """symbolic positions: siblings, cousins, ends"""
    ctx.fn('mesh.Interval.get_neighbor')
    m = M()
    x = [ctx.real('x0')]
    for i in range(2):
        x.append(x[-1] + ctx.real('w%d' % i, pos=True))
    vs = [m.Vertex((v,)) for v in x]
    n = ctx.choice('n', [2, 3])
    I, J = m.Interval(vs[0], vs[1], n_children=n), m.Interval(vs[1], vs[2], n_children=n)
    I.assign_next(J)
    for c in (I, J):
        c.split()
        for ch in list(c.get_children()):
            ch.split()
    fine = [g for c in (I, J) for ch in c.get_children() for g in ch.get_children()]
    for i, g in enumerate(fine):
        for mode in ('physical', 'level-wise'):
            ctx.prove('fine-neighbours-' + mode, g.get_neighbor(0, mode=mode) is (fine[i - 1] if i else None)
                      and g.get_neighbor(1, mode=mode) is (fine[i + 1] if i + 1 < len(fine) else None))
            for p, nb in ((0, g.get_neighbor(0, mode=mode)), (1, g.get_neighbor(1, mode=mode))):
                if nb is not None:
                    a, b = (nb.head(), g.base()) if p == 0 else (nb.base(), g.head())
                    ctx.prove_eq('touches-the-end-point', a.coordinates()[0], b.coordinates()[0])
    ctx.prove('root-neighbours', I.get_neighbor(1, mode='level-wise') is J and J.get_neighbor(0, mode='level-wise') is I
              and I.get_neighbor(0) is None and J.get_neighbor(1) is None)
    ctx.prove('coarse-interval-sees-the-fine-one', I.get_neighbor(1) is fine[n * n] and J.get_neighbor(0) is fine[n * n - 1])


# ------------------------------------------------------------------------------------------------ meshes against geometry
def rnd2(p):
    return (rkey(p[0]), rkey(p[1]))


def canon(p, period, lo):
    q = list(p)
    for i in range(2):
        if period[i] is not None:
            t = (q[i] - lo[i]) % period[i]
            if abs(t - period[i]) < 1e-8:
                t = 0.
            q[i] = lo[i] + t
    return rnd2(q)


def geometry(cells, period):
    pts = [v.coordinates() for c in cells for v in c.get_vertices()]
    lo = [min(p[i] for p in pts) for i in range(2)]
    return lambda p: canon(p, period, lo)


def mid(h, t=.5):
    a, b = h.base().coordinates(), h.head().coordinates()
    return tuple(a[i] + t * (b[i] - a[i]) for i in range(2))


def queries_2d(cells, period, flag=None):
    bad = []
    key = geometry(cells, period)
    for lev in MI.levels(cells):
        at_edge = {}
        for c in lev:
            for h in c.get_half_edges():
                at_edge.setdefault(key(mid(h)), []).append((c, h))
        for c in lev:
            for h in c.get_half_edges():
                others = [(x, e) for x, e in at_edge[key(mid(h))] if e is not h]
                if len(others) > 1:
                    bad.append('more than two edges at one place')
                    continue
                want = others[0][0] if others else None
                if c.get_neighbors(h) is not want:
                    bad.append('neighbour of %s across the edge at %s' % (c.get_node_address(), mid(h)))
                wf = want if want is not None and flag is not None and want.is_marked(flag) else None
                if flag is not None and c.get_neighbors(h, flag=flag) is not wf:
                    bad.append('marked neighbour of %s across the edge at %s' % (c.get_node_address(), mid(h)))
            for v in c.get_vertices():
                # cells of this level met by crossing edges that end in the point
                start = [(c, v)]
                seen = {(id(c), id(v)): (c, v)}
                while start:
                    x, w = start.pop()
                    for e in x.get_half_edges():
                        if e.base() is w or e.head() is w:
                            for y, f in at_edge[key(mid(e))]:
                                if f is not e:
                                    u = f.head() if e.base() is w else f.base()
                                    if (id(y), id(u)) not in seen:
                                        seen[(id(y), id(u))] = (y, u)
                                        start.append((y, u))
                want = set(id(y) for y, u in seen.values() if y is not c)
                got = c.get_neighbors(v)
                if sorted(map(id, got)) != sorted(want):
                    bad.append('neighbours of %s about %s: %s' % (c.get_node_address(), v.coordinates(), [g.get_node_address() for g in got]))
                if flag is not None:
                    wf = sorted(id(y) for y in set(y for y, u in seen.values() if y is not c) if y.is_marked(flag))
                    if sorted(map(id, c.get_neighbors(v, flag=flag))) != wf:
                        bad.append('marked neighbours of %s about %s' % (c.get_node_address(), v.coordinates()))
            if len(bad) > 3:
                return bad
    return bad


def refine_randomly(mesh, rnd, steps, maxdepth=4, coarsen=.1):
    for s in range(steps):
        leaves = [c for c in mesh.cells.get_leaves() if c.get_depth() < maxdepth]
        nodes = [c for c in mesh.cells.traverse() if c.has_children()]
        if nodes and rnd.random() < coarsen:
            rnd.choice(nodes).delete_children()
        elif leaves:
            # towards one corner, or anywhere
            if rnd.random() < .5:
                c = max(leaves, key=lambda x: x.get_depth())
            else:
                c = rnd.choice(leaves)
            c.split()


def sub_mesh(mesh, rnd, flag, roots='all', p=.6):
    """mark a rooted sub-mesh"""
    todo = [c for c in mesh.cells.get_children()]
    if roots != 'all':
        todo = [c for c in todo if rnd.random() < .6] or todo[:1]
    while todo:
        c = todo.pop()
        c.mark(flag)
        if c.has_children() and rnd.random() < p:
            todo += list(c.get_children())


def mesh_neighbors(ctx, k, seeds):
    ctx.fn('mesh.Cell.get_neighbors', 'mesh.QuadCell.split')
    m = M()
    rnd = random.Random('n%d/%d' % (k, ctx.choice('seed', list(range(seeds)))))
    mesh, per = base_mesh(m, k)
    refine_randomly(mesh, rnd, rnd.choice([0, 3, 6, 10]))
    sub_mesh(mesh, rnd, 's', rnd.choice(['all', 'some']))
    bad = queries_2d(list(mesh.cells.get_children()), per, 's')
    ctx.prove('neighbours-touch', not bad, bad[:3])


def dcel_neighbors(ctx):
    ctx.fn('mesh.DCEL.get_neighbor')
    m = M()
    name = ctx.choice('mesh', sorted(CONN) + ['grid', '1d', '1d-periodic'])
    if name.startswith('1d'):
        n = ctx.choice('n', [1, 2, 4])
        d = m.DCEL(resolution=(n,), periodic={0} if name != '1d' else None)
        for i in range(n):
            l, r = (i - 1, i + 1)
            wl = l if l >= 0 else (n - 1 if name != '1d' else None)
            wr = r if r < n else (0 if name != '1d' else None)
            ctx.prove('intervals', d.get_neighbor(i, i) == wl and d.get_neighbor(i, i + 1) == wr)
        return
    mesh = build(m, name) if name in CONN else m.QuadMesh(resolution=(3, 2))
    d = mesh.dcel
    con = [[int(i) for i in f] for f in d.faces['connectivity']]
    for f, fc in enumerate(con):
        e = int(d.faces['half_edge'][f])
        for q in range(len(fc)):
            a, b = [int(x) for x in d.half_edges['connectivity'][e]]
            want = [g for g, gc in enumerate(con) for i in range(len(gc)) if (gc[i], gc[(i + 1) % len(gc)]) == (b, a)]
            got = d.get_neighbor(f, e)
            ctx.prove('across-the-half-edge', got == (want[0] if want else None), (name, f, a, b, got))
            e = int(d.half_edges['next'][e])


# ------------------------------------------------------------------------------------------------ balancing
def leaf_set(mesh, flag):
    out = []
    def go(c):
        ch = [x for x in c.get_children() if flag is None or x.is_marked(flag)]
        if ch:
            for x in ch:
                go(x)
        else:
            out.append(c)
    for c in mesh.cells.get_children():
        if flag is None or c.is_marked(flag):
            go(c)
    return out


def unbalanced(mesh, flag, period):
    """pairs of leaves that share a piece of an edge and differ by two levels or more (geometric)"""
    cells = list(mesh.cells.get_children())
    key = geometry(cells, period)
    leaves = leaf_set(mesh, flag)
    D = max(c.get_depth() for c in leaves)
    at = {}
    bad = []
    for c in leaves:
        n = 2 ** (D - c.get_depth())
        for h in c.get_half_edges():
            for j in range(n):
                k = key(mid(h, (j + .5) / n))
                for o in at.get(k, []):
                    if abs(o.get_depth() - c.get_depth()) > 1:
                        bad.append((o.get_node_address(), c.get_node_address()))
                at.setdefault(k, []).append(c)
    return bad


def tree_state(mesh, flags):
    return {tuple(c.get_node_address()): (c, tuple(f for f in flags if c.is_marked(f))) for c in mesh.cells.traverse()}


def balance_contract(ctx, mesh, flag, per, what=''):
    before = tree_state(mesh, ['s', 't'])
    old_leaves = leaf_set(mesh, flag)
    ub = unbalanced(mesh, flag, per)
    ctx.prove('is-balanced-tells', mesh.is_balanced(subforest_flag=flag) == (not ub), (what, ub[:2]))
    mesh.balance(subforest_flag=flag)
    after = tree_state(mesh, ['s', 't'])
    left = unbalanced(mesh, flag, per)
    ctx.prove('balanced-afterwards', not left, (what, left[:2]))
    ctx.prove('says-balanced-afterwards', bool(mesh.is_balanced(subforest_flag=flag)))
    ctx.prove('nothing-removed', all(k in after and after[k][0] is c for k, (c, f) in before.items()), what)
    keep = True
    for k, (c, f) in before.items():
        g = after[k][1]
        keep &= set(f) <= set(g) and (set(g) - set(f)) <= set([flag])
    ctx.prove('marks-kept', keep, what)
    if flag is not None:
        rooted = all((len(k) == 1 or flag in after[k[:-1]][1]) for k, (c, f) in after.items() if flag in f)
        ctx.prove('still-rooted', rooted, what)
        sib = all(len(set(flag in after[k + (i,)][1] for i in range(4))) == 1 for k, (c, f) in after.items() if c.has_children())
        ctx.prove('all-or-no-children', sib, what)
        # only refinements of old leaves
        ol = [tuple(c.get_node_address()) for c in old_leaves]
        grown = [k for k, (c, f) in after.items() if flag in f and flag not in before.get(k, (None, ()))[1]]
        ctx.prove('only-refines-leaves', all(any(k[:len(o)] == o for o in ol) for k in grown), (what, grown[:3]))
    new = leaf_set(mesh, flag)
    if not ub:
        ctx.prove('balanced-mesh-unchanged', before == after, what)
        ctx.prove('same-leaves', [id(c) for c in new] == [id(c) for c in old_leaves])
    bad = MI.mesh2d(list(mesh.cells.get_children()), per)
    ctx.prove('connectivity-kept', not bad, bad[:2])
    # no deeper than before
    ctx.prove('not-deeper-than-before', max(c.get_depth() for c in new) == max(c.get_depth() for c in old_leaves))
    mesh.balance(subforest_flag=flag)
    ctx.prove('second-balance-changes-nothing', tree_state(mesh, ['s', 't']) == after)


def balance_meshes(ctx, k, seeds):
    ctx.fn('mesh.QuadMesh.balance', 'mesh.QuadMesh.is_balanced')
    m = M()
    s = ctx.choice('seed', list(range(seeds)))
    rnd = random.Random('b%d/%d' % (k, s))
    mesh, per = base_mesh(m, k)
    refine_randomly(mesh, rnd, rnd.choice([3, 5, 8]), maxdepth=5, coarsen=.05)
    flag = None
    if s % 3:
        flag = 's'
        sub_mesh(mesh, rnd, 's', 'all', p=.85)
        sub_mesh(mesh, rnd, 't')
    balance_contract(ctx, mesh, flag, per, (k, s))


def balance_chain(ctx, k):
    """every path of four refinements towards a point"""
    ctx.fn('mesh.QuadMesh.balance', 'mesh.QuadMesh.is_balanced')
    m = M()
    mesh, per = base_mesh(m, k)
    n = mesh.cells.n_children()
    c = mesh.cells.get_child(ctx.choice('root', list(range(n))))
    path = [ctx.choice('child%d' % i, [0, 1, 2, 3]) for i in range(3 if n < 5 else 2)]
    c.split()
    for p in path:
        c = c.get_child(p)
        c.split()
    sub = ctx.choice('sub', [None, 's', 'partial'])
    if sub == 'partial':
        # the sub-mesh refines one tree; the others have children which are not part of it
        for d in list(mesh.cells.get_children()):
            if not d.has_children():
                d.split()
                for e in list(d.get_children()):
                    e.split()
        while c.has_parent():
            c = c.get_parent()
        c.mark('s', recursive=True)
        for d in mesh.cells.get_children():
            d.mark('s')
    elif sub == 's':
        mesh.cells.record('s')
    balance_contract(ctx, mesh, 's' if sub else None, per, (k, path, sub))


def harnesses(tier):
    th = tier == 'thorough'
    H = [Harness(edge_neighbor, searches=10, budget=60), Harness(interval_step, searches=5, budget=60)]
    for n in range(1, 8):
        H.append(Harness(vertex_neighbors, 'vertex_neighbors[%d]' % n, kind='bounded', params=dict(n=n), searches=0, bound='%d cells about a vertex, all marks' % n))
    for roots, depth, nc, per in [(1, 3, 2, False), (1, 3, 2, True), (2, 2, 2, False), (2, 2, 2, True), (3, 2, 2, False), (3, 1, 2, True),
                                  (2, 1, 3, False), (1, 2, 3, False)] + ([(2, 3, 2, False), (2, 3, 2, True), (3, 2, 2, True), (2, 2, 3, False)] if th else []):
        H.append(Harness(interval_neighbors, 'interval_neighbors[%d,%d,%d,%s]' % (roots, depth, nc, per), kind='bounded', searches=0, budget=600,
                         params=dict(roots=roots, depth=depth, nc=nc, periodic=per, part=0),
                         bound='all hierarchies of %d trees of depth <= %d with %d children; up to 12 sub-meshes each' % (roots, depth, nc)))
    H.append(Harness(dcel_neighbors, kind='bounded', searches=0, bound='listed grids'))
    for k in range(len(BASES)):
        H.append(Harness(mesh_neighbors, 'mesh_neighbors[%d]' % k, kind='bounded', searches=0, params=dict(k=k, seeds=30 if th else 8), budget=300,
                         bound='seeded refinements'))
        H.append(Harness(balance_meshes, 'balance[%d]' % k, kind='bounded', searches=0, params=dict(k=k, seeds=60 if th else 18), budget=600,
                         bound='seeded refinements and sub-meshes'))
    for k in [0, 1, 2, 4, 5, 6]:
        H.append(Harness(balance_chain, 'balance_chain[%d]' % k, kind='bounded', searches=0, params=dict(k=k), budget=600,
                         bound='all chains of four refinements'))
    return H
