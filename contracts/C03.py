"""C03 half-edge connectivity: one refinement step for arbitrary cells, generated grids, meshes of all kinds."""
import itertools
import os
import random
from .common import *
from . import meshinv as MI

EXPLANATION = ('Induction over refinements: HalfEdge.split and QuadCell.split are proved to establish the connectivity contract for every '
               'cell shape and every state of its four edges (boundary, unsplit neighbour, split neighbour, twice split neighbour, '
               'periodic), leaving the neighbours untouched; Interval.split likewise. The base case (generated grids, given '
               'connectivities, mesh files) and sequences of refinements are checked on enumerated meshes (bounded).')
ASSUMPTIONS = ['induction: before a refinement the connectivity contract holds on every level']


# ------------------------------------------------------------------------------------------------ one refinement step
def states(h):
    return h.base(), h.head(), h.cell(), h.twin(), h.next(), h.previous(), tuple(h._children)


def outer_edge(ctx, h, state, m):
    """put the edge h of the cell under test into a state; returns the half-edges across"""
    if state == 'boundary':
        return []
    t = m.HalfEdge(h.head(), h.base())
    h.assign_twin(t)
    t.assign_twin(h)
    out = [t]
    if state in ('split', 'twice'):
        t.split()
        out += list(t.get_children())
    if state == 'twice':
        for c in list(t.get_children()):
            c.split()
            out += list(c.get_children())
    if state == 'own':
        h.split()
        out += list(h.get_children())
    return out


def check_children(ctx, h, name):
    """the contract of HalfEdge.split after the fact"""
    m = M()
    ch = list(h.get_children())
    ctx.prove(name + 'two-sub-edges', len(ch) == 2)
    a, b = ch
    ctx.prove(name + 'sub-edges-subdivide', a.base() is h.base() and b.head() is h.head() and a.head() is b.base())
    ctx.prove(name + 'sub-edges-know-parent', a.get_parent() is h and b.get_parent() is h
              and a.get_node_position() == 0 and b.get_node_position() == 1)
    x0, x1, xm = h.base().coordinates(), h.head().coordinates(), a.head().coordinates()
    for i in range(len(x0)):
        ctx.prove_eq(name + 'midpoint', xm[i], (x0[i] + x1[i]) / 2)
    t = h.twin()
    if t is not None and t.has_children():
        t0, t1 = t.get_children()
        ctx.prove(name + 'sub-edges-twins', a.twin() is t1 and t1.twin() is a and b.twin() is t0 and t0.twin() is b)
        ctx.prove(name + 'twins-periodic', a.is_periodic() == h.is_periodic() and b.is_periodic() == h.is_periodic())
        if not h.is_periodic():
            ctx.prove(name + 'sub-edges-share-vertex', t0.head() is a.head())
    else:
        ctx.prove(name + 'no-twin-yet', a.twin() is None and b.twin() is None)


def quad_split(ctx, kind):
    ctx.fn('mesh.QuadCell.split', 'mesh.HalfEdge.split', 'mesh.HalfEdge.make_twin', 'mesh.Cell.__init__', 'mesh.QuadCell.__init__',
           'mesh.HalfEdge.assign_next', 'mesh.HalfEdge.assign_previous', 'mesh.HalfEdge.assign_twin')
    m = M()
    if kind == 'rect':
        P = rect_pts(ctx)
    else:
        P = quad_pts(ctx)
        not_axis(ctx, P)
    start, flag = ctx.choice('start', [(0, None), (3, 'f')]) if kind == 'rect' else (0, 'f')
    c = quad_from(P, start)
    hs = list(c.get_half_edges())
    if kind == 'rect':
        st = [ctx.choice('edge%d' % i, ['boundary', 'unsplit', 'split']) for i in range(4)]
    else:
        special = ctx.choice('special', ['unsplit', 'split', 'twice', 'own'])
        where = ctx.choice('where', [(0,), (3,), (0, 1, 2, 3)])
        st = [special if i in where else 'boundary' for i in range(4)]
    outer = [outer_edge(ctx, h, s, m) for h, s in zip(hs, st)]
    before = [[states(t) for t in o if t.get_parent() is None or t.get_parent() is not hs[i]] for i, o in enumerate(outer)]
    hb = [(h.base(), h.head(), h.cell(), h.next(), h.previous(), h.twin()) for h in hs]
    c.split(flag=flag)
    ch = list(c.get_children())
    ctx.prove('four-children', len(ch) == 4 and all(x.get_parent() is c and x.get_node_position() == i for i, x in enumerate(ch)))
    ctx.prove('marked-as-asked', all(x.is_marked('f') == (flag == 'f') for x in ch))
    for i, x in enumerate(ch):
        bad = MI.cell_loop(x)
        ctx.prove('child-closes-up', not bad, bad)
        ctx.prove('child-keeps-corner', x.get_vertex(i) is c.get_vertex(i))
    ctx.prove('parent-loop-kept', [(h.base(), h.head(), h.cell(), h.next(), h.previous(), h.twin()) for h in hs] == hb)
    for i, h in enumerate(hs):
        check_children(ctx, h, 'edge-')
        a, b = h.get_children()
        ctx.prove('sub-edges-belong-to-children', a.cell() is ch[i] and b.cell() is ch[(i + 1) % 4])
    # inner edges
    outer_ids = set(id(x) for h in hs for x in h.get_children())
    inner = [h for x in ch for h in x.get_half_edges() if id(h) not in outer_ids]
    ctx.prove('eight-inner-edges', len(inner) == 8)
    mid = None
    for h in inner:
        t = h.twin()
        ctx.prove('inner-twins', t is not None and t.twin() is h and any(t is o for o in inner) and t.cell() is not h.cell()
                  and t.base() is h.head() and t.head() is h.base())
        ends = [v for v in (h.base(), h.head()) if not any(v is e.get_child(0).head() for e in hs)]
        ctx.prove('inner-edges-join-the-centre', len(ends) == 1)
        mid = mid or ends[0]
        ctx.prove('one-centre', ends[0] is mid)
    # frame: the neighbours keep everything except the twins of their own sub-edges
    for i, o in enumerate(outer):
        k = 0
        for t in o:
            if t.get_parent() is hs[i]:
                continue
            now, was = states(t), before[i][k]
            k += 1
            same = [x is y for x, y in zip(now[:3], was[:3])] + [now[4] is was[4], now[5] is was[5], now[6] == was[6]]
            is_sub = t.get_parent() is hs[i].twin()
            ctx.prove('neighbour-untouched', all(same) and (is_sub or now[3] is was[3]), (st[i],))


def quad_split_periodic(ctx):
    """two opposite sides identified: with another cell (split or not) or with each other"""
    ctx.fn('mesh.QuadCell.split', 'mesh.HalfEdge.split', 'mesh.HalfEdge.pair_periodic_vertices', 'mesh.Vertex.set_periodic_pair')
    m = M()
    P = rect_pts(ctx)
    c = quad_from(P)
    dirn = ctx.choice('direction', [0, 1])       # periodic in x: edges 1 (right) and 3 (left); in y: 2 and 0
    i, j = ((1, 3), (2, 0))[dirn]
    mode = ctx.choice('mode', ['itself', 'other', 'other-split'])
    hs = c.get_half_edges()
    L = ctx.real('L', pos=True)
    e = [(L if k == dirn else 0) for k in range(2)]
    if mode == 'itself':
        pair = [(hs[i], hs[j])]
        other = None
    else:
        # the cell on the other side: a translate of the neighbour, behind side i
        w = ctx.real('w2', pos=True)
        Q = [(p[0] + (w if dirn == 0 else 0) - e[0], p[1] + (w if dirn == 1 else 0) - e[1]) for p in P]
        if dirn == 0:
            Q = [(P[1][0] - e[0], P[1][1]), (P[1][0] - e[0] + w, P[1][1]), (P[2][0] - e[0] + w, P[2][1]), (P[2][0] - e[0], P[2][1])]
        else:
            Q = [(P[3][0], P[3][1] - e[1]), (P[2][0], P[2][1] - e[1]), (P[2][0], P[2][1] - e[1] + w), (P[3][0], P[3][1] - e[1] + w)]
        other = quad_from(Q)
        pair = [(hs[i], other.get_half_edges()[j])]
    for a, b in pair:
        for x in (a, b):
            x.set_periodic()
        a.assign_twin(b)
        b.assign_twin(a)
        a.pair_periodic_vertices()
        b.pair_periodic_vertices()
    if mode == 'other-split':
        other.split()
    c.split()
    if mode == 'other':
        for h in c.get_half_edges():
            check_children(ctx, h, 'first-')
        other.split()
    for cell in [c] + ([other] if other else []):
        for x in cell.get_children():
            bad = MI.cell_loop(x)
            ctx.prove('child-closes-up', not bad, bad)
        for h in cell.get_half_edges():
            check_children(ctx, h, 'edge-')
    a, b = pair[0]
    for u, v in ((0, 1), (1, 0)):
        x, y = a.get_child(u), b.get_child(v)
        ctx.prove('periodic-sub-edges-paired', x.twin() is y and y.twin() is x and x.is_periodic() and y.is_periodic())
        shift = e if other is not None else [(P[1][0] - P[0][0]) if dirn == 0 else 0, (P[3][1] - P[0][1]) if dirn == 1 else 0]
        for p, q in ((x.base(), y.head()), (x.head(), y.base())):
            for k in range(2):
                ctx.prove_eq('identified-by-a-translation', p.coordinates()[k] - q.coordinates()[k], shift[k])
            ctx.prove('periodic-vertices-paired', any(w is q and k.contains(y.cell()) for k, w in p.get_periodic_pair())
                      and any(w is p and k.contains(x.cell()) for k, w in q.get_periodic_pair()))


def interval_split(ctx):
    ctx.fn('mesh.Interval.split', 'mesh.Interval.assign_previous', 'mesh.HalfEdge.assign_previous', 'mesh.HalfEdge.assign_next')
    m = M()
    n = ctx.choice('n', [2, 3, 4, 5])
    x0, w = ctx.real('x0'), ctx.real('w', pos=True)
    I = m.Interval(m.Vertex((x0,)), m.Vertex((x0 + w,)), n_children=n)
    J = m.Interval(I.head(), m.Vertex((x0 + w + ctx.real('w2', pos=True),)))
    I.assign_next(J)
    I.split()
    ch = list(I.get_children())
    ctx.prove('children', len(ch) == n)
    for i, c in enumerate(ch):
        ctx.prove('order', c.get_node_position() == i and c.get_parent() is I)
        ctx.prove('next-prev-inverse', (c.next() is (ch[i + 1] if i + 1 < n else None)) and (c.previous() is (ch[i - 1] if i else None)))
        ctx.prove('shared-points', (i == 0 or c.base() is ch[i - 1].head()))
        ctx.prove_eq('position', c.base().coordinates()[0], x0 + w * i / n)
    ctx.prove('ends', ch[0].base() is I.base() and ch[-1].head() is I.head())
    ctx.prove('parent-level-kept', I.next() is J and J.previous() is I and I.previous() is None and J.next() is None)


def quad_delete(ctx):
    """removing sub-cells restores the state the contract of split starts from, on both sides"""
    ctx.fn('mesh.QuadCell.delete_children')
    m = M()
    c = quad_from(rect_pts(ctx))
    h = c.get_half_edge(ctx.choice('side', [0, 1, 2, 3]))
    t = m.HalfEdge(h.head(), h.base())
    h.assign_twin(t)
    t.assign_twin(h)
    nsplit = ctx.choice('neighbour', [0, 1])
    if nsplit:
        t.split()
    c.split()
    if ctx.choice('deep', [0, 1]):
        for x in list(c.get_children()):
            x.split()
    c.delete_children()
    ctx.prove('leaf-again', not c.has_children())
    if nsplit:
        ctx.prove('no-twin-to-removed-cells', all(x.twin() is None for x in t.get_children()))
    ctx.prove('coarse-twins-kept', h.twin() is t and t.twin() is h)
    if not nsplit and ctx.choice('then', [0, 1]):
        t.split()
        ctx.prove('no-twin-to-removed-cells', all(x.twin() is None for x in t.get_children()))
    c.split()
    for e in c.get_half_edges():
        check_children(ctx, e, 're-split-')
    for x in c.get_children():
        bad = MI.cell_loop(x)
        ctx.prove('child-closes-up', not bad, bad)


# ------------------------------------------------------------------------------------------------ the base case: grids
def box(ctx, dim):
    lo = Fr(1, 1000) if ctx.sym else .001
    b = []
    for k in range(dim):
        a = ctx.real('a%d' % k, lo=-3, hi=3)
        b += [a, a + ctx.real('l%d' % k, lo=lo, sample=lambda r: r.uniform(.2, 3))]
    return b


def rect_grid(ctx, nx, ny):
    """generated grid: exactly the cells, vertices and edges of the tensor grid"""
    ctx.fn('mesh.DCEL.rectangular_grid', 'mesh.DCEL.determine_half_edges', 'mesh.Mesh.__init__', 'mesh.Mesh2D.__init__', 'mesh.QuadMesh.__init__', 'mesh.Mesh2D.bounding_box', 'mesh.DCEL.get_boundary_points')
    m = M()
    b = box(ctx, 2)
    mesh = m.QuadMesh(box=b, resolution=(nx, ny))
    X = lambda i, j: (b[0] + (b[1] - b[0]) * i / nx, b[2] + (b[3] - b[2]) * j / ny)
    d = mesh.dcel
    ctx.prove('counts', d.points['n'] == (nx + 1) * (ny + 1) == len(mesh.vertices) and d.faces['n'] == nx * ny
              and d.half_edges['n'] == 4 * nx * ny and mesh.cells.n_children() == nx * ny)
    # the vertex of every grid point
    used = {}
    cells = {}
    for c in mesh.cells.get_children():
        bad = MI.cell_loop(c)
        ctx.prove('cells-close-up', not bad, bad)
        key = tuple(mesh.vertices.index(v) for v in c.get_vertices())
        cells[key] = c
    V = {}
    for k, v in enumerate(mesh.vertices):
        j, i = divmod(k, nx + 1)
        V[k] = (i, j)
    # every vertex is one grid point, every grid point one vertex (any numbering)
    got = []
    for k, v in enumerate(mesh.vertices):
        ij = None
        for i in range(nx + 1):
            for j in range(ny + 1):
                g = X(i, j)
                if bool(ctx.eq(v.coordinates()[0], g[0])) and bool(ctx.eq(v.coordinates()[1], g[1])):
                    ij = (i, j)
        got.append(ij)
        V[k] = ij
    ctx.prove('vertices-are-the-grid-points', sorted(map(str, got)) == sorted(str((i, j)) for i in range(nx + 1) for j in range(ny + 1)))
    want = set()
    for i in range(nx):
        for j in range(ny):
            want.add(frozenset([(i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1)]))
    ctx.prove('cells-are-the-boxes', set(frozenset(V[k] for k in key) for key in cells) == want and len(cells) == nx * ny)
    pos = {id(v): V[k] for k, v in enumerate(mesh.vertices)}
    E = {}
    for c in mesh.cells.get_children():
        for h in c.get_half_edges():
            E[(pos[id(h.base())], pos[id(h.head())])] = h
    ctx.prove('edges-are-the-grid-edges', len(E) == 4 * nx * ny and all(abs(p[0] - q[0]) + abs(p[1] - q[1]) == 1 for p, q in E))
    for (p, q), h in E.items():
        ctx.prove('twins-across-interior-edges', h.twin() is E.get((q, p)), (p, q))
    # the same statement about the table
    for e in range(d.half_edges['n']):
        t, n_, pv, f = (int(d.half_edges[k][e]) for k in ('twin', 'next', 'prev', 'face'))
        co = [int(i) for i in d.half_edges['connectivity'][e]]
        ctx.prove('table-next-prev', int(d.half_edges['prev'][n_]) == e and int(d.half_edges['next'][pv]) == e
                  and int(d.half_edges['face'][n_]) == f and int(d.half_edges['connectivity'][n_][0]) == co[1])
        ctx.prove('table-twins', t == -1 or (int(d.half_edges['twin'][t]) == e and [int(i) for i in d.half_edges['connectivity'][t]] == co[::-1]))
    for k in range(d.points['n']):
        e = int(d.points['half_edge'][k])
        ctx.prove('point-knows-an-edge', int(d.half_edges['connectivity'][e][0]) == k)
    rim = sorted(k for k, v in V.items() if v[0] in (0, nx) or v[1] in (0, ny))
    ctx.prove('boundary-points', sorted(int(k) for k in d.get_boundary_points()) == rim)
    ctx.prove('kind-of-mesh', mesh.is_rectangular() and mesh.is_quadmesh() and not mesh.is_periodic() and mesh.dim() == 2)
    bb = mesh.bounding_box()
    ctx.prove('bounding-box', len(bb) == 4 and all(bool(ctx.eq(bb[k], b[k])) for k in range(4)))


def grid_1d(ctx, n, periodic):
    ctx.fn('mesh.Mesh1D.__init__', 'mesh.DCEL.rectangular_grid', 'mesh.DCEL.determine_half_edges', 'mesh.DCEL.make_periodic', 'mesh.Mesh1D.bounding_box')
    m = M()
    how = ctx.choice('how', ['box', 'points'] if not periodic else ['box'])
    if how == 'box':
        b = box(ctx, 1)
        mesh = m.Mesh1D(box=b, resolution=(n,), periodic=periodic)
        x = [b[0] + (b[1] - b[0]) * i / n for i in range(n + 1)]
    else:
        x = [ctx.real('x0')]
        for i in range(n):
            x.append(x[-1] + ctx.real('h%d' % i, lo=Fr(1, 1000) if ctx.sym else .001, hi=4))
        mesh = m.Mesh1D(x=ctx.arr(x))
    cs = list(mesh.cells.get_children())
    ctx.prove('number-of-intervals', len(cs) == n)
    for i, c in enumerate(cs):
        ctx.prove_eq('left', c.base().coordinates()[0], x[i])
        ctx.prove_eq('right', c.head().coordinates()[0], x[i + 1])
        ctx.prove('next', c.next() is (cs[i + 1] if i + 1 < n else None))
        ctx.prove('previous', c.previous() is (cs[i - 1] if i else None))
        ctx.prove('shared-points', i == 0 or c.base() is cs[i - 1].head())
    a, z = cs[0].base(), cs[-1].head()
    ctx.prove('periodic', mesh.is_periodic() == bool(periodic) and a.is_periodic() == bool(periodic) and z.is_periodic() == bool(periodic))
    if periodic:
        ctx.prove('ends-identified', list(a.get_periodic_pair()) == [(cs[-1], z)] and list(z.get_periodic_pair()) == [(cs[0], a)])
        t = mesh.dcel.half_edges
        ctx.prove('table-closes', int(t['next'][n - 1]) == 0 and int(t['prev'][0]) == n - 1)
    bb = mesh.bounding_box()
    ctx.prove('bounding-box', len(bb) == 2 and bool(ctx.eq(bb[0], x[0])) and bool(ctx.eq(bb[1], x[n])))
    ctx.prove('inner-points-not-periodic', not any(c.head().is_periodic() for c in cs[:-1]))


def default_grid(ctx, dim):
    """parts of the specification of a grid left out: unit box, one cell"""
    ctx.fn('mesh.DCEL.__init__', 'mesh.DCEL.rectangular_grid', 'mesh.Mesh1D.__init__', 'mesh.Mesh2D.__init__', 'mesh.Mesh2D.is_periodic')
    m = M()
    given = ctx.choice('given', ['nothing', 'box', 'resolution', 'both', 'periodic'])
    through = ctx.choice('through', ['mesh', 'dcel'])
    b, n = [0, 1] * dim, (1,) * dim
    kw = {}
    if given in ('box', 'both'):
        b = kw['box'] = box(ctx, dim)
    if given in ('resolution', 'both', 'periodic'):
        n = kw['resolution'] = ((3,), (3, 2))[dim - 1]
    per = None
    if given == 'periodic':
        per = ctx.choice('directions', [{0}, {1}, {0, 1}] if dim == 2 else [{0}])
    if through == 'mesh':
        if per:
            kw['periodic'] = per if dim == 2 else True
        mesh = (m.Mesh1D if dim == 1 else m.QuadMesh)(**kw)
    else:
        if given == 'nothing':
            kw['dim'] = dim
        if per:
            kw['periodic'] = per
        d = m.DCEL(**kw)
        ctx.prove('dim', d.dim() == dim)
        mesh = (m.Mesh1D if dim == 1 else m.QuadMesh)(dcel=d)
    ctx.prove('dim-of-mesh', mesh.dim() == dim)
    cells = list(mesh.cells.get_children())
    ctx.prove('count', len(cells) == (n[0] if dim == 1 else n[0] * n[1]))
    for i in range(n[0]):
        for j in range(n[1] if dim == 2 else 1):
            want = [(b[0] + (b[1] - b[0]) * Fr(i + p, n[0]) if ctx.sym else b[0] + (b[1] - b[0]) * (i + p) / n[0],) for p in (0, 1)]
            if dim == 2:
                y = [b[2] + (b[3] - b[2]) * Fr(j + p, n[1]) if ctx.sym else b[2] + (b[3] - b[2]) * (j + p) / n[1] for p in (0, 1)]
                want = [(want[0][0], y[0]), (want[1][0], y[0]), (want[1][0], y[1]), (want[0][0], y[1])]
            def near(p, q):
                if ctx.sym and given not in ('box', 'both'):
                    return abs(float(p) - float(q)) < 1e-12
                return bool(ctx.eq(p, q))
            hit = 0
            for c in cells:
                V = [v.coordinates() for v in c.get_vertices()]
                hit += all(any(all(near(v[k], w[k]) for k in range(dim)) for v in V) for w in want)
            ctx.prove('cell', hit == 1, (i, j))
    if dim == 2:
        on = per or set()
        ctx.prove('periodic', mesh.is_periodic() == bool(on) and all(mesh.is_periodic(q) == (q <= on) for q in ({0}, {1}, {0, 1})))
    else:
        ctx.prove('periodic', mesh.is_periodic() == bool(per))


def periodic_grid(ctx, nx, ny, per):
    ctx.fn('mesh.DCEL.make_periodic', 'mesh.Mesh2D.__init__', 'mesh.DCEL.get_boundary_half_edges', 'mesh.HalfEdge.pair_periodic_vertices')
    m = M()
    b = [ctx.real('ax', lo=-3, hi=3), 0, ctx.real('ay', lo=-3, hi=3), 0]
    if ctx.sym:
        b = [Fr(ctx.choice('bx', [0, -2])), 0, Fr(ctx.choice('by', [0, 1])), 0]
    w, h = (Fr(1), Fr(3, 2)) if ctx.sym else (1., 1.5)
    b[1], b[3] = b[0] + w, b[2] + h
    mesh = m.QuadMesh(box=[float(v) for v in b], resolution=(nx, ny), periodic=set(per))
    bad = MI.mesh2d(mesh.cells.get_children(), (float(w) if 0 in per else None, float(h) if 1 in per else None))
    ctx.prove('periodic-twins', not bad, bad[:3])


CONN = {
    'quad': ([(0, 0), (1, 0), (1, 1), (0, 1)], [[0, 1, 2, 3]]),
    'L': ([(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1), (0, 2), (1, 2)], [[0, 1, 4, 3], [1, 2, 5, 4], [3, 4, 7, 6]]),
    'ring': ([(i, j) for j in range(4) for i in range(4)],
             [[k, k + 1, k + 5, k + 4] for k in (0, 1, 2, 4, 6, 8, 9, 10)]),
    'fan': ([(0, 0), (1, 0), (.5, 1), (-.5, 1), (-1, 0), (0, -1)], [[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 5]]),
    'closed-fan': ([(0, 0), (1, 0), (0, 1), (-1, 0), (0, -1)], [[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 1]]),
    'mixed': ([(0, 0), (1, 0), (1, 1), (0, 1), (2, .5), (.5, 2)], [[0, 1, 2, 3], [1, 4, 2], [3, 2, 5]]),
    'two-components': ([(0, 0), (1, 0), (1, 1), (0, 1), (3, 0), (4, 0), (4, 1), (3, 1)], [[0, 1, 2, 3], [4, 5, 6, 7]]),
    'corner-touch': ([(0, 0), (1, 0), (1, 1), (0, 1), (2, 1), (2, 2), (1, 2)], [[0, 1, 2, 3], [2, 4, 5, 6]]),
    'five-around': ([(0, 0)] + [(np.cos(2 * np.pi * k / 10) * (1 + k % 2 * .3), np.sin(2 * np.pi * k / 10) * (1 + k % 2 * .3)) for k in range(10)],
                    [[0, 1 + 2 * k, 2 + 2 * k, 1 + (2 * k + 2) % 10] for k in range(5)]),
    'skew': ([(0, 0), (1, .1), (2, 0), (-.1, 1), (1.1, .9), (2, 1.2), (0, 2), (.8, 2.1), (2.2, 2)],
             [[0, 1, 4, 3], [1, 2, 5, 4], [3, 4, 7, 6], [4, 5, 8, 7]]),
}


def build(m, name, rnd=None):
    x, con = CONN[name]
    con = [list(f) for f in con]
    if rnd:
        rnd.shuffle(con)
        con = [f[k:] + f[:k] for f in con for k in [rnd.randrange(len(f))]]
        perm = list(range(len(x)))
        rnd.shuffle(perm)
        x2 = [None] * len(x)
        for i, p in enumerate(perm):
            x2[p] = x[i]
        x, con = x2, [[perm[i] for i in f] for f in con]
    cls = m.QuadMesh if all(len(f) == 4 for f in con) else m.Mesh2D
    return cls(x=np.array(x, dtype=float), connectivity=con)


def boundary_ok(d):
    """boundary half-edges of the table: exactly those without twin, in connected runs"""
    bad = []
    seg = d.get_boundary_half_edges()
    allb = [e for e in range(d.half_edges['n']) if d.half_edges['twin'][e] == -1]
    if sorted(e for s in seg for e in s) != allb:
        bad.append('boundary half-edges are not those without twin')
    for s in seg:
        for a, b in zip(s, s[1:]):
            if d.half_edges['connectivity'][a][1] != d.half_edges['connectivity'][b][0]:
                bad.append('boundary half-edges are not in order')
    if set(d.get_boundary_points()) != set(int(d.half_edges['connectivity'][e][0]) for e in allb):
        bad.append('boundary points')
    return bad


def connectivity_meshes(ctx, name, searches=None):
    """meshes from connectivity: any order of the faces, of their vertices and of the points"""
    ctx.fn('mesh.DCEL.grid_from_connectivity', 'mesh.DCEL.determine_half_edges', 'mesh.Mesh2D.__init__')
    m = M()
    k = ctx.choice('variant', list(range(12)))
    mesh = build(m, name, random.Random(k) if k else None)
    bad = MI.mesh2d(mesh.cells.get_children()) + boundary_ok(mesh.dcel)
    ctx.prove('connectivity', not bad, bad[:3])
    ctx.prove('all-faces', mesh.cells.n_children() == len(CONN[name][1]) and mesh.is_quadmesh() == all(len(f) == 4 for f in CONN[name][1]))
    d = mesh.dcel
    faces = d.faces['connectivity']
    got = sorted(sorted(tuple(v.coordinates()) for v in c.get_vertices()) for c in mesh.cells.get_children())
    want = sorted(sorted(tuple(float(t) for t in CONN[name][0][i]) for i in f) for f in CONN[name][1])
    ctx.prove('faces-as-given', np.allclose(np.array([p for c in got for p in c]), np.array([p for c in want for p in c])))


def gmsh_mesh(ctx):
    ctx.fn('mesh.DCEL.grid_from_gmsh')
    m = M()
    which = ctx.choice('file', ['square.msh', 'tri.msh'])
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data', which)
    mesh = m.QuadMesh(file_path=path) if which == 'square.msh' else m.Mesh2D(file_path=path)
    bad = MI.mesh2d(mesh.cells.get_children()) + boundary_ok(mesh.dcel)
    ctx.prove('connectivity', not bad, bad[:3])
    got = sorted(tuple(sorted(v.coordinates() for v in c.get_vertices())) for c in mesh.cells.get_children())
    if which == 'square.msh':
        P = {1: (0., 0.), 2: (1., 0.), 3: (1., 1.), 4: (0., 1.), 5: (2., 0.), 6: (2., 1.5)}
        want = [[1, 2, 3, 4], [2, 5, 6, 3]]
    else:
        P = {1: (0., 0.), 2: (1., 0.), 3: (1., 1.), 4: (0., 1.)}
        want = [[1, 2, 3], [1, 3, 4]]
    ctx.prove('cells-as-in-the-file', got == sorted(tuple(sorted(P[i] for i in f)) for f in want))


# ------------------------------------------------------------------------------------------------ sequences of refinements
BASES = [('grid', (1, 1), ()), ('grid', (2, 1), ()), ('grid', (2, 2), ()), ('grid', (3, 2), (0,)), ('grid', (2, 2), (0, 1)),
         ('grid', (1, 2), (0,)), ('grid', (2, 1), (1,)), ('grid', (3, 3), (0, 1)), ('L', None, ()), ('five-around', None, ()), ('ring', None, ())]


def base_mesh(m, k):
    kind, res, per = BASES[k]
    if kind == 'grid':
        return m.QuadMesh(box=[0., 1., 0., 1.5], resolution=res, periodic=set(per) if per else None), (1. if 0 in per else None, 1.5 if 1 in per else None)
    return build(m, kind), (None, None)


def sequences(ctx, k, steps, seeds):
    """any order of refining and coarsening keeps the connectivity on every level"""
    ctx.fn('mesh.QuadCell.split', 'mesh.QuadCell.delete_children', 'mesh.HalfEdge.split', 'mesh.Forest.refine', 'mesh.Forest.coarsen')
    m = M()
    seed = ctx.choice('seed', list(range(seeds)))
    rnd = random.Random('%d/%d' % (k, seed))
    mesh, per = base_mesh(m, k)
    for s in range(steps):
        leaves = list(mesh.cells.get_leaves())
        nodes = [c for c in mesh.cells.traverse() if c.has_children()]
        what = rnd.random()
        if what < .72 or not nodes:
            todo = [c for c in leaves if c.get_depth() < 4]
            for c in rnd.sample(todo, min(len(todo), rnd.choice([1, 1, 2, 3]))):
                if rnd.random() < .5:
                    c.split()
                else:
                    c.mark('r')
                    mesh.cells.refine(refinement_flag='r')
        elif what < .9:
            rnd.choice(nodes).delete_children()
        else:
            rnd.choice(nodes).mark('c')
            mesh.cells.coarsen(coarsening_flag='c')
        bad = MI.mesh2d(mesh.cells.get_children(), per)
        ctx.prove('connectivity-kept', not bad, (s, bad[:3]))
        if bad:
            return


def all_short_sequences(ctx, k, depth):
    """every order of splitting leaves, up to a number of splits"""
    ctx.fn('mesh.QuadCell.split')
    m = M()
    mesh, per = base_mesh(m, k)
    for s in range(depth):
        leaves = list(mesh.cells.get_leaves())
        i = ctx.choice('split%d' % s, list(range(len(leaves) if s < depth - 1 else len(leaves))))
        leaves[i].split()
        bad = MI.mesh2d(mesh.cells.get_children(), per)
        ctx.prove('connectivity-kept', not bad, bad[:3])


def sequences_1d(ctx, periodic):
    ctx.fn('mesh.Interval.split')
    m = M()
    seed = ctx.choice('seed', list(range(30)))
    rnd = random.Random(seed)
    mesh = m.Mesh1D(resolution=(rnd.choice([1, 2, 3]),), periodic=periodic)
    for s in range(5):
        rnd.choice(list(mesh.cells.get_leaves())).split()
    for lev in MI.levels(mesh.cells.get_children()):
        for c in lev:
            n, p = c.next(), c.previous()
            ctx.prove('next-prev-inverse', (n is None or (n.previous() is c and n.base() is c.head()))
                      and (p is None or (p.next() is c and p.head() is c.base())))
            if c.has_children():
                ch = list(c.get_children())
                ctx.prove('children-linked', all(a.next() is b for a, b in zip(ch, ch[1:])) and ch[0].base() is c.base() and ch[-1].head() is c.head())


def harnesses(tier):
    th = tier == 'thorough'
    H = [Harness(quad_split, 'quad_split[rect]', params=dict(kind='rect'), searches=10, budget=400),
         Harness(quad_split, 'quad_split[general]', params=dict(kind='quad'), searches=10, budget=400),
         Harness(quad_split_periodic, searches=10, budget=200),
         Harness(interval_split, searches=10, budget=100),
         Harness(quad_delete, searches=10, budget=200)]
    res = [(1, 1), (2, 1), (1, 3), (2, 2), (3, 2)] + ([(4, 3), (2, 5), (5, 1)] if th else [])
    for r in res:
        H.append(Harness(rect_grid, 'rect_grid[%dx%d]' % r, kind='bounded', params=dict(nx=r[0], ny=r[1]), searches=2, budget=200,
                         bound='resolution %dx%d, every box' % r))
    for n in [1, 2, 3, 5]:
        for p in (False, True):
            H.append(Harness(grid_1d, 'grid_1d[%d%s]' % (n, ',periodic' if p else ''), kind='bounded', params=dict(n=n, periodic=p),
                             searches=2, budget=100, bound='%d intervals, all coordinates' % n))
    for r in [(2, 2), (3, 2), (2, 3), (3, 3), (1, 2), (2, 1), (1, 3)] + ([(4, 4), (1, 5), (6, 2)] if th else []):
        for per in ((0,), (1,), (0, 1)):
            H.append(Harness(periodic_grid, 'periodic_grid[%dx%d,%s]' % (r + (per,)), kind='bounded', params=dict(nx=r[0], ny=r[1], per=per),
                             searches=2, budget=60, bound='resolution %dx%d' % r))
    for n in CONN:
        H.append(Harness(connectivity_meshes, 'connectivity[%s]' % n, kind='bounded', params=dict(name=n), searches=1, budget=60,
                         bound='12 orderings of points and faces'))
    for dim in (1, 2):
        H.append(Harness(default_grid, 'default_grid[%d]' % dim, kind='bounded', params=dict(dim=dim), searches=2, budget=100, bound='up to 3x2 cells, every box'))
    H.append(Harness(gmsh_mesh, kind='bounded', searches=1, bound='two files'))
    for k in range(len(BASES)):
        H.append(Harness(sequences, 'sequences[%d]' % k, kind='bounded', params=dict(k=k, steps=8, seeds=40 if th else 10), searches=0,
                         budget=300, bound='random sequences of 8 refinements and coarsenings'))
    for k, d in [(0, 3), (1, 3), (2, 2), (4, 2), (5, 3), (6, 2)]:
        H.append(Harness(all_short_sequences, 'all_sequences[%d]' % k, kind='bounded', params=dict(k=k, depth=d + (1 if th and k in (1, 5) else 0)),
                         searches=0, budget=300, bound='all sequences of %d splits' % d))
    for p in (False, True):
        H.append(Harness(sequences_1d, 'sequences_1d[%s]' % p, kind='bounded', params=dict(periodic=p), searches=0, bound='5 splits'))
    return H
