"""C18 region marking and boundary queries."""
import random
from .common import *
from . import meshinv as MI
from .C03 import BASES, base_mesh, build, CONN, box
from .C06 import geometry, mid, rnd2, refine_randomly, sub_mesh, leaf_set

EXPLANATION = ('mark_region and get_region: the criterion is an arbitrary predicate (a free boolean for every vertex), the box is symbolic; on '
               'every listed mesh shape the marked and returned entities are proved to be exactly those the specification selects, for every '
               'entity type, containment rule, boundary restriction and sub-mesh. Boundary queries and larger meshes with several boundary '
               'components, periodic directions and sub-meshes are compared with geometry (bounded).')


# ------------------------------------------------------------------------------------------------ specification
def nodes_of(mesh):
    return [c for lv in MI.levels(list(mesh.cells.get_children())) for c in lv]


def unique(xs):
    seen = {}
    for x in xs:
        seen.setdefault(id(x), x)
    return list(seen.values())


def boundary_edges(mesh, leaves, period):
    """leaf edges on the boundary, by geometry of the coarsest cells"""
    roots = list(mesh.cells.get_children())
    key = geometry(roots, period)
    count = {}
    for c in roots:
        for h in c.get_half_edges():
            count.setdefault(key(mid(h)), []).append(h)
    out = []
    for c in leaves:
        r = c
        while r.has_parent():
            r = r.get_parent()
        segs = [h for h in r.get_half_edges() if len(count[key(mid(h))]) == 1]
        for e in c.get_half_edges():
            for s in segs:
                a, b = s.base().coordinates(), s.head().coordinates()
                d = (b[0] - a[0], b[1] - a[1])
                on = True
                for p in (e.base().coordinates(), e.head().coordinates()):
                    q = (p[0] - a[0], p[1] - a[1])
                    if abs(d[0] * q[1] - d[1] * q[0]) > 1e-9 or not -1e-9 <= (q[0] * d[0] + q[1] * d[1]) <= d[0] ** 2 + d[1] ** 2 + 1e-9:
                        on = False
                if on:
                    out.append(e)
                    break
    return out


def entities(mesh, dim, leaves, kind, bnd_edges=None, bnd_points=None, bnd_cells=None):
    if kind == 'cell':
        if dim == 1:
            return unique(bnd_cells if bnd_cells is not None else leaves)
        return unique([e.cell() for e in bnd_edges] if bnd_edges is not None else leaves)
    if kind == 'half_edge':
        return unique(bnd_edges if bnd_edges is not None else [e for c in leaves for e in c.get_half_edges()])
    if dim == 1:
        return unique(bnd_points if bnd_points is not None else [v for c in leaves for v in c.get_vertices()])
    return unique([v for e in bnd_edges for v in e.get_vertices()] if bnd_edges is not None else [v for c in leaves for v in c.get_vertices()])


def verts(x, kind):
    return [x] if kind == 'vertex' else list(x.get_vertices())


def universe(mesh, dim):
    cells = nodes_of(mesh)
    V = unique([v for c in cells for v in c.get_vertices()])
    if dim == 1:
        return cells + V
    E = unique([h for c in cells for h in c.get_half_edges()])
    return cells + V + E


def region_contract(ctx, mesh, dim, f, kind, strict, on_bnd, sub, period=(None, None), what=''):
    leaves = leaf_set(mesh, sub)
    kw = {}
    if on_bnd:
        if dim == 2:
            kw['bnd_edges'] = boundary_edges(mesh, leaves, period)
        else:
            per = period[0] is not None
            kw['bnd_points'] = [] if per else [leaves[0].base(), leaves[-1].head()]
            kw['bnd_cells'] = [] if per else [leaves[0], leaves[-1]]
    cand = entities(mesh, dim, leaves, kind, **kw)
    U = universe(mesh, dim)
    old = {id(x): x.is_marked('old') for x in U}
    mesh.mark_region('new', f, entity_type=kind, strict_containment=strict, on_boundary=on_bnd, subforest_flag=sub)
    want = []
    for x in cand:
        vals = [bool(f(*v.coordinates())) for v in verts(x, kind)]
        if (all if strict else any)(vals):
            want.append(x)
    got = [x for x in U if x.is_marked('new')]
    ctx.prove('marks-exactly', sorted(map(id, got)) == sorted(map(id, want)), (what, kind, strict, on_bnd, sub, len(got), len(want)))
    ctx.prove('other-marks-kept', all(x.is_marked('old') == old[id(x)] for x in U))
    r = list(mesh.get_region(flag='new', entity_type=kind, on_boundary=on_bnd, subforest_flag=sub))
    ctx.prove('region-is-what-was-marked', sorted(map(id, r)) == sorted(map(id, want)), (what, kind, strict, on_bnd, sub))
    # the whole sub-mesh without a flag
    r = list(mesh.get_region(entity_type=kind, on_boundary=on_bnd, subforest_flag=sub))
    ctx.prove('region-without-flag', sorted(map(id, r)) == sorted(map(id, cand)), (what, kind, on_bnd, sub))
    r = list(mesh.get_region(flag='old', entity_type=kind, on_boundary=on_bnd, subforest_flag=sub))
    ctx.prove('region-of-earlier-marks', sorted(map(id, r)) == sorted(id(x) for x in cand if x.is_marked('old')))
    # with cells
    r = list(mesh.get_region(flag='new', entity_type=kind, on_boundary=on_bnd, subforest_flag=sub, return_cells=True))
    pairs = []
    for x in want:
        if kind == 'cell':
            pairs.append((id(x), id(x)))
        elif dim == 1:
            for c in (kw['bnd_cells'] if on_bnd else leaves):
                if any(v is x for v in c.get_vertices()):
                    pairs.append((id(x), id(c)))
        elif kind == 'half_edge':
            pairs.append((id(x), id(x.cell())))
        elif on_bnd:
            for e in kw['bnd_edges']:
                if any(v is x for v in e.get_vertices()):
                    pairs.append((id(x), id(e.cell())))
        else:
            for c in leaves:
                if any(v is x for v in c.get_vertices()):
                    pairs.append((id(x), id(c)))
    ctx.prove('region-with-cells', sorted((id(a), id(b)) for a, b in r) == sorted(set(pairs)), (what, kind, on_bnd, sub))


# ------------------------------------------------------------------------------------------------ all criteria, all boxes
def oracle(ctx):
    table = {}

    def f(*x):
        k = tuple(repr(v) if ctx.sym else rkey(v) for v in x)
        if k not in table:
            table[k] = ctx.choice('f%d' % len(table), [False, True])
        return table[k]
    return f


def premark(mesh, dim):
    for i, x in enumerate(universe(mesh, dim)):
        if i % 3 == 0:
            x.mark('old')


def region_2d(ctx, shape, kind):
    ctx.fn('mesh.Mesh2D.mark_region', 'mesh.Mesh2D.get_region', 'mesh.Mesh2D.get_boundary_segments')
    m = M()
    # geometry in the criterion is arbitrary anyway; the boundary oracle needs numbers
    nx, ny = {'1x1': (1, 1), '2x1': (2, 1), '1x1r': (1, 1), '1x1s': (1, 1)}[shape]
    mesh = m.QuadMesh(box=[0., 1., 0., 1.], resolution=(nx, ny))
    sub = None
    if shape in ('1x1r', '1x1s'):
        mesh.cells.record('s')
        mesh.cells.get_child(0).split()
        sub = 's' if shape == '1x1s' else None
    premark(mesh, 2)
    strict = ctx.choice('strict', [True, False])
    on_bnd = ctx.choice('on-boundary', [False, True])
    region_contract(ctx, mesh, 2, oracle(ctx), kind, strict, on_bnd, sub, what=shape)


def region_1d(ctx, periodic):
    ctx.fn('mesh.Mesh1D.mark_region', 'mesh.Mesh1D.get_region', 'mesh.Mesh1D.get_boundary_cells', 'mesh.Mesh1D.get_boundary_vertices')
    m = M()
    b = box(ctx, 1)
    n = ctx.choice('n', [1, 2, 3])
    mesh = m.Mesh1D(box=b, resolution=(n,), periodic=periodic)
    mesh.cells.record('s')
    r = ctx.choice('refined', list(range(-1, n)))
    if r >= 0:
        mesh.cells.get_child(r).split()
    premark(mesh, 1)
    sub = ctx.choice('sub', [None, 's'])
    kind = ctx.choice('kind', ['vertex', 'cell'])
    strict = ctx.choice('strict', [True, False])
    on_bnd = ctx.choice('on-boundary', [False, True])
    region_contract(ctx, mesh, 1, oracle(ctx), kind, strict, on_bnd, sub, period=(1. if periodic else None, None))
    if not periodic:
        lv = leaf_set(mesh, sub)
        v, c = mesh.get_boundary_vertices(), mesh.get_boundary_cells(subforest_flag=sub)
        ctx.prove('end-points', v[0] is lv[0].base() and v[1] is lv[-1].head() and len(v) == 2)
        ctx.prove('end-cells', c[0] is lv[0] and c[1] is lv[-1] and len(c) == 2)
    x0, x1 = mesh.bounding_box()
    ctx.prove_eq('box-left', x0, b[0])
    ctx.prove_eq('box-right', x1, b[1])


def one_cell(ctx):
    """the body of the loops: one leaf (any quadrilateral, at symbolic coordinates), any criterion"""
    ctx.fn('mesh.Mesh2D.mark_region', 'mesh.Mesh2D.get_region')
    m = M()
    P = quad_pts(ctx)
    not_axis(ctx, P)
    mesh = m.QuadMesh(box=[0., 1., 0., 1.], resolution=(1, 1))
    c = quad_from(P)
    mesh.cells = m.Forest([c])
    kind = ctx.choice('kind', ['vertex', 'half_edge', 'cell'])
    strict = ctx.choice('strict', [True, False])
    f = oracle(ctx)
    mesh.mark_region('new', f, entity_type=kind, strict_containment=strict)
    for x in [c] + list(c.get_half_edges()) + list(c.get_vertices()):
        k = 'cell' if x is c else 'vertex' if isinstance(x, m.Vertex) else 'half_edge'
        want = k == kind and (all if strict else any)([f(*v.coordinates()) for v in verts(x, kind)])
        ctx.prove('marks-exactly', x.is_marked('new') == want, (kind, strict))


# ------------------------------------------------------------------------------------------------ meshes
def boundary_contract(ctx, mesh, per, sub, rnd, what):
    leaves = leaf_set(mesh, sub)
    B = boundary_edges(mesh, leaves, per)
    seg = mesh.get_boundary_segments(subforest_flag=sub)
    flat = [h for s in seg for h in s]
    ctx.prove('boundary-edges-exactly', sorted(map(id, flat)) == sorted(map(id, B)), (what, sub, len(flat), len(B)))
    ctx.prove('segments-run-on', all(a.head() is b.base() for s in seg for a, b in zip(s, s[1:])), what)
    ctx.prove('segments-are-maximal', len([s for s in seg if not s]) == 0
              and not any(s is not t and s[-1].head() is t[0].base() and s[-1].head() is not s[0].base() for s in seg for t in seg), what)
    vs = mesh.get_boundary_vertices(subforest_flag=sub)
    want = unique([v for h in B for v in h.get_vertices()])
    ctx.prove('boundary-vertices-exactly', sorted(map(id, vs)) == sorted(map(id, want)), (what, sub, len(vs), len(want)))
    F = [h for h in B if rnd.random() < .4]
    for h in F:
        h.mark('bf')
    seg = mesh.get_boundary_segments(subforest_flag=sub, flag='bf')
    flat = [h for s in seg for h in s]
    ctx.prove('flagged-boundary-edges-exactly', sorted(map(id, flat)) == sorted(map(id, F)), (what, sub, len(flat), len(F)))
    vs = mesh.get_boundary_vertices(subforest_flag=sub, flag='bf')
    want = unique([v for h in F for v in h.get_vertices()])
    ctx.prove('flagged-boundary-vertices-exactly', sorted(map(id, vs)) == sorted(map(id, want)), (what, sub, len(vs), len(want)))


def meshes(ctx, k, seeds):
    ctx.fn('mesh.Mesh2D.mark_region', 'mesh.Mesh2D.get_region', 'mesh.Mesh2D.get_boundary_segments', 'mesh.Mesh2D.get_boundary_vertices')
    m = M()
    s = ctx.choice('seed', list(range(seeds)))
    rnd = random.Random('r%s/%d' % (k, s))
    if isinstance(k, int):
        mesh, per = base_mesh(m, k)
    else:
        mesh, per = build(m, k), (None, None)
    if mesh.is_quadmesh():
        refine_randomly(mesh, rnd, rnd.choice([0, 2, 4, 6]), coarsen=0)
    sub_mesh(mesh, rnd, 's')
    premark(mesh, 2)
    sub = rnd.choice([None, 's'])
    boundary_contract(ctx, mesh, per, sub, rnd, (k, s))
    a, b, c = rnd.uniform(-1, 1), rnd.uniform(-1, 1), rnd.uniform(-.2, .8)
    crit = [lambda x, y: a * x + b * y < c, lambda x, y: (x - c) ** 2 + (y - .5) ** 2 < .3, lambda x, y: abs(x - round(x)) < 1e-9,
            lambda x, y: True, lambda x, y: False][rnd.randrange(5)]
    kind = ctx.choice('kind', ['vertex', 'half_edge', 'cell'])
    region_contract(ctx, mesh, 2, crit, kind, ctx.choice('strict', [True, False]), ctx.choice('on-boundary', [True, False]), sub, per, (k, s))
    xs = [v.coordinates() for r in mesh.cells.get_children() for v in r.get_vertices()]
    bb = mesh.bounding_box()
    ctx.prove('bounding-box', np.allclose(bb, [min(p[0] for p in xs), max(p[0] for p in xs), min(p[1] for p in xs), max(p[1] for p in xs)]))


def harnesses(tier):
    th = tier == 'thorough'
    H = [Harness(one_cell, searches=10, budget=200)]
    for p in (False, True):
        H.append(Harness(region_1d, 'region_1d[%s]' % p, params=dict(periodic=p), searches=20, budget=200))
    for sh in ['1x1', '2x1', '1x1s'] + (['1x1r'] if True else []):
        for kd in ['vertex', 'half_edge', 'cell']:
            H.append(Harness(region_2d, 'region_2d[%s,%s]' % (sh, kd), kind='bounded', params=dict(shape=sh, kind=kd), searches=0, budget=300,
                             bound='all criteria on mesh %s' % sh))
    for k in list(range(len(BASES))) + ['fan', 'closed-fan', 'mixed', 'two-components', 'corner-touch', 'L']:
        H.append(Harness(meshes, 'meshes[%s]' % k, kind='bounded', params=dict(k=k, seeds=20 if th else 5), searches=0, budget=200,
                         bound='seeded refinements, sub-meshes and criteria'))
    return H
