"""C09 numbering of the degrees of freedom."""
import itertools
import random
from .common import *
from . import meshinv as MI
from .C03 import BASES, base_mesh, build, CONN, box
from .C06 import geometry, refine_randomly, sub_mesh, leaf_set

EXPLANATION = ('The numbering code is executed with opaque tokens in place of the numbers, so that nothing can depend on their values: contracts of '
               'assign_dofs (every entity, every pattern of positions already numbered), get_cell_dofs, fill_dofs (symbolic counter through the '
               'numbers themselves), share_dofs_with_children (every element: exactly the nodes a child has in common with its parent) and '
               'share_dofs_with_neighbors (every relative orientation of two cells, every number of cells about a vertex, periodic meshes). '
               'Continuity across a shared edge is proved for symbolic coefficients, symbolic cells and a symbolic position on the edge. Whole '
               'distributions over refinement histories, sub-meshes and periodic meshes are compared with the geometry (bounded).')
ASSUMPTIONS = ['neighbour queries as in C06, connectivity as in C03', 'the cells about a vertex are connected through common edges (no domains pinched at a vertex)']


class Token:
    """an opaque number"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<%s>' % (self.name,)


def tokens(n, name='t'):
    return [Token('%s%d' % (name, i)) for i in range(n)]


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def degree(et):
    return int(et[-1])


def ref_nodes(dim, et):
    nd = NODES[(dim, degree(et))]
    return [(p,) if dim == 1 else tuple(p) for p in nd] if dim == 1 else [tuple(Fr(c) for c in p) for p in nd]


def layout(dim, et):
    """positions of (vertex k), (edge k), (interior) in the local numbering, from the documented node order"""
    k = degree(et)
    if et[0] == 'D' and k == 0:
        return [[] for _ in range(2 * dim)], [[] for _ in range(2 * dim if dim == 2 else 0)], [0]
    nv = 2 if dim == 1 else 4
    v = [[i] for i in range(nv)]
    if dim == 1:
        return v, [], list(range(2, k + 1))
    e = [list(range(4 + i * (k - 1), 4 + (i + 1) * (k - 1))) for i in range(4)]
    return v, e, list(range(4 + 4 * (k - 1), (k + 1) ** 2))


CONT = ['Q1', 'Q2', 'Q3']
TORN = ['DQ0', 'DQ1', 'DQ2', 'DQ3']


def handler(mesh, dim, et):
    fem = mod('fem')
    return fem.DofHandler(mesh, fem.QuadFE(dim, et))


# ------------------------------------------------------------------------------------------------ numbering one cell
def assign(ctx, dim, et):
    ctx.fn('fem.DofHandler.assign_dofs', 'fem.DofHandler.get_cell_dofs')
    m = M()
    mesh = m.Mesh1D(resolution=(2,)) if dim == 1 else m.QuadMesh(resolution=(2, 1))
    h = handler(mesh, dim, et)
    c, other = mesh.cells.get_child(0), mesh.cells.get_child(1)
    V, E, I = layout(dim, et)
    n = h.element.n_dofs()
    ents = [('vertex', k, c.get_vertices()[k], V[k]) for k in range(len(V))] + [('edge', k, c.get_half_edges()[k], E[k]) for k in range(len(E))]
    ents += [('interior', 0, c, I), ('all', 0, None, list(range(n))), ('pos', 0, 'pos', None)]
    k = ctx.choice('entity', list(range(len(ents))))
    kind, _, ent, pos = ents[k]
    if kind == 'pos':
        pos = ctx.choice('positions', [list(range(0, n, 2)), list(range(n))[::-1], []])
    fill = ctx.choice('elsewhere', ['fresh', 'empty', 'full', 'mixed'])
    old = [None] * n
    q = tokens(n, 'old')
    small = pos if len(pos) <= 4 else pos[:2]
    for i in range(n):
        if fill == 'fresh':
            pass
        elif i in small:
            old[i] = q[i] if ctx.choice('set%d' % i, [0, 1]) else None
        else:
            old[i] = q[i] if fill == 'full' or (fill == 'mixed' and i % 2) else None
    if fill != 'fresh':
        keep = [i for i in range(n) if old[i] is not None]
        h.assign_dofs([q[i] for i in keep], c, pos=keep)
        ctx.prove('reads-back', same(h.get_cell_dofs(c), old))
    else:
        ctx.prove('nothing-before', h.get_cell_dofs(c) is None)
    z = tokens(n, 'other')
    h.assign_dofs(z, other)
    new = tokens(len(pos), 'new')
    given = list(new)
    if kind == 'pos':
        h.assign_dofs(given, c, pos=list(pos))
    else:
        h.assign_dofs(given, c, ent)
    want = list(old)
    for i, p in enumerate(pos):
        if want[p] is None:
            want[p] = new[i]
    if not pos and h.get_cell_dofs(c) is None:
        want = None
        ctx.prove('empty-entity', True)
    else:
        ctx.prove('fills-only-empty-positions', same(h.get_cell_dofs(c), want), (kind, fill))
    ctx.prove('input-kept', same(given, new))
    ctx.prove('other-cells-kept', same(h.get_cell_dofs(other), z))
    if want is not None:
        for kd, k, e, pp in ents:
            if kd in ('vertex', 'edge', 'interior'):
                r = h.get_cell_dofs(c, e, interior=True)
                ctx.prove('dofs-of-an-entity', same(r, [want[p] for p in pp]), (kd, k))
                if kd == 'edge' and et[0] != 'D':
                    r = h.get_cell_dofs(c, e)
                    w = [want[p] for p in V[k] + V[(k + 1) % 4] + pp]
                    ctx.prove('dofs-of-a-closed-edge', sorted(map(id, r)) == sorted(map(id, w)), k)
                if kd == 'interior':
                    ctx.prove('dofs-of-a-closed-cell', same(h.get_cell_dofs(c, e), want))
        loc = h.get_cell_dofs(c, doftype='local')
        ctx.prove('local-dofs', list(loc) == list(range(n)))


def fill(ctx, dim, et):
    """numbers the empty positions consecutively, starting where the previous numbering stopped"""
    ctx.fn('fem.DofHandler.fill_dofs')
    m = M()
    mesh = m.Mesh1D(resolution=(2,)) if dim == 1 else m.QuadMesh(resolution=(2, 1))
    h = handler(mesh, dim, et)
    c, d = mesh.cells.get_child(0), mesh.cells.get_child(1)
    n = h.element.n_dofs()
    q = tokens(n)
    if n <= 5:
        keep = [i for i in range(n) if ctx.choice('set%d' % i, [0, 1])]
    else:
        keep = ctx.choice('set', [[], [0], [0, 1, 2, 3], [0, 3, 4], list(range(0, n, 2)), list(range(n - 1)), list(range(n)), [n - 1]])
    first = ctx.choice('other-first', [0, 1])
    k0 = 0
    if first:
        h.fill_dofs(d)
        k0 = n
        ctx.prove('fresh-cell', list(h.get_cell_dofs(d)) == list(range(n)))
    if keep or ctx.choice('touched', [0, 1]):
        h.assign_dofs([q[i] for i in keep], c, pos=keep)
    h.fill_dofs(c)
    r = h.get_cell_dofs(c)
    want, k = [], k0
    for i in range(n):
        if i in keep:
            want.append(q[i])
        else:
            want.append(k)
            k += 1
    ctx.prove('consecutive-numbers', len(r) == n and all((x is y) if isinstance(y, Token) else (not isinstance(x, Token) and x == y) for x, y in zip(r, want)), (keep, r))
    ctx.prove('counts', h.n_dofs(all_dofs=True) == k)
    before = list(r)
    h.fill_dofs(c)
    ctx.prove('filling-again-changes-nothing', same(h.get_cell_dofs(c), before) and h.n_dofs(all_dofs=True) == k)


def children(ctx, dim, et):
    """a child receives the numbers at the nodes it has in common with its parent"""
    ctx.fn('fem.DofHandler.share_dofs_with_children', 'fem.QuadFE.__init__')
    m = M()
    mesh = m.Mesh1D(resolution=(1,)) if dim == 1 else m.QuadMesh(resolution=(1, 1))
    c = mesh.cells.get_child(0)
    c.split()
    h = handler(mesh, dim, et)
    nd = ref_nodes(dim, et)
    n = len(nd)
    ctx.prove('size', h.element.n_dofs() == n)
    t = tokens(n)
    h.assign_dofs(list(t), c)
    off = [(0,), (1,)] if dim == 1 else [(0, 0), (1, 0), (1, 1), (0, 1)]
    before = []
    mode = ctx.choice('children-before', ['fresh', 'some', 'full'])
    ch = list(c.get_children())
    for k, x in enumerate(ch):
        q = tokens(n, 'c%d_' % k)
        keep = {'fresh': [], 'some': [i for i in range(n) if (i + k) % 3 == 0], 'full': list(range(n))}[mode]
        if keep:
            h.assign_dofs([q[i] for i in keep], x, pos=keep)
        before.append([q[i] if i in keep else None for i in range(n)])
    h.share_dofs_with_children(c)
    given = []
    for k, x in enumerate(ch):
        got = h.get_cell_dofs(x)
        for i in range(n):
            p = tuple((nd[i][j] + off[k][j]) / 2 for j in range(dim))
            hit = [t[a] for a in range(n) if nd[a] == p]
            if before[k][i] is not None:
                ctx.prove('numbers-kept', got[i] is before[k][i])
            elif et[0] != 'D':
                ctx.prove('common-nodes-share', got[i] is (hit[0] if hit else None), (k, i))
            else:
                # a discontinuous element hands a number on to one child at most, at its own node
                ctx.prove('only-common-nodes-share', got[i] is None or (hit and got[i] is hit[0]), (k, i))
                if got[i] is not None:
                    given.append(got[i])
    if et[0] == 'D':
        ctx.prove('never-shared', len(set(map(id, given))) == len(given))
    ctx.prove('parent-kept', same(h.get_cell_dofs(c), t))


def node_keys(mesh, dim, et, per):
    """node of the mesh for every local position of a cell"""
    nd = ref_nodes(dim, et)
    roots = list(mesh.cells.get_children())
    if dim == 2:
        key = geometry(roots, per)
    else:
        x0, x1 = roots[0].base().coordinates()[0], roots[-1].head().coordinates()[0]
        key = lambda p: rkey(x0 if per[0] is not None and abs(p[0] - x1) < 1e-9 else p[0])

    def keys(c):
        P = [v.coordinates() for v in c.get_vertices()]
        return [key(p) for p in places(P, nd, dim)]
    return keys


def places(P, nd, dim):
    out = []
    for q in nd:
        if dim == 1:
            out.append(((1 - q[0]) * P[0][0] + q[0] * P[1][0],))
        else:
            s, t = (q if isinstance(P[0][0], SymReal) else (float(q[0]), float(q[1])))
            w = [(1 - s) * (1 - t), s * (1 - t), s * t, (1 - s) * t]
            out.append(tuple(sum(w[i] * P[i][k] for i in range(4)) for k in range(2)))
    return out


def neighbors_contract(ctx, mesh, dim, et, per, level_cells, what):
    """for each cell: exactly the cells around it receive its numbers, at the common nodes"""
    keys = node_keys(mesh, dim, et, per)
    inner = layout(dim, et)[2]
    for a in level_cells:
        h = handler(mesh, dim, et)
        n = h.element.n_dofs()
        ka = keys(a)
        t = tokens(n)
        byk = {}
        for i in range(n):
            byk.setdefault(ka[i], t[i])
        if len(byk) < n:
            # the cell is its own neighbour: equal nodes carry equal numbers
            t = [byk[k] for k in ka]
        h.assign_dofs(list(t), a)
        h.share_dofs_with_neighbors(a)
        ctx.prove('own-numbers-kept', same(h.get_cell_dofs(a), t))
        for b in level_cells:
            if b is a:
                continue
            kb = keys(b)
            got = h.get_cell_dofs(b) or [None] * n
            want = [byk.get(k) if et[0] != 'D' else None for k in kb]
            ctx.prove('common-nodes-share', same(got, want), (what, a.get_node_address(), b.get_node_address(), got, want))


ORIENT = [(i, j) for i in range(4) for j in range(4)]


def neighbors_pair(ctx, et):
    """two quadrilaterals sharing an edge, in every relative orientation"""
    ctx.fn('fem.DofHandler.share_dofs_with_neighbors')
    m = M()
    i, j = ctx.choice('orientation', ORIENT)
    x = np.array([(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1)], dtype=float)
    A, B = [0, 1, 4, 3], [1, 2, 5, 4]
    A, B = A[i:] + A[:i], B[j:] + B[:j]
    mesh = m.QuadMesh(x=x, connectivity=[A, B])
    neighbors_contract(ctx, mesh, 2, et, (None, None), list(mesh.cells.get_children()), (i, j))


def neighbors_mesh(ctx, et, k):
    ctx.fn('fem.DofHandler.share_dofs_with_neighbors')
    m = M()
    if isinstance(k, int):
        mesh, per = base_mesh(m, k)
    else:
        mesh, per = build(m, k, random.Random(ctx.choice('seed', [0, 1, 2]))), (None, None)
    refine = ctx.choice('level', [0, 1])
    cells = list(mesh.cells.get_children())
    if refine:
        for c in cells:
            c.split()
        fine = [x for c in cells for x in c.get_children()]
        # finer levels: nodes on the coarser ones are handed down by the parents, the others by the neighbours
        fine_contract(ctx, mesh, 2, et, per, cells, fine, k)
    else:
        neighbors_contract(ctx, mesh, 2, et, per, cells, k)


def fine_contract(ctx, mesh, dim, et, per, cells, fine, what):
    h = handler(mesh, dim, et)
    keys = node_keys(mesh, dim, et, per)
    n = h.element.n_dofs()
    tok = {}
    for c in cells:
        t = []
        for i, k in enumerate(keys(c)):
            k = k if et[0] != 'D' else (id(c), i)
            t.append(tok.setdefault(k, Token(k)))
        h.assign_dofs(t, c)
    for c in cells:
        h.share_dofs_with_children(c)
    # now every fine cell in turn, as in the traversal
    cnt = itertools.count()
    for f in fine:
        old = h.get_cell_dofs(f) or [None] * n
        new = [Token(next(cnt)) for x in old]
        h.assign_dofs(new, f)
        h.share_dofs_with_neighbors(f)
    check_numbering(ctx, mesh, dim, et, per, h, fine, what)


def check_numbering(ctx, mesh, dim, et, per, h, cells, what, ancestors=True):
    keys = node_keys(mesh, dim, et, per)
    num_at, at_num = {}, {}
    for c in cells:
        g = h.get_cell_dofs(c)
        ks = keys(c)
        ctx.prove('all-nodes-numbered', g is not None and len(g) == len(ks) and all(x is not None for x in g), what)
        for i, (x, k) in enumerate(zip(g, ks)):
            kk = k if et[0] != 'D' else (id(c), i)
            num_at.setdefault(kk, set()).add(x)
            at_num.setdefault(x, set()).add(kk)
    bad1 = [(k, v) for k, v in num_at.items() if len(v) > 1]
    bad2 = [(x, v) for x, v in at_num.items() if len(v) > 1]
    ctx.prove('one-number-per-node', not bad1, (what, bad1[:2]))
    ctx.prove('one-node-per-number', not bad2, (what, bad2[:2]))


# ------------------------------------------------------------------------------------------------ continuity
def continuity(ctx, et):
    """two arbitrary cells sharing an edge: the combined local functions agree along the edge"""
    ctx.fn('fem.DofHandler.distribute_dofs', 'fem.QuadFE.shape', 'fem.DofHandler.get_cell_dofs')
    m = M()
    i, j = ctx.choice('orientation', ORIENT)
    x = np.array([(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1)], dtype=float)
    A, B = [0, 1, 4, 3], [1, 2, 5, 4]
    A, B = A[i:] + A[:i], B[j:] + B[:j]
    mesh = m.QuadMesh(x=x, connectivity=[A, B])
    h = handler(mesh, 2, et)
    h.distribute_dofs()
    a, b = list(mesh.cells.get_children())
    n = h.n_dofs()
    ctx.prove('number-of-dofs', n == 2 * (degree(et) + 1) ** 2 - (degree(et) + 1))
    u = [ctx.real('u%d' % k) for k in range(n)]
    s = ctx.real('s', lo=0, hi=1)

    def on_edge(cell, s):
        e = [k for k in range(4) if set(cell.get_vertices()[q].coordinates() for q in (k, (k + 1) % 4)) == {(1., 0.), (1., 1.)}][0]
        up = cell.get_vertices()[e].coordinates() == (1., 0.)
        r = s if up else 1 - s
        return [(r, 0), (1, r), (1 - r, 1), (0, 1 - r)][e]
    vals = []
    for c in (a, b):
        p = on_edge(c, s)
        phi = h.element.shape(ctx.arr([list(p)]), cell=c)
        g = h.get_cell_dofs(c)
        vals.append(sum(u[g[k]] * phi[0][k] for k in range(len(g))))
    ctx.prove_eq('continuous-across-the-edge', vals[0], vals[1])


# ------------------------------------------------------------------------------------------------ whole distributions
def distribution_contract(ctx, mesh, dim, et, per, h, flag, what, full=True, others=()):
    """after distribute_dofs(flag) on a clean handler (full) or any handler"""
    nodes = []
    for lv in MI.levels(list(mesh.cells.get_children())):
        nodes += [c for c in lv if flag is None or c.is_marked(flag)]
    used = sorted(set(x for c in nodes for x in h.get_cell_dofs(c)))
    if full:
        ctx.prove('numbers-without-gaps', used == list(range(len(used))), (what, used[:5], len(used)))
        ctx.prove('number-of-dofs', h.n_dofs(all_dofs=True) == len(used))
    if et[0] != 'D':
        check_numbering(ctx, mesh, dim, et, per, h, nodes, what)
    leaves = leaf_set(mesh, flag)
    check_numbering(ctx, mesh, dim, et, per, h, leaves, what)
    L = sorted(set(x for c in leaves for x in h.get_cell_dofs(c)))
    ctx.prove('region-dofs', list(h.get_region_dofs(subforest_flag=flag)) == L, what)
    ctx.prove('count', h.n_dofs(subforest_flag=flag) == len(L), what)
    # positions
    keys = node_keys(mesh, dim, et, per)
    nd = ref_nodes(dim, et)
    where = {}
    # (a number of a periodic mesh has several places: any cell of the mesh may have recorded its own)
    for c in leaves if full else [c for c in mesh.cells.traverse() if h.get_cell_dofs(c) is not None]:
        P = [v.coordinates() for v in c.get_vertices()]
        for x, k, p in zip(h.get_cell_dofs(c), keys(c), places(P, nd, dim)):
            where.setdefault(x, []).append(p)
    V = np.asarray(h.get_dof_vertices(subforest_flag=flag), dtype=float).reshape(len(L), -1)
    ok = all(any(np.allclose(V[i], np.array([float(q) for q in p]), atol=1e-9) for p in where[x]) for i, x in enumerate(L))
    ctx.prove('positions', ok, what)
    for x in L[:3] + L[-3:]:
        v = np.ravel(h.get_dof_vertices(int(x)))
        ctx.prove('position-of-one-dof', any(np.allclose(v, np.array([float(q) for q in p]), atol=1e-9) for p in where[x]), (what, x))
    perm = L[::-1]
    W = np.asarray(h.get_dof_vertices(perm), dtype=float).reshape(len(L), -1)
    ctx.prove('positions-in-the-order-asked-for', np.allclose(W, V[::-1]), what)
    W = np.asarray(h.get_dof_vertices([L[-1], L[0], L[-1]]), dtype=float).reshape(3, -1)
    ctx.prove('positions-with-repetitions', np.allclose(W, V[[-1, 0, -1]]), what)
    # basis
    B = mod('fem').Basis(h, 'v', flag)
    ctx.prove('basis-size', B.n_dofs() == len(L) and list(B.dofs()) == L)
    idx = B.d2i(np.array(L))
    ctx.prove('index-maps-inverse', list(B.i2d(np.asarray(idx))) == L and sorted(idx) == list(range(len(L)))
              and all(B.d2i(int(B.i2d(i))) == i for i in range(len(L))), what)
    ctx.prove('index-maps-with-repetitions', list(B.d2i(np.array([L[-1], L[0], L[-1]]))) == [idx[-1], idx[0], idx[-1]]
              and list(B.i2d(np.array([0, 0]))) == [B.i2d(0)] * 2, what)
    # the flag of a basis can be changed later
    for other in (flag,) + others:
        Bo = mod('fem').Basis(h, 'v', other)
        ctx.prove('same-dofs', B.same_dofs(Bo) == (other == flag) and Bo.same_dofs(B) == (other == flag), (what, other))
        ctx.prove('same-mesh', B.same_mesh(Bo) == (other == flag) and B.same_mesh(mesh=h.mesh, subforest_flag=other) == (other == flag))
        Bo.set_subforest_flag(flag)
        ctx.prove('changed-flag', Bo.subforest_flag() == flag and list(Bo.dofs()) == L and Bo.n_dofs() == len(L) and list(Bo.i2d(np.asarray(idx))) == L
                  and list(Bo.d2i(np.array(L))) == list(idx) and B.same_dofs(Bo), (what, other))
    for c in leaves[:4] + leaves[-4:]:
        ctx.prove('basis-dofs-of-a-cell', list(B.dofs(c)) == list(h.get_cell_dofs(c)))
        if c.has_children():
            f = c.get_child(0)
            if f.has_children():
                f = f.get_child(1)
            ctx.prove('basis-dofs-of-a-finer-cell', list(B.dofs(f)) == list(h.get_cell_dofs(c)))


def distributions(ctx, k, et, seeds):
    ctx.fn('fem.DofHandler.distribute_dofs', 'fem.DofHandler.set_dof_vertices', 'fem.DofHandler.get_dof_vertices', 'fem.DofHandler.get_region_dofs', 'fem.Basis.__init__',
           'fem.Basis.d2i', 'fem.Basis.i2d', 'fem.Basis.dofs', 'fem.Basis.same_dofs', 'fem.Basis.same_mesh', 'fem.Basis.set_subforest_flag', 'fem.Basis.subforest_flag', 'fem.DofHandler.clear_dofs', 'fem.DofHandler.n_dofs')
    m = M()
    s = ctx.choice('seed', list(range(seeds)))
    rnd = random.Random('d%s/%s/%d' % (k, et, s))
    dim = 2
    if isinstance(k, tuple):
        dim = 1
        n, p = k
        mesh, per = m.Mesh1D(box=[-1., 1.5], resolution=(n,), periodic=p), (2.5 if p else None, None)
    elif isinstance(k, int):
        mesh, per = base_mesh(m, k)
    else:
        mesh, per = build(m, k, rnd), (None, None)
    refine_randomly(mesh, rnd, rnd.choice([0, 0, 1, 3, 5]), coarsen=.2, maxdepth=3)
    if dim == 2:
        mesh.cells.get_child(0)
        mesh.balance()
    h = handler(mesh, dim, et)
    mode = ctx.choice('history', ['whole', 'sub', 'sub-then-whole', 'refined-later', 'cleared'])
    if mode == 'whole':
        h.distribute_dofs()
        distribution_contract(ctx, mesh, dim, et, per, h, None, (k, s, mode))
        # coarser parts of the mesh, chosen afterwards
        sub_mesh(mesh, rnd, 's')
        distribution_contract(ctx, mesh, dim, et, per, h, 's', (k, s, mode), full=False, others=(None,))
    elif mode in ('sub', 'sub-then-whole'):
        sub_mesh(mesh, rnd, 's')
        h.distribute_dofs(subforest_flag='s')
        distribution_contract(ctx, mesh, dim, et, per, h, 's', (k, s, mode))
        if mode == 'sub-then-whole':
            before = [(c, list(h.get_cell_dofs(c))) for c in mesh.cells.traverse(flag='s')]
            h.distribute_dofs()
            distribution_contract(ctx, mesh, dim, et, per, h, None, (k, s, mode), others=('s',))
            ctx.prove('earlier-numbers-kept', all(same(h.get_cell_dofs(c), g) for c, g in before))
    elif mode == 'refined-later':
        h.distribute_dofs()
        before = [(c, list(h.get_cell_dofs(c))) for c in mesh.cells.traverse()]
        refine_randomly(mesh, rnd, 2, coarsen=0, maxdepth=4)
        if dim == 2:
            mesh.balance()
        mesh.cells.record('now')
        h.distribute_dofs()
        ctx.prove('earlier-numbers-kept', all(same(h.get_cell_dofs(c), g) for c, g in before))
        distribution_contract(ctx, mesh, dim, et, per, h, None, (k, s, mode))
        refine_randomly(mesh, rnd, 1, coarsen=0, maxdepth=4)
        distribution_contract(ctx, mesh, dim, et, per, h, 'now', (k, s, mode), full=False)
    else:
        h.distribute_dofs()
        refine_randomly(mesh, rnd, 3, coarsen=.6, maxdepth=4)
        if dim == 2:
            mesh.balance()
        h.clear_dofs()
        h.distribute_dofs()
        distribution_contract(ctx, mesh, dim, et, per, h, None, (k, s, mode))


def sets_of_dofs(ctx, k, et):
    """dofs of marked entities and of the boundary"""
    ctx.fn('fem.DofHandler.get_region_dofs')
    m = M()
    s = ctx.choice('seed', [0, 1])
    rnd = random.Random('r%s/%s/%d' % (k, et, s))
    mesh, per = base_mesh(m, k)
    refine_randomly(mesh, rnd, 2, coarsen=0, maxdepth=2)
    mesh.balance()
    h = handler(mesh, 2, et)
    h.distribute_dofs()
    leaves = leaf_set(mesh, None)
    V, E, I = layout(2, et)
    for c in leaves:
        for i, x in enumerate([c] + list(c.get_vertices()) + list(c.get_half_edges())):
            if rnd.random() < .3:
                x.mark('f')
    kind = ctx.choice('kind', ['vertex', 'half_edge', 'cell'])
    interior = ctx.choice('interior', [False, True])
    bnd = ctx.choice('on-boundary', [False, True])
    want = set()
    pairs = mesh.get_region('f', kind, on_boundary=bnd, return_cells=True)
    for x, c in pairs:
        g = h.get_cell_dofs(c)
        if kind == 'cell':
            p = I if interior else range(len(g))
        elif kind == 'vertex':
            p = [q for i, v in enumerate(c.get_vertices()) if v is x for q in V[i]]
        else:
            i = [i for i, e in enumerate(c.get_half_edges()) if e is x][0]
            p = list(E[i]) + ([] if interior else V[i] + V[(i + 1) % 4])
        want |= set(g[q] for q in p)
    got = h.get_region_dofs(entity_type=kind, entity_flag='f', interior=interior, on_boundary=bnd)
    ctx.prove('dofs-of-a-region', list(got) == sorted(want), (kind, interior, bnd))


def torn(ctx):
    """the element tells whether numbers are shared"""
    ctx.fn('fem.QuadFE.torn_element')
    fem = mod('fem')
    for d in (1, 2):
        for et in CONT + TORN:
            ctx.prove('torn-exactly-if-discontinuous', bool(fem.QuadFE(d, et).torn_element()) == (et[0] == 'D'), (d, et))


def harnesses(tier):
    th = tier == 'thorough'
    H = [Harness(torn)]
    for d in (1, 2):
        for et in CONT + TORN:
            H.append(Harness(assign, 'assign[%d,%s]' % (d, et), params=dict(dim=d, et=et), searches=0, budget=200, concrete=False))
            H.append(Harness(fill, 'fill[%d,%s]' % (d, et), params=dict(dim=d, et=et), searches=0, budget=200, concrete=False))
            H.append(Harness(children, 'children[%d,%s]' % (d, et), params=dict(dim=d, et=et), searches=0, budget=200, concrete=False))
    for et in CONT + TORN:
        H.append(Harness(neighbors_pair, 'neighbors_pair[%s]' % et, params=dict(et=et), searches=0, budget=200, concrete=False))
    for et in CONT:
        H.append(Harness(continuity, 'continuity[%s]' % et, params=dict(et=et), searches=4, budget=300))
    for k in list(range(len(BASES))) + ['skew', 'two-components']:
        for et in CONT:
            H.append(Harness(neighbors_mesh, 'neighbors_mesh[%s,%s]' % (k, et), kind='bounded', params=dict(k=k, et=et), searches=0, budget=200,
                             bound='listed meshes, two levels'))
    ks = [(1, False), (1, True), (2, True), (3, False), (3, True)] + list(range(len(BASES))) + ['skew', 'two-components']
    for k in ks:
        for et in (CONT + TORN if th else ['Q1', 'Q2', 'Q3', 'DQ0', 'DQ1']):
            H.append(Harness(distributions, 'distributions[%s,%s]' % (k, et), kind='bounded', params=dict(k=k, et=et, seeds=15 if th else 5), searches=0,
                             budget=300, bound='seeded refinement histories and sub-meshes'))
    for k in (1, 2, 4, 8, 9):
        for et in ('Q1', 'Q2', 'Q3', 'DQ0'):
            H.append(Harness(sets_of_dofs, 'sets_of_dofs[%s,%s]' % (k, et), kind='bounded', params=dict(k=k, et=et), searches=0, budget=200,
                             bound='seeded meshes and marks'))
    return H
