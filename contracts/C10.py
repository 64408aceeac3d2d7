"""C10 hanging-node constraints."""
import random
from .common import *
from .C03 import BASES, base_mesh, build
from .C06 import geometry, refine_randomly, sub_mesh, leaf_set, mid
from .C09 import CONT, TORN, degree, layout, ref_nodes, node_keys, places, handler, ORIENT

EXPLANATION = ('One coarse and one refined cell in every relative orientation determine the constraint of an edge: the recorded constraints are exactly '
               'those of the specification (the nodes of the fine side that are not nodes of the coarse edge, with the coarse edge shape functions), and for '
               'symbolic coefficients and a symbolic position on the edge every function satisfying them is continuous. The edge is the loop body of '
               'set_hanging_nodes; whole meshes (refinement histories, sub-meshes, periodic) are compared with geometry, including continuity of a random '
               'function satisfying all recorded constraints (bounded).')
ASSUMPTIONS = ['numbering as in C09, balanced meshes as in C06']


def edge_points(k):
    """positions along an edge of the nodes on it"""
    return [Fr(i, k) for i in range(k + 1)]


def expected(h, mesh, et, per, flag):
    """{number of a hanging node: {supporting number: coefficient}} by geometry"""
    k = degree(et)
    V, E, I = layout(2, et)
    key = geometry(list(mesh.cells.get_children()), per)
    leaves = leaf_set(mesh, flag)
    edges = {}
    for c in leaves:
        for i, e in enumerate(c.get_half_edges()):
            edges.setdefault(key(mid(e)), []).append((c, i, e))
    out = {}

    def along(c, i):
        # numbers along edge i of c from its base to its head
        g = h.get_cell_dofs(c)
        return [g[V[i][0]]] + [g[q] for q in E[i]] + [g[V[(i + 1) % 4][0]]]
    L = lagrange(edge_points(k))
    for c in leaves:
        for i, e in enumerate(c.get_half_edges()):
            q = [(f, x) for x in (.25, .75) for f in edges.get(key(mid(e, x)), ())]
            if not q:
                continue
            sup = along(c, i)
            for (f, j, fe), x in q:
                # the fine edge runs the other way: its base is at x + .25
                nums = along(f, j)
                for a, num in enumerate(nums):
                    s = Fr(x) + Fr(1, 4) - Fr(a, 2 * k)
                    if s * k == int(s * k):
                        continue
                    out[num] = {}
                    for b in range(k + 1):
                        # on a periodic mesh the ends of an edge may be one node
                        out[num][sup[b]] = out[num].get(sup[b], 0.) + pev(L[b], float(s))
    return out


def agree(got, want):
    if set(got) != set(want):
        return False
    for d, (sup, co) in got.items():
        r = {}
        for s, c in zip(sup, co):
            r[s] = r.get(s, 0.) + float(c)
        if len(sup) != len(co) or set(r) != set(want[d]):
            return False
        if any(abs(r[s] - want[d][s]) > 1e-12 for s in r):
            return False
    return True


def one_edge(ctx, et):
    """two cells in every relative orientation, either of them refined"""
    ctx.fn('fem.DofHandler.set_hanging_nodes', 'fem.DofHandler.get_hanging_nodes', 'fem.QuadFE.phi')
    m = M()
    i, j = ctx.choice('orientation', ORIENT)
    which = ctx.choice('refined', [0, 1])
    x = np.array([(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1)], dtype=float)
    A, B = [0, 1, 4, 3], [1, 2, 5, 4]
    A, B = A[i:] + A[:i], B[j:] + B[:j]
    mesh = m.QuadMesh(x=x, connectivity=[A, B])
    mesh.cells.get_child(which).split()
    h = handler(mesh, 2, et)
    h.distribute_dofs()
    want = expected(h, mesh, et, (None, None), None)
    got = h.get_hanging_nodes()
    k = degree(et)
    ctx.prove('number-of-hanging-nodes', len(want) == k)
    ctx.prove('constraints-exactly', agree(got, want), (et, i, j, which, dict(got), want))
    con = h.constraints
    tab = dict((d, (s, c)) for d, s, c in zip(con['constrained_dofs'], con['supporting_dofs'], con['coefficients']))
    ctx.prove('constraint-table-exactly', agree(tab, want) and len(con['constrained_dofs']) == len(want) and all(a == 0 for a in con['affine_terms']))
    h.set_hanging_nodes()
    ctx.prove('computing-them-again-changes-nothing', agree(h.get_hanging_nodes(), want) and len(con['constrained_dofs']) == len(want))
    # continuity: unknowns are the free numbers, hanging ones by the exact rational coefficients
    coarse = mesh.cells.get_child(1 - which)
    fine = [c for c in mesh.cells.get_child(which).get_children() if any(abs(v.coordinates()[0] - 1) < 1e-12 for v in c.get_vertices())]
    ctx.prove('two-fine-cells', len(fine) == 2)
    L = lagrange(edge_points(k))
    V, E, I = layout(2, et)
    u = {}
    for c in [coarse] + fine:
        for d in h.get_cell_dofs(c):
            if d not in want and d not in u:
                u[d] = ctx.real('u%d' % d)
    for c in fine:
        gd = h.get_cell_dofs(c)
        P = places([v.coordinates() for v in c.get_vertices()], ref_nodes(2, et), 2)
        for q, d in enumerate(gd):
            if d in want:
                # position of the node on the coarse edge, counted upwards
                s = Fr(P[q][1]).limit_denominator(100)
                g = h.get_cell_dofs(coarse)
                tot = 0
                for b, (dd, pos) in enumerate(coarse_edge(h, coarse, et)):
                    tot = tot + (pev(L[round(pos * k)], s if not ctx.sym else SymReal.lift(s)) if ctx.sym else float(pev(L[round(pos * k)], float(s)))) * u[dd]
                u[d] = tot
    f = ctx.choice('fine', [0, 1])
    s = ctx.real('s', lo=0, hi=1)          # along the half edge, upwards
    c = fine[f]
    y0 = min(v.coordinates()[1] for v in c.get_vertices())
    y = s / 2 + (Fr(y0) if ctx.sym else y0)
    vals = []
    for cell, t in ((coarse, y), (c, s)):
        vs = [v.coordinates() for v in cell.get_vertices()]
        e = [q for q in range(4) if abs(vs[q][0] - 1) < 1e-12 and abs(vs[(q + 1) % 4][0] - 1) < 1e-12][0]
        r = t if vs[e][1] < vs[(e + 1) % 4][1] else 1 - t
        p = [(r, 0), (1, r), (1 - r, 1), (0, 1 - r)][e]
        phi = h.element.shape(ctx.arr([list(p)]), cell=cell)
        g = h.get_cell_dofs(cell)
        vals.append(sum(u[d] * phi[0][q] for q, d in enumerate(g) if True))
    ctx.prove_eq('continuous-across-the-edge', vals[0], vals[1], (et, i, j, which))


def coarse_edge(h, c, et):
    V, E, I = layout(2, et)
    vs = [v.coordinates() for v in c.get_vertices()]
    e = [q for q in range(4) if abs(vs[q][0] - 1) < 1e-12 and abs(vs[(q + 1) % 4][0] - 1) < 1e-12][0]
    g = h.get_cell_dofs(c)
    nums = [g[V[e][0]]] + [g[q] for q in E[e]] + [g[V[(e + 1) % 4][0]]]
    k = len(nums) - 1
    up = vs[e][1] < vs[(e + 1) % 4][1]
    return [(n, (b if up else k - b) / k) for b, n in enumerate(nums)]


def none_needed(ctx):
    """discontinuous elements, intervals and uniform meshes have no hanging nodes"""
    ctx.fn('fem.DofHandler.set_hanging_nodes', 'fem.DofHandler.get_hanging_nodes')
    m = M()
    et = ctx.choice('element', CONT + TORN)
    kind = ctx.choice('mesh', ['interval', 'uniform', 'refined', 'interval-refined'])
    if kind == 'refined' and et[0] != 'D':
        kind = 'uniform'
    mesh = m.Mesh1D(resolution=(3,)) if kind[:8] == 'interval' else m.QuadMesh(resolution=(2, 2))
    mesh.cells.record('s')
    if kind.endswith('refined'):
        mesh.cells.get_child(0).split()
    h = handler(mesh, mesh.dim(), et)
    h.distribute_dofs()
    flag = ctx.choice('sub', [None, 's'])
    ctx.prove('no-constraints', len(h.get_hanging_nodes(subforest_flag=flag)) == 0, (et, kind))
    ctx.prove('no-constraints-in-the-table', len(h.constraints['constrained_dofs']) == 0)


def table_of_element(ctx, et):
    """coefficients per fine edge node, offered by the element"""
    ctx.fn('fem.QuadFE.constraint_coefficients')
    k = degree(et)
    e = mod('fem').QuadFE(ctx.choice('dim', [1, 2]), et)
    T = e.constraint_coefficients()
    L = lagrange(edge_points(k))
    want = [{}, {}]
    for ch in (0, 1):
        for a in range(k + 1):
            s = (ch + Fr(a, k)) / 2
            if s * k != int(s * k):
                want[ch][a] = [pev(p, float(s)) for p in L]
    for ch in (0, 1):
        ctx.prove('constrained-positions', set(T[ch]) == set(want[ch]), (T, want))
        for a in want[ch]:
            ctx.prove('coefficients', np.allclose(np.array(T[ch][a], dtype=float), want[ch][a], atol=1e-12), (ch, a))


# ------------------------------------------------------------------------------------------------ whole meshes
def jump(ctx, h, mesh, et, per, flag, got, rnd, what):
    """a random function satisfying the constraints is continuous across all edges of the (sub-)mesh"""
    leaves = leaf_set(mesh, flag)
    n = h.n_dofs(all_dofs=True)
    C = np.zeros((len(got), n))
    for r, (d, (sup, co)) in enumerate(got.items()):
        C[r, d] = 1.
        for s, c in zip(sup, co):
            C[r, s] -= float(c)
    rs = np.random.RandomState(rnd.randrange(10 ** 6))
    u = rs.uniform(-1, 1, n)
    if len(got):
        u = u - np.linalg.pinv(C) @ (C @ u)
    key = geometry(list(mesh.cells.get_children()), per)
    V, E, I = layout(2, et)
    edges = {}
    for c in leaves:
        for i, e in enumerate(c.get_half_edges()):
            edges.setdefault(key(mid(e)), []).append((c, i))

    def at(c, i, t):
        p = [(t, 0), (1, t), (1 - t, 1), (0, 1 - t)][i]
        phi = np.asarray(h.element.shape(np.array([p], dtype=float), cell=c), dtype=float).ravel()
        return sum(u[d] * phi[q] for q, d in enumerate(h.get_cell_dofs(c)))
    worst = 0.
    for c in leaves:
        for i, e in enumerate(c.get_half_edges()):
            for t in (0., .3, .5, .81, 1.):
                a = at(c, i, t)
                for f, j in edges[key(mid(e))]:
                    if (f, j) != (c, i):
                        worst = max(worst, abs(a - at(f, j, 1 - t)))
                for x in (.25, .75):
                    for f, j in edges.get(key(mid(e, x)), ()):
                        # position t on the fine edge is x + .25 - t/2 on the coarse one
                        worst = max(worst, abs(at(f, j, t) - at(c, i, x + .25 - t / 2)))
    ctx.prove('continuous-everywhere', worst < 1e-9, (what, worst))


def meshes(ctx, k, et, seeds):
    ctx.fn('fem.DofHandler.set_hanging_nodes', 'fem.DofHandler.get_hanging_nodes')
    m = M()
    s = ctx.choice('seed', list(range(seeds)))
    rnd = random.Random('h%s/%s/%d' % (k, et, s))
    mesh, per = (base_mesh(m, k) if isinstance(k, int) else (build(m, k, rnd), (None, None)))
    refine_randomly(mesh, rnd, rnd.choice([1, 2, 4, 6]), coarsen=.1, maxdepth=3)
    mesh.balance()
    mesh.cells.record('s')
    h = handler(mesh, 2, et)
    mode = ctx.choice('history', ['whole', 'sub', 'later'])
    if mode == 'whole':
        h.distribute_dofs()
        got = h.get_hanging_nodes()
        want = expected(h, mesh, et, per, None)
        ctx.prove('constraints-exactly', agree(got, want), (k, s, len(got), len(want)))
        jump(ctx, h, mesh, et, per, None, got, rnd, (k, s))
    elif mode == 'sub':
        refine_randomly(mesh, rnd, 3, coarsen=0, maxdepth=4)
        mesh.balance()
        h.distribute_dofs()
        got = h.get_hanging_nodes()
        ctx.prove('constraints-exactly', agree(got, expected(h, mesh, et, per, None)), (k, s))
        got = h.get_hanging_nodes(subforest_flag='s')
        ctx.prove('constraints-of-the-sub-mesh-exactly', agree(got, expected(h, mesh, et, per, 's')), (k, s))
        jump(ctx, h, mesh, et, per, 's', got, rnd, (k, s))
    else:
        h.distribute_dofs()
        h.set_hanging_nodes()
        refine_randomly(mesh, rnd, 2, coarsen=0, maxdepth=4)
        mesh.balance()
        h.distribute_dofs()
        h.set_hanging_nodes()
        got = h.get_hanging_nodes()
        ctx.prove('constraints-exactly', agree(got, expected(h, mesh, et, per, None)), (k, s))
        jump(ctx, h, mesh, et, per, None, got, rnd, (k, s))


def harnesses(tier):
    th = tier == 'thorough'
    H = [Harness(none_needed, searches=0, budget=100, concrete=False)]
    for et in CONT:
        H.append(Harness(table_of_element, 'table_of_element[%s]' % et, params=dict(et=et), searches=0, budget=100, concrete=False))
        H.append(Harness(one_edge, 'one_edge[%s]' % et, params=dict(et=et), searches=2, budget=300))
    for k in list(range(len(BASES))) + ['skew', 'two-components']:
        for et in CONT:
            H.append(Harness(meshes, 'meshes[%s,%s]' % (k, et), kind='bounded', params=dict(k=k, et=et, seeds=15 if th else 4), searches=0, budget=300,
                             bound='seeded refinement histories and sub-meshes'))
    return H
