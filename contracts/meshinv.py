"""
what the half-edge structure has to look like, stated over the public accessors; used by several contracts.
Every function returns a list of violated statements (empty: holds).
"""
from .common import *


def levels(cells):
    """the cells of a forest by depth; uses get_children only"""
    lv = [list(cells)]
    while lv[-1]:
        lv.append([ch for c in lv[-1] for ch in c.get_children()])
    return lv[:-1]


def cell_loop(c):
    """loop, winding and ownership of one cell"""
    bad = []
    hs = list(c.get_half_edges())
    n = len(hs)
    h = hs[0]
    seen = []
    for k in range(n + 1):
        if h is None:
            bad.append('next edge missing')
            return bad
        if k == n:
            if h is not hs[0]:
                bad.append('next edges do not close after one round')
            break
        if h in seen:
            bad.append('next edges close too early')
            break
        seen.append(h)
        if h.cell() is not c:
            bad.append('half-edge does not know its cell')
        nx = h.next()
        if nx is None or nx.previous() is not h:
            bad.append('previous is not the inverse of next')
            return bad
        if nx.base() is not h.head():
            bad.append('next edge does not start where this one ends')
        h = nx
    if set(map(id, seen)) != set(map(id, hs)):
        bad.append('next edges do not visit every edge of the cell')
    vs = c.get_vertices()
    if [id(v) for v in vs] != [id(h.base()) for h in hs]:
        bad.append('vertices are not the base vertices')
    if len(set(map(id, vs))) != n:
        bad.append('vertices of a cell coincide')
    return bad


def edge_children(h):
    bad = []
    if h.has_children():
        ch = list(h.get_children())
        if len(ch) != 2 or ch[0].base() is not h.base() or ch[1].head() is not h.head() or ch[0].head() is not ch[1].base():
            bad.append('sub-edges do not subdivide the edge')
        elif any(x.get_parent() is not h for x in ch) or [x.get_node_position() for x in ch] != [0, 1]:
            bad.append('sub-edges do not know their parent')
    return bad


def close(a, b, tol=1e-9):
    return all(abs(x - y) <= tol for x, y in zip(a, b))


def mesh2d(cells, period=(None, None), what=''):
    """
    the connectivity invariant on every level of a (concrete) two dimensional mesh.  period: side lengths of the
    periodic directions (None: not periodic); the statement is then about translates.
    """
    bad = []
    shifts = [(0., 0.)]
    for i in range(2):
        if period[i] is not None:
            shifts = [tuple(s[j] + (k * period[i] if j == i else 0) for j in range(2)) for s in shifts for k in (-1, 0, 1)]
    r = lambda p: (round(p[0], 9) + 0., round(p[1], 9) + 0.)
    ids = {}
    alive = set()
    for lev in levels(cells):
        alive |= set(map(id, lev))
    for depth, lev in enumerate(levels(cells)):
        edges = {}
        for c in lev:
            bad += cell_loop(c)
            if depth and (c.get_parent().get_child(c.get_node_position()) is not c):
                bad.append('cell is not the child of its parent')
            for h in c.get_half_edges():
                for v in (h.base(), h.head()):
                    o = ids.setdefault(r(v.coordinates()), v)
                    if o is not v:
                        bad.append('two vertices at %s' % (v.coordinates(),))
                k = (r(h.base().coordinates()), r(h.head().coordinates()))
                if k in edges:
                    bad.append('half-edge %s occurs twice' % (k,))
                edges[k] = h
                bad += edge_children(h)
        for (a, b), h in edges.items():
            partner = None
            for s in shifts:
                q = edges.get((r((b[0] + s[0], b[1] + s[1])), r((a[0] + s[0], a[1] + s[1]))))
                if q is not None:
                    partner = q
                    if s == (0., 0.):
                        break
            t = h.twin()
            if t is not partner:
                bad.append('edge %s of a level %d cell has twin %s instead of %s'
                           % ((a, b), depth, t and (t.base().coordinates(), t.head().coordinates()),
                              partner and (partner.base().coordinates(), partner.head().coordinates())))
                continue
            if t is None:
                continue
            if t.twin() is not h:
                bad.append('the twin of the twin is another edge')
            if id(t.cell()) not in alive:
                bad.append('the twin belongs to a removed cell')
            same = t.base() is h.head() and t.head() is h.base()
            per = not close(t.base().coordinates(), h.head().coordinates())
            if not per and not same:
                bad.append('twins do not share their vertices')
            if per and not (h.is_periodic() and t.is_periodic()):
                bad.append('edge identified with a translate is not marked periodic')
    if any(v is not None for v in period) and not bad:
        # vertices: pairs are exactly the translates on the cells around (coarsest cells)
        for depth, lev in enumerate(levels(cells)):
            for c in lev:
                for v in c.get_vertices():
                    for cn, vn in v.get_periodic_pair():
                        d = [x - y for x, y in zip(v.coordinates(), vn.coordinates())]
                        if not any(close(d, s) for s in shifts):
                            bad.append('vertex %s is paired with %s' % (v.coordinates(), vn.coordinates()))
    return bad
