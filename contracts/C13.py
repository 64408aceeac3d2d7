"""C13 functions evaluate to what they represent."""
import itertools
from .common import *

EXPLANATION = ('Explicit, constant and nodal evaluation are proved for arbitrary (uninterpreted) formulas, nodal values, shape functions and '
               'distributions of the points over cells; the call into binning, reference maps and shape functions goes through their contracts '
               '(C05, C04, C07). Interpolation and differentiation are proved on small meshes with symbolic geometry and nodal values.')
R2 = range(2)
OPTS = dict(feas_ms=300, guard=False)


def F():
    return mod('function')


def pts(ctx, n, dim, name, lo=-2, hi=2):
    return [[ctx.real('%s%d_%d' % (name, i, k), lo=lo, hi=hi) for k in range(dim)] for i in range(n)]


def rowfn(ctx, name, column=False):
    """an arbitrary function of the rows of its arguments and of named parameters"""
    def f(*xs, **par):
        xs = [np.asarray(x) for x in xs]
        n = xs[0].shape[0]
        out = np.empty((n, 1) if column else n, dtype=object if ctx.sym else float)
        for i in range(n):
            args = [v for x in xs for v in np.reshape(x[i], -1)] + [par[k] for k in sorted(par)]
            out[i] = ctx.ufun(name, args)
        return out
    return f


def want_fn(ctx, name, rows, par):
    return ctx.ufun(name, [v for r in rows for v in r] + [par[k] for k in sorted(par)])


# ---------------------------------------------------------------- explicit and constant
def explicit(ctx, dim, nvar):
    ctx.fn('function.Explicit.__init__', 'function.Explicit.set_rules', 'function.Explicit.eval', 'function.Map.parse_x', 'function.Map.parse_fx',
           'function.Explicit.n_samples', 'function.Explicit.add_rule', 'function.Explicit.set_parameters')
    n = ctx.choice('n', [1, 2, 3])
    form = ctx.choice('form', ['one', 'one-parameter', 'list-of-functions', 'list-of-parameters', 'both', 'functions-one-parameter',
                               'added', 'replaced', 'parameters-set', 'parameter-set-at', 'functions-repeated', 'parameters-repeated',
                               'rules-repeated', 'added-again'])
    col = ctx.choice('column', [False, True])
    f, g, h = [rowfn(ctx, s, col) for s in 'fgh']
    a, b, c = [ctx.real(s) for s in ('pa', 'pb', 'pc')]
    P = lambda v: {'p': v}
    kw = dict(dim=dim, n_variables=nvar)
    E = F().Explicit
    if form == 'one':
        fn, want = E(f, **kw), [('f', {})]
    elif form == 'one-parameter':
        fn, want = E(f, parameters=P(a), **kw), [('f', P(a))]
    elif form == 'list-of-functions':
        fn, want = E([f, g, h], **kw), [('f', {}), ('g', {}), ('h', {})]
    elif form == 'list-of-parameters':
        fn, want = E(f, parameters=[P(a), P(b), P(c)], **kw), [('f', P(a)), ('f', P(b)), ('f', P(c))]
    elif form == 'both':
        fn, want = E([f, g], parameters=[P(a), P(b)], **kw), [('f', P(a)), ('g', P(b))]
    elif form == 'functions-one-parameter':
        fn, want = E([f, g], parameters=P(a), **kw), [('f', P(a)), ('g', P(a))]
    elif form == 'added':
        fn, want = E(f, **kw), [('f', {}), ('g', P(b)), ('h', {})]
        fn.add_rule(g, P(b))
        fn.add_rule(h)
    elif form == 'replaced':
        fn, want = E([f, g, h], parameters=P(a), **kw), [('f', P(a)), ('h', P(b)), ('h', P(a))]
        fn.set_rules(h, P(b), pos=1)
    elif form == 'functions-repeated':
        fn, want = E([f, g, f], **kw), [('f', {}), ('g', {}), ('f', {})]
    elif form == 'parameters-repeated':
        q = P(a)
        fn, want = E(f, parameters=[q, P(b), q], **kw), [('f', P(a)), ('f', P(b)), ('f', P(a))]
    elif form == 'rules-repeated':
        fn, want = E([f, g, f, f], parameters=[P(a), P(a), P(b), P(a)], **kw), [('f', P(a)), ('g', P(a)), ('f', P(b)), ('f', P(a))]
    elif form == 'added-again':
        fn, want = E(f, parameters=P(a), **kw), [('f', P(a)), ('f', P(b)), ('f', P(a))]
        fn.add_rule(f, P(b))
        fn.add_rule(f, P(a))
    elif form == 'parameters-set':
        fn, want = E([f, g], parameters=P(a), **kw), [('f', P(b)), ('g', P(b))]
        fn.set_parameters(P(b))
    else:
        fn, want = E([f, g], parameters=P(a), **kw), [('f', P(a)), ('g', P(c))]
        fn.set_parameters(P(c), pos=1)
    ctx.prove('number-of-samples', fn.n_samples() == len(want))
    X = [pts(ctx, n, dim, 'xyz'[v]) for v in range(nvar)]
    arg = ctx.arr(X[0]) if nvar == 1 else tuple(ctx.arr(x) for x in X)
    got = fn.eval(arg)
    ctx.prove('shape', np.shape(got) == (n, len(want)), np.shape(got))
    for i in range(n):
        for s, (nm, par) in enumerate(want):
            ctx.prove_eq('value-of-the-formula', got[i, s], want_fn(ctx, nm, [x[i] for x in X], par), (i, s))
    if nvar == 1:
        # any accepted format, evaluated twice
        again = fn.eval([tuple(r) for r in X[0]])
        ctx.prove_all_eq('format-does-not-matter', again, got)
        if n == 1 and dim == 2:
            ctx.prove_all_eq('single-point', fn.eval(tuple(X[0][0])), got)
            ctx.prove_all_eq('vertex', fn.eval(M().Vertex(tuple(X[0][0]))), got)


def constant(ctx, nvar):
    ctx.fn('function.Constant.__init__', 'function.Constant.set_data', 'function.Constant.eval')
    n, S = ctx.choice('n', [1, 2, 3]), ctx.choice('samples', [0, 1, 2, 3])
    dim = ctx.choice('dim', [1, 2])
    if S == 0:
        v = [ctx.real('v')]
        fn = F().Constant(v[0], n_variables=nvar)
    else:
        v = [ctx.real('v%d' % s) for s in range(S)]
        fn = F().Constant(ctx.arr(v), n_variables=nvar)
    X = [ctx.arr(pts(ctx, n, dim, 'xyz'[k])) for k in range(nvar)]
    got = fn.eval(X[0] if nvar == 1 else tuple(X))
    ctx.prove('shape', np.shape(got) == (n, len(v)) and fn.n_samples() == len(v), np.shape(got))
    for i in range(n):
        for s in range(len(v)):
            ctx.prove_eq('constant-value', got[i, s], v[s])
    ctx.prove('symmetric', fn.is_symmetric())


def refuses(ctx):
    ctx.fn('function.Map.parse_x')
    case = ctx.choice('case', ['not-a-tuple', 'too-many', 'different-sizes', 'no-dim', 'data-rows'])
    E = F().Explicit
    z = lambda *s: np.zeros(s)
    two = lambda x, y: x[:, 0] + y[:, 0]
    try:
        if case == 'not-a-tuple':
            E(two, dim=1, n_variables=2).eval(z(2, 1))
        elif case == 'too-many':
            E(two, dim=1, n_variables=2).eval((z(2, 1),) * 3)
        elif case == 'different-sizes':
            E(two, dim=1, n_variables=2).eval((z(2, 1), z(3, 1)))
        elif case == 'no-dim':
            E(two)
        else:
            F().Nodal(data=z(7), basis=_basis(M().Mesh1D(resolution=(2,)), 'Q1'))
        ok = False
    except AssertionError:
        ok = True
    ctx.prove('inadmissible-input-refused', ok, case)


# ---------------------------------------------------------------- nodal
def _basis(mesh, element, flag=None):
    fem = mod('fem')
    dh = fem.DofHandler(mesh, fem.QuadFE(mesh.dim(), element))
    dh.distribute_dofs(subforest_flag=flag)
    return fem.Basis(dh, subforest_flag=flag)


def _data(ctx, nd, nvar, S, flat=False):
    D = np.empty((nd,) * nvar + (S,), dtype=object if ctx.sym else float)
    for ix in np.ndindex(*D.shape):
        D[ix] = ctx.real('d' + '_'.join(map(str, ix)))
    return D


def nodal_phi(ctx, nvar):
    """shape functions and dofs supplied by the caller"""
    ctx.fn('function.Nodal.eval', 'function.Nodal.set_data', 'fem.Basis.d2i', 'fem.Basis.i2d')
    mesh = M().Mesh1D(resolution=(2,))
    flag = None
    if ctx.choice('sub-mesh', [False, True]):
        mesh.cells.get_child(1).mark('s')
        flag = 's'
    b = _basis(mesh, ctx.choice('element', ['Q1', 'DQ1', 'Q2'] if nvar == 1 else ['Q1']), flag)
    nd, S, n = b.n_dofs(), ctx.choice('samples', [1, 2]), ctx.choice('n', [1, 2])
    D = _data(ctx, nd, nvar, S)
    fn = F().Nodal(data=D if nvar == 2 or S > 1 else ctx.choice('flat', [D, D[:, 0]]), basis=b, dim=1, n_variables=nvar)
    region = b.dofs()
    for i, d in enumerate(region):
        ctx.prove('basis-numbering', int(b.d2i(d)) == i and int(b.i2d(i)) == d)
    k = ctx.choice('k', [1, 2, 3])
    k = min(k, nd)
    perm = ctx.choice('order', [0, 1])
    dofs = [([region[(i + perm) % nd] for i in range(k)])[::-1 if perm else 1] for v in range(nvar)]
    if nvar == 2:
        dofs[1] = [region[(i + 1) % nd] for i in range(max(1, k - 1))]
    elif ctx.choice('repeated', [False, True]):
        dofs[0] = dofs[0] + dofs[0][:1]
    phi = [ctx.arr([[ctx.real('phi%d_%d_%d' % (v, i, j)) for j in range(len(dofs[v]))] for i in range(n)]) for v in range(nvar)]
    keep = [p.copy() for p in phi]
    if nvar == 1:
        got = fn.eval(phi=phi[0], dofs=dofs[0]) if ctx.choice('plain', [True, False]) else fn.eval(phi=(phi[0],), dofs=(dofs[0],))
    else:
        got = fn.eval(phi=(phi[0], phi[1]), dofs=(dofs[0], dofs[1]))
    ctx.prove('shape', np.shape(got) == (n, S), np.shape(got))
    for v in range(nvar):
        ctx.prove_all_eq('arguments-untouched', phi[v], keep[v])
    for i in range(n):
        for s in range(S):
            w = 0
            for js in itertools.product(*[range(len(d)) for d in dofs]):
                t = D[tuple(region.index(dofs[v][js[v]]) for v in range(nvar)) + (s,)]
                for v in range(nvar):
                    t = t * keep[v][i, js[v]]
                w = w + t
            ctx.prove_eq('combination-of-shape-functions', got[i, s], w, (i, s))


class Tok(object):
    pass


DERIVS = {1: [None, (0,), (1, 0), (2, 0, 0)], 2: [(0,), (1, 1), (2, 0, 1)]}


def _code(d):
    return {'v': 0}.get(d, 0) if isinstance(d, str) else (0 if d is None else d[0] * 100 + sum((k + 1) * 10 ** i for i, k in enumerate(d[1:])))


def nodal_points(ctx, dim, nvar, where):
    """points given: any placement of the points in cells, arbitrary shape functions"""
    m = M()
    ctx.fn('function.Nodal.eval')
    ctx.trust('bin_points, reference_map and QuadFE.shape enter through their contracts (C05, C04, C07)')
    if dim == 1:
        mesh = m.Mesh1D(resolution=(2,))
    else:
        mesh = m.QuadMesh(resolution=(2, 1))
    flag = ctx.choice('flag', [None, 's']) if where == 'mesh' or nvar == 1 else None
    if flag:
        mesh.cells.record('s')
        mesh.cells.get_child(0).split()
        mesh.cells.get_child(0).get_child(0).mark('s')
        for c in mesh.cells.get_child(0).get_children():
            c.mark('s')
    b = _basis(mesh, 'Q1' if nvar == 2 else ctx.choice('element', ['Q1', 'DQ1']), flag)
    dh = b.dofhandler()
    region = b.dofs()
    S = ctx.choice('samples', [1, 2])
    D = _data(ctx, len(region), nvar, S)
    fn = F().Nodal(data=D, basis=b, dim=dim, n_variables=nvar)
    n = ctx.choice('n', [1, 2] if nvar == 1 and where == 'mesh' else [2])
    X = [pts(ctx, n, dim, 'xy'[v]) for v in range(nvar)]
    leaves = mesh.cells.get_leaves(subforest_flag=flag)
    calls = []
    # which cell holds which point; the order of the bins is arbitrary
    place = [[ctx.choice('cell%d_%d' % (v, i), list(range(len(leaves))) if where == 'mesh' and (v == 0) else [0, 1]) for i in range(n)] for v in range(nvar)]
    rev = ctx.choice('order', [1, -1])

    def bins(owner):
        def bp(x, i_points=None, subforest_flag=None, **k):
            v = len(calls)
            calls.append((owner, x, subforest_flag))
            out = []
            for c in sorted(set(place[v]))[::rev]:
                out.append((leaves[c], [i for i in range(n) if place[v][i] == c]))
            return out
        return bp

    def rmap(c):
        def f(y, mapsto='physical', jac_r2p=False, jac_p2r=False, hess_p2r=False, hess_r2p=False, jac_p2r_inv=False):
            ctx.prove('maps-to-the-reference-cell', mapsto == 'reference' and jac_p2r and hess_p2r)
            y = np.asarray(y)
            out = np.empty(y.shape, dtype=object if ctx.sym else float)
            for i in range(y.shape[0]):
                for k2 in range(dim):
                    out[i, k2] = ctx.ufun('map%d' % k2, [leaves.index(c)] + list(y[i]))
            t1, t2 = Tok(), Tok()
            t1.cell = t2.cell = c
            t1.kind, t2.kind = 'jac', 'hess'
            t1.n = t2.n = y.shape[0]
            return out, {'jac_p2r': t1, 'hess_p2r': t2}
        return f

    nl = dh.element.n_dofs()

    def shp(x_ref=None, cell=None, derivatives=(0,), jac_p2r=None, hess_p2r=None, local_dofs='all'):
        ctx.prove('derivatives-of-the-map-belong-to-the-cell', jac_p2r.cell is cell and hess_p2r.cell is cell and jac_p2r.kind == 'jac'
                  and hess_p2r.kind == 'hess' and jac_p2r.n == len(x_ref) == hess_p2r.n)
        out = np.empty((len(x_ref), nl), dtype=object if ctx.sym else float)
        for i in range(len(x_ref)):
            for j in range(nl):
                out[i, j] = ctx.ufun('shape', [j, leaves.index(cell), _code(derivatives)] + list(x_ref[i]))
        return out

    dl = DERIVS[dim] if nvar == 1 else [None, (1, 0), [(1, 0), (0,)]]
    der = ctx.choice('derivative', dl)
    par = [(leaves[i], 'reference_map', rmap(leaves[i])) for i in range(len(leaves))] + [(dh.element, 'shape', shp)]
    roots = (mesh.cells.get_child(0), mesh.cells.get_child(1))
    if where == 'mesh':
        par.append((mesh, 'bin_points', bins('mesh')))
        kw = {}
    else:
        par += [(c, 'bin_points', bins(c)) for c in roots]
        kw = dict(cell=roots[0] if ctx.choice('one-cell', [True, False]) or nvar == 1 else roots)
    if der is not None:
        kw['derivative'] = der
    with patched(*par):
        got = fn.eval(ctx.arr(X[0]) if nvar == 1 else tuple(ctx.arr(x) for x in X), **kw)
    for v in range(nvar):
        ctx.prove('binned-on-the-right-sub-mesh', len(calls) == nvar and calls[v][2] == flag)
        ctx.prove_all_eq('binned-points', np.asarray(calls[v][1]), ctx.arr(X[v]))
        if where == 'cell':
            c = kw['cell'] if not isinstance(kw['cell'], tuple) else kw['cell'][v]
            ctx.prove('binned-in-the-given-cell', calls[v][0] is c)
    ctx.prove('shape', np.shape(got) == (n, S), np.shape(got))
    ders = der if isinstance(der, list) else [der] * nvar

    def loc(v, i):
        c = leaves[place[v][i]]
        xr = [ctx.ufun('map%d' % k2, [place[v][i]] + X[v][i]) for k2 in range(dim)]
        return [(region.index(d), ctx.ufun('shape', [j, place[v][i], _code(ders[v])] + xr)) for j, d in enumerate(dh.get_cell_dofs(c))]

    for i in range(n):
        L = [loc(v, i) for v in range(nvar)]
        for s in range(S):
            w = 0
            for combo in itertools.product(*L):
                t = D[tuple(q[0] for q in combo) + (s,)]
                for q in combo:
                    t = t * q[1]
                w = w + t
            ctx.prove_eq('finite-element-function', got[i, s], w, (i, s, der))


# ---------------------------------------------------------------- whole evaluations on small meshes with symbolic geometry
def _mesh(ctx, dim, kind):
    m = M()
    if dim == 1:
        x0 = ctx.real('x0', lo=-2, hi=2)
        w = ctx.real('w', lo=Fr(1, 10) if ctx.sym else .1, hi=3)
        mesh = m.Mesh1D(box=[x0, x0 + w], resolution=(2,))
    else:
        x0, y0 = ctx.real('x0', lo=-2, hi=2), ctx.real('y0', lo=-2, hi=2)
        w, h = [ctx.real(s, lo=Fr(1, 10) if ctx.sym else .1, hi=3) for s in ('w', 'h')]
        mesh = m.QuadMesh(box=[x0, x0 + w, y0, y0 + h], resolution=(2, 1))
    if kind != 'plain':
        mesh.cells.record('coarse')
        mesh.cells.get_child(0).split()
    return mesh


def _inside(ctx, cell, dim, name):
    """a point inside a (rectangular) cell: reference and physical coordinates"""
    e = Fr(1, 50) if ctx.sym else .02
    t = [ctx.real('%s%d' % (name, k), lo=e, hi=1 - e) for k in range(dim)]
    c = [v.coordinates() for v in cell.get_vertices()]
    lo, hi = c[0], c[1] if dim == 1 else c[2]
    return t, [lo[k] + t[k] * (hi[k] - lo[k]) for k in range(dim)], [hi[k] - lo[k] for k in range(dim)]


def whole(ctx, dim, kind):
    """value and derivatives of a finite element function on a mesh"""
    ctx.fn('function.Nodal.eval')
    mesh = _mesh(ctx, dim, kind)
    flag = ctx.choice('flag', [None, 'coarse'] if kind != 'plain' else [None])
    el = ctx.choice('element', ['Q1', 'Q2', 'DQ0', 'DQ1'] + (['Q3'] if dim == 1 else []))
    b = _basis(mesh, el, flag)
    region = b.dofs()
    D = _data(ctx, len(region), 1, 1)
    fn = F().Nodal(data=D, basis=b, dim=dim)
    leaves = mesh.cells.get_leaves(subforest_flag=flag)
    c = ctx.choice('cell', leaves)
    t, x, sz = _inside(ctx, c, dim, 't')
    der = ctx.choice('derivative', DERIVS[dim] if dim == 1 else [(0,), (1, 0), (1, 1), (2, 0, 1)])
    if el == 'DQ0' and der not in (None, (0,)):
        der = (0,)
    vs = () if der is None else der[1:]
    how = ctx.choice('how', ['mesh', 'cell'])
    got = fn.eval(ctx.arr([x]), derivative=der, **(dict(cell=c) if how == 'cell' else {}))
    polys = basis_polys(dim, int(el[-1]))
    w = 0
    for j, d in enumerate(b.dofhandler().get_cell_dofs(c)):
        s = shape_val(polys[j], t, vs)
        for k in vs:
            s = s / sz[k]
        w = w + s * D[region.index(d), 0]
    ctx.prove('shape', np.shape(got) == (1, 1), np.shape(got))
    ctx.prove_eq('value', got[0, 0], w, (el, der, how))


def differentiate(ctx, dim, kind):
    """the derivative function is the derivative inside every cell"""
    ctx.fn('function.Nodal.differentiate')
    mesh = _mesh(ctx, dim, kind)
    flag = ctx.choice('flag', [None, 'coarse'] if kind != 'plain' else [None])
    el = ctx.choice('element', ['Q1', 'Q2', 'DQ1'] + (['Q3'] if dim == 1 else []))
    b = _basis(mesh, el, flag)
    region = b.dofs()
    S = ctx.choice('samples', [1, 2]) if dim == 1 else 1
    D = _data(ctx, len(region), 1, S)
    fn = F().Nodal(data=D, basis=b, dim=dim)
    der = ctx.choice('derivative', [(1, 0), (2, 0, 0)] if dim == 1 else [(1, 0), (1, 1), (2, 0, 1)])
    df = fn.differentiate(der)
    leaves = mesh.cells.get_leaves(subforest_flag=flag)
    ctx.prove('same-sub-mesh', df.subforest_flag() == flag and df.n_samples() == S)
    c = ctx.choice('cell', leaves)
    t, x, sz = _inside(ctx, c, dim, 't')
    got = df.eval(ctx.arr([x]))
    want = fn.eval(ctx.arr([x]), derivative=der)
    for s in range(S):
        ctx.prove_eq('derivative-commutes-with-evaluation', got[0, s], want[0, s], (el, der))


def interpolate(ctx, dim, kind):
    """interpolation takes the values at the nodes"""
    ctx.fn('function.Map.interpolant', 'function.Nodal.set_data')
    mesh = _mesh(ctx, dim, kind)
    flag = ctx.choice('flag', [None, 'coarse'] if kind != 'plain' else [None])
    el = ctx.choice('element', ['Q1', 'Q2', 'DQ1'] + (['Q3'] if dim == 1 else []))
    fem = mod('fem')
    S = ctx.choice('samples', [1, 2])
    fns = [rowfn(ctx, 'f'), rowfn(ctx, 'g')][:S]
    ex = F().Explicit(fns, dim=dim)
    if ctx.choice('how', ['interpolant', 'constructor']) == 'interpolant':
        dh = fem.DofHandler(mesh, fem.QuadFE(dim, el))
        fi = ex.interpolant(dh, subforest_flag=flag)
        b = fi.basis()
    else:
        b = _basis(mesh, el, flag)
        dh = b.dofhandler()
        fi = F().Nodal(f=fns, basis=b, dim=dim)
    ctx.prove('sub-mesh', b.subforest_flag() == flag and fi.n_samples() == S)
    region = b.dofs()
    nodes = NODES[(dim, int(el[-1]))]
    for c in mesh.cells.get_leaves(subforest_flag=flag):
        v = [q.coordinates() for q in c.get_vertices()]
        lo, hi = v[0], v[1] if dim == 1 else v[2]
        for j, d in enumerate(dh.get_cell_dofs(c)):
            r = nodes[j] if dim == 2 else (nodes[j],)
            x = [lo[k] + (r[k] if ctx.sym else float(r[k])) * (hi[k] - lo[k]) for k in range(dim)]
            for s in range(S):
                ctx.prove_eq('nodal-value', fi.data()[region.index(d), s], ctx.ufun('fg'[s], x), (el, j))


def bivariate_data(ctx, dim):
    """nodal values of a function of two variables: first variable along the first axis"""
    ctx.fn('function.Nodal.set_data')
    mesh = _mesh(ctx, dim, 'plain')
    b = _basis(mesh, 'Q1' if dim == 2 else ctx.choice('element', ['Q1', 'DQ1']))
    S = ctx.choice('samples', [1, 2])
    fns = [rowfn(ctx, 'f'), rowfn(ctx, 'g')][:S]
    fi = F().Nodal(f=fns, basis=b, dim=dim, n_variables=2)
    region = b.dofs()
    x = b.dofhandler().get_dof_vertices(region)
    ctx.prove('shape', np.shape(fi.data()) == (len(region), len(region), S))
    for i in range(len(region)):
        for j in range(len(region)):
            for s in range(S):
                ctx.prove_eq('nodal-value', fi.data()[i, j, s], ctx.ufun('fg'[s], list(x[i]) + list(x[j])), (i, j))


def reproduce(ctx, dim, kind):
    """interpolating a function of the space, or transferring it to a finer space, changes nothing"""
    ctx.fn('function.Map.interpolant')
    fem = mod('fem')
    mesh = _mesh(ctx, dim, kind)
    el = ctx.choice('element', ['Q1', 'Q2'])
    p = int(el[-1])
    co = {e: ctx.real('c' + ''.join(map(str, e))) for e in itertools.product(range(p + 1), repeat=dim)}

    def f(x):
        x = np.asarray(x)
        return sum(co[e] * np.prod([x[:, k] ** e[k] for k in range(dim)], axis=0) for e in co)
    ex = F().Explicit(f, dim=dim)
    dh = fem.DofHandler(mesh, fem.QuadFE(dim, el))
    fi = ex.interpolant(dh)
    c = ctx.choice('cell', mesh.cells.get_leaves())
    t, x, sz = _inside(ctx, c, dim, 't')
    want = f(ctx.arr([x]))[0]
    got = fi.eval(ctx.arr([x]))
    ctx.prove_eq('reproduces-polynomials', got[0, 0], want, el)
    if kind == 'plain':
        d2 = fem.DofHandler(mesh, fem.QuadFE(dim, ctx.choice('finer', ['Q2', 'DQ2'])))
        f2 = fi.interpolant(d2)
        ctx.prove_eq('transfer-to-a-larger-space', f2.eval(ctx.arr([x]))[0, 0], want, el)


def samples(ctx, nvar):
    """adding samples and changing entries"""
    ctx.fn('function.Nodal.add_samples', 'function.Nodal.modify_data')
    mesh = M().Mesh1D(resolution=(2,))
    b = _basis(mesh, 'Q1')
    nd = b.n_dofs()
    S = ctx.choice('samples', [1, 2])
    D = _data(ctx, nd, nvar, S)
    fn = F().Nodal(data=D.copy(), basis=b, dim=1, n_variables=nvar)
    k = ctx.choice('added', [0, 1, 2])
    E = np.empty((nd,) * nvar + (max(k, 1),), dtype=object if ctx.sym else float)
    for ix in np.ndindex(*E.shape):
        E[ix] = ctx.real('e' + '_'.join(map(str, ix)))
    fn.add_samples(E[..., 0] if k == 0 else E)
    ctx.prove('sample-count', fn.n_samples() == S + max(k, 1))
    for ix in np.ndindex(*fn.data().shape):
        w = D[ix] if ix[-1] < S else E[ix[:-1] + (ix[-1] - S,)]
        ctx.prove_eq('samples-in-order', fn.data()[ix], w)
    if nvar == 1:
        dofs = ctx.choice('dofs', [[0], [1, 2], [2, 0]])
        v = [ctx.real('v%d' % i) for i in range(len(dofs))]
        s0 = ctx.choice('which', list(range(S + 1)))
        before = fn.data().copy()
        fn.modify_data(ctx.arr(v) if ctx.choice('flat', [True, False]) else ctx.arr([[q] for q in v]), i_sample=s0, dofs=dofs)
        for ix in np.ndindex(*fn.data().shape):
            d = b.i2d(ix[0])
            w = v[dofs.index(d)] if d in dofs and ix[1] == s0 else before[ix]
            ctx.prove_eq('only-these-entries-change', fn.data()[ix], w)


def own(ctx, which):
    """functions built from the same lists or arrays are independent, and leave those as they were"""
    f, g, h = [rowfn(ctx, s) for s in 'fgh']
    a, b, c = [ctx.real(s) for s in ('pa', 'pb', 'pc')]
    P = lambda v: {'p': v}
    if which == 'rules':
        ctx.fn('function.Explicit.set_rules', 'function.Explicit.add_rule', 'function.Explicit.set_parameters')
        fs, ps = [f, g], [P(a), P(b)]
        E = F().Explicit
        how = ctx.choice('how', ['constructor', 'set_rules', 'rules-of-the-other'])
        one = E(fs, parameters=ps, dim=1)
        if how == 'constructor':
            two = E(fs, parameters=ps, dim=1)
        elif how == 'set_rules':
            two = E(h, parameters=P(c), dim=1)
            two.set_rules(fs, ps)
        else:
            two = E(one.rules(), parameters=one.parameters(), dim=1)
        want = [('f', P(a)), ('g', P(b))]
        change = ctx.choice('change', ['add', 'rule', 'parameters', 'all-parameters'])
        new = list(want)
        if change == 'add':
            one.add_rule(h, P(c))
            new += [('h', P(c))]
        elif change == 'rule':
            one.set_rules(h, P(c), pos=1)
            new[1] = ('h', P(c))
        elif change == 'parameters':
            one.set_parameters(P(c), pos=0)
            new[0] = ('f', P(c))
        else:
            one.set_parameters(P(c))
            one.set_parameters(P(b), pos=1)
            new = [('f', P(c)), ('g', P(b))]
        ctx.prove('input-unchanged', fs[0] is f and fs[1] is g and len(fs) == 2 and len(ps) == 2 and ps[0]['p'] is a and ps[1]['p'] is b)
        x = pts(ctx, 2, 1, 'x')
        for fn, rule in ((one, new), (two, want)):
            ctx.prove('sample-count', fn.n_samples() == len(rule))
            got = fn.eval(ctx.arr(x))
            for i in range(2):
                for s, (nm, q) in enumerate(rule):
                    ctx.prove_eq('value', got[i, s], want_fn(ctx, nm, [x[i]], q))
        return
    ctx.fn('function.Nodal.set_data', 'function.Nodal.modify_data', 'function.Nodal.add_samples')
    bs = _basis(M().Mesh1D(resolution=(2,)), 'Q1')
    nd = bs.n_dofs()
    whole_numbers = which == 'integers'
    flat = ctx.choice('flat', [False, True])
    D = np.arange(nd).reshape(nd, 1) if whole_numbers else _data(ctx, nd, 1, 1)
    D = D[:, 0] if flat else D
    keep = D.copy()
    one, two = F().Nodal(data=D, basis=bs, dim=1), F().Nodal(data=D, basis=bs, dim=1)
    e = None
    if ctx.choice('sample-added', [False, True]):
        e = np.full((nd, 1), 0.25) if whole_numbers else ctx.arr([[ctx.real('e%d' % i)] for i in range(nd)])
        one.add_samples(e)
    v = 0.5 if whole_numbers else ctx.real('v')
    s0 = ctx.choice('sample', [0, 1] if e is not None else [0])
    d0 = ctx.choice('dof', range(nd))
    one.modify_data(ctx.arr([v]), i_sample=s0, dofs=[d0])
    for i in range(nd):
        ctx.prove_eq('input-unchanged', np.ravel(D)[i], np.ravel(keep)[i])
        ctx.prove_eq('other-function-unchanged', two.data()[i, 0], np.ravel(keep)[i])
        for s in range(one.n_samples()):
            w = v if bs.i2d(i) == d0 and s == s0 else np.ravel(keep)[i] if s == 0 else e[i, 0]
            ctx.prove_eq('value', one.data()[i, s], w)


# callees enter by contract: a failure there is an undischarged obligation, not yet a failing input
MODULAR = {'nodal_points'}


def harnesses(tier):
    H = Harness
    out = [H(explicit, 'explicit-%dd-%d' % (d, v), params=dict(dim=d, nvar=v), opts=OPTS) for d in (1, 2) for v in (1, 2)]
    out += [H(constant, 'constant-%d' % v, params=dict(nvar=v)) for v in (1, 2)]
    out += [H(refuses)]
    out += [H(nodal_phi, 'nodal_phi-%d' % v, params=dict(nvar=v), opts=OPTS) for v in (1, 2)]
    out += [H(nodal_points, 'nodal_points-%dd-%d-%s' % (d, v, w), params=dict(dim=d, nvar=v, where=w), opts=OPTS, budget=300)
            for d in (1, 2) for v in (1, 2) for w in ('mesh', 'cell') if not (d == 2 and v == 2)]
    for d in (1, 2):
        for k in ('plain', 'refined'):
            P = dict(dim=d, kind=k)
            out += [H(f, '%s-%dd-%s' % (f.__name__, d, k), params=P, opts=OPTS, budget=300) for f in (whole, differentiate, interpolate, reproduce)]
        out.append(H(bivariate_data, 'bivariate_data-%dd' % d, params=dict(dim=d), opts=OPTS))
    out += [H(samples, 'samples-%d' % v, params=dict(nvar=v)) for v in (1, 2)]
    out += [H(own, 'own-' + w, params=dict(which=w)) for w in ('rules', 'values')]
    out.append(H(own, 'own-integers', kind='bounded', params=dict(which='integers'), bound='integer values 0, 1, 2 at three nodes, one value set to 1/2'))
    return out
