"""C11 assembled forms equal the integrals they stand for."""
import itertools
from .common import *
from .C13 import rowfn, pts, OPTS
from pyvc import spmodel

EXPLANATION = ('The local forms, kernels, shape evaluation and accumulation are proved for all quadrature rules, shape values, kernels and cell geometries '
               '(uninterpreted or symbolic), for the listed numbers of nodes, regions and samples; whole assemblies are proved for arbitrary kernels, rules '
               'and box geometry on small meshes, and searched on refined meshes and quadrilateral meshes against exact integrals.')
TRUSTED = ['scipy.sparse: dense model of the sparse matrix interface (pyvc/spmodel.py), cross-checked by concrete runs with the real library',
           'inspect.signature is used as it is']
G2 = [0, 1]


def A():
    return mod('assembler')


def fem():
    return mod('fem')


def E():
    return mod('function').Explicit


def handler(mesh, el, flag=None):
    dh = fem().DofHandler(mesh, fem().QuadFE(mesh.dim(), el))
    dh.distribute_dofs(subforest_flag=flag)
    return dh


def explicit(ctx, names, dim, nvar=1, symmetric=False):
    fs = [rowfn(ctx, n) for n in names]
    if symmetric:
        def sym_(f):
            return lambda x, y: f(x, y) + f(y, x)
        fs = [sym_(f) for f in fs]
    return E()(fs if len(fs) > 1 else fs[0], dim=dim, n_variables=nvar, symmetric=symmetric)


def table(ctx, name, n, m):
    return ctx.arr([[ctx.real('%s%d_%d' % (name, i, j)) for j in range(m)] for i in range(n)])


def Rule(ctx, name, n, dim):
    """an arbitrary quadrature rule"""
    class Arbitrary(A().GaussRule):
        def __init__(self):
            self.x = [[ctx.real('%sx%d_%d' % (name, i, k), lo=0, hi=1) for k in range(dim)] for i in range(n)]
            self.w = [ctx.real('%sw%d' % (name, i)) for i in range(n)]

        def nodes(self):
            a = ctx.arr(self.x)
            return a if dim == 2 else a[:, 0]

        def weights(self):
            return ctx.arr(self.w)

        def n_nodes(self):
            return n

        def dim(self):
            return dim

        def shape(self):
            return 'interval' if dim == 1 else 'quadrilateral'
    return Arbitrary()


# ---------------------------------------------------------------- local forms
def _space(dim, els=('Q1', 'Q1')):
    m = M()
    mesh = m.Mesh1D(resolution=(1,)) if dim == 1 else m.QuadMesh(resolution=(1, 1))
    return mesh, [fem().Basis(handler(mesh, e), d) for e, d in zip(els, ('v', 'vx'))]


def local(ctx, kind, dmu):
    """one cell, any quadrature nodes, weights and shape values"""
    ctx.fn('assembler.Form.eval', 'assembler.Form.regions', 'assembler.Form.__init__', 'assembler.Form.dim', 'assembler.Kernel.eval')
    dim = 2 if dmu == 'ds' else ctx.choice('dim', [1, 2])
    mesh, (v, u) = _space(dim, ('Q1', 'DQ0' if dim == 2 else 'Q2'))
    cell = mesh.cells.get_leaves()[0]
    S = ctx.choice('samples', [1, 2])
    flagged = ctx.choice('flag', ['no', 'marked', 'some', 'other'])
    ents = [cell] if dmu == 'dx' else cell.get_half_edges() if dmu == 'ds' else cell.get_vertices()
    flag = None if flagged == 'no' else 'f'
    if flagged == 'no':
        regions = list(ents)
    elif flagged == 'other':
        for e in ents:
            e.mark('g')
        regions = []
    else:
        regions = list(ents) if flagged == 'marked' else [ents[-1]] + ([ents[1]] if len(ents) > 2 else [])
        for e in regions:
            e.mark('f')
    F = A().Form
    ker = A().Kernel(explicit(ctx, 'kl'[:S], dim))
    kw = dict(kernel=ker, dmu=dmu, flag=flag)
    if dmu == 'dv' and dim == 2:
        pass
    form = F(**kw) if kind == 'constant' else F(test=v, **kw) if kind == 'linear' else F(test=v, trial=u, **kw)
    ctx.prove('kind-of-form', form.type == kind and form.dim() == {'constant': 0, 'linear': 1, 'bilinear': 2}[kind])
    got_regions = form.regions(cell)
    ctx.prove('regions-of-the-measure', len(got_regions) == len(regions) and all(any(r is q for q in regions) for r in got_regions))
    xg, wg, phi, dofs = {}, {}, {}, {}
    nv, nu = v.dofhandler().element.n_dofs(), u.dofhandler().element.n_dofs()
    for k, r in enumerate(ents):
        n = 1 if dmu == 'dv' else 2
        xg[r] = ctx.arr(pts(ctx, n, dim, 'x%d_' % k))
        wg[r] = 1 if dmu == 'dv' else ctx.arr([ctx.real('w%d_%d' % (k, i)) for i in range(n)])
        phi[r] = {v: table(ctx, 'p%d_' % k, n, nv), u: table(ctx, 'q%d_' % k, n, nu)}
        dofs[r] = {v: list(range(nv)), u: list(range(nu))}
    keep = {(r, b): phi[r][b].copy() for r in ents for b in (u, v)}
    out = form.eval(cell, xg, wg, phi, dofs)
    for (r, b), p in keep.items():
        ctx.prove_all_eq('shape-functions-untouched', phi[r][b], p)
    shp = {'constant': (1, S), 'linear': (nv, S), 'bilinear': (nv, nu, S)}[kind]
    ctx.prove('shape', np.shape(out) == shp, (np.shape(out), shp))
    for ix in np.ndindex(*shp[:-1] if kind != 'constant' else (1,)):
        for s in range(S):
            w = 0
            for r in regions:
                for g in range(len(xg[r])):
                    t = (wg[r] if dmu == 'dv' else wg[r][g]) * ctx.ufun('kl'[s], list(xg[r][g]))
                    if kind != 'constant':
                        t = t * keep[r, v][g, ix[0]]
                    if kind == 'bilinear':
                        t = t * keep[r, u][g, ix[1]]
                    w = w + t
            ctx.prove_eq('quadrature-of-kernel-test-trial', out[ix + (s,)], w, (kind, dmu, ix, s))


def default_kernels(ctx):
    """no kernel is one, a number or a function is a kernel"""
    ctx.fn('assembler.Form.__init__', 'assembler.Kernel.__init__', 'assembler.Kernel.eval', 'assembler.Kernel.set_sample_size', 'assembler.Kernel.is_symmetric')
    mesh, (v, u) = _space(1)
    x = ctx.arr(pts(ctx, 2, 1, 'x'))
    F = A().Form
    case = ctx.choice('case', ['none', 'number', 'map', 'several'])
    if case == 'none':
        k, want = F(test=v).kernel, [lambda i: 1]
    elif case == 'number':
        k, want = F(2.5, test=v).kernel, [lambda i: 2.5]
    elif case == 'map':
        k, want = F(explicit(ctx, 'k', 1), test=v).kernel, [lambda i: ctx.ufun('k', list(x[i]))]
    else:
        k, want = F(explicit(ctx, 'kl', 1), test=v).kernel, [lambda i: ctx.ufun('k', list(x[i])), lambda i: ctx.ufun('l', list(x[i]))]
    ctx.prove('samples', k.n_samples() == len(want))
    got = k.eval(x)
    ctx.prove('shape', np.shape(got) == (2, len(want)))
    for i in range(2):
        for s in range(len(want)):
            ctx.prove_eq('kernel-value', got[i, s], want[s](i))


def kernel(ctx, kind):
    """several functions combined by F, with shape functions supplied or not"""
    ctx.fn('assembler.Kernel.__init__', 'assembler.Kernel.eval', 'assembler.Kernel.basis', 'assembler.Kernel.set_sample_size')
    m, fn = M(), mod('function')
    x0, h = ctx.real('x0', lo=-2, hi=2), ctx.real('h', lo=Fr(1, 10) if ctx.sym else .1, hi=3)
    mesh = m.Mesh1D(box=[x0, x0 + h], resolution=(1,))
    cell = mesh.cells.get_leaves()[0]
    S = ctx.choice('samples', [1, 2])
    b = fem().Basis(handler(mesh, 'Q2'), ctx.choice('basis', ['v', 'vx']) if kind == 'nodal' else 'v')
    e = Fr(1, 50) if ctx.sym else .02
    t = ctx.real('t', lo=e, hi=1 - e)
    x = ctx.arr([[x0 + t * h]])
    polys = basis_polys(1, 2)
    D = table(ctx, 'd', 3, S)
    f = fn.Nodal(data=D, basis=b, dim=1)
    dofs = b.dofs(cell)
    cv = [ctx.real('c%d' % s) for s in range(S)]
    g, c = explicit(ctx, 'g', 1), fn.Constant(ctx.arr(cv))
    if kind == 'nodal':
        der = ctx.choice('derivative', [None, 'f', 'fx', 'fxx'])
        how = ctx.choice('given', ['point', 'cell', 'shape functions'])
        K = A().Kernel(f, derivatives=None if der is None else ctx.choice('list', [der, [der]]))
        vs = (0,) * ((len(der) - 1) if der else 0)
        bv = b.derivative()[1:]
        scale = lambda q, vs: shape_val(q, [t], vs) / h ** len(vs) if vs else shape_val(q, [t])
        P = ctx.arr([[scale(q, bv) for q in polys]])
        kw = dict(cell=cell, phi={b: P}, dofs={b: dofs}) if how == 'shape functions' else dict(cell=cell) if how == 'cell' else {}
        got = K.eval(x, **kw)
        ctx.prove('shape', np.shape(got) == (1, S) and K.n_samples() == S)
        ctx.prove('basis', K.basis() == [b])
        for s in range(S):
            w = sum(scale(q, vs) * D[dofs[j], s] for j, q in enumerate(polys))
            ctx.prove_eq('requested-derivative', got[0, s], w, (der, how))
        return
    seen = []
    if kind == 'combined':
        order = ctx.choice('order', ['fgc', 'cgf', 'gf', 'fgf', 'gg', 'cgc'])
        fs = dict(f=f, g=g, c=c)
        mm = [ctx.real('m%d' % i) for i in range(3)]

        def Fn(*v):
            return sum(mm[i] * q * q for i, q in enumerate(v))
        Ks = A().Kernel([fs[o] for o in order], F=Fn)
        val = dict(f=lambda s: sum(shape_val(q, [t]) * D[dofs[j], s] for j, q in enumerate(polys)), g=lambda s: ctx.ufun('g', list(x[0])), c=lambda s: cv[s])
        how = ctx.choice('given', ['point', 'shape functions'])
        P = ctx.arr([[shape_val(q, [t]) for q in polys]])
        kw = dict(cell=cell, phi={b: P}, dofs={b: dofs}) if how == 'shape functions' else {}
        got = Ks.eval(x, **kw)
        S = 1 if order == 'gg' else S
        ctx.prove('shape', np.shape(got) == (1, S))
        for s in range(S):
            w = sum(mm[i] * val[o](s) * val[o](s) for i, o in enumerate(order))
            ctx.prove_eq('combination', got[0, s], w, order)
    else:
        # arguments of F that describe where it is evaluated
        region = object()
        sig = ctx.choice('arguments', ['cell', 'region', 'phi', 'dofs', 'several'])
        if sig == 'several':
            def Fn(f, region=None, cell=None):
                seen.append((region, cell))
                return f
            want = lambda c_, r_, p_, d_: (r_, c_)
        else:
            loc = {'cell': lambda f, cell: (seen.append(cell), f)[1], 'region': lambda f, region: (seen.append(region), f)[1],
                   'phi': lambda f, phi: (seen.append(phi), f)[1], 'dofs': lambda f, dofs: (seen.append(dofs), f)[1]}
            Fn = loc[sig]
            want = lambda c_, r_, p_, d_: dict(cell=c_, region=r_, phi=p_, dofs=d_)[sig]
        K = A().Kernel(g, F=Fn)
        for rnd in range(2):
            p_, d_, r_, c_ = {b: rnd}, {b: [rnd]}, (region, rnd), cell if rnd else None
            got = K.eval(x, phi=p_, cell=c_, region=r_, dofs=d_)
            ctx.prove_eq('value', got[0, 0], ctx.ufun('g', list(x[0])))
            w = want(c_, r_, p_, d_)
            ctx.prove('current-arguments', seen[-1] == w and len(seen) == rnd + 1)
        ctx.prove('without-them', A().Kernel(g, F=Fn).eval(x).shape == (1, 1))


def interpolated(ctx, dmu):
    """IIForm.eval: interpolation in the test variable, quadrature in the other"""
    ctx.fn('assembler.IIForm.eval', 'assembler.IIForm.__init__')
    m = M()
    dim = 2 if dmu == 'ds' else ctx.choice('dim', [1, 2])
    mesh = m.Mesh1D(resolution=(2,)) if dim == 1 else m.QuadMesh(resolution=(1, 1))
    flag = None
    if dim == 1 and ctx.choice('sub-mesh', [False, True]):
        mesh.cells.get_child(1).mark('s')
        flag = 's'
    S = ctx.choice('samples', [1, 2])
    v = fem().Basis(handler(mesh, 'Q1'), 'v', subforest_flag=flag)
    u = fem().Basis(handler(mesh, 'DQ0' if dim == 2 else 'Q1'), 'v')
    cell = mesh.cells.get_leaves(subforest_flag=flag)[0]
    how = ctx.choice('regions', ['all', 'some', 'none'])
    ents = [cell] if dmu == 'dx' else cell.get_half_edges()
    regions = {'all': ents, 'some': ents[1:3] if dmu == 'ds' else ents, 'none': []}[how]
    for r in regions:
        r.mark('f')
    form = A().IIForm(A().Kernel(explicit(ctx, 'kl'[:S], dim, 2)), test=v, trial=u, dmu=dmu, flag=None if how == 'all' else 'f')
    xg, wg, phi, dofs = {}, {}, {}, {}
    nu = u.dofhandler().element.n_dofs()
    for k, r in enumerate(ents):
        xg[r] = ctx.arr(pts(ctx, 2, dim, 'x%d_' % k))
        wg[r] = ctx.arr([ctx.real('w%d_%d' % (k, i)) for i in range(2)])
        phi[r] = {u: table(ctx, 'q%d_' % k, 2, nu), v: None}
        dofs[r] = {u: list(range(nu))}
    out = form.eval(cell, xg, wg, phi, dofs)
    node = v.dofhandler().get_dof_vertices(v.dofs())
    n = v.n_dofs()
    ctx.prove('shape', np.shape(out) == ((n, nu) if S == 1 else (n, nu, S)), np.shape(out))
    out = np.reshape(out, (n, nu, S))
    for i in range(n):
        for j in range(nu):
            for s in range(S):
                w = 0
                for r in regions:
                    for g in range(2):
                        w = w + wg[r][g] * ctx.ufun('kl'[s], list(node[i]) + list(xg[r][g])) * phi[r][u][g, j]
                ctx.prove_eq('quadrature-at-the-nodes', out[i, j, s], w, (dmu, i, j, s))


def projected(ctx, dmu):
    """IPForm.eval: quadrature in both variables"""
    ctx.fn('assembler.IPForm.eval', 'assembler.IPForm.__init__')
    m = M()
    dim = 2 if dmu == 'ds' else ctx.choice('dim', [1, 2])
    mesh = m.Mesh1D(resolution=(2,)) if dim == 1 else m.QuadMesh(resolution=(2, 1))
    S = ctx.choice('samples', [1, 2])
    v = fem().Basis(handler(mesh, 'Q1' if dmu == 'dx' else 'DQ0'), 'v')
    u = fem().Basis(handler(mesh, 'DQ0'), 'v')
    ci, cj = ctx.choice('cells', [(0, 1), (1, 0), (1, 1)])
    cells = [mesh.cells.get_leaves()[k] for k in (ci, cj)]
    how = ctx.choice('regions', ['all', 'some', 'none'])
    ents = [[c] if dmu == 'dx' else c.get_half_edges() for c in cells]
    if how == 'all':
        regions = ents
    else:
        regions = [e if dmu == 'dx' else e[1:2] for e in ents] if how == 'some' else [ents[0][:1], []]
        if how == 'none' and ci == cj:
            regions = [[], []]
        for e in regions:
            for r in e:
                r.mark('f')
    form = A().IPForm(A().Kernel(explicit(ctx, 'kl'[:S], dim, 2)), test=v, trial=u, dmu=dmu, flag=None if how == 'all' else 'f')
    xg, wg, phi, dofs = ({}, {}), ({}, {}), ({}, {}), ({}, {})
    nv, nu = v.dofhandler().element.n_dofs(), 1
    for a in range(2):
        for k, r in enumerate(ents[a]):
            xg[a][r] = ctx.arr(pts(ctx, 2, dim, 'x%d_%d_' % (a, k)))
            wg[a][r] = ctx.arr([ctx.real('w%d_%d_%d' % (a, k, i)) for i in range(2)])
            phi[a][r] = {v: table(ctx, 'p%d_%d_' % (a, k), 2, nv), u: table(ctx, 'q%d_%d_' % (a, k), 2, nu)}
            dofs[a][r] = {v: list(range(nv)), u: list(range(nu))}
    out = form.eval(tuple(cells), xg, wg, phi, dofs)
    ctx.prove('shape', np.shape(out) == ((nv, nu) if S == 1 else (nv, nu, S)), np.shape(out))
    out = np.reshape(out, (nv, nu, S))
    for i in range(nv):
        for j in range(nu):
            for s in range(S):
                w = 0
                for r in regions[0]:
                    for q in regions[1]:
                        for g, h in itertools.product(range(2), range(2)):
                            w = w + wg[0][r][g] * wg[1][q][h] * phi[0][r][v][g, i] * phi[1][q][u][h, j] \
                                * ctx.ufun('kl'[s], list(xg[0][r][g]) + list(xg[1][q][h]))
                ctx.prove_eq('double-quadrature', out[i, j, s], w, (dmu, i, j, s))


# ---------------------------------------------------------------- shape functions and quadrature on a cell
def _expect(polys, dim, t, der, J, ctx):
    """values of the derivative `der` of the mapped shape functions at reference point t; J: inverse Jacobian d(ref)/d(phys)"""
    vs = der[1:] if der[0] else ()
    out = []
    for p in polys:
        if not vs:
            out.append(shape_val(p, t))
        elif len(vs) == 1:
            out.append(sum((shape_val(p, t, (k,)) * J[k][vs[0]] for k in range(dim)), 0))
        else:
            out.append(sum((shape_val(p, t, (k, l)) * J[k][vs[0]] * J[l][vs[1]] for k in range(dim) for l in range(dim)), 0))
    return out


def shapes(ctx, dim, geometry, dmu):
    """any rule, any cell: nodes, weights and shape values"""
    ctx.fn('assembler.Assembler.shape_eval', 'assembler.Assembler.shape_info')
    m = M()
    level = ctx.choice('basis', ['cell', 'parent'] if geometry != 'quad' else ['cell'])
    e = Fr(1, 10) if ctx.sym else .1
    if dim == 1:
        x0, h = ctx.real('x0', lo=-2, hi=2), ctx.real('h', lo=e, hi=3)
        mesh = m.Mesh1D(box=[x0, x0 + h], resolution=(1,))
        corners = [[x0], [x0 + h]]
    else:
        if geometry == 'box':
            x0, y0 = ctx.real('x0', lo=-2, hi=2), ctx.real('y0', lo=-2, hi=2)
            w, h = ctx.real('w', lo=e, hi=3), ctx.real('h', lo=e, hi=3)
            mesh = m.QuadMesh(box=[x0, x0 + w, y0, y0 + h], resolution=(1, 1))
            corners = [[x0, y0], [x0 + w, y0], [x0 + w, y0 + h], [x0, y0 + h]]
        else:
            mesh = m.QuadMesh(resolution=(1, 1))
    flag = None
    if level == 'parent':
        mesh.cells.record('c')
        flag = 'c'
    el = ctx.choice('element', ['Q1', 'DQ0', 'Q2'] if geometry != 'quad' and level == 'cell' else ['Q1'])
    dh = handler(mesh, el, flag)
    ders = ['v', 'vx'] + (['vxx'] if geometry != 'quad' and el != 'DQ0' else []) + (['vy', 'vxy'][level == 'parent':] if dim == 2 and geometry == 'box' and el != 'DQ0' else ['vy'] if dim == 2 else [])
    if el == 'DQ0':
        ders = ['v']
    which = ctx.choice('derivatives', [ders, []] + ([ders[1:2], ders[-1:]] if geometry != 'quad' and level == 'cell' and len(ders) > 1 else []))
    bases = [fem().Basis(dh, d, subforest_flag=flag) for d in which]
    if level == 'parent':
        mesh.cells.get_child(0).split()
        b0 = fem().Basis(handler(mesh, 'Q1'), 'v')
        both = ctx.choice('also-fine', [False, True])
        cell = mesh.cells.get_child(0).get_child(ctx.choice('child', list(range(2 * dim))))
    else:
        cell = mesh.cells.get_child(0)
        both = False
    par = []
    if geometry == 'quad':
        # the same cell with any strictly convex corners
        corners = quad_pts(ctx)
        not_axis(ctx, corners)
        cell0 = cell
        cell = quad_from(corners)
        par = [(dh, 'get_cell_dofs', lambda c, **k: [0, 1, 2, 3])]
    ents = [cell] if dmu == 'dx' else cell.get_half_edges() if dmu == 'ds' else cell.get_vertices()
    some = ctx.choice('flagged', [False, True]) if el == 'Q1' and level == 'cell' and geometry != 'quad' else level == 'parent'
    sel = [ents[0]] if some else list(ents)
    if some:
        sel[0].mark('f')
    F = A().Form
    problem = [F(test=b, dmu=dmu, flag='f' if some else None) for b in bases] if bases else [F(dmu=dmu, flag='f' if some else None, dim=dim)]
    if both:
        problem.append(F(test=b0, trial=b0, dmu=dmu, flag='f' if some else None))
    asm = A().Assembler([problem], mesh)
    npt = 1 if geometry == 'quad' else 2
    R = Rule(ctx, 'c', npt, dim)
    RE = Rule(ctx, 'e', npt, 1)
    asm.cell_rule, asm.edge_rule = R, RE
    with patched(*par):
        xg, wg, phi, dofs = asm.shape_eval(cell)
    ctx.prove('exactly-the-regions', len(xg) == len(sel) and all(any(r is q for q in xg) for r in sel))
    vc = [list(v.coordinates()) for v in cell.get_vertices()]
    for r in sel:
        k = [i for i, q in enumerate(ents) if q is r][0]
        if dmu == 'dx':
            T = [list(row) for row in R.x]
        elif dmu == 'ds':
            T = [[[s, 0], [1, s], [1 - s, 1], [0, 1 - s]][k] for (s,) in RE.x]
        else:
            T = [[[0], [1]][k]] if dim == 1 else [[(0, 0), (1, 0), (1, 1), (0, 1)][k]]
        n = len(T)
        ctx.prove('shapes', np.shape(xg[r]) == (n, dim), np.shape(xg[r]))
        X_ = np.array([list(p) for p in xg[r]], dtype=object)
        for g in range(n):
            t = T[g]
            if dim == 1:
                X, N = [vc[0][0] + t[0] * (vc[1][0] - vc[0][0])], None
                Jr = [[vc[1][0] - vc[0][0]]]
            else:
                s_, t_ = t
                sh = [(1 - s_) * (1 - t_), s_ * (1 - t_), s_ * t_, (1 - s_) * t_]
                X = [sum(sh[q] * vc[q][c] for q in range(4)) for c in range(2)]
                ds = [-(1 - t_), 1 - t_, t_, -t_]
                dt = [-(1 - s_), -s_, s_, 1 - s_]
                Jr = [[sum(d[q] * vc[q][c] for q in range(4)) for d in (ds, dt)] for c in range(2)]
            for c in range(dim):
                ctx.prove_eq('quadrature-node', X_[g, c], X[c], (dmu, k))
            if dim == 1:
                det, J = Jr[0][0], [[1 / Jr[0][0]]]
            else:
                det = Jr[0][0] * Jr[1][1] - Jr[0][1] * Jr[1][0]
                J = [[Jr[1][1] / det, -Jr[0][1] / det], [-Jr[1][0] / det, Jr[0][0] / det]]
            if dmu == 'dx':
                ctx.prove_eq('weight', wg[r][g], R.w[g] * det)
            elif dmu == 'ds':
                a, b = vc[k], vc[(k + 1) % 4]
                L2 = (b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2
                if ctx.sym:
                    ctx.prove_eq('weight', wg[r][g], RE.w[g] * L2.sqrt())
                else:
                    ctx.prove_eq('weight', wg[r][g], RE.w[g] * L2 ** .5)
            else:
                ctx.prove_eq('weight', wg[r], 1)
            for b in bases + ([b0] if both else []):
                if level == 'parent' and b in bases:
                    pos = [i for i, q in enumerate(mesh.cells.get_child(0).get_children()) if q is cell][0]
                    off = [[0], [1]][pos] if dim == 1 else [(0, 0), (1, 0), (1, 1), (0, 1)][pos]
                    half = Fr(1, 2) if ctx.sym else .5
                    tt = [(t[q] + off[q]) * half for q in range(dim)]
                    JJ = [[J[p][q] * half for q in range(dim)] for p in range(dim)]
                else:
                    tt, JJ = t, J
                deg = 1 if b not in bases else int(el[-1])
                want = _expect(basis_polys(dim, deg), dim, tt, b.derivative(), JJ, ctx)
                ctx.prove('shape-table', np.shape(phi[r][b]) == (n, len(want)), np.shape(phi[r][b]))
                for j, wv in enumerate(want):
                    ctx.prove_eq('shape-value', phi[r][b][g, j], wv, (dmu, level, b.derivative(), j))
        for b in bases + ([b0] if both else []):
            if geometry != 'quad':
                ce = mesh.cells.get_child(0) if level == 'parent' and b in bases else cell
                ctx.prove('dofs-of-the-cell', list(dofs[r][b]) == list(b.dofhandler().get_cell_dofs(ce)))


# ---------------------------------------------------------------- accumulation
LAYOUTS = {
    'one-cell': [[3, 0, 2]],
    'shared': [[4, 0, 7], [7, 2, 0]],
    'unsorted': [[9, 8, 3], [2, 40, 3]],
}
HNG = {
    'none': ([], []),
    'dirichlet': ([1], []),
    'dirichlet-all': ([0, 1, 2, 3, 4], []),
    'hanging': ([], [(0, [1, 2])]),
    'hanging-dirichlet-support': ([1], [(0, [1, 2])]),
    'hanging-chain': ([], [(0, [1, 2]), (1, [2])]),
    'hanging-two': ([], [(2, [1]), (0, [1])]),
}


class Basis_(object):
    pass


def accumulate(ctx, dim, case):
    """update, distribute and consolidate: sums at the right places, constraints eliminated"""
    ctx.fn(*['assembler.AssembledForm.' + f for f in ('__init__', 'add_form', 'update_cellwise', 'distribute', 'consolidate', 'clear_cellwise_data')])
    asm = A()
    lay = LAYOUTS[ctx.choice('layout', list(LAYOUTS))]
    if dim == 0:
        lay = lay[:]
    alld = sorted(set(d for c in lay for d in c))
    S = ctx.choice('samples', [1, 2])
    forms = ctx.choice('forms', ['one', 'sampled+plain'] if S == 2 else ['one', 'two'])
    # real forms, for the sample sizes
    mesh, (v, u) = _space(1)
    kers = {'one': [S], 'two': [1, 1], 'sampled+plain': [1, 2]}[forms]
    af = asm.AssembledForm(dim)
    for k in kers:
        ker = asm.Kernel(explicit(ctx, 'kl'[:k], 1))
        af.add_form(asm.Form(ker) if dim == 0 else asm.Form(ker, test=v) if dim == 1 else asm.Form(ker, test=v, trial=v))
    ctx.prove('samples-of-all-forms', af.n_samples() == S and af.dim() == dim)
    di, hn = HNG[case]
    fixed = {alld[i]: ctx.real('g%d' % i) for i in di if i < len(alld)}
    hng = {alld[i]: ([alld[j] for j in sup], [ctx.real('c%d_%d' % (i, j)) for j in sup]) for i, sup in hn}
    dir_bc = {d: ctx.arr([g]) for d, g in fixed.items()}
    keepcell = ctx.choice('clear', [False, True])
    cells = ['c%d' % i for i in range(len(lay))]
    rev = ctx.choice('order', [1, -1]) if len(lay) > 1 else 1
    vals = {}
    with patched(*([(asm, 'sparse', spmodel.make())] if ctx.sym else [])):
        for ci, c in list(enumerate(cells))[::rev]:
            n = len(lay[ci])
            for fi, k in enumerate(kers):
                shp = {0: (1, k), 1: (n, k), 2: (n, n, k)}[dim]
                V = np.empty(shp, dtype=object if ctx.sym else float)
                for ix in np.ndindex(*shp):
                    V[ix] = ctx.real('v%d_%d_%s' % (ci, fi, '_'.join(map(str, ix))))
                vals[ci, fi] = V.copy()
                flat = dim == 2 and k == 1 and ctx.choice('flat', [False, True]) if ci == 0 and fi == 0 else False
                arg = V[:, :, 0] if flat else V
                if dim == 0:
                    af.update_cellwise(c, arg)
                elif dim == 1:
                    af.update_cellwise(c, arg, dofs=[list(lay[ci])])
                else:
                    af.update_cellwise(c, arg, dofs=[list(lay[ci]), list(lay[ci])])
            before = {k: (list(map(list, q)) if k == 'dofs' else list(q)) for k, q in af.cellwise_data()[c].items()}
            h0 = {k: (list(a), list(b)) for k, (a, b) in hng.items()}
            af.distribute(c, dir_bc=dir_bc, hng=hng, clear_cellwise_data=keepcell)
            ctx.prove('constraints-untouched', set(h0) == set(hng) and all(h0[k][0] == list(hng[k][0]) for k in hng))
            if keepcell:
                ctx.prove('cell-cleared', c not in af.cellwise_data())
            else:
                now = af.cellwise_data()[c]
                ctx.prove('cell-data-kept', [list(q) for q in now['dofs']] == before['dofs'] and len(now['vals']) == len(before['vals']))
                af.clear_cellwise_data(c)
                ctx.prove('cell-cleared', c not in af.cellwise_data())
        af.consolidate()
        arr = af.aggregate_data()['array']
        # the constraint map: value of dof = sum of coefficients * free dofs + constant
        def row(d):
            if d in hng:
                out, const = {}, 0
                for s_, c_ in zip(*hng[d]):
                    r_, k_ = row(s_)
                    const = const + c_ * k_
                    for q, w in r_.items():
                        out[q] = out.get(q, 0) + c_ * w
                return out, const
            if d in fixed:
                return {}, fixed[d]
            return {d: 1}, 0
        free = [d for d in alld if d not in hng and d not in fixed]
        val = lambda ci, fi, ix, s: vals[ci, fi][ix + (min(s, vals[ci, fi].shape[-1] - 1),)]
        if dim == 0:
            ctx.prove('shape', np.shape(arr) == (S,), np.shape(arr))
            for s in range(S):
                ctx.prove_eq('sum-over-cells', arr[s], sum(val(ci, fi, (0,), s) for ci in range(len(cells)) for fi in range(len(kers))))
            return
        ud = af.aggregate_data()['udofs']
        ctx.prove('dofs-in-ascending-order', all(list(q) == free for q in ud) and len(ud) == dim, (ud, free))
        ctx.prove('one-array-per-sample', len(arr) == S)
        for s in range(S):
            want = {(i,) if dim == 1 else (i, j): 0 for i in range(len(free)) for j in range(len(free))}
            bnd = [0] * len(free)
            for ci in range(len(cells)):
                for fi in range(len(kers)):
                    for i, d in enumerate(lay[ci]):
                        ri, _ = row(d)
                        for q, w in ri.items():
                            if dim == 1:
                                want[(free.index(q),)] = want[(free.index(q),)] + w * val(ci, fi, (i,), s)
                                continue
                            for j, e in enumerate(lay[ci]):
                                rj, kj = row(e)
                                bnd[free.index(q)] = bnd[free.index(q)] + w * kj * val(ci, fi, (i, j), s)
                                for p, z in rj.items():
                                    key = (free.index(q), free.index(p))
                                    want[key] = want[key] + w * z * val(ci, fi, (i, j), s)
            if dim == 1:
                ctx.prove('shape', np.shape(arr[s]) == (len(free),))
                for (i,), w in want.items():
                    ctx.prove_eq('vector-entry', arr[s][i], w, (free[i], s))
            else:
                T = arr[s].toarray()
                ctx.prove('shape', np.shape(T) == (len(free), len(free)), np.shape(T))
                for (i, j), w in want.items():
                    ctx.prove_eq('matrix-entry', T[i, j], w, (free[i], free[j], s))
                x0 = af.dirichlet_correction()['array'][s]
                ctx.prove('correction-shape', np.shape(x0) == (len(free),))
                for i in range(len(free)):
                    ctx.prove_eq('dirichlet-correction', x0[i], bnd[i], (free[i], s))


def rectangular(ctx):
    """different test and trial dofs: rows are test dofs, columns trial dofs"""
    ctx.fn('assembler.AssembledForm.update_cellwise', 'assembler.AssembledForm.consolidate')
    asm = A()
    mesh, (v, u) = _space(1)
    af = asm.AssembledForm(2)
    S = ctx.choice('samples', [1, 2])
    af.add_form(asm.Form(asm.Kernel(explicit(ctx, 'kl'[:S], 1)), test=v, trial=u))
    lay = {'c0': ([5, 1], [0, 3, 2]), 'c1': ([1, 8], [3])}
    vals = {}
    with patched(*([(asm, 'sparse', spmodel.make())] if ctx.sym else [])):
        for c, (r, q) in lay.items():
            V = np.empty((len(r), len(q), S), dtype=object if ctx.sym else float)
            for ix in np.ndindex(*V.shape):
                V[ix] = ctx.real('v%s_%s' % (c, '_'.join(map(str, ix))))
            vals[c] = V
            af.update_cellwise(c, V, dofs=[r, q])
            af.distribute(c)
        af.consolidate()
        ud = af.aggregate_data()['udofs']
        ctx.prove('dofs', [list(q) for q in ud] == [[1, 5, 8], [0, 2, 3]])
        for s in range(S):
            T = af.aggregate_data()['array'][s].toarray()
            for i, d in enumerate([1, 5, 8]):
                for j, e in enumerate([0, 2, 3]):
                    w = sum(vals[c][r.index(d), q.index(e), s] for c, (r, q) in lay.items() if d in r and e in q)
                    ctx.prove_eq('entry', T[i, j], w, (d, e, s))


# ---------------------------------------------------------------- whole assemblies
def tables(ctx, asm, b, cell, r, dmu, R, RE):
    """nodes, weights and (derivatives of) shape functions of b on the part r of a box-shaped cell, from the definition"""
    dim = asm.mesh().dim()
    vc = [list(v.coordinates()) for v in cell.get_vertices()]
    lo, hi = vc[0], vc[2 if dim == 2 else 1]
    ents = [cell] if dmu == 'dx' else cell.get_half_edges() if dmu == 'ds' else cell.get_vertices()
    k = [i for i, q in enumerate(ents) if q is r][0]
    size = [hi[c] - lo[c] for c in range(dim)]
    if dmu == 'dx':
        T, W = [list(row) for row in R.x], [w * (size[0] if dim == 1 else size[0] * size[1]) for w in R.w]
    elif dmu == 'ds':
        T, W = [[[s, 0], [1, s], [1 - s, 1], [0, 1 - s]][k] for (s,) in RE.x], [w * size[k % 2] for w in RE.w]
    else:
        T, W = [[[0], [1]][k] if dim == 1 else list([(0, 0), (1, 0), (1, 1), (0, 1)][k])], [1]
    X = [[lo[c] + t[c] * size[c] for c in range(dim)] for t in T]
    if b is None:
        return X, W, None
    own = cell
    while b.subforest_flag() is not None and not own.is_marked(b.subforest_flag()):
        own = own.get_parent()
    oc = [list(v.coordinates()) for v in own.get_vertices()]
    ol, oh = oc[0], oc[2 if dim == 2 else 1]
    J = [[1 / (oh[c] - ol[c]) if c == d else 0 for d in range(dim)] for c in range(dim)]
    deg = int(b.dofhandler().element.element_type()[-1])
    P = [_expect(basis_polys(dim, deg), dim, [(x[c] - ol[c]) / (oh[c] - ol[c]) for c in range(dim)], b.derivative(), J, ctx) for x in X]
    return X, W, (P, list(b.dofhandler().get_cell_dofs(own)))


PROBLEMS = {  # name: (dim, list of problems); a form is (samples, test, trial, measure, flagged)
    '1d-mixed': (1, [[(2, None, None, 'dx', 0), (1, 'P', None, 'dx', 0), (1, 'P', None, 'dv', 1), (1, 'P', 'P', 'dx', 0), (1, 'Px', 'Px', 'dx', 0)]]),
    '1d-samples': (1, [[(2, 'P', None, 'dx', 1), (1, 'Px', None, 'dx', 0), (2, 'P', 'Px', 'dx', 0), (1, 'P', 'P', 'dv', 0), (1, None, None, 'dv', 1), (2, None, None, 'dx', 0)]]),
    '1d-problems': (1, [[(1, 'D', None, 'dx', 0), (1, 'D', 'P', 'dx', 0)], [(1, 'Q', None, 'dx', 0), (1, 'Q', 'Q', 'dx', 1)], [(2, None, None, 'dx', 1)]]),
    '1d-coarse': (1, [[(1, 'C', None, 'dx', 0), (1, 'C', 'P', 'dx', 0)], [(1, 'P', 'Cx', 'dx', 0), (1, 'P', None, 'dx', 0)], [(1, 'Cx', 'Cx', 'dx', 0)]]),
    '1d-nodal': (1, [[(('P', None), 'P', None, 'dx', 0), (('Q', 'fx'), 'P', 'Px', 'dx', 0)], [(('P', 'fx'), 'Q', None, 'dx', 1), (('Q', None), None, None, 'dx', 0), (('P', None), None, None, 'dv', 0)]]),
    '1d-coarse-nodal': (1, [[(('C', None), 'P', None, 'dx', 0), (('P', None), 'C', 'P', 'dx', 0)], [(('C', 'fx'), None, None, 'dx', 0)]]),
    # the same form, kernel or basis several times
    '1d-repeated': (1, [[(1, 'P', 'P', 'dx', 0), ('form', 0), (1, 'P', None, 'dx', 0), ('kernel', 0, 'Px', 'P', 'dx', 0), ('kernel', 0, 'P', None, 'dv', 1), ('form', 2)],
                        [('form', 0), ('kernel', 2, None, None, 'dx', 0), ('form', 2)]]),
    '1d-repeated-samples': (1, [[(2, 'P', None, 'dx', 0), ('form', 0), ('kernel', 0, 'P', 'D', 'dx', 1), ('kernel', 0, 'P', 'D', 'dx', 0)], [('form', 0), ('form', 2)]]),
    '2d-nodal': (2, [[(('P', None), 'P', None, 'ds', 1), (('D', None), 'P', 'D', 'dx', 0)]]),
    '2d-mixed': (2, [[(1, None, None, 'ds', 1), (1, 'P', None, 'ds', 1), (1, 'P', None, 'dx', 0), (1, 'P', 'P', 'dx', 0)]]),
    '2d-edges': (2, [[(2, 'D', None, 'ds', 0), (1, 'D', 'P', 'ds', 1), (1, None, None, 'dv', 0)], [(1, 'P', 'D', 'dx', 1)]]),
    '2d-coarse': (2, [[(1, 'C', None, 'dx', 0), (1, 'C', 'P', 'dx', 0)]]),
    '2d-derivatives': (2, [[(1, 'Px', 'Py', 'dx', 0), (1, 'Py', None, 'dx', 0)]]),
}


def whole(ctx, case):
    """Assembler: entry for entry the sum over cells of kernel x test x trial"""
    ctx.fn('assembler.Assembler.__init__', 'assembler.Assembler.check_problem', 'assembler.Assembler.assemble', 'assembler.Assembler.get_matrix',
           'assembler.Assembler.get_vector', 'assembler.Assembler.get_scalar', 'assembler.AssembledForm.reset', 'assembler.Assembler.shape_info', 'assembler.Assembler.shape_eval')
    m, a = M(), A()
    dim, specs = PROBLEMS[case]
    e = Fr(1, 10) if ctx.sym else .1
    x0, h = ctx.real('x0', lo=-2, hi=2), ctx.real('h', lo=e, hi=3)
    if dim == 1:
        mesh = m.Mesh1D(box=[x0, x0 + h], resolution=(2,))
    else:
        y0, k = ctx.real('y0', lo=-2, hi=2), ctx.real('k', lo=e, hi=3)
        mesh = m.QuadMesh(box=[x0, x0 + h, y0, y0 + k], resolution=(2, 1))
    state = ctx.choice('mesh', ['plain', 'refined'] if 'coarse' not in case else ['refined'])
    mesh.cells.record('c')
    if state == 'refined':
        c_ = mesh.cells.get_child(ctx.choice('split', [0, 1] if dim == 1 else [0]))
        c_.split()
    region = ctx.choice('region', [None, 'first']) if case in ('1d-mixed', '2d-mixed') else None
    leaves = mesh.cells.get_leaves()
    if region:
        leaves[0].mark('r')
    used = [leaves[0]] if region else leaves
    # flagged parts of the mesh
    leaves[-1].mark('f')
    for cell in leaves[:1]:
        cell.get_vertex(1).mark('f')
        if dim == 2:
            cell.get_half_edges()[1].mark('f')
            cell.get_half_edges()[2].mark('f')
    el = dict(P='Q1', D='DQ0', Q='Q2' if dim == 1 else 'Q1', C='Q1')
    handlers, bases = {}, {}

    def basis(n):
        if n is None or n in bases:
            return bases.get(n)
        if n[0] not in handlers:
            handlers[n[0]] = handler(mesh, el[n[0]], 'c' if n[0] == 'C' else None)
        bases[n] = fem().Basis(handlers[n[0]], 'v' + n[1:], subforest_flag='c' if n[0] == 'C' else None)
        return bases[n]
    problems, made, names, data = [], [], [], {}

    def kernel_value(n, c, r, dmu, X, g):
        if n not in data:
            return ctx.ufun(n, list(X[g]))
        b, D, order = data[n]
        P, ds = tables(ctx, asm, b, c, r, dmu, R, RE)[2]
        return sum(P[g][i] * D[order.index(d), 0] for i, d in enumerate(ds))
    for p in specs:
        problems.append([])
        for spec in p:
            if spec[0] == 'form':
                problems[-1].append(made[spec[1]])
                made.append(made[spec[1]])
                continue
            if spec[0] == 'kernel':
                tst, trl, dmu, fl = spec[2:]
                old, ns = made[spec[1]][0], made[spec[1]][1]
                form = a.Form(old.kernel, dmu=dmu, flag='f' if fl else None, **dict(([('test', basis(tst))] if tst else []) + ([('trial', basis(trl))] if trl else [])))
                problems[-1].append((form, ns, basis(tst), basis(trl), dmu, fl))
                made.append(problems[-1][-1])
                continue
            S, tst, trl, dmu, fl = spec
            ns = ['k%d' % (len(names) + i) for i in range(S if isinstance(S, int) else 1)]
            names += ns
            kw = dict(dmu=dmu, flag='f' if fl else None)
            if tst:
                kw['test'] = basis(tst)
            if trl:
                kw['trial'] = basis(trl)
            if isinstance(S, int):
                ker = a.Kernel(explicit(ctx, ns, dim))
            else:
                b_ = basis(S[0])
                data[ns[0]] = (basis(S[0] + (S[1] or 'f')[1:]), ctx.arr([[ctx.real('%sd%d' % (ns[0], i))] for i in range(b_.n_dofs())]), sorted(b_.dofs()))
                ker = a.Kernel(mod('function').Nodal(data=data[ns[0]][1].copy(), basis=b_, dim=dim), derivatives=S[1])
            form = a.Form(ker, **kw)
            problems[-1].append((form, ns, basis(tst), basis(trl), dmu, fl))
            made.append(problems[-1][-1])
    R, RE = Rule(ctx, 'c', 1 if dim == 2 else 2, dim), Rule(ctx, 'e', 1, 1)
    arg = [[f[0] for f in p] for p in problems]
    if len(arg) == 1:
        arg = arg[0]
    with patched(*([(a, 'sparse', spmodel.make())] if ctx.sym else [])):
        asm = a.Assembler(arg, mesh)
        asm.cell_rule, asm.edge_rule = R, RE
        for r_ in range(ctx.choice('times', [1, 2])):
            asm.assemble(region_flag='r' if region else None)
        ctx.prove('problems', asm.n_problems() == len(problems))
        for ip, p in enumerate(problems):
            for d in range(3):
                forms = [f for f in p if f[0].dim() == d]
                ctx.prove('assembled-forms', (asm.assembled_forms(ip)[d] is None) == (not forms))
                if not forms:
                    continue
                S = max(len(f[1]) for f in forms)
                rows = sorted(set(q for c in used for q in _dofs(c, forms[0][2]))) if d else []
                cols = sorted(set(q for c in used for q in _dofs(c, forms[0][3]))) if d == 2 else []
                if d:
                    ud = asm.assembled_forms(ip)[d].aggregate_data()['udofs']
                    ctx.prove('row-and-column-dofs', [list(q) for q in ud] == ([rows, cols] if d == 2 else [rows]))
                for s in range(S):
                    want = {}
                    for form, ns, tb, ub, dmu, fl in forms:
                        for c in used:
                            ents = [c] if dmu == 'dx' else c.get_half_edges() if dmu == 'ds' else c.get_vertices()
                            for r in ents:
                                if fl and not r.is_marked('f'):
                                    continue
                                X, W, tt = tables(ctx, asm, tb, c, r, dmu, R, RE)
                                uu = tables(ctx, asm, ub, c, r, dmu, R, RE)[2]
                                for g in range(len(X)):
                                    base = W[g] * kernel_value(ns[min(s, len(ns) - 1)], c, r, dmu, X, g)
                                    for i, di in (enumerate(tt[1]) if tt else [(0, None)]):
                                        for j, dj in (enumerate(uu[1]) if uu else [(0, None)]):
                                            v = base * (tt[0][g][i] if tt else 1) * (uu[0][g][j] if uu else 1)
                                            want[di, dj] = want.get((di, dj), 0) + v
                    if d == 0:
                        ctx.prove_eq('scalar', asm.get_scalar(ip, s), want.get((None, None), 0), (ip, s))
                    elif d == 1:
                        got = asm.get_vector(ip, s)
                        ctx.prove('vector-shape', np.shape(got) == (len(rows),))
                        for i, q in enumerate(rows):
                            ctx.prove_eq('vector-entry', got[i], want.get((q, None), 0), (ip, q, s))
                    else:
                        got = asm.get_matrix(ip, s).toarray()
                        ctx.prove('matrix-shape', np.shape(got) == (len(rows), len(cols)))
                        for i, q in enumerate(rows):
                            for j, o in enumerate(cols):
                                ctx.prove_eq('matrix-entry', got[i, j], want.get((q, o), 0), (ip, q, o, s))
                if d == 1 and S > 1:
                    both = asm.get_vector(ip, list(range(S)))
                    for s in range(S):
                        ctx.prove_all_eq('vectors-of-several-samples', both[s], asm.get_vector(ip, s))


def _dofs(cell, b):
    while b.subforest_flag() is not None and not cell.is_marked(b.subforest_flag()):
        cell = cell.get_parent()
    return list(b.dofhandler().get_cell_dofs(cell))


def nonlocal_(ctx, which):
    """double integrals (IPForm) and interpolated ones (IIForm), whole matrices"""
    ctx.fn('assembler.Assembler.assemble', 'assembler.%s.eval' % which)
    m, a = M(), A()
    e = Fr(1, 10) if ctx.sym else .1
    x0, h = ctx.real('x0', lo=-2, hi=2), ctx.real('h', lo=e, hi=3)
    mesh = m.Mesh1D(box=[x0, x0 + h], resolution=(2,))
    if ctx.choice('refined', [False, True]):
        mesh.cells.get_child(1).split()
    S = ctx.choice('samples', [1, 2])
    sym_ = ctx.choice('symmetric', [False, True]) if which == 'IPForm' else False
    pair = ctx.choice('spaces', [('P', 'P'), ('D', 'D'), ('D', 'P')] + ([('P', 'Px')] if which == 'IPForm' else []))
    H_ = {k: handler(mesh, dict(P='Q1', D='DQ0')[k]) for k in set(q[0] for q in pair)}
    v, u = [fem().Basis(H_[q[0]], 'v' + q[1:]) for q in pair]
    flag = None
    if which == 'IIForm' and pair == ('P', 'P') and ctx.choice('flagged', [False, True]):
        flag = 'f'
        mesh.cells.get_leaves()[1].mark('f')
    F = getattr(a, which)
    names = 'kl'[:S]
    ker = a.Kernel(explicit(ctx, names, 1, 2, symmetric=sym_))
    K = (lambda n, x, y: ctx.ufun(n, [x, y]) + ctx.ufun(n, [y, x])) if sym_ else (lambda n, x, y: ctx.ufun(n, [x, y]))
    R = Rule(ctx, 'c', 1 if S == 2 else 2, 1)
    cells = mesh.cells.get_leaves()
    with patched(*([(a, 'sparse', spmodel.make())] if ctx.sym else [])):
        asm = a.Assembler(F(ker, test=v, trial=u, flag=flag), mesh)
        asm.cell_rule = R
        asm.assemble()
        rows, cols = list(v.dofs()), list(u.dofs())
        ud = asm.assembled_forms()[2].aggregate_data()['udofs']
        ctx.prove('row-and-column-dofs', [list(q) for q in ud] == [sorted(rows), sorted(cols)])
        rows, cols = sorted(rows), sorted(cols)
        T = {c: tables(ctx, asm, v, c, c, 'dx', R, None) for c in cells}
        U = {c: tables(ctx, asm, u, c, c, 'dx', R, None) for c in cells}
        node = {d: x[0] for d, x in zip(v.dofs(), v.dofhandler().get_dof_vertices(v.dofs()))}
        for s in range(S):
            want = {(i, j): 0 for i in rows for j in cols}
            for cj in cells:
                if flag and not cj.is_marked(flag):
                    continue
                X, W, (P, dj) = U[cj]
                for g in range(len(X)):
                    for j, q in enumerate(dj):
                        if which == 'IIForm':
                            for i in rows:
                                want[i, q] = want[i, q] + W[g] * P[g][j] * K(names[s], node[i], X[g][0])
                            continue
                        for ci in cells:
                            X2, W2, (P2, di) = T[ci]
                            for g2 in range(len(X2)):
                                for i, o in enumerate(di):
                                    want[o, q] = want[o, q] + W[g] * W2[g2] * P[g][j] * P2[g2][i] * K(names[s], X2[g2][0], X[g][0])
            got = asm.get_matrix(0, s).toarray()
            ctx.prove('matrix-shape', np.shape(got) == (len(rows), len(cols)))
            for i, q in enumerate(rows):
                for j, o in enumerate(cols):
                    ctx.prove_eq('matrix-entry', got[i, j], want[q, o], (q, o, s))


def refusals(ctx):
    """forms that cannot be assembled together are refused"""
    ctx.fn('assembler.Assembler.check_problem', 'assembler.AssembledForm.add_form')
    m, a = M(), A()
    mesh, other = m.Mesh1D(resolution=(2,)), m.Mesh1D(resolution=(2,))
    mesh.cells.record('c')
    mesh.cells.get_child(0).split()
    dh, dh2, dh3 = handler(mesh, 'Q1'), handler(mesh, 'Q1'), handler(other, 'Q1')
    dc = handler(mesh, 'Q1', 'c')
    B = fem().Basis
    v, v2, v3, vc = B(dh, 'v'), B(dh2, 'v'), B(dh3, 'v'), B(dc, 'v', subforest_flag='c')
    F = a.Form
    k2, k3 = a.Kernel(explicit(ctx, 'ab', 1)), a.Kernel(explicit(ctx, 'abc', 1))
    case = ctx.choice('case', ['test', 'trial', 'bilinear-test', 'other-mesh', 'samples', 'not-a-form', 'accepted'])
    probs = {'test': [F(test=v), F(test=v2)], 'trial': [F(test=v, trial=v), F(test=v, trial=v2)], 'bilinear-test': [F(test=v, trial=v), F(test=v2, trial=v)],
             'other-mesh': [F(test=v3)], 'samples': [F(k2, test=v), F(k3, test=v)], 'not-a-form': [F(test=v), 3],
             'accepted': [F(test=vc), F(k2, test=v, trial=vc), F(test=v, trial=vc)]}
    try:
        a.Assembler(probs[case], mesh)
        ok = True
    except Exception as ex:
        ok = False
    ctx.prove('refused-or-accepted', ok == (case == 'accepted'), case)


# ---------------------------------------------------------------- bounded: integrals over whole meshes
def _polygon(cells, p, q):
    """exact integral of x**p y**q over the union of polygons (Green), corners as rationals"""
    tot = Fr(0)
    for c in cells:
        P = [tuple(Fr(float(t)) for t in v.coordinates()) for v in c.get_vertices()]
        for (xa, ya), (xb, yb) in zip(P, P[1:] + P[:1]):
            # integral of x**(p+1)/(p+1) y**q dy along the edge; polynomial in t
            X, Y = [xa, xb - xa], [ya, yb - ya]
            poly = [Fr(1)]
            mul = lambda u, v: [sum(u[i] * v[k - i] for i in range(len(u)) if 0 <= k - i < len(v)) for k in range(len(u) + len(v) - 1)]
            for _ in range(p + 1):
                poly = mul(poly, X)
            for _ in range(q):
                poly = mul(poly, Y)
            tot += (yb - ya) / (p + 1) * sum(c_ / (k + 1) for k, c_ in enumerate(poly))
    return float(tot)


def integrals(ctx, seeds):
    """refined quadrilateral meshes and sub-meshes: forms of linear functions equal exact polygon integrals"""
    import random, os
    from .C06 import refine_randomly
    ctx.fn('assembler.Assembler.assemble', 'assembler.Assembler.get_matrix', 'assembler.Assembler.get_vector', 'assembler.Assembler.get_scalar', 'fem.Basis.dofs')
    m, a = M(), A()
    seed = ctx.choice('seed', list(range(seeds)))
    rnd = random.Random(seed)
    kind = ctx.choice('mesh', ['box', 'file'])
    if kind == 'box':
        mesh = m.QuadMesh(box=[0, rnd.uniform(.5, 2), -1, rnd.uniform(0, 1)], resolution=(rnd.randint(1, 2), rnd.randint(1, 2)))
    else:
        mesh = m.QuadMesh(file_path=os.path.join(os.path.dirname(__file__), 'data', 'square.msh'), file_format='gmsh')
    mesh.cells.record('c')
    refine_randomly(mesh, rnd, rnd.randint(0, 2))
    mesh.balance()
    mesh.cells.record('m')
    if rnd.random() < .5:
        refine_randomly(mesh, rnd, 1)
        mesh.balance()
    flags = [None, 'm', 'c']
    af = rnd.choice(flags[:2])
    bf = [rnd.choice(flags[flags.index(af):]) for _ in range(2)]
    el = [rnd.choice(['Q1', 'DQ1']), rnd.choice(['Q1', 'Q2'] if kind == 'box' else ['Q1'])]
    hs = [handler(mesh, e, f) for e, f in zip(el, bf)]
    ders = [rnd.choice(['v', 'vx', 'vy']) for _ in range(2)]
    B = [fem().Basis(h, d, subforest_flag=f) for h, d, f in zip(hs, ders, bf)]
    cells = mesh.cells.get_leaves(subforest_flag=af)
    mon = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 0)]
    c1, c2 = [rnd.randint(-3, 3) for _ in mon], [rnd.randint(-3, 3) for _ in mon]
    f = lambda c: (lambda x: sum(w * x[:, 0] ** p * x[:, 1] ** q for w, (p, q) in zip(c, mon)))
    Ex = E()
    ker = a.Kernel(Ex([f(c1), f(c2)], dim=2))
    al = rnd.randint(-3, 3)
    comb = a.Kernel(Ex([f([al * p + q for p, q in zip(c1, c2)])], dim=2))
    asm = a.Assembler([[a.Form(ker, dim=2) if False else a.Form(ker), a.Form(ker, test=B[0]), a.Form(ker, test=B[0], trial=B[1])],
                       [a.Form(comb, test=B[0], trial=B[1]), a.Form(comb, test=B[0])],
                       [a.Form(ker, test=B[1], trial=B[1])]], mesh, subforest_flag=af)
    asm.assemble()
    lin = [[rnd.randint(-2, 2) for _ in range(3)] for _ in range(2)]
    nod = []
    for b, l in zip(B, lin):
        X = np.array([list(x) for x in b.dofhandler().get_dof_vertices(sorted(b.dofs()))], dtype=float)
        nod.append(l[0] + l[1] * X[:, 0] + l[2] * X[:, 1])
    poly = lambda l, d: {'v': {(0, 0): l[0], (1, 0): l[1], (0, 1): l[2]}, 'vx': {(0, 0): l[1]}, 'vy': {(0, 0): l[2]}}[d]

    def times(u, v):
        o = {}
        for (p, q), s in u.items():
            for (r, t), w in v.items():
                o[p + r, q + t] = o.get((p + r, q + t), 0) + s * w
        return o
    cache = {}

    def integral(u):
        for k in u:
            if k not in cache:
                cache[k] = _polygon(cells, *k)
        return sum(w * cache[k] for k, w in u.items())
    for s, c in enumerate((c1, c2)):
        kp = dict(zip(mon, c))
        ctx.prove_eq('integral-of-the-kernel', asm.get_scalar(0, s), integral(kp), seed)
        ctx.prove_eq('functional-of-a-linear-function', nod[0].dot(asm.get_vector(0, s)), integral(times(kp, poly(lin[0], ders[0]))), (seed, el, ders, bf, af))
        Am = asm.get_matrix(0, s)
        ctx.prove_eq('form-of-linear-functions', nod[0].dot(Am.dot(nod[1])), integral(times(times(kp, poly(lin[0], ders[0])), poly(lin[1], ders[1]))), (seed, el, ders, bf, af))
        Sy = asm.get_matrix(2, s)
        ctx.prove('symmetric', abs((Sy - Sy.T)).max() < 1e-12)
    L = al * asm.get_matrix(0, 0) + asm.get_matrix(0, 1) - asm.get_matrix(1, 0)
    ctx.prove('linear-in-the-kernel', abs(L).max() < 1e-10)
    ctx.prove_all_eq('linear-in-the-kernel', al * asm.get_vector(0, 0) + asm.get_vector(0, 1), asm.get_vector(1, 0))


# contracts of intermediate results, with stand-ins for the callees
MODULAR = {'local', 'shapes', 'accumulate', 'rectangular', 'interpolated', 'projected'}


def harnesses(tier):
    H = Harness
    out = [H(local, 'local-%s-%s' % (k, m), params=dict(kind=k, dmu=m), opts=OPTS) for k in ('constant', 'linear', 'bilinear') for m in ('dx', 'ds', 'dv')]
    out += [H(default_kernels, opts=OPTS)]
    out += [H(kernel, 'kernel-' + k, params=dict(kind=k), opts=OPTS) for k in ('nodal', 'combined', 'located')]
    out += [H(interpolated, 'interpolated-' + d, params=dict(dmu=d), opts=OPTS) for d in ('dx', 'ds')]
    out += [H(projected, 'projected-' + d, params=dict(dmu=d), opts=OPTS) for d in ('dx', 'ds')]
    out += [H(shapes, 'shapes-%dd-%s-%s' % (d, g, u), params=dict(dim=d, geometry=g, dmu=u), opts=OPTS, budget=300)
            for d, g in ((1, 'box'), (2, 'box'), (2, 'quad')) for u in (['dx', 'ds', 'dv'] if d == 2 else ['dx', 'dv'])]
    out += [H(accumulate, 'accumulate-%d-%s' % (d, c), params=dict(dim=d, case=c), opts=OPTS) for d in (0, 1, 2) for c in HNG if d or c == 'none']
    out += [H(rectangular)]
    out += [H(whole, 'whole-' + c, params=dict(case=c), opts=OPTS, budget=300) for c in PROBLEMS]
    out += [H(nonlocal_, 'whole-' + c, params=dict(which=c), opts=OPTS, budget=300) for c in ('IPForm', 'IIForm')]
    n = 40 if tier == 'quick' else 300
    out += [H(refusals), H(integrals, kind='bounded', opts=dict(symbolic=False), params=dict(seeds=1000), searches=n, budget=300, tol=1e-8, bound='%d seeded refinements of boxes and of a quadrilateral mesh file' % n)]
    return out
