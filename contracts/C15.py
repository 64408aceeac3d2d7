"""C15 distances and covariance kernels."""
import math
from .common import *

EXPLANATION = ('distance and every covariance function are proved against their formulas for all points, scales, positive definite '
               'anisotropies and boxes, one to three points per call; exp is axiomatised, the modified Bessel function and the gamma '
               'function are uninterpreted (their values for nu=1/2 are cross-checked numerically against the closed form).')
TRUSTED = ['scipy.special.kv, gamma: uninterpreted; kv is not finite at 0 exactly']
R2 = range(2)
OPTS = dict(exact_sqrt=True, prove_ms=40000, feas_ms=300)


def g():
    return mod('gmrf')


def pts(ctx, n, dim, name, lo=-2, hi=2):
    return [[ctx.real('%s%d_%d' % (name, i, k), lo=lo, hi=hi) for k in range(dim)] for i in range(n)]


def pos(ctx, name, hi=3):
    return ctx.real(name, lo=Fr(1, 10) if ctx.sym else .1, hi=hi)


def aniso(ctx, dim, kind):
    """None, a positive scale, or a positive definite matrix"""
    if kind == 'none':
        return None, (lambda v: sum(a * a for a in v))
    if dim == 1:
        m = pos(ctx, 'M')
        return m, (lambda v: m * v[0] * v[0])
    a, c = pos(ctx, 'Ma'), pos(ctx, 'Mc')
    b = 0.0 if kind == 'diag' else ctx.real('Mb', lo=-3, hi=3)
    if kind == 'full':
        ctx.assume(a * c - b * b > (Fr(1, 100) if ctx.sym else .01))
    return ctx.arr([[a, b], [b, c]]), (lambda v: a * v[0] * v[0] + 2 * b * v[0] * v[1] + c * v[1] * v[1])


def _box(ctx, dim):
    lo = [ctx.real('lo%d' % k, lo=-2, hi=0) for k in range(dim)]
    w = [pos(ctx, 'w%d' % k) for k in range(dim)]
    return lo, w, tuple(v for k in range(dim) for v in (lo[k], lo[k] + w[k]))


def dist(ctx, dim, kind, periodic):
    ctx.fn('gmrf.distance')
    n = ctx.choice('n', [1, 2]) if dim == 1 or not periodic else 1
    M, quad = aniso(ctx, dim, kind)
    kw = {}
    if periodic:
        lo, w, box = _box(ctx, dim)
        X = [[lo[k] + w[k] * ctx.real('x%d_%d' % (i, k), lo=0, hi=1) for k in range(dim)] for i in range(n)]
        Y = [[lo[k] + w[k] * ctx.real('y%d_%d' % (i, k), lo=0, hi=1) for k in range(dim)] for i in range(n)]
        kw = dict(periodic=True, box=box)
    else:
        X, Y = pts(ctx, n, dim, 'x'), pts(ctx, n, dim, 'y')
    x, y = ctx.arr(X), ctx.arr(Y)
    d = g().distance(x, y, M, **kw)
    ctx.prove('one-distance-per-row', np.shape(d) in ((n,), (n, 1)), np.shape(d))
    e = np.reshape(g().distance(y, x, M, **kw), -1)
    d = np.reshape(d, -1)
    for i in range(n):
        v = [X[i][k] - Y[i][k] for k in range(dim)]
        ctx.prove('non-negative', d[i] >= 0)
        if not periodic:
            ctx.prove_eq('weighted-euclidean', d[i] * d[i], quad(v))
        elif kind in ('none', 'diag') or dim == 1:
            sh = [[]]
            for k in range(dim):
                sh = [s + [v[k] + j * w[k]] for s in sh for j in (-1, 0, 1)]
            for s in sh:
                ctx.prove('no-image-is-closer', ctx.le(d[i] * d[i], quad(s)))
            hit = ctx.eq(d[i] * d[i], quad(sh[0]))
            for s in sh[1:]:
                hit = hit | ctx.eq(d[i] * d[i], quad(s))
            ctx.prove('attained-by-an-image', hit)
        else:
            # nearest image in each coordinate, then the weighted norm
            u = []
            for k in range(dim):
                if ctx.sym:
                    ctx.assume((2 * v[k] - w[k] > Fr(1, 1000)) | (2 * v[k] - w[k] < -Fr(1, 1000)))
                    ctx.assume((2 * v[k] + w[k] > Fr(1, 1000)) | (2 * v[k] + w[k] < -Fr(1, 1000)))
                u.append(v[k] - w[k] if 2 * v[k] > w[k] else (v[k] + w[k] if 2 * v[k] < -w[k] else v[k]))
            ctx.prove_eq('weighted-norm-of-the-nearest-image', d[i] * d[i], quad(u))
        ctx.prove_eq('symmetric', d[i] * d[i], e[i] * e[i])
    z = np.reshape(g().distance(x, x, M, **kw), -1)
    for i in range(n):
        ctx.prove_eq('zero-at-equal-points', z[i], 0)


def dist_definite(ctx, dim, kind):
    """only equal points have distance zero"""
    ctx.fn('gmrf.distance')
    M, quad = aniso(ctx, dim, kind)
    X, Y = pts(ctx, 1, dim, 'x'), pts(ctx, 1, dim, 'y')
    k = ctx.choice('k', list(range(dim)))
    s = Fr(1, 100) if ctx.sym else .01
    ctx.assume((X[0][k] - Y[0][k] > s) | (X[0][k] - Y[0][k] < -s))
    d = np.reshape(g().distance(ctx.arr(X), ctx.arr(Y), M), -1)[0]
    if dim == 2 and kind == 'full':
        v = [X[0][j] - Y[0][j] for j in R2]
        a, b, c = M[0, 0], M[0, 1], M[1, 1]
        # completing the square
        ctx.prove_eq('completed-square', a * d * d if k else c * d * d,
                     (a * v[0] + b * v[1]) ** 2 + (a * c - b * b) * v[1] ** 2 if k else
                     (c * v[1] + b * v[0]) ** 2 + (a * c - b * b) * v[0] ** 2)
        ctx.prove('positive', (a * c - b * b) * v[1 if k else 0] ** 2 > 0)
    ctx.prove('positive-for-different-points', d > 0)


def refuses(ctx):
    ctx.fn('gmrf.distance')
    case = ctx.choice('case', ['shape', 'box1', 'box2', 'indefinite', 'unsymmetric', 'negative'])
    z = lambda *s: np.zeros(s)
    try:
        if case == 'shape':
            g().distance(z(2, 1), z(3, 1))
        elif case == 'box1':
            g().distance(z(2, 1), z(2, 1), periodic=True)
        elif case == 'box2':
            g().distance(z(2, 2), z(2, 2), periodic=True)
        elif case == 'indefinite':
            g().distance(z(2, 2), z(2, 2), M=np.array([[1., 2.], [2., 1.]]))
        elif case == 'unsymmetric':
            g().distance(z(2, 2), z(2, 2), M=np.array([[2., 1.], [0., 2.]]))
        else:
            g().distance(z(2, 1), z(2, 1), M=-1.)
        ok = False
    except AssertionError:
        ok = True
    ctx.prove('inadmissible-input-refused', ok, case)


def _exp(ctx, v):
    return SymReal.lift(v).exp() if ctx.sym else math.exp(v)


KERNELS = ['constant', 'linear', 'gaussian', 'exponential', 'matern', 'rational']


def _special(ctx):
    gm = g()
    if not ctx.sym:
        return [], gm.kv, gm.gamma
    kv = lambda nu, z: _kvs(ctx, nu, z)
    gam = lambda nu: math.gamma(float(nu))
    return [(gm, 'kv', kv), (gm, 'gamma', gam)], kv, gam


def _kvs(ctx, nu, z):
    if isinstance(z, np.ndarray):
        out = np.empty(z.shape, dtype=object)
        for ix in np.ndindex(*z.shape):
            out[ix] = _kvs(ctx, nu, z[ix])
        return out
    if z == 0:
        return float('nan')       # 0**nu * inf
    return ctx.ufun('kv', [nu, z])


def _half_power(ctx, z, nu):
    """z**nu for nu a multiple of 1/2"""
    k = int(2 * nu)
    r = z ** (k // 2)
    if k % 2:
        r = r * (SymReal.lift(z).sqrt() if ctx.sym else z ** .5)
    return r


def kernel(ctx, name, dim, kind, at):
    """value of every covariance function at a given kind of pair of points"""
    gm = g()
    ctx.fn('gmrf.' + name, 'gmrf.distance', 'gmrf.Covariance.set_kernel')
    n = 1 if name == 'matern' else ctx.choice('n', [1, 2])
    M, quad = aniso(ctx, dim, kind) if name not in ('constant',) else (None, None)
    X = pts(ctx, n, dim, 'x')
    Y = [list(r) for r in X] if at == 'equal' else pts(ctx, n, dim, 'y')
    par = {}
    sgm = pos(ctx, 'sgm')
    l = pos(ctx, 'l')
    if name != 'rational':
        par['sgm'] = sgm
    if name in ('gaussian', 'exponential', 'matern'):
        par['l'] = l
    nu = None
    if name == 'matern':
        nu = par['nu'] = ctx.choice('nu', [.5, 1, 1.5, 2])
    if name == 'rational':
        a = par['a'] = ctx.choice('a', [1, 2, 3])
    if M is not None:
        par['M'] = M
    how = ctx.choice('how', ['direct', 'covariance'])
    patches, kv, gam = _special(ctx)
    x, y = ctx.arr(X), ctx.arr(Y)
    with patched(*patches):
        if how == 'direct':
            f = lambda p, q: getattr(gm, name)(p, q, **par)
        else:
            # the kernel a Covariance object builds for this name
            k = _named_kernel(name, par, dim)
            f = lambda p, q: k.eval((p, q))
        K = np.reshape(f(x, y), -1)
        T = np.reshape(f(y, x), -1)
        ctx.prove('one-value-per-row', K.shape == (n,), K.shape)
        for i in range(n):
            ctx.prove_eq('symmetric', K[i], T[i], name)
            v = [X[i][j] - Y[i][j] for j in range(dim)]
            if name == 'constant':
                want = sgm
            elif name == 'linear':
                if M is None:
                    want = sgm * sgm + sum(X[i][j] * Y[i][j] for j in range(dim))
                elif dim == 1:
                    want = sgm * sgm + X[i][0] * M * Y[i][0]
                else:
                    want = sgm * sgm + sum(X[i][j] * M[j, k2] * Y[i][k2] for j in R2 for k2 in R2)
            else:
                q = quad(v)
                if at == 'equal':
                    want = 1 if name == 'rational' else sgm * sgm
                elif name == 'gaussian':
                    want = sgm * sgm * _exp(ctx, -q / (2 * l * l))
                elif name == 'rational':
                    want = 1 / (1 + q) ** a
                else:
                    d = SymReal.lift(q).sqrt() if ctx.sym else q ** .5
                    if name == 'exponential':
                        want = sgm * sgm * _exp(ctx, -d / l)
                    else:
                        if ctx.sym:
                            ctx.assume(q > 0)
                        elif q < 1e-12:
                            continue
                        z = (SymReal.lift(Fr(2 * nu)).sqrt() if ctx.sym else (2 * nu) ** .5) * d / l
                        c = 2. ** (1 - nu) / gam(nu)
                        want = sgm * sgm * 2 ** (1 - nu) / gam(nu) * _half_power(ctx, z, nu) * kv(nu, z)
            if ctx.sym and isinstance(K[i], float):
                ctx.prove('finite', K[i] == K[i], name)
            ctx.prove_eq('documented-formula' if at != 'equal' else 'variance-at-zero-distance', K[i], want, name)


class _Stub(object):
    pass


def _named_kernel(name, par, dim):
    gm = g()
    c = gm.Covariance.__new__(gm.Covariance)
    dh, mesh = _Stub(), _Stub()
    dh.mesh = mesh
    mesh.dim = lambda: dim
    c.dofhandler = lambda: dh
    c.set_kernel(name, par, None)
    return c.kernel()


def periodic_kernel(ctx, name, dim):
    """periodic kernels see the points only through the wrapped distance"""
    gm = g()
    ctx.fn('gmrf.' + name)
    lo, w, box = _box(ctx, dim)
    X = [[lo[k] + w[k] * ctx.real('x%d' % k, lo=0, hi=1) for k in range(dim)]]
    Y = [[lo[k] + w[k] * ctx.real('y%d' % k, lo=0, hi=1) for k in range(dim)]]
    M, quad = aniso(ctx, dim, ctx.choice('aniso', ['none', 'diag']))
    sgm, l = pos(ctx, 'sgm'), pos(ctx, 'l')
    par = dict(M=M, periodic=True, box=box)
    d0 = np.reshape(gm.distance(ctx.arr(X), ctx.arr(Y), M, periodic=True, box=box), -1)[0]
    if name == 'gaussian':
        par.update(sgm=sgm, l=l)
        want = sgm * sgm * _exp(ctx, -d0 * d0 / (2 * l * l))
    elif name == 'exponential':
        par.update(sgm=sgm, l=l)
        want = sgm * sgm * _exp(ctx, -d0 / l)
    else:
        par.update(a=2)
        want = 1 / (1 + d0 * d0) ** 2
    K = np.reshape(getattr(gm, name)(ctx.arr(X), ctx.arr(Y), **par), -1)[0]
    ctx.prove_eq('periodic-kernel-of-the-wrapped-distance', K, want, name)


def matern_numeric(ctx, dim):
    """bounded: real Bessel functions"""
    gm = g()
    ctx.fn('gmrf.matern')
    n = ctx.choice('n', [1, 4])
    X, Y = pts(ctx, n, dim, 'x'), pts(ctx, n, dim, 'y')
    if ctx.choice('equal', [False, True]):
        Y[0] = list(X[0])
    M, quad = aniso(ctx, dim, ctx.choice('aniso', ['none', 'diag', 'full']))
    sgm, l = pos(ctx, 'sgm'), pos(ctx, 'l')
    nu = ctx.choice('nu', [.5, 1.5, 2.5, .7])
    per = ctx.choice('periodic', [False, True])
    kw = dict(periodic=True, box=(-2., 2.) * dim) if per else {}
    d = np.reshape(gm.distance(np.array(X), np.array(Y), M, **kw), -1)
    K = np.reshape(gm.matern(np.array(X), np.array(Y), sgm, nu, l, M=M, **kw), -1)
    z = np.sqrt(2 * nu) * d / l
    for i in range(n):
        if d[i] == 0:
            want = sgm ** 2
        elif nu == .5:
            want = sgm ** 2 * math.exp(-z[i])
        elif nu == 1.5:
            want = sgm ** 2 * (1 + z[i]) * math.exp(-z[i])
        elif nu == 2.5:
            want = sgm ** 2 * (1 + z[i] + z[i] ** 2 / 3) * math.exp(-z[i])
        else:
            ctx.prove('between-zero-and-variance', 0 < K[i] <= sgm ** 2 * (1 + 1e-9))
            continue
        ctx.prove_eq('closed-form', K[i], want, (nu, d[i]))


def covariance_matrix(ctx, disc):
    """bounded: the discretised covariance operator on small meshes"""
    gm, m, fem = g(), M(), mod('fem')
    ctx.fn('gmrf.Covariance.assemble')
    dim = ctx.choice('dim', [1, 2])
    mesh = m.Mesh1D(resolution=(ctx.choice('nx', [1, 3]),)) if dim == 1 else m.QuadMesh(resolution=(ctx.choice('nx', [1, 2]), 1))
    dh = fem.DofHandler(mesh, fem.QuadFE(dim, ctx.choice('element', ['Q1', 'Q2'])))
    dh.distribute_dofs()
    dh.set_dof_vertices()
    name, par = ctx.choice('kernel', [('gaussian', dict(sgm=1.5, l=.7)), ('exponential', dict(sgm=2, l=.5)), ('rational', dict(a=2))])
    got = {}
    base = mod('spd').EigenDecomposition
    with patched((base, '__init__', lambda self, C, Mm=None, *a, **k: got.update(C=np.array(C), M=Mm))):
        gm.Covariance(dh, discretization=disc, name=name, parameters=par)
    x = dh.get_dof_vertices()
    n = len(x)
    fn = {'gaussian': lambda d: 1.5 ** 2 * math.exp(-d * d / (2 * .49)), 'exponential': lambda d: 4 * math.exp(-d / .5),
          'rational': lambda d: (1 + d * d) ** -2.}[name]
    K = np.array([[fn(float(np.linalg.norm(x[i] - x[j]))) for j in range(n)] for i in range(n)])
    asm = mod('assembler')
    u = fem.Basis(dh, 'u')
    a = asm.Assembler([[asm.Form(trial=u, test=u)]], mesh)
    a.assemble()
    Mm = a.get_matrix().toarray()
    C = got['C']
    if disc == 'interpolation':
        ctx.prove_all_eq('mass-kernel-mass', C, Mm.dot(K).dot(Mm))
        ctx.prove_all_eq('mass-matrix', np.array(got['M']), Mm)
    if disc != 'collocation':
        ctx.prove_all_eq('symmetric', C, C.T)


# callees enter by contract: a failure there is an undischarged obligation, not yet a failing input
MODULAR = {'covariance_matrix'}


def harnesses(tier):
    H = Harness
    out = []
    for dim in (1, 2):
        for kind in (['none', 'full'] if dim == 1 else ['none', 'diag', 'full']):
            for per in (False, True):
                out.append(H(dist, 'distance-%dd-%s-%s' % (dim, kind, 'periodic' if per else 'free'), opts=OPTS,
                             params=dict(dim=dim, kind=kind, periodic=per), budget=300))
            out.append(H(dist_definite, 'definite-%dd-%s' % (dim, kind), opts=OPTS, params=dict(dim=dim, kind=kind)))
            for name in KERNELS:
                for at in ('equal', 'apart'):
                    if name == 'constant' and kind != 'none':
                        continue
                    out.append(H(kernel, '%s-%dd-%s-%s' % (name, dim, kind, at), opts=OPTS, budget=300,
                                 params=dict(name=name, dim=dim, kind=kind, at=at)))
        out += [H(periodic_kernel, 'periodic-%s-%dd' % (k, dim), opts=OPTS, params=dict(name=k, dim=dim), budget=300)
                for k in ('gaussian', 'exponential', 'rational')]
        out.append(H(matern_numeric, 'matern_numeric-%dd' % dim, kind='bounded', params=dict(dim=dim), opts=dict(symbolic=False),
                     searches=150, bound='seeded points, nu in {0.5, 0.7, 1.5, 2.5}'))
    out += [H(covariance_matrix, 'covariance-' + d, kind='bounded', params=dict(disc=d), opts=dict(symbolic=False), searches=15,
              bound='one to three cells, three kernels') for d in ('interpolation', 'galerkin')]
    out += [H(refuses)]
    return out
