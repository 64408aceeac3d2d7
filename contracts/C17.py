"""C17 point formats: convert_to_array and Vertex."""
from .common import *

EXPLANATION = 'All accepted formats and sizes 1-4; coordinates symbolic. The number of points per call is enumerated.'


def _pts(ctx, n, dim):
    return [[ctx.real('c%d_%d' % (i, j)) for j in range(dim)] for i in range(n)]


def _check(ctx, name, out, pts):
    ctx.prove('format-shape', isinstance(out, np.ndarray) and out.shape == (len(pts), len(pts[0])),
              '%s gave %s' % (name, getattr(out, 'shape', type(out))))
    for i, p in enumerate(pts):
        for j, c in enumerate(p):
            ctx.prove_eq('format-coordinates', out[i, j], c, '%s, point %d coordinate %d' % (name, i, j))


def single(ctx):
    m = M()
    ctx.fn('mesh.convert_to_array', 'mesh.Vertex.__init__', 'mesh.Vertex.coordinates', 'mesh.Vertex.dim')
    dim = ctx.choice('dim', [1, 2])
    p = _pts(ctx, 1, dim)
    t = tuple(p[0])
    forms = {'tuple': t, 'vertex': m.Vertex(t)}
    if dim == 1:
        forms['number'] = p[0][0]
        forms['vertex of a number'] = m.Vertex(p[0][0])
    f = ctx.choice('format', sorted(forms))
    given = ctx.choice('given', [None, dim])
    _check(ctx, f, m.convert_to_array(forms[f]) if given is None else m.convert_to_array(forms[f], given), p)
    out, one = m.convert_to_array(forms[f], dim=given, return_is_singleton=True)
    _check(ctx, f, out, p)
    ctx.prove('singleton-reported', one is True)
    v = m.Vertex(t)
    ctx.prove('vertex-dimension', v.dim() == dim)
    ctx.prove('vertex-coordinates', type(v.coordinates()) is tuple and len(v.coordinates()) == dim)
    for a, b in zip(v.coordinates(), t):
        ctx.prove_eq('vertex-coordinates', a, b)


def many(ctx):
    m = M()
    ctx.fn('mesh.convert_to_array')
    dim = ctx.choice('dim', [1, 2])
    n = ctx.choice('n', [1, 2, 3, 4])
    p = _pts(ctx, n, dim)
    # the last point may repeat an earlier one
    again = ctx.choice('repeated', list(range(n)))
    p[-1] = p[again]
    rep = lambda o: o[:-1] + [o[again]]
    forms = {
        'list of tuples': rep([tuple(q) for q in p]),
        'list of vertices': rep([m.Vertex(tuple(q)) for q in p]),
        'list of arrays': rep([np.array(q, dtype=object if ctx.sym else float) for q in p]),
        'array': ctx.arr(p)}
    if dim == 1:
        forms['vector'] = ctx.arr([q[0] for q in p])
        forms['list of numbers'] = [q[0] for q in p]
    elif n == 1:
        forms['vector'] = ctx.arr(p[0])
    f = ctx.choice('format', sorted(forms))
    given = dim if f == 'vector' and dim == 2 else ctx.choice('given', [None, dim])
    _check(ctx, f, m.convert_to_array(forms[f], dim=given), p)
    out, one = m.convert_to_array(forms[f], dim=given, return_is_singleton=True)
    _check(ctx, f, out, p)
    ctx.prove('collection-not-singleton', one is False)


def numbers_(ctx):
    """coordinates of every numeric type, many points, sorted and unsorted, with repetitions"""
    m = M()
    ctx.fn('mesh.convert_to_array')
    dim = ctx.choice('dim', [1, 2])
    T = ctx.choice('type', [float, int, np.float64, np.int64, np.float32, Fr])
    n = ctx.choice('n', [1, 2, 3, 7, 40])
    order = ctx.choice('order', ['up', 'down', 'equal', 'zigzag'])
    val = dict(up=lambda k: k - 3, down=lambda k: 5 - k, equal=lambda k: 2, zigzag=lambda k: (k * 7) % 5)[order]
    p = [[T(val(i)) if j == 0 else T(-2 * val(i + 1)) for j in range(dim)] for i in range(n)]
    forms = {'list of tuples': [tuple(q) for q in p], 'list of vertices': [m.Vertex(tuple(q)) for q in p]}
    if T is not Fr:
        forms['array'] = np.array(p, dtype=T)
        forms['fortran array'] = np.asfortranarray(np.array(p, dtype=T))
        forms['strided array'] = np.repeat(np.array(p, dtype=T), 2, axis=0)[::2]
        forms['list of arrays'] = [np.array(q, dtype=T) for q in p]
    if dim == 1:
        forms['list of numbers'] = [q[0] for q in p]
        if n == 1:
            forms['number'] = p[0][0]
            forms['tuple'] = tuple(p[0])
    for f in forms:
        given = {'dim': dim} if dim == 2 or f != 'number' else {}
        x = m.convert_to_array(forms[f], **given)
        ctx.prove('format-of-numbers', isinstance(x, np.ndarray) and x.shape == (n, dim) and all(float(x[i, j]) == float(p[i][j]) for i in range(n) for j in range(dim)),
                  (f, T.__name__, order))


def refused(ctx):
    m = M()
    ctx.fn('mesh.convert_to_array', 'mesh.Vertex.__init__')
    c = [ctx.real('c%d' % i) for i in range(12)]
    bad = {
        'number in 2d': lambda: m.convert_to_array(c[0], dim=2),
        'one-entry vector in 2d': lambda: m.convert_to_array(ctx.arr(c[:1]), dim=2),
        'three columns': lambda: m.convert_to_array(ctx.arr([c[:3], c[3:6]])),
        'three axes': lambda: m.convert_to_array(ctx.arr(c).reshape((2, 3, 2))),
        'mixed list': lambda: m.convert_to_array([(c[0], c[1]), m.Vertex((c[2], c[3]))]),
        'list of text': lambda: m.convert_to_array(['a', 'b']),
        'vertex in 3d': lambda: m.Vertex((c[0], c[1], c[2])),
        'vertex of a list': lambda: m.Vertex([c[0], c[1]]),
    }
    k = ctx.choice('case', sorted(bad))
    try:
        bad[k]()
        ok = False
    except Exception:
        ok = True
    ctx.prove('inadmissible-refused', ok, k)


def vertex_marks(ctx):
    """marks of a vertex behave as a set"""
    m = M()
    ctx.fn('mesh.Vertex.mark', 'mesh.Vertex.unmark', 'mesh.Vertex.is_marked')
    v, w = m.Vertex((0.0, 1.0)), m.Vertex((0.0, 1.0))
    ref = set()
    for i in range(3):
        op = ctx.choice('op%d' % i, ['mark', 'unmark'])
        f = ctx.choice('flag%d' % i, [None, 'a', 1])
        getattr(v, op)(f)
        if op == 'mark':
            ref.add(True if f is None else f)
        elif f is None:
            ref = set()
        else:
            ref.discard(f)
        ctx.prove('vertex-marked', v.is_marked() == bool(ref))
        for g in ('a', 1):
            ctx.prove('vertex-marked', v.is_marked(g) == (g in ref))
        ctx.prove('vertex-marks-separate', not w.is_marked())


def harnesses(tier):
    return [Harness(single), Harness(many, searches=60), Harness(numbers_, kind='bounded', searches=0, bound='1 to 40 points of six numeric types'), Harness(refused), Harness(vertex_marks)]
