"""P16: subdivision of segments and chains, P17: line-line intersection."""
from vc.registry import contract
SE = 'blmath.geometry.segment.'
PO = 'blmath.geometry.primitives.polyline.Polyline'

# ------------------------------------------------------------------ P16
@contract('P16', 'partition_segment', SE + 'partition_segment')
def partition_segment(c):
    """n equally spaced points from the first end to the last, or stopping one step short"""
    d = c.choice('d', [1, 2, 3, 4])
    a, b = c.vec('a', d), c.vec('b', d)
    n = c.int('n', lo=2)
    endpoint = c.choice('endpoint', [None, True, False])
    kw = {} if endpoint is None else {'endpoint': endpoint}
    q = c.value('partition_segment', SE + 'partition_segment', a, b, n, **kw)
    m = n if endpoint is False else n - 1          # number of steps
    c.prove('the requested number of points', c.shape_is(q, (n, d)))
    c.prove('the points are equally spaced from the first end', c.forall(n, lambda i: c.and_(*[c.eq(q[i][j] * m, a[j] * (m - i) + b[j] * i, deg=2) for j in range(d)])))
    c.prove('the first point is the first end', c.eq(q[0], a))
    if endpoint is not False: c.prove('the last point is the last end', c.eq(q[n - 1], b))

@contract('P16', 'partition_segment_refusals', [SE + 'partition_segment', SE + 'partition_segment_old'])
def partition_segment_refusals(c):
    """counts that are not integers or too small"""
    a, b = c.vec('a', 3), c.vec('b', 3)
    what = c.choice('what', ['float', 'small', 'text', 'none', 'half'])
    n = {'float': lambda: c.real('x'), 'small': lambda: -c.int('n', lo=0) + 1, 'text': lambda: '5', 'none': lambda: None, 'half': lambda: c.int('n', lo=0) + c.q('1/2')}[what]()
    f = c.choice('f', ['partition_segment', 'partition_segment_old'])
    c.raises('a count that is not an integer above one', SE + f, a, b, n)

@contract('P16', 'partition_segment_old', SE + 'partition_segment_old')
def partition_segment_old(c):
    """the deprecated form: only the interior points"""
    a, b = c.vec('a', 3), c.vec('b', 3)
    n = c.int('n', lo=2)
    c.assume(c.or_(*[c.ne(a[j], b[j]) for j in range(3)]))
    c.well(lambda: c.norm(a - b) > 1e-3 * c.u)
    c.assume(c.gt(c.norm2(a - b), 0, deg=2))
    q = c.value('partition_segment_old', SE + 'partition_segment_old', a, b, n)
    c.prove('one point less than parts', c.shape_is(q, (n - 1, 3)))
    c.prove('the points are equally spaced inside the segment', c.forall(n - 1, lambda i: c.and_(*[c.eq(q[i][j] * n, a[j] * (n - 1 - i) + b[j] * (i + 1), deg=2) for j in range(3)])))

@contract('P16', 'partition', SE + 'partition')
def partition(c):
    """the requested number of equal steps on every segment, every original point kept, repeated points included"""
    d = c.choice('d', [2, 3])
    n = c.int('n', lo=2)
    v = c.pts('v', n, d)
    s = c.choice('s', [1, 2, 3, 5] + ([] if c.symbolic else [4, 7, 10]))
    kw = {'partition_size': s} if s != 5 or c.boolean('explicit') else {}
    q = c.value('partition', SE + 'partition', v, **kw)
    c.prove('the points and the new ones', c.shape_is(q, ((n - 1) * s + 1, d)))
    for k in range(s):
        c.prove('the original points and equal steps between them', c.forall(n - 1, lambda i: c.and_(*[c.eq(q[i * s + k][j] * s, v[i][j] * (s - k) + v[i + 1][j] * k, deg=1) for j in range(d)])))
    c.prove('the last point is kept', c.eq(q[(n - 1) * s], v[n - 1]))

@contract('P16', 'by_length', [PO + '.partition_by_length', SE + 'partition_segment'], samples=200, concrete_only='the number of pieces of every segment is a rounded-up quotient of square roots and the result a chain of chains: bounded run-time check')
def by_length(c):
    """keeps every vertex at the reported index, the fewest equal pieces not longer than the limit"""
    closed = c.boolean('closed')
    n = c.int('n', lo=1)
    v = c.pts('v', n)
    # limits around typical segment lengths
    L = c.real('L', lo=0.05, hi=6) * c.u
    c.assume(L > 0)
    p = c.value('Polyline', PO, v, closed=closed)
    v0, m = v.copy(), (n if closed else n - 1)
    lens = [c.norm(v0[(i + 1) % n] - v0[i]) for i in range(m)]
    for l in lens: c.well(lambda: abs(l / L - round(l / L)) > 1e-6 or l == 0)
    total = sum(lens)
    ret = c.boolean('indices')
    r = c.value('partition_by_length', p.partition_by_length, L, ret_indices=ret, mutates=(p,)) if ret else c.value('partition_by_length', p.partition_by_length, L, mutates=(p,))
    pieces = [max(1, int(c.np.ceil(l / L))) for l in lens]
    if ret: idx = [int(i) for i in r]
    else:
        c.prove('the chain itself is returned', r is p)
        idx = [sum(pieces[:i]) for i in range(n)]
    c.prove('the number of vertices', c.shape_is(p.v, (sum(pieces) + (0 if closed else 1), 3)))
    c.prove('the indices of the original vertices', idx == [sum(pieces[:i]) for i in range(n)])
    c.prove('every original vertex is kept at its index', c.and_(*[c.eq(p.v[idx[i]], v0[i]) for i in range(n)]))
    c.prove('the pieces are equal and no longer than the limit', c.and_(*[c.eq(p.v[idx[i] + k] * pieces[i], v0[i] * (pieces[i] - k) + v0[(i + 1) % n] * k, deg=1) for i in range(m) for k in range(pieces[i])]))
    c.prove('closedness is kept', bool(p.closed) == closed)
    c.prove('the edges match', c.len(p.e) == sum(pieces))
    c.prove('the total length is kept', c.eq(p.total_length, total))

@contract('P16', 'by_length_few', [PO + '.partition_by_length', SE + 'partition_segment'], samples=60, bounded='open chains of at most 3 vertices and closed ones of 2, any lengths and any limit', budget=300)
def by_length_few(c):
    """the same for chains of few vertices, any number of pieces"""
    closed = c.boolean('closed')
    n = c.choice('n', [1, 2] if c.symbolic and closed else [1, 2, 3])
    v = c.pts('v', n)
    L = c.real('L', lo=0.05, hi=6) * c.u if not c.symbolic else c.real('L')
    c.assume(L > 0)
    p = c.value('Polyline', PO, v, closed=closed)
    v0, m = v.copy(), (n if closed else n - 1)
    lens = [c.norm(v0[(i + 1) % n] - v0[i]) for i in range(m)]
    for l in lens: c.well(lambda: abs(l / L - round(l / L)) > 1e-6 or l == 0)
    r = c.value('partition_by_length', p.partition_by_length, L, ret_indices=True, mutates=(p,))
    least = [-c.floor(-(l / L)) for l in lens]
    pieces = [c.ite(c.le(k, 1), 1, k) for k in least]
    at = lambda i: sum(pieces[:i])
    c.prove('the number of vertices', c.shape_is(p.v, (at(m) + (0 if closed else 1), 3)))
    c.prove('the indices of the original vertices', c.and_(c.shape_is(r, (n,)), *[c.eq(r[i], at(i)) for i in range(n)]))
    c.prove('every original vertex is kept at its index', c.and_(*[c.eq(p.v[at(i)], v0[i]) for i in range(n)]))
    for i in range(m):
        c.prove('the pieces are equal', c.forall(pieces[i], lambda k: c.and_(*[c.eq(p.v[at(i) + k][j] * pieces[i], v0[i][j] * (pieces[i] - k) + v0[(i + 1) % n][j] * k, deg=1) for j in range(3)])))
        c.prove('no longer than the limit', c.le(lens[i], pieces[i] * L))
    c.prove('closedness is kept', bool(p.closed) == closed)

# ------------------------------------------------------------------ P17
def exact(c, *arrays):
    """floating point is exact: small whole numbers"""
    if c.symbolic: return True
    ok = lambda a: bool((c.np.asarray(a, dtype=float) % 1 == 0).all() and (c.np.abs(c.np.asarray(a, dtype=float)) < 1e6).all())
    return all(ok(a) for a in arrays)

@contract('P17', 'line_intersect', SE + 'line_intersect')
def line_intersect(c):
    """the common point of two lines in the plane; NaN exactly when they are parallel"""
    p0, q0, p1, q1 = (c.vec(k, 2, ints=True) for k in ('p0', 'q0', 'p1', 'q1'))
    d0, d1 = q0 - p0, q1 - p1
    det = d0[0] * d1[1] - d0[1] * d1[0]
    ex = exact(c, p0, q0, p1, q1)
    c.well(lambda: det == 0 if ex and det == 0 else abs(det) > 1e-3 * c.norm(d0) * c.norm(d1) and abs(det) > 0)
    x = c.value('line_intersect', SE + 'line_intersect', p0, q0, p1, q1)
    c.prove('a point of the plane', c.shape_is(x, (2,)))
    parallel = c.eq(det, 0) if c.symbolic else bool(det == 0)
    nan = lambda j: c.is_nan(x[j])
    if c.symbolic or ex: c.prove('not a number exactly for parallel lines', c.and_(c.iff(nan(0), parallel), c.iff(nan(1), parallel)))
    else: c.prove('a number for lines that are not parallel', c.not_(c.or_(nan(0), nan(1))))
    on = lambda p, d: c.eq((x[0] - p[0]) * d[1], (x[1] - p[1]) * d[0], deg=2)
    c.prove('the point lies on both lines', c.implies(c.not_(parallel), lambda: c.and_(on(p0, d0), on(p1, d1))))

@contract('P17', 'line_intersect3', SE + 'line_intersect3', samples=150)
def line_intersect3(c):
    """the common point of two distinct lines that meet, wherever their defining points are"""
    x, d, e = c.vec('x', 3), c.vec('d', 3), c.vec('e', 3)
    s0, t0, s1, t1 = (c.choice(k, [0, 1, -1, 2, -3]) if not c.symbolic else c.real(k) for k in ('s0', 't0', 's1', 't1'))
    n = c.cross(d, e)
    c.assume(c.ne(s0, t0)); c.assume(c.ne(s1, t1))
    c.assume(c.or_(*[c.ne(n[j], 0, deg=2) for j in range(3)]))
    c.assume(c.gt(c.norm2(n), 0, deg=4))
    c.well(lambda: c.norm2(n) > 1e-4 * c.norm2(d) * c.norm2(e))
    p0, q0, p1, q1 = x + s0 * d, x + t0 * d, x + s1 * e, x + t1 * e
    r = c.value('line_intersect3', SE + 'line_intersect3', p0, q0, p1, q1)
    c.prove('the lines meet', r is not None)
    if r is not None: c.prove('the point common to both', c.eq(r, x))

@contract('P17', 'line_intersect3_none', SE + 'line_intersect3')
def line_intersect3_none(c):
    """parallel and collinear lines without a shared defining point"""
    p0, d, g = c.vec('p0', 3), c.vec('d', 3), c.vec('g', 3)
    if not c.symbolic: p0, d, g = c.np.round(p0 / c.u), c.np.round(d / c.u), c.np.round(g / c.u)
    s, t = (c.choice(k, [0, 1, -1, 2, -3, 4]) for k in ('s', 't'))
    c.assume(s != 0)
    c.assume(c.or_(*[c.ne(d[j], 0) for j in range(3)]))
    q0 = p0 + d
    p1 = p0 + (t * d if c.boolean('collinear') else g)
    q1 = p1 + s * d
    ne = lambda a, b: c.or_(*[c.ne(a[j], b[j]) for j in range(3)])
    for a in (p0, q0):
        for b in (p1, q1): c.assume(ne(a, b))
    r = c.value('line_intersect3', SE + 'line_intersect3', p0, q0, p1, q1)
    c.prove('no intersection is reported', r is None)
