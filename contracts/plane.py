"""P11: plane point queries, P12: plane construction, P13: line and segment intersections with a plane."""
from vc.registry import contract
P = 'blmath.geometry.primitives.plane.Plane'

def plane(c, name='', **kw):
    """a plane through an arbitrary point with an arbitrary unit normal, made by the real constructor"""
    r = c.vec('r' + name, 3, **kw)
    n = c.unit('n' + name, 3)
    c.assume(c.or_(*[c.gt(c.abs(n[k]), c.q('1/100000000')) for k in range(3)]))   # implied by the length being one
    p = c.value('Plane', P, r, n)
    return p, r, n

def exact_axes(c, n, *arrays):
    """floating point is exact: an axis-parallel normal and small multiples of 1/4"""
    if c.symbolic: return False
    ok = lambda a: bool(((c.np.asarray(a, dtype=float) * 4) % 1 == 0).all() and (c.np.abs(c.np.asarray(a, dtype=float)) < 1e6).all())
    return sorted(abs(float(x)) for x in n) == [0, 0, 1] and all(ok(a) for a in arrays)

@contract('P11', 'signed_distance', [P + '.signed_distance', P + '.distance', P + '.sign', P + '.equation', P + '.__init__'])
def signed_distance(c):
    """distance, equation and side indicator of every point of every array"""
    p, r, n = plane(c)
    N = c.int('N', lo=0)
    x = c.pts('x', N, ints=True)
    c.exact_if(lambda: exact_axes(c, n, x, r))
    d = c.value('signed_distance', p.signed_distance, x)
    c.prove('one signed distance per point', c.shape_is(d, (N,)))
    e = c.value('equation', lambda: p.equation)
    c.prove('the equation has four coefficients', c.shape_is(e, (4,)))
    a = c.value('distance', p.distance, x)
    s = c.value('sign', p.sign, x)
    h = lambda i: c.dot(n, x[i] - r)
    c.prove('the signed distance is the normal times the vector from the reference point', c.forall(N, lambda i: c.eq(d[i], h(i))))
    c.prove('the distance is its absolute value', c.forall(N, lambda i: c.eq(a[i], c.abs(h(i)))))
    c.prove('the equation evaluates to it', c.forall(N, lambda i: c.eq(e[0] * x[i][0] + e[1] * x[i][1] + e[2] * x[i][2] + e[3], h(i))))
    c.prove('the side is its sign', c.and_(c.shape_is(s, (N,)), c.forall(N, lambda i: c.and_(c.implies(c.gt(h(i), 0), lambda: c.eq(s[i], 1)), c.implies(c.lt(h(i), 0), lambda: c.eq(s[i], -1)), c.implies(c.and_(c.symbolic or c.exact, c.eq(h(i), 0)), lambda: c.eq(s[i], 0))))))

@contract('P11', 'signed_distance_single', [P + '.signed_distance', P + '.distance', P + '.sign', P + '.reference_point', P + '.normal'])
def signed_distance_single(c):
    """the same for a single point"""
    p, r, n = plane(c)
    x = c.vec('x', 3)
    c.exact_if(lambda: exact_axes(c, n, x, r))
    h = c.dot(n, x - r)
    c.prove('the signed distance of a point', c.eq(c.value('signed_distance', p.signed_distance, x), h))
    c.prove('the distance of a point', c.eq(c.value('distance', p.distance, x), c.abs(h)))
    s = c.value('sign', p.sign, x)
    c.prove('the side of a point', c.and_(c.implies(c.gt(h, 0), lambda: c.eq(s, 1)), c.implies(c.lt(h, 0), lambda: c.eq(s, -1)), c.implies(c.eq(h, 0), lambda: c.eq(s, 0))))
    c.prove('the reference point is the given point', c.eq(c.value('reference_point', lambda: p.reference_point), r))
    c.prove('the normal is the given unit normal', c.eq(c.value('normal', lambda: p.normal), n))

@contract('P11', 'points_in_front', [P + '.points_in_front', P + '.sign', P + '.signed_distance'])
def points_in_front(c):
    """exactly the points with nonnegative (nonpositive) signed distance, in order"""
    p, r, n = plane(c)
    N = c.int('N', lo=0)
    x = c.pts('x', N)
    c.exact_if(lambda: exact_axes(c, n, x, r))
    inv = c.choice('inverted', [None, False, True])
    kw = {} if inv is None else {'inverted': inv}
    idx = c.value('points_in_front as indices', p.points_in_front, x, ret_indices=True, **kw)
    pts = c.value('points_in_front', p.points_in_front, x, **kw)
    h = lambda i: c.dot(n, x[i] - r)
    if not c.symbolic and not c.exact: c.well(lambda: c.forall(N, lambda i: abs(h(i)) > 1e-6 * c.u))
    c.prove('the indices of the points on the asked side or on the plane, in order', c.is_selection(idx, N, lambda i: c.le(h(i), 0) if inv else c.ge(h(i), 0)))
    m = c.len(idx)
    c.prove('the points are those at the indices', c.and_(c.shape_is(pts, (m, 3)), c.forall(m, lambda k: c.eq(pts[k], x[idx[k]]))))

@contract('P11', 'project_point', [P + '.project_point', P + '.signed_distance'])
def project_point(c):
    """a point on the plane displaced along the normal only"""
    p, r, n = plane(c)
    x = c.vec('x', 3, ints=True)
    q = c.value('project_point', p.project_point, x)
    c.prove('a point', c.shape_is(q, (3,)))
    c.prove('lies on the plane', c.eq(c.dot(n, q - r), 0))
    c.prove('is displaced along the normal only', c.and_(*[c.eq((q - x)[k], -c.dot(n, x - r) * n[k]) for k in range(3)]))
    c.prove('points of the plane stay', c.eq(c.value('project_point again', p.project_point, q), q))

@contract('P11', 'canonical_point', [P + '.canonical_point'])
def canonical_point(c):
    """on the plane, along the normal through the origin"""
    p, r, n = plane(c)
    q = c.value('canonical_point', lambda: p.canonical_point)
    c.prove('lies on the plane', c.eq(c.dot(n, q - r), 0))
    c.prove('lies along the normal through the origin', c.eq(c.cross(q, n), c.np.zeros(3)))

@contract('P11', 'flipped', [P + '.flipped', P + '.signed_distance'])
def flipped(c):
    """the same points, every signed distance negated"""
    p, r, n = plane(c)
    N = c.int('N', lo=0)
    x = c.pts('x', N)
    f = c.value('flipped', p.flipped)
    c.prove('the normal is negated', c.eq(c.value('normal', lambda: f.normal), -n))
    c.prove('the reference point is kept', c.eq(c.value('reference_point', lambda: f.reference_point), r))
    a, b = c.value('signed_distance', p.signed_distance, x), c.value('signed_distance of the flipped plane', f.signed_distance, x)
    c.prove('every signed distance is negated', c.and_(c.shape_is(b, (N,)), c.forall(N, lambda i: c.eq(b[i], -a[i]))))
    c.prove('the plane itself is unchanged', c.and_(c.eq(p.normal, n), c.eq(p.reference_point, r)))

# ------------------------------------------------------------------ P12
def nonzero(c, m):
    """not the zero vector to the library's tolerance"""
    c.assume(c.or_(*[c.gt(c.abs(m[k]), c.q('1/100000000')) for k in range(3)]))
    c.well(lambda: c.gt(c.norm2(m), 1e-4 * c.u ** 4))
    c.assume(c.gt(c.norm2(m), 0, deg=4))            # implied by the above

@contract('P12', 'constructor', P + '.__init__')
def constructor(c):
    """any nonzero normal is scaled to length one; the zero normal is refused"""
    r, m = c.vec('r', 3), c.vec('m', 3, ints=True)
    if c.boolean('zero'):
        c.raises('Plane with a zero normal', P, r, c.np.zeros(3))
        return
    if c.boolean('lists'): r2, m2 = [r[0], r[1], r[2]], c.np.array([m[0], m[1], m[2]])
    else: r2, m2 = r, m
    nonzero(c, m)
    p = c.value('Plane', P, r2, m2)
    n = c.value('normal', lambda: p.normal)
    c.prove('the normal has length one', c.and_(c.shape_is(n, (3,)), c.eq(c.norm2(n), 1)))
    c.prove('the normal has the given direction', c.eq(n * c.norm(m), m))
    c.prove('the reference point is the given point', c.eq(c.value('reference_point', lambda: p.reference_point), r))

def contains(c, p, x):
    return c.eq(c.dot(p.normal, x - p.reference_point), 0)

@contract('P12', 'from_points', [P + '.from_points', P + '.__init__'])
def from_points(c):
    """contains the three points, counterclockwise seen from its front"""
    a, b, d = c.vec('a', 3, ints=True), c.vec('b', 3), c.vec('d', 3)
    m = c.cross(b - a, d - a)
    nonzero(c, m)
    if c.boolean('lists'): p = c.value('from_points of lists', P + '.from_points', [a[0], a[1], a[2]], (b[0], b[1], b[2]), d)
    else: p = c.value('from_points', P + '.from_points', a, b, d)
    c.prove('the normal has length one', c.eq(c.norm2(p.normal), 1))
    c.prove('the plane contains the three points', c.and_(contains(c, p, a), contains(c, p, b), contains(c, p, d)))
    c.prove('the points appear counterclockwise from the side of the normal', c.eq(p.normal * c.norm(m), m, deg=2))

@contract('P12', 'from_points_refusals', [P + '.from_points', P + '.from_points_and_vector', P + '.__init__'])
def from_points_refusals(c):
    """collinear points, and a vector along the points, are refused"""
    a = c.vec('a', 3)
    what = c.choice('what', ['same', 'same all', 'collinear', 'vector', 'zero vector', 'same points'])
    u = c.vec('u', 3)
    s = c.choice('s', [2, -1, 0, 3])
    if not c.symbolic: a, u = c.np.round(a), c.np.round(u)
    if what == 'same': c.raises('from_points with two equal points', P + '.from_points', a, a + u, a + u)
    if what == 'same all': c.raises('from_points with equal points', P + '.from_points', a, a, a)
    if what == 'collinear': c.raises('from_points with collinear points', P + '.from_points', a, a + u, a + s * u)
    if what == 'vector': c.raises('from_points_and_vector with a parallel vector', P + '.from_points_and_vector', a, a + u, s * u)
    if what == 'zero vector': c.raises('from_points_and_vector with a zero vector', P + '.from_points_and_vector', a, a + u, c.np.zeros(3))
    if what == 'same points': c.raises('from_points_and_vector with equal points', P + '.from_points_and_vector', a, a, u)

@contract('P12', 'from_points_and_vector', [P + '.from_points_and_vector', P + '.__init__'])
def from_points_and_vector(c):
    """contains both points and is parallel to the vector"""
    a, b, v = c.vec('a', 3), c.vec('b', 3), c.vec('v', 3)
    m = c.cross(b - a, v)
    nonzero(c, m)
    p = c.value('from_points_and_vector', P + '.from_points_and_vector', a, b, v)
    c.prove('the normal has length one', c.eq(c.norm2(p.normal), 1))
    c.prove('the plane contains both points', c.and_(contains(c, p, a), contains(c, p, b)))
    c.prove('the plane is parallel to the vector', c.eq(c.dot(p.normal, v), 0))
    c.prove('its reference point is the first point', c.eq(p.reference_point, a))

@contract('P12', 'fit_from_points', [P + '.fit_from_points', P + '.__init__'], samples=200)
def fit_from_points(c):
    """passes through the centroid; no direction has less variance than the normal"""
    N = c.int('N', lo=3)
    x = c.pts('x', N)
    if not c.symbolic:
        np = c.np
        kind = c.rng.choice(['any', 'any', 'flat', 'line'])
        d = np.array(c.unit('d'))
        if kind == 'flat': x = x - np.outer(x.dot(d), d)
        if kind == 'line': x = np.outer(x.dot(d), d) + c.u
        if c.rng.random() < .3: x = x + 5 * c.u * d
        c.inputs['x'] = x.tolist()
        c._scale(x.astype(float))
    p = c.value('fit_from_points', P + '.fit_from_points', x)
    n = p.normal
    c.prove('the normal has length one', c.and_(c.shape_is(n, (3,)), c.eq(c.norm2(n), 1, deg=0)))
    m = [c.sum(N, lambda i: x[i][k]) / N for k in range(3)]
    c.prove('the plane passes through the centroid', c.and_(*[c.eq(p.reference_point[k], m[k]) for k in range(3)]))
    u = c.unit('u')
    variance = lambda d: c.sum(N, lambda i: sum(d[k] * (x[i][k] - m[k]) for k in range(3)) * sum(d[k] * (x[i][k] - m[k]) for k in range(3)))
    c.tolerance(1e3)
    if c.symbolic and c.eigen():
        w, v, s = c.eigen()
        C = c.np.cov(x.T)
        form = lambda d: sum(d[a] * C[a, b] * d[b] for a in range(3) for b in range(3))
        dot = lambda a, b: sum(a[k] * b[k] for k in range(3))
        for d, name in ((n, 'normal'), (u, 'direction')):
            c.lemma('variance along the %s' % name, c.eq(variance(d), (N - 1) * form(d)))
            c.lemma('spectral form of the variance along the %s' % name, c.eq(form(d), sum(w[j] * dot(d, v[j]) * dot(d, v[j]) for j in range(3))))
        c.lemma('length of the cross product of two eigenvectors', c.eq(c.norm(c.cross(v[1], v[2])), 1))
        for k in range(3): c.lemma('the normal is the eigenvector of least eigenvalue (%d)' % k, c.or_(c.eq(n[k], s * v[0][k]), c.eq(n[k], -s * v[0][k])))
        c.lemma('orientation', c.or_(*[c.and_(*[c.eq(n[k], z * v[0][k]) for k in range(3)]) for z in (s, -s)]))
        for j in range(3): c.lemma('the normal against eigenvector %d' % j, c.eq(dot(n, v[j]) * dot(n, v[j]), 0 if j else 1))
        for j in (1, 2): c.lemma('the normal is orthogonal to eigenvector %d' % j, c.eq(dot(n, v[j]), 0))
        c.theorem('only one component', lambda a, b, g, x, y, z: (c.and_(c.eq(x * x, 1), c.eq(y, 0), c.eq(z, 0)), c.eq(a * x * x + b * y * y + g * z * z, a)), *(w + [dot(n, v[j]) for j in range(3)]))
        c.lemma('variance along the normal is the least eigenvalue', c.eq(form(n), w[0]))
        c.lemma('components of the direction', c.eq(sum(dot(u, v[j]) * dot(u, v[j]) for j in range(3)), 1))
        c.theorem('least eigenvalue', lambda a, b, g, x, y, z: (c.eq(x * x + y * y + z * z, 1), c.implies(c.and_(a <= b, b <= g), a * x * x + b * y * y + g * z * z >= a)), *(w + [dot(u, v[j]) for j in range(3)]))
        c.lemma('variance along the direction is no less', c.ge(form(u), w[0]))
        c.theorem('scaled', lambda k, p, q, a, b: (c.and_(k >= 0, p <= q, c.eq(a, k * p), c.eq(b, k * q)), a <= b), N - 1, form(n), form(u), variance(n), variance(u))
    c.prove('no direction has less variance than the normal', c.le(variance(n), variance(u), deg=2))

# ------------------------------------------------------------------ P13
def offplane(c, x, lo=1e-3):
    c.well(lambda: abs(x) > lo * c.u)

@contract('P13', 'line', [P + '.line_xsection'])
def line(c):
    """the point on both, exactly when the line is not parallel to the plane"""
    p, r, n = plane(c)
    a, u = c.vec('a', 3), c.vec('u', 3)
    c.exact_if(lambda: exact_axes(c, n, a, u, r))
    if not c.symbolic and not c.exact: offplane(c, c.dot(n, u))
    q = c.value('line_xsection', p.line_xsection, a, u)
    c.prove('reported exactly when the line is not parallel to the plane', c.iff(q is not None, c.ne(c.dot(n, u), 0)))
    if q is not None:
        if not c.symbolic: c.exact = False
        c.prove('a point', c.shape_is(q, (3,)))
        c.prove('lies on the plane', c.eq(c.dot(n, q - r), 0))
        c.prove('lies on the line', c.eq(c.cross(q - a, u), c.np.zeros(3), deg=2))

@contract('P13', 'segment', [P + '.line_segment_xsection', P + '._line_xsection'], budget=120)
def segment(c):
    """reported exactly when not parallel and the ends are not strictly on one side; lies on the segment"""
    p, r, n = plane(c)
    a, b = c.vec('a', 3), c.vec('b', 3)
    c.exact_if(lambda: exact_axes(c, n, a, b, r) and False)
    ha, hb = c.dot(n, a - r), c.dot(n, b - r)
    if not c.symbolic:
        if exact_axes(c, n, a, b, r): c.well(lambda: ha == 0 or hb == 0 or ha == hb or abs(ha * hb) > 0)
        else: c.well(lambda: abs(ha) > 1e-3 * c.u and abs(hb) > 1e-3 * c.u and abs(ha - hb) > 1e-3 * c.u)
    q = c.value('line_segment_xsection', p.line_segment_xsection, a, b)
    crosses = c.and_(c.ne(ha, hb), c.not_(c.and_(c.gt(ha, 0), c.gt(hb, 0))), c.not_(c.and_(c.lt(ha, 0), c.lt(hb, 0)))) if c.symbolic else bool(ha != hb and not (ha > 0 and hb > 0) and not (ha < 0 and hb < 0))
    c.prove('reported exactly when it meets the plane and is not parallel to it', c.iff(q is not None, crosses))
    if q is not None:
        c.prove('lies on the plane', c.eq(c.dot(n, q - r), 0))
        c.prove('lies on the line of the segment', c.eq(c.cross(q - a, b - a), c.np.zeros(3), deg=2))
        c.prove('lies between the ends', c.and_(*[c.and_(c.le(c.min(a[k], b[k]), q[k]), c.le(q[k], c.max(a[k], b[k]))) for k in range(3)]))

@contract('P13', 'lines_batch', [P + '.line_xsections', P + '.line_xsection'])
def lines_batch(c):
    """row by row the answer of the single form"""
    p, r, n = plane(c)
    N = c.int('N', lo=0)
    a, u = c.pts('a', N), c.pts('u', N)
    ex = exact_axes(c, n, a, u, r)
    if not c.symbolic and not ex: c.well(lambda: c.forall(N, lambda i: abs(c.dot(n, u[i])) > 1e-3 * c.u))
    q, ok = c.value('line_xsections', p.line_xsections, a, u)
    c.prove('a point and a flag per row', c.and_(c.shape_is(q, (N, 3)), c.shape_is(ok, (N,))))
    par = lambda i: c.eq(c.dot(n, u[i]), 0) if c.symbolic else bool(c.dot(n, u[i]) == 0)
    c.prove('valid exactly for the lines that are not parallel to the plane', c.forall(N, lambda i: c.iff(ok[i], c.not_(par(i)))))
    c.prove('rows without an intersection are not a number', c.forall(N, lambda i: c.implies(par(i), lambda: c.and_(*[c.is_nan(q[i][k]) for k in range(3)]))))
    c.prove('the others lie on the plane', c.forall(N, lambda i: c.implies(c.not_(par(i)), lambda: c.eq(c.dot(n, q[i] - r), 0))))
    c.prove('and on their line', c.forall(N, lambda i: c.implies(c.not_(par(i)), lambda: c.eq(c.cross(q[i] - a[i], u[i]), c.np.zeros(3), deg=2))))

@contract('P13', 'segments_batch', [P + '.line_segment_xsections', P + '.line_xsections', P + '.line_segment_xsection'], budget=150)
def segments_batch(c):
    """every row has the answer of the single form"""
    p, r, n = plane(c)
    N = c.int('N', lo=0)
    a, b = c.pts('a', N), c.pts('b', N)
    ha, hb = (lambda i: c.dot(n, a[i] - r)), (lambda i: c.dot(n, b[i] - r))
    ex = exact_axes(c, n, a, b, r)
    if not c.symbolic and not ex: c.well(lambda: c.forall(N, lambda i: abs(ha(i)) > 1e-3 * c.u and abs(hb(i)) > 1e-3 * c.u and abs(ha(i) - hb(i)) > 1e-3 * c.u))
    q, ok = c.value('line_segment_xsections', p.line_segment_xsections, a, b)
    c.prove('a point and a flag per row', c.and_(c.shape_is(q, (N, 3)), c.shape_is(ok, (N,))))
    c.prove('rows without an intersection are not a number', c.forall(N, lambda i: c.implies(c.not_(ok[i]), lambda: c.and_(*[c.is_nan(q[i][k]) for k in range(3)]))))
    c.prove('rows with an intersection are numbers', c.forall(N, lambda i: c.implies(ok[i], lambda: c.and_(*[c.not_(c.is_nan(q[i][k])) for k in range(3)]))))
    for i in c.each('row', N):
        s = c.value('line_segment_xsection', p.line_segment_xsection, a[i], b[i])
        c.lemma('a row is valid exactly when the single form reports an intersection', c.iff(ok[i], s is not None))
        if s is not None: c.prove('a row has the point of the single form', c.eq(q[i], s))

@contract('P13', 'lines_batch_single', [P + '.line_xsections', P + '.line_xsection'])
def lines_batch_single(c):
    """every row has the answer of the single form"""
    p, r, n = plane(c)
    N = c.int('N', lo=0)
    a, u = c.pts('a', N), c.pts('u', N)
    if not c.symbolic and not exact_axes(c, n, a, u, r): c.well(lambda: c.forall(N, lambda i: abs(c.dot(n, u[i])) > 1e-3 * c.u))
    q, ok = c.value('line_xsections', p.line_xsections, a, u)
    for i in c.each('row', N):
        s = c.value('line_xsection', p.line_xsection, a[i], u[i])
        c.lemma('a row is valid exactly when the single form reports an intersection', c.iff(ok[i], s is not None))
        if s is not None: c.prove('a row has the point of the single form', c.eq(q[i], s))
