"""P05-P07: vector shortcuts."""
from vc.registry import contract
VX = 'blmath.numerics.vector_shortcuts.'

@contract('P05', 'normalize_vector', VX + 'normalize')
def normalize_vector(c):
    """a nonzero vector is mapped to a unit vector of which it is the (positive) multiple by its length"""
    n = c.int('n', lo=1)
    v = c.vec('v', n)
    c.assume(c.gt(c.norm2(v), 0, deg=2))
    r = c.value('normalize', VX + 'normalize', v)
    c.prove('the result has the shape of the vector', c.shape_is(r, (n,)))
    c.prove('the result times the length is the vector', c.eq(r * c.norm(v), v))
    c.prove('the result has length one', c.eq(c.norm2(r), 1))

@contract('P05', 'normalize_stack', VX + 'normalize')
def normalize_stack(c):
    """every row of a stack is normalised on its own"""
    n, d = c.int('n', lo=1), c.int('d', lo=1)
    v = c.pts('v', n, d)
    c.assume(c.forall(n, lambda i: c.gt(c.norm2(v[i]), 0, deg=2)))
    r = c.value('normalize', VX + 'normalize', v)
    c.prove('the result has the shape of the stack', c.shape_is(r, (n, d)))
    c.prove('every row is the row normalised on its own', c.forall(n, lambda i: c.eq(r[i] * c.norm(v[i]), v[i])))
    k = c.int('k', lo=0); c.assume(c.lt(k, n))
    one = c.value('normalize of a row', VX + 'normalize', v[k])
    c.prove('a row of the result is the result on that row', c.eq(r[k], one))

@contract('P05', 'magnitude_vector', VX + 'magnitude')
def magnitude_vector(c):
    n = c.int('n', lo=0)
    v = c.vec('v', n)
    r = c.value('magnitude', VX + 'magnitude', v)
    c.prove('magnitude is nonnegative', c.ge(r, 0))
    c.prove('magnitude squared is the sum of squares', c.eq(r * r, c.norm2(v), deg=2))

@contract('P05', 'magnitude_stack', VX + 'magnitude')
def magnitude_stack(c):
    n, d = c.int('n', lo=0), c.int('d', lo=0)
    v = c.pts('v', n, d)
    r = c.value('magnitude', VX + 'magnitude', v)
    c.prove('one magnitude per row', c.shape_is(r, (n,)))
    c.prove('each is the length of its row', c.forall(n, lambda i: c.and_(c.ge(r[i], 0), c.eq(r[i] * r[i], c.norm2(v[i]), deg=2))))

@contract('P05', 'refusals', [VX + 'normalize', VX + 'magnitude'])
def refusals(c):
    """neither a vector nor a stack of vectors"""
    f = c.choice('f', ['normalize', 'magnitude'])
    if c.boolean('three'): a = c.arr('a', (c.int('p', lo=1), c.int('q', lo=1), c.int('r', lo=1)))
    else: a = c.arr('a', ())
    c.raises(f, VX + f, a)

# ------------------------------------------------------------------ P06
def parallel(c, p, d, n):
    """p is a multiple of d: all 2x2 minors vanish"""
    return c.forall(n, lambda i: c.forall(n, lambda j: c.eq(p[i] * d[j], p[j] * d[i], deg=2)))

@contract('P06', 'projection_vector', [VX + 'proj', VX + 'sproj', VX + 'reject'])
def projection_vector(c):
    """a vector against a nonzero direction of the same dimension"""
    n = c.int('n', lo=1)
    v, d = c.vec('v', n), c.vec('d', n)
    c.assume(c.gt(c.norm2(d), 0, deg=2))
    p = c.value('proj', VX + 'proj', v, onto=d)
    r = c.value('reject', VX + 'reject', v, from_v=d)
    s = c.value('sproj', VX + 'sproj', v, onto=d)
    c.prove('shapes', c.and_(c.shape_is(p, (n,)), c.shape_is(r, (n,))))
    c.prove('projection is (v.d/d.d) d', c.eq(p * c.norm2(d), d * c.dot(v, d), deg=3))
    c.prove('projection is parallel to the direction', parallel(c, p, d, n))
    c.prove('rejection is perpendicular to the direction', c.eq(c.dot(r, d), 0, deg=2))
    c.prove('projection and rejection add up to the vector', c.eq(p + r, v))
    c.prove('scalar projection times the unit direction is the projection', c.eq(d * s, p * c.norm(d), deg=2))
    c.prove('scalar projection has the sign of the dot product', c.eq(s * c.norm(d), c.dot(v, d), deg=2))

@contract('P06', 'projection_scaling', [VX + 'proj', VX + 'sproj', VX + 'reject'])
def projection_scaling(c):
    """nothing depends on the length of the direction"""
    n = c.int('n', lo=1)
    v, d = c.vec('v', n), c.vec('d', n)
    a = c.real('a', pos=True)
    c.assume(c.gt(c.norm2(d), 0, deg=2)); c.well(lambda: c.and_(c.gt(a, 0.01), c.gt(c.norm2(d), 0.01 * c.u ** 2)))
    e = d * a
    c.prove('proj does not depend on the length of the direction', c.eq(c.value('proj', VX + 'proj', v, onto=d), c.value('proj', VX + 'proj', v, onto=e)))
    c.prove('reject does not depend on the length of the direction', c.eq(c.value('reject', VX + 'reject', v, from_v=d), c.value('reject', VX + 'reject', v, from_v=e)))
    c.prove('sproj does not depend on the length of the direction', c.eq(c.value('sproj', VX + 'sproj', v, onto=d), c.value('sproj', VX + 'sproj', v, onto=e)))

@contract('P06', 'projection_stack', [VX + 'proj', VX + 'sproj', VX + 'reject'])
def projection_stack(c):
    """a stack of vectors against one direction"""
    n, m = c.int('n', lo=0), c.int('m', lo=1)
    v, d = c.pts('v', n, m), c.vec('d', m)
    c.assume(c.gt(c.norm2(d), 0, deg=2))
    p = c.value('proj', VX + 'proj', v, onto=d)
    r = c.value('reject', VX + 'reject', v, from_v=d)
    s = c.value('sproj', VX + 'sproj', v, onto=d)
    c.prove('shapes', c.and_(c.shape_is(p, (n, m)), c.shape_is(r, (n, m)), c.shape_is(s, (n,))))
    c.prove('projection of every row', c.forall(n, lambda i: c.eq(p[i] * c.norm2(d), d * c.dot(v[i], d), deg=3)))
    c.prove('rejection of every row is perpendicular', c.forall(n, lambda i: c.eq(c.dot(r[i], d), 0, deg=2)))
    c.prove('projection and rejection add up to the vectors', c.eq(p + r, v))
    c.prove('scalar projection of every row', c.forall(n, lambda i: c.eq(s[i] * c.norm(d), c.dot(v[i], d), deg=2)))

@contract('P06', 'reject_axis', VX + 'reject_axis')
def reject_axis(c):
    """exactly the named coordinate is zeroed or dropped"""
    axis = c.choice('axis', [0, 1, 2])
    squash = c.boolean('squash')
    if c.boolean('stack'):
        n = c.int('n', lo=0)
        v = c.pts('v', n)
        r = c.value('reject_axis', VX + 'reject_axis', v, axis=axis, squash=squash)
        rows = lambda f: c.forall(n, lambda i: f(v[i], r[i]))
        c.prove('shape', c.shape_is(r, (n, 2 if squash else 3)))
    else:
        v = c.vec('v', 3)
        r = c.value('reject_axis', VX + 'reject_axis', v, axis=axis, squash=squash)
        rows = lambda f: f(v, r)
        c.prove('shape', c.shape_is(r, (2 if squash else 3,)))
    keep = [k for k in range(3) if k != axis]
    if squash:
        c.prove('the other two coordinates are kept in order', rows(lambda a, b: c.and_(c.eq(b[0], a[keep[0]]), c.eq(b[1], a[keep[1]]))))
    else:
        c.prove('the named coordinate is zero', rows(lambda a, b: c.eq(b[axis], 0)))
        c.prove('the other coordinates are kept', rows(lambda a, b: c.and_(*[c.eq(b[k], a[k]) for k in keep])))
        c.prove('the result is perpendicular to the axis and a copy', not c.shares(r, v))

@contract('P06', 'reject_axis_refusals', [VX + 'reject_axis', VX + 'proj', VX + 'reject'])
def reject_axis_refusals(c):
    bad = c.choice('bad', [3, -1, 7, -3])
    v = c.pts('v', c.int('n', lo=0)) if c.boolean('stack') else c.vec('w', 3)
    c.raises('reject_axis with an axis out of range', VX + 'reject_axis', v, axis=bad, squash=True)
    q = c.arr('q', (2, c.int('k', lo=1), 3))
    c.raises('reject_axis of a 3D array', VX + 'reject_axis', q, axis=1, squash=c.boolean('squash'))
    c.raises('proj of a 3D array', VX + 'proj', q, onto=c.vec('d', 3))
    c.raises('reject of a 3D array', VX + 'reject', q, from_v=c.vec('e', 3))

# ------------------------------------------------------------------ P07
def nonzero2(c, *vs):
    for v in vs:
        c.assume(c.gt(c.norm2(v), 0, deg=2))
        c.well(lambda: c.gt(c.norm2(v), 1e-3 * c.u ** 2))

def cosdeg(c, a):
    return c.cos(a * c.pi / 180)

@contract('P07', 'angle', VX + 'angle', samples=150)
def angle(c):
    """a defined number of degrees in [0, 180] with the right cosine"""
    v1, v2, look = c.vec('v1'), c.vec('v2'), c.vec('look')
    if not c.symbolic and c.rng.random() < 0.3: v2 = v1 * (c.rng.random() * 3 + 0.2) * c.rng.choice([1, -1])
    nonzero2(c, v1, v2)
    c.cauchy_schwarz(v1, v2)
    a = c.value('angle', VX + 'angle', v1, v2, look=look)
    c.prove('the angle is a number', c.is_finite(a))
    c.prove('the angle is between 0 and 180', c.and_(c.ge(a, 0), c.le(a, 180)))
    c.prove('its cosine is the normalised dot product', c.eq(cosdeg(c, a) * c.norm(v1) * c.norm(v2), c.dot(v1, v2), deg=2))
    b = c.value('angle with the vectors swapped', VX + 'angle', v2, v1, look=look)
    c.prove('the angle is symmetric', c.eq(a, b, **({} if c.symbolic else {'tol': 1e-4})))

@contract('P07', 'angle_scaling', VX + 'angle')
def angle_scaling(c):
    v1, v2, look = c.vec('v1'), c.vec('v2'), c.vec('look')
    nonzero2(c, v1, v2)
    s = c.real('s', pos=True); c.well(lambda: c.gt(s, 0.01))
    c.lemma('the length scales', c.eq(c.norm(v1 * s), s * c.norm(v1)))
    c.cauchy_schwarz(v1, v2)
    c.cauchy_schwarz(v1 * s, v2)
    a = c.value('angle', VX + 'angle', v1, v2, look=look)
    b = c.value('angle after scaling', VX + 'angle', v1 * s, v2, look=look)
    c.prove('positive scaling does not change the angle', c.eq(a, b, **({} if c.symbolic else {'tol': 1e-4})))

@contract('P07', 'angle_parallel', VX + 'angle')
def angle_parallel(c):
    """always defined, also for parallel and antiparallel vectors"""
    v1, look = c.vec('v1'), c.vec('look')
    nonzero2(c, v1)
    s = c.real('s', pos=True); c.well(lambda: c.gt(s, 0.01))
    T = {} if c.symbolic else {'tol': 1e-4}
    c.lemma('the length scales', c.eq(c.norm(v1 * s), s * c.norm(v1)))
    c.lemma('the length scales (negative)', c.eq(c.norm(v1 * (-s)), s * c.norm(v1)))
    a = c.value('angle of parallel vectors', VX + 'angle', v1, v1 * s, look=look)
    c.prove('parallel vectors enclose 0 degrees', c.eq(cosdeg(c, a), 1, **T))
    b = c.value('angle of antiparallel vectors', VX + 'angle', v1, v1 * (-s), look=look)
    c.prove('antiparallel vectors enclose 180 degrees', c.eq(cosdeg(c, b), -1, **T))

@contract('P07', 'signed_angle', [VX + 'signed_angle', VX + 'angle'], samples=150)
def signed_angle(c):
    v1, v2, look = c.vec('v1'), c.vec('v2'), c.vec('look')
    nonzero2(c, v1, v2)
    a = c.value('angle', VX + 'angle', v1, v2, look=look)
    s = c.value('signed_angle', VX + 'signed_angle', v1, v2, look=look)
    t = c.dot(c.cross(v1, v2), look)
    c.prove('positive triple product: the angle itself', c.implies(c.gt(t, 0, deg=3), c.eq(s, a)))
    c.prove('negative triple product: minus the angle', c.implies(c.lt(t, 0, deg=3), c.eq(s, -a)))
    if not c.symbolic: c.exact_if(c.style in ('lattice', 'sparse') and c.given is None)
    z = c.eq(t, 0)
    if not c.symbolic: c.exact_if(False)
    c.prove('zero triple product counts as positive', c.implies(z, c.eq(s, a)))
    s2 = c.value('signed_angle with the vectors swapped', VX + 'signed_angle', v2, v1, look=look)
    c.prove('swapping negates a non-coplanar angle', c.implies(c.ne(t, 0, deg=3), c.eq(s2, -s, **({} if c.symbolic else {'tol': 1e-4}))))

@contract('P07', 'almost_zero', VX + 'almost_zero')
def almost_zero(c):
    v = c.vec('v')
    tol = c.real('tol', pos=True)
    if not c.symbolic:
        v = v * c.rng.choice([1e-9, 1e-8, 1.0, tol, tol / 3, 0.0])
        if c.rng.random() < 0.3:
            v = v * 0.0; v[c.rng.randrange(3)] = tol * c.rng.choice([0.5, 0.99, 1.01, 2, -0.99, -1.01, -5])
        c.scale = 1e-9
    r = c.value('almost_zero', VX + 'almost_zero', v, atol=tol)
    inside = c.and_(*[c.le(c.abs(v[k]), tol, **({} if c.symbolic else {'tol': 1e-12 * tol})) for k in range(3)])
    c.prove('accepts exactly the vectors within the tolerance', c.iff(r, inside))
    d = c.value('almost_zero with the default tolerance', VX + 'almost_zero', v)
    inside = c.and_(*[c.le(c.abs(v[k]), 1e-8, **({} if c.symbolic else {'tol': 1e-18})) for k in range(3)])
    c.prove('the default tolerance is 1e-8', c.iff(d, inside))

@contract('P07', 'almost_collinear', VX + 'almost_collinear')
def almost_collinear(c):
    a, b = c.vec('a'), c.vec('b')
    tol = c.real('tol', pos=True)
    if not c.symbolic and c.rng.random() < 0.5:
        b = a * c.rng.uniform(-2, 2) + b * c.rng.choice([0, tol, 1e-8, 1e-9, 1e-3])
    r = c.value('almost_collinear', VX + 'almost_collinear', a, b, atol=tol)
    n = c.norm(c.cross(a, b))
    c.prove('accepts exactly the vectors whose cross product is within the tolerance', c.iff(r, c.le(n, tol, **({} if c.symbolic else {'tol': 1e-10 * c.scale ** 2}))))
    d = c.value('almost_collinear with the default tolerance', VX + 'almost_collinear', a, b)
    c.prove('the default tolerance is 1e-8', c.iff(d, c.le(n, 1e-8, **({} if c.symbolic else {'tol': 1e-13 * c.scale ** 2}))))
