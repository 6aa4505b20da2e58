"""P22: rotations from directions and Euler angles, P23: rotation vectors and matrices."""
from vc.registry import contract
R = 'blmath.geometry.transform.rotation.'
RO = 'blmath.geometry.transform.rodrigues.'

def nonzero(c, v):
    c.assume(c.or_(*[c.gt(c.abs(v[k]), c.q('1/100000000')) for k in range(len(v))]))

def orthonormal(c, m):
    """rows of length one, perpendicular to each other"""
    return c.and_(*[c.eq(c.dot(m[i], m[j]), 1 if i == j else 0) for i in range(3) for j in range(i + 1)])
def rotation(c, name, m):
    c.prove('%s is 3x3' % name, c.shape_is(m, (3, 3)))
    c.prove('%s is orthonormal' % name, orthonormal(c, m))
    c.prove('%s has determinant one' % name, c.eq(c.det3(m), 1))

def directions(c):
    """two directions that are not (nearly) parallel"""
    u, l = c.vec('up', 3, ints=True), c.vec('look', 3, ints=True)
    nonzero(c, u)
    nonzero(c, l)
    x = c.cross(u, l)
    c.assume(c.gt(c.norm2(x), c.q('1/100000000000000') * (c.norm2(u) * c.norm2(l))))
    return u, l

def not_collinear(c, u, l, t=None):
    """the part of look perpendicular to up is not negligible"""
    y = u / c.norm(u)
    z = l - c.dot(l, y) * y
    c.lemma('the perpendicular part', c.eq(c.norm2(z) * c.norm2(u), c.norm2(c.cross(u, l))))
    c.lemma('up is not zero', c.gt(c.norm2(u), 0))
    k = c.q('1/1000000000000')
    c.theorem('cancelling', lambda zz, uu, ll, xx: (c.and_(c.gt(uu, 0), c.eq(zz * uu, xx), c.gt(xx, k / 100 * (uu * ll)), c.ge(ll, 0)), c.and_(c.gt(zz, k / 100 * ll), c.gt(zz, 0))), c.norm2(z), c.norm2(u), c.norm2(l), c.norm2(c.cross(u, l)))
    c.lemma('look is not zero', c.gt(c.norm2(l), 0))
    c.theorem('roots', lambda a, b: (c.and_(c.gt(a * a, k / 100 * (b * b)), c.ge(a, 0), c.gt(b, 0)), c.gt(a, k * b)), c.norm(z), c.norm(l))
    if t is not None: c.theorem('scaled', lambda a, b, t: (c.and_(c.gt(a, k * b), c.gt(t, 0)), c.gt(a * t, k * (b * t))), c.norm(z), c.norm(l), t)

@contract('P22', 'rotation_from_up_and_look', [R + 'rotation_from_up_and_look'])
def rotation_from_up_and_look(c):
    """a proper rotation sending up to +y and look into the half plane y, +z"""
    u, l = directions(c)
    if c.symbolic: not_collinear(c, u, l)
    if not c.symbolic: c.well(lambda: c.gt(c.norm2(c.cross(u, l)), 1e-6 * c.norm2(u) * c.norm2(l)))
    m = c.value('rotation_from_up_and_look', R + 'rotation_from_up_and_look', u, l)
    rotation(c, 'the result', m)
    a = c.np.dot(m, u)
    c.prove('up goes to the positive y axis', c.eq(a, c.np.array([0, c.norm(u), 0])))
    b = c.np.dot(m, l)
    c.prove('look goes into the y z plane', c.eq(b[0], 0))
    c.lemma('the z coordinate of the rotated look', c.eq(b[2], c.norm(l - c.dot(l, u) / c.norm2(u) * u)))
    c.prove('look goes to the positive z side', c.gt(b[2], 0))

@contract('P22', 'only_the_directions_matter', [R + 'rotation_from_up_and_look'])
def only_the_directions_matter(c):
    """positive multiples of the directions give the same rotation; arrays and lists alike"""
    u, l = directions(c)
    if not c.symbolic: c.well(lambda: c.gt(c.norm2(c.cross(u, l)), 1e-6 * c.norm2(u) * c.norm2(l)))
    s, t = c.real('s', pos=True), c.real('t', pos=True)
    c.assume(c.and_(c.gt(s, c.q('1/1000')), c.gt(t, c.q('1/1000'))))
    if c.symbolic: not_collinear(c, u, l, t)
    m = c.value('rotation_from_up_and_look', R + 'rotation_from_up_and_look', u, l)
    n = c.value('rotation_from_up_and_look of multiples', R + 'rotation_from_up_and_look', u * s, l * t)
    c.prove('multiples give the same rotation', c.eq(n, m))
    k = c.value('rotation_from_up_and_look of lists', R + 'rotation_from_up_and_look', [u[0], u[1], u[2]], [l[0], l[1], l[2]])
    c.prove('lists give the same rotation', c.eq(k, m))

@contract('P22', 'singular_directions', [R + 'rotation_from_up_and_look'])
def singular_directions(c):
    """zero and parallel directions are refused"""
    v = c.vec('v', 3, ints=True)
    k = c.real('k')
    z = c.np.zeros(3)
    f = c.fn(R + 'rotation_from_up_and_look')
    which = c.choice('case', ['up is zero', 'look is zero', 'parallel'])
    if which == 'up is zero': c.raises('a zero up', f, z, v)
    elif which == 'look is zero': c.raises('a zero look', f, v, z)
    else:
        nonzero(c, v)
        c.assume(c.gt(c.abs(k), c.q('1/1000')))
        c.raises('a look parallel to up', f, v, v * k)

def elementary(c, axis, t):
    co, si = c.cos(t), c.sin(t)
    return {'x': [[1, 0, 0], [0, co, -si], [0, si, co]], 'y': [[co, 0, si], [0, 1, 0], [-si, 0, co]], 'z': [[co, -si, 0], [si, co, 0], [0, 0, 1]]}[axis]

@contract('P22', 'euler', [R + 'euler'], samples=120)
def euler(c):
    """the product of the elementary rotations, the first angle applied first"""
    order = c.choice('order', [None, 'xyz', 'xzy', 'yxz', 'yzx', 'zxy', 'zyx', 'xyx', 'zyz', 'xx', 'y'])
    units = c.choice('units', [None, 'deg', 'rad'])
    axes = order or 'xyz'
    a = c.reals('angles', len(axes), lo=-400, hi=400)
    kw = {}
    if order: kw['order'] = order
    if units: kw['units'] = units
    m = c.value('euler', R + 'euler', a, **kw)
    w = c.np.eye(3)
    for ax, t in zip(axes, a):
        w = c.np.dot(c.np.array(elementary(c, ax, t if units == 'rad' else t * (c.pi / 180))), w)
    c.prove('the product of the elementary rotations in order', c.eq(m, w))
    rotation(c, 'the result', m)

@contract('P22', 'euler_fewer_angles', [R + 'euler'], samples=40)
def euler_fewer_angles(c):
    """fewer angles than axes, a bare number, an array; no angles give the identity"""
    n = c.choice('n', [0, 1, 2])
    a = c.reals('angles', n, lo=-400, hi=400)
    m = c.value('euler', R + 'euler', a)
    w = c.np.eye(3)
    for ax, t in zip('xyz', a): w = c.np.dot(c.np.array(elementary(c, ax, t * (c.pi / 180))), w)
    c.prove('the product of the given rotations', c.eq(m, w))
    if n == 1: c.prove('a bare number is one angle', c.eq(c.value('euler of a number', R + 'euler', a[0]), w))
    if n: c.prove('arrays are accepted', c.eq(c.value('euler of an array', R + 'euler', c.np.array(a)), w))

# ---------------------------------------------------------------- P23
def axis(c, name='w'):
    """an arbitrary unit vector w / |w|"""
    w = c.vec(name, 3)
    c.assume(c.or_(*[c.gt(c.abs(w[k]), c.q('1/1000000')) for k in range(3)]))
    c.lemma('the axis is not zero', c.gt(c.norm2(w), 0))
    c.lemma('the axis is not zero (length)', c.gt(c.norm(w), 0))
    return w / c.norm(w)
def turn(c, a, co, si):
    """the rotation about the unit vector a by the angle with cosine co and sine si (right-handed)"""
    return c.np.array([[co * (1 if i == j else 0) + (1 - co) * a[i] * a[j] + si * ([[0, -1 * a[2], a[1]], [a[2], 0, -1 * a[0]], [-1 * a[1], a[0], 0]][i][j]) for j in range(3)] for i in range(3)])
def shaped(c, v):
    """a vector in one of the three accepted shapes"""
    k = c.choice('shape', ['(3,)', '(3, 1)', '(1, 3)'])
    return v if k == '(3,)' else c.np.reshape(v, (3, 1) if k == '(3, 1)' else (1, 3))

@contract('P23', 'matrix_of_vector', [RO + 'rodrigues'])
def matrix_of_vector(c):
    """the matrix of a rotation vector is the right-handed turn about it by its length"""
    w = c.vec('w', 3)
    c.assume(c.or_(*[c.gt(c.abs(w[k]), c.q('1/1000000')) for k in range(3)]))
    n = c.norm(w)
    m = c.value('rodrigues of a vector', RO + 'rodrigues', shaped(c, w))
    rotation(c, 'the matrix', m)
    c.prove('the vector is left fixed', c.eq(c.np.dot(m, w), w))
    c.prove('the right-handed turn by the length in radians', c.eq(m, turn(c, w / n, c.cos(n), c.sin(n))))

@contract('P23', 'zero_vector', [RO + 'rodrigues', RO + 'as_rotation_matrix'], samples=6)
def zero_vector(c):
    """the zero vector gives the identity, the identity the zero vector"""
    m = c.value('rodrigues of zero', RO + 'rodrigues', shaped(c, c.np.zeros(3)))
    c.prove('the identity', c.eq(m, c.np.eye(3)))
    v = c.value('rodrigues of the identity', RO + 'rodrigues', c.np.eye(3))
    c.prove('the zero vector', c.and_(c.shape_is(v, (3, 1)), c.eq(v, c.np.zeros((3, 1)))))
    k = c.value('as_rotation_matrix of the identity', RO + 'as_rotation_matrix', c.np.eye(3))
    c.prove('the identity stays', c.eq(k, c.np.eye(3)))

def general(c):
    """a rotation matrix by an angle strictly between 0 and 180 degrees"""
    a = axis(c)
    t = c.angle('t', 0, 1)
    co, si = c.cos(t), c.sin(t)
    c.assume(c.gt(si, c.q('2/100000')))
    if c.symbolic: c.known_root(2 * si)
    return a, t, turn(c, a, co, si)

@contract('P23', 'vector_of_matrix', [RO + 'rodrigues'], samples=150)
def vector_of_matrix(c):
    """the rotation vector of a rotation matrix is angle times axis and converts back"""
    a, t, m = general(c)
    c.tolerance(20)
    r = c.value('rodrigues of a matrix', RO + 'rodrigues', m)
    c.prove('the vector has shape 3x1', c.shape_is(r, (3, 1)))
    c.prove('the vector is the angle times the axis', c.eq(c.np.reshape(r, (3,)), a * t))
    b = c.value('rodrigues back', RO + 'rodrigues', r)
    c.prove('the vector converts back to the matrix', c.eq(b, m))
    k = c.value('as_rotation_matrix', RO + 'as_rotation_matrix', m)
    c.prove('as_rotation_matrix of a rotation is the rotation', c.eq(k, m))

def half_turn(c, pat):
    """at 180 degrees the vector has length pi, lies on the axis and converts back (the first nonzero coordinate of the axis is taken
    positive: an axis and its opposite give the same half turn)"""
    c.tolerance(50)
    w, sign = [], []
    for k in 'xyz':
        if k not in pat: w.append(0.0); sign.append(0); continue
        x = c.real('w' + k, pos=k == pat[0])
        c.assume(c.gt(c.abs(x), c.q('1/1000')))
        w.append(x); sign.append(1 if k == pat[0] or c.decided(c.gt(x, 0)) else -1)
    w = c.np.array(w)
    c.lemma('the axis is not zero', c.gt(c.norm2(w), 0))
    c.lemma('the axis is not zero (length)', c.gt(c.norm(w), 0))
    a = w / c.norm(w)
    if c.symbolic:
        c.half_turn_facts()
        for k in range(3):
            if sign[k]: c.lemma('sign of a coordinate', c.ge(sign[k] * a[k], 0)); c.known_root(sign[k] * a[k])
    m = turn(c, a, -1, 0)
    for i, j in (((0, 1), (0, 2), (1, 2)) if c.symbolic else ()):
        if not sign[i] * sign[j]: continue
        for x in (m[i][j], a[i] * a[j]): c.lemma('sign of a product', c.gt(x, 0) if sign[i] * sign[j] > 0 else c.lt(x, 0))
    r = c.value('rodrigues of a half turn', RO + 'rodrigues', m)
    c.prove('the vector has shape 3x1', c.shape_is(r, (3, 1)))
    r1 = c.np.reshape(r, (3,))
    c.prove('the vector has length pi', c.eq(c.norm(r1), c.pi))
    c.prove('the vector lies on the axis', c.eq(c.cross(r1, a), c.np.zeros(3)))
    b = c.value('rodrigues back', RO + 'rodrigues', r)
    c.prove('the vector converts back to the matrix', c.eq(b, m))

@contract('P23', 'half_turn', [RO + 'rodrigues'], samples=150, budget=150, frame=False)
def half_turn_general(c):
    """half turn about an axis with no zero coordinate"""
    half_turn(c, 'xyz')

@contract('P23', 'half_turn_zero_coordinates', [RO + 'rodrigues'], samples=150, budget=120)
def half_turn_zero_coordinates(c):
    """half turn about an axis with one or two zero coordinates"""
    half_turn(c, c.choice('nonzero coordinates', ['xy', 'xz', 'yz', 'x', 'y', 'z']))

@contract('P23', 'as_rotation_matrix_of_vector', [RO + 'as_rotation_matrix'])
def as_rotation_matrix_of_vector(c):
    """of a vector: its matrix"""
    w = c.vec('w', 3)
    c.assume(c.or_(*[c.gt(c.abs(w[k]), c.q('1/1000000')) for k in range(3)]))
    n = c.norm(w)
    k = c.value('as_rotation_matrix of a vector', RO + 'as_rotation_matrix', shaped(c, w))
    c.prove('the matrix of the vector', c.eq(k, turn(c, w / n, c.cos(n), c.sin(n))))

@contract('P23', 'other_shapes', [RO + 'rodrigues', RO + 'as_rotation_matrix'])
def other_shapes(c):
    """any other shape is refused"""
    sh = c.choice('shape', [(2,), (4,), (9,), (3, 2), (2, 3), (1, 4), (4, 4), (2, 2), (1, 1, 3), (3, 3, 1), (0,)])
    x = c.arr('x', sh)
    c.raises('rodrigues of another shape', RO + 'rodrigues', x)
    c.raises('as_rotation_matrix of another shape', RO + 'as_rotation_matrix', x)

def derivative(c, a, n, co, si):
    """the derivative of turn(w / |w|, |w|) by the coordinates of w, row k, column 3 i + j (a = w / |w|, n = |w|)"""
    def X(v): return [[0, -1 * v[2], v[1]], [v[2], 0, -1 * v[0]], [-1 * v[1], v[0], 0]]
    d = lambda i, j: 1 if i == j else 0
    J = []
    for k in range(3):
        da = [(d(i, k) - a[i] * a[k]) / n for i in range(3)]
        J.append([-1 * si * a[k] * d(i, j) + si * a[k] * a[i] * a[j] + (1 - co) * (da[i] * a[j] + a[i] * da[j]) + co * a[k] * X(a)[i][j] + si * X(da)[i][j] for i in range(3) for j in range(3)])
    return c.np.array(J)

@contract('P23', 'jacobian_requested', [RO + 'rodrigues'])
def jacobian_requested(c):
    """asking for the derivative does not change the result and gives the derivative (the formula is compared with difference quotients in derivative_quotients)"""
    w = c.vec('w', 3)
    c.assume(c.or_(*[c.gt(c.abs(w[k]), c.q('1/1000000')) for k in range(3)]))
    n = c.norm(w)
    r = c.value('rodrigues with derivative', RO + 'rodrigues', shaped(c, w), calculate_jacobian=True)
    c.prove('matrix and derivative', isinstance(r, tuple) and len(r) == 2)
    a, co, si = w / n, c.cos(n), c.sin(n)
    c.prove('the same matrix', c.eq(r[0], turn(c, a, co, si)))
    c.prove('the derivative has one row per coordinate', c.shape_is(r[1], (3, 9)))
    c.well(lambda: c.gt(n, 1e-3))
    c.prove('the derivative of the matrix', c.eq(r[1], derivative(c, a, n, co, si)))

@contract('P23', 'derivative_quotients', [RO + 'rodrigues'], concrete_only='compares with difference quotients: the limit itself is not expressible as a contract', samples=150)
def derivative_quotients(c):
    """the derivative agrees with difference quotients of the matrix, at zero as well"""
    w = c.vec('w', 3, lo=-6, hi=6)
    if c.boolean('zero'): w = c.np.zeros(3)
    n = c.norm(w)
    c.assume(c.or_(n == 0, c.gt(n, 0.01)))
    m, J = c.value('rodrigues with derivative', RO + 'rodrigues', shaped(c, w), calculate_jacobian=True)
    c.prove('the same matrix', c.eq(m, c.value('rodrigues', RO + 'rodrigues', w)))
    h = 1e-5
    for k in range(3):
        e = c.np.zeros(3); e[k] = h
        q = (c.value('rodrigues ahead', RO + 'rodrigues', w + e) - c.value('rodrigues behind', RO + 'rodrigues', w - e)) / (2 * h)
        c.prove('agrees with the difference quotient', bool((abs(q.ravel() - J[k]) < 1e-6).all()))

@contract('P23', 'zero_vector_derivative', [RO + 'rodrigues'], samples=6)
def zero_vector_derivative(c):
    """at the zero vector the derivative is that of the cross product"""
    m, J = c.value('rodrigues of zero', RO + 'rodrigues', shaped(c, c.np.zeros(3)), calculate_jacobian=True)
    c.prove('the identity', c.eq(m, c.np.eye(3)))
    c.prove('the derivative', c.eq(J, c.np.array([[0, 0, 0, 0, 0, -1, 0, 1, 0], [0, 0, 1, 0, 0, 0, -1, 0, 0], [0, -1, 0, 1, 0, 0, 0, 0, 0]])))
    v, B = c.value('rodrigues of the identity', RO + 'rodrigues', c.np.eye(3), calculate_jacobian=True)
    c.prove('the zero vector', c.and_(c.shape_is(v, (3, 1)), c.eq(v, c.np.zeros((3, 1)))))
    c.prove('the derivatives undo each other', c.and_(c.shape_is(B, (9, 3)), c.eq(c.np.dot(J, B), c.np.eye(3))))

@contract('P23', 'jacobian_of_matrix', [RO + 'rodrigues'], samples=150, budget=150)
def jacobian_of_matrix(c):
    """the derivative reported with the vector of a matrix undoes the derivative of the matrix by the vector"""
    a, t, m = general(c)
    c.tolerance(20)
    r, B = c.value('rodrigues of a matrix', RO + 'rodrigues', m, calculate_jacobian=True)
    c.prove('the same vector', c.eq(c.np.reshape(r, (3,)), a * t))
    c.prove('one row per entry of the matrix', c.shape_is(B, (9, 3)))
    if not c.symbolic: c.assume(c.sin(t) > 1e-3)
    c.assume(c.gt(t, c.q('1/100000')))
    c.prove('the derivatives undo each other', c.eq(c.np.dot(derivative(c, a, t, c.cos(t), c.sin(t)), B), c.np.eye(3)))
