"""P24: composite transforms, P25: coordinate manager."""
from vc.registry import contract
CT = 'blmath.geometry.transform.composite.CompositeTransform'
CM = 'blmath.geometry.transform.coordinate_manager.CoordinateManager'

def affine(c, A):
    """the 4x4 matrix with the rows A[0..2] and 0 0 0 1"""
    return c.np.array([[A[i][j] for j in range(4)] for i in range(3)] + [[0., 0., 0., 1.]])

def inverse(c, F, R):
    """F R = R F = identity, for affine matrices given by their first three rows"""
    def prod(a, b, i, j): return sum((a[i][k] * b[k][j] for k in range(3)), a[i][3] if j == 3 else 0)
    return c.and_(*[c.eq(prod(a, b, i, j), 1 if i == j else 0) for a, b in ((F, R), (R, F)) for i in range(3) for j in range(4)])

def pairs(c, name, n):
    """n affine matrices with their inverses"""
    F = c.arr(name + 'F', (n, 3, 4))
    if c.symbolic:
        R = c.arr(name + 'R', (n, 3, 4))
        H = c.forall(n, lambda i: inverse(c, F[i], R[i]))
        c.assume(H)
        return F, R, H
    np = c.np
    F = np.array(F, dtype=float) / c.u
    F[:, :, 3] *= c.u
    R = np.empty_like(F)
    for i in range(n):
        A = F[i][:, :3]
        if np.abs(A).max() > 5: A /= np.abs(A).max()
        if np.linalg.cond(A) > 20: A = F[i][:, :3] = c.rng.choice([np.eye(3), np.array([[0., 0, 1], [1, 0, 0], [0, 1, 0]]), np.diag([2., 2, 2]), np.diag([-1., 1, 1])])
        R[i][:, :3] = np.linalg.inv(A)
        R[i][:, 3] = -np.dot(R[i][:, :3], F[i][:, 3])
    return F, R, None

def composite(c, n, name=''):
    """a composite of n arbitrary invertible affine transforms"""
    F, R, H = pairs(c, name, n)
    t = c.value('CompositeTransform', CT)
    if not c.symbolic or isinstance(n, int):
        for i in range(n):
            k = c.value('append_transform4', lambda: t.append_transform4(affine(c, F[i]), affine(c, R[i])))
    else:
        if t.__dict__.get('transforms') != [] or len(t.__dict__) != 1: c.unsupported('representation of a composite other than a list of pairs')
        t.transforms = c.list(n, lambda i: (affine(c, F[i]), affine(c, R[i])))
    return t, F, R, H

def span(c, n):
    """a range of transforms (or none: all of them)"""
    if c.boolean('all'): return 0, n, {}
    a = c.int('a', lo=0) if c.symbolic else c.int('a', lo=0, hi=n + 1)
    m = c.int('m', lo=0) if c.symbolic else c.int('m', lo=0, hi=n + 1 - a)
    c.assume(c.le(a + m, n))
    return a, m, {'from_range': (a, a + m)}

def ap(c, A, x): return [sum((A[i][j] * x[j] for j in range(3)), A[i][3]) for i in range(3)]

def products(c, m, x, P):
    """hint: the partial products take the point to the partial results (in either orientation)"""
    G = c.folded()
    if G is None or isinstance(m, int): return
    def inv(tr):
        e = (lambda g, i, j: g[j][i]) if tr else (lambda g, i, j: g[i][j])
        def at(k):
            g = G(k + 1)
            return c.and_(*[c.eq(sum((e(g, i, j) * x[j] for j in range(3)), e(g, i, 3)), P[k + 1][i]) for i in range(3)] + [c.eq(e(g, 3, j), 1 if j == 3 else 0) for j in range(4)])
        return at
    c.hint_induction(m - 1, [inv(True), inv(False)])

def last_row(c, M): return c.and_(*[c.eq(M[3][j], 1 if j == 3 else 0) for j in range(4)])

@contract('P24', 'forward', [CT + '.matrix_for', CT + '.__call__', CT + '.append_transform4'], samples=150, budget=200, fallback=[{'n': [0, 1, 2, 3]}])
def forward(c):
    """the transforms of the range one by one, in the order they were appended"""
    n = c.int('n', lo=0)
    t, F, R, H = composite(c, n)
    a, m, kw = span(c, n)
    x = c.vec('x', 3)
    P = c.recursion('P', m, [x[0], x[1], x[2]], lambda k, p: ap(c, F[a + k], p))
    M = c.value('matrix_for', t.matrix_for, **kw)
    products(c, m, x, P)
    c.prove('a 4x4 matrix', c.shape_is(M, (4, 4)))
    c.prove('the matrix takes a point to the result of applying the transforms one by one', c.and_(*[c.eq(v, P[m][i]) for i, v in enumerate(ap(c, M, x))]))
    c.prove('the last row is that of an affine matrix', last_row(c, M))

def eye(c, A, B):
    """A B = identity"""
    return c.and_(*[c.eq(sum((A(i, k) * B(k, j) for k in range(1, 4)), A(i, 0) * B(0, j)), 1 if i == j else 0) for i in range(4) for j in range(4)])

def get(M): return lambda i, j: M[i][j]
def tr(A): return lambda i, j: A(j, i)

@contract('P24', 'reverse', [CT + '.matrix_for', CT + '.append_transform4'], samples=150, budget=300, fallback=[{'n': [0, 1, 2]}])
def reverse(c):
    """the reverse mode is the inverse of the forward mode, for the same range"""
    n = c.int('n', lo=0)
    t, F, R, H = composite(c, n)
    a, m, kw = span(c, n)
    c.tolerance(1e6)
    c.well(lambda: n <= 6)
    M = c.value('matrix_for', t.matrix_for, **kw)
    B = c.value('matrix_for in reverse', t.matrix_for, reverse=True, **kw)
    c.prove('4x4 matrices', c.and_(c.shape_is(M, (4, 4)), c.shape_is(B, (4, 4))))
    f, r = c.folded(2), c.folded(1)
    if f is not None and not isinstance(m, int):
        use = lambda k: c.instance(H, a + k)
        def inv(o, x, y):
            def at(k):
                A, Z = get(f(k + 1)), get(r(k + 1))
                A, Z = (tr(A) if x else A), (tr(Z) if y else Z)
                return eye(c, *((A, Z) if o else (Z, A)))
            return at
        for o in (True, False):
            c.hint_induction(m - 1, [inv(o, x, y) for x, y in ((1, 0), (0, 0), (1, 1), (0, 1))], use=use)
    c.prove('undoing what was done', eye(c, get(B), get(M)))
    c.prove('doing what was undone', eye(c, get(M), get(B)))

@contract('P24', 'call', [CT + '.__call__', CT + '.matrix_for'], samples=120, budget=200, fallback=[{'n': [0, 1, 2]}])
def call(c):
    """applying maps every point by the matrix of the range and mode; the composite is not changed"""
    n = c.int('n', lo=0)
    t, F, R, H = composite(c, n)
    a, m, kw = span(c, n)
    if c.boolean('reverse'): kw = dict(kw, reverse=True)
    if c.symbolic and not isinstance(n, int):
        M = affine(c, c.arr('M', (3, 4)))
        used = []
        def matrix_for(self, from_range=None, reverse=False):
            same = self is t and bool(reverse) == ('reverse' in kw) and (from_range is None) == ('from_range' not in kw)
            if same and from_range is not None: same = c.and_(c.eq(from_range[0], a), c.eq(from_range[1], a + m))
            if not c.decided(same): c.unsupported('applying by the matrix of another range')
            used.append(1)
            return M
        c.callee(CT + '.matrix_for', matrix_for, 'matrix_for returns an affine matrix (P24/forward, P24/reverse)')
    else:
        M = c.value('matrix_for', t.matrix_for, **kw)
        c.prove('the last row is that of an affine matrix', last_row(c, M))
    one = c.boolean('one')
    k = 1 if one else c.int('k', lo=0)
    x = c.pts('x', k)
    y = c.value('__call__', t, x, **kw)
    if c.symbolic and not isinstance(n, int) and not used: c.unsupported('applying without the matrix')
    c.prove('one point for each', c.shape_is(y, (k, 3)))
    c.prove('every point is mapped by the matrix', c.forall(k, lambda i: c.and_(*[c.eq(p, y[i][j]) for j, p in enumerate(ap(c, M, x[i]))])))

def rows(M): return [[M[i][j] for j in range(4)] for i in range(4)]
def aff(L, b): return [[L[i][j] for j in range(3)] + [b[i]] for i in range(3)] + [[0, 0, 0, 1]]
def inv3(c, L): return c.np.linalg.inv(L)

APPEND = [CT + '.append_transform4', CT + '.append_transform3', CT + '.scale', CT + '.convert_units', CT + '.translate', CT + '.reorient', CT + '.rotate', CT + '.matrix_for', 'blmath.geometry.transform.composite.convert_33_to_44']
MATRICES = ['append_transform4', 'append_transform4 with reverse', 'append_transform3', 'append_transform3 with reverse']
SIMPLE = ['scale', 'convert_units', 'translate', 'translate by list']
ROTATIONS = ['reorient', 'rotate by matrix', 'rotate']

@contract('P24', 'append_matrices', APPEND, samples=150, budget=200, fallback=[{'n': [0, 1, 2]}])
def append_matrices(c):
    """every explicit matrix is added at the end, with its inverse, and its position returned; the others stay"""
    append(c, MATRICES)

@contract('P24', 'append_simple', APPEND, samples=150, budget=200, fallback=[{'n': [0, 1, 2]}])
def append_simple(c):
    """every scaling, unit conversion and translation is added at the end, with its inverse, and its position returned; the others stay"""
    append(c, SIMPLE)

@contract('P24', 'append_rotations', APPEND, samples=150, budget=200, fallback=[{'n': [0, 1, 2]}])
def append_rotations(c):
    """every rotation is added at the end, with its inverse, and its position returned; the others stay"""
    append(c, ROTATIONS)

def append(c, cases):
    n = c.int('n', lo=0)
    t, F, R, H = composite(c, n)
    what = c.choice('what', cases)
    A = None
    kw = {}
    if what.startswith('append_transform4'):
        A, B, h = pairs(c, 'new', 1)
        if c.symbolic: c.instance(h, 0); c.assume(inverse(c, A[0], B[0]))
        A, B = affine(c, A[0]), affine(c, B[0])
        args = (A, B) if 'reverse' in what else (A,)
        if 'reverse' not in what: c.assume(c.ne(c.det3(A), 0, deg=0))
    elif what.startswith('append_transform3'):
        A, B, h = pairs(c, 'new', 1)
        if c.symbolic: c.instance(h, 0); c.assume(inverse(c, A[0], B[0]))
        A, B = A[0][:, :3], B[0][:, :3]
        args = (A, B) if 'reverse' in what else (A,)
        if 'reverse' not in what: c.assume(c.ne(c.det3(A), 0, deg=0))
        A, B = aff(A, [0, 0, 0]), aff(B, [0, 0, 0])
    elif what == 'scale':
        s = c.real('s', pos=True) if c.symbolic else c.rng.choice([.5, 2, 3, 10., 1, .01, 2. ** -c.rng.randrange(40), 3. ** c.rng.randrange(25), 10. ** -c.rng.randrange(12)])
        args = (s,)
        A = aff([[s if i == j else 0 for j in range(3)] for i in range(3)], [0, 0, 0])
    elif what == 'convert_units':
        args = c.choice('units', [('cm', 'm'), ('in', 'cm'), ('ft', 'in'), ('m', 'm')])
        s = c.value('factor', 'blmath.units.factor', args[0], args[1], 'length')
        A = aff([[s if i == j else 0 for j in range(3)] for i in range(3)], [0, 0, 0])
    elif what.startswith('translate'):
        v = c.vec('v', 3)
        args = ([v[0], v[1], v[2]],) if 'list' in what else (v,)
        A = aff([[1 if i == j else 0 for j in range(3)] for i in range(3)], v)
    elif what == 'reorient':
        args = c.choice('updirs', [([0, 1, 0], [0, 0, 1]), ([0, 0, 1], [1, 0, 0]), ([1, 0, 0], [0, -1, 0])]) if c.symbolic else (c.vec('up', 3), c.vec('look', 3))
        if not c.symbolic: c.well(lambda: c.norm(c.cross(*args)) > 1e-2 * c.norm(args[0]) * c.norm(args[1]))
        W = c.value('rotation_from_up_and_look', 'blmath.geometry.transform.rotation_from_up_and_look', *args)
        A = aff(W, [0, 0, 0])
    elif what == 'rotate by matrix':
        W = rotation(c)
        if c.symbolic: c.callee('blmath.geometry.transform.rodrigues.as_rotation_matrix', lambda m, *a, **k: m, 'as_rotation_matrix returns the rotation matrix it is given (P23)')
        args = (W,)
        A = aff(W, [0, 0, 0])
    else:
        v = c.vec('v', 3)
        if c.symbolic:
            W = rotation(c)
            c.callee('blmath.geometry.transform.rodrigues.as_rotation_matrix', lambda *a, **k: W, 'as_rotation_matrix returns a rotation matrix (P23)')
        else: W = c.value('as_rotation_matrix', 'blmath.geometry.transform.rodrigues.as_rotation_matrix', v)
        args = (v,)
        A = aff(W, [0, 0, 0])
    name = what.split(' ')[0]
    r = c.value(name, getattr(t, name), *args, mutates=(t,))
    c.prove('the position is returned', c.eq(r, n))
    P, Q = c.value('matrix_for', t.matrix_for, (n, n + 1)), c.value('matrix_for in reverse', t.matrix_for, (n, n + 1), reverse=True)
    c.prove('the transform is the one asked for', c.and_(*[c.eq(P[i][j], A[i][j]) for i in range(4) for j in range(4)]))
    c.tolerance(1e4)
    c.prove('stored with its inverse', c.and_(eye(c, get(P), get(Q)), eye(c, get(Q), get(P))))
    for i in c.each('old', n):
        O, U = c.value('matrix_for', t.matrix_for, (i, i + 1)), c.value('matrix_for in reverse', t.matrix_for, (i, i + 1), reverse=True)
        c.prove('the other transforms stay', c.and_(c.eq(O, affine(c, F[i])), c.eq(U, affine(c, R[i]))))

def rotation(c):
    if not c.symbolic: return c.fn('blmath.geometry.transform.rodrigues.as_rotation_matrix')(c.np.array(c.vec('axis', 3)) / c.u)
    W = c.arr('W', (3, 3))
    for i in range(3):
        for j in range(3):
            if j >= i:
                c.assume(c.eq(sum(W[i][k] * W[j][k] for k in range(3)), 1 if i == j else 0))
                c.assume(c.eq(sum(W[k][i] * W[k][j] for k in range(3)), 1 if i == j else 0))
    return W

@contract('P24', 'refused', [CT + '.scale', CT + '.append_transform3', CT + '.convert_units', CT + '.matrix_for'], samples=80, budget=100, fallback=[{'n': [0, 1, 2]}])
def refused(c):
    """nonpositive factors, matrices of another shape and units that are not lengths are refused, the composite staying as it was"""
    n = c.int('n', lo=0)
    t, F, R, H = composite(c, n)
    what = c.choice('what', ['zero', 'negative', 'shape', 'units', 'class'])
    if what == 'zero': c.raises('a factor of zero', t.scale, 0 if c.symbolic else c.choice('zero', [0, 0., c.np.float64(0), c.np.float32(0), -0.]))
    elif what == 'negative':
        s = c.real('s')
        c.assume(c.lt(s, 0))
        c.raises('a negative factor', t.scale, s)
    elif what == 'shape': c.raises('a matrix that is not 3x3', t.append_transform3, c.arr('m', c.choice('shape', [(3, 4), (4, 4), (2, 2), (3,)])))
    elif what == 'units': c.raises('an unknown unit', t.convert_units, 'cm', 'parsec')
    else: c.raises('units that are not lengths', t.convert_units, 'kg', 'lb')
    r = c.value('translate', t.translate, c.vec('v', 3), mutates=(t,))
    c.prove('no transform was added', c.eq(r, n))
    for i in c.each('old', n):
        O, U = c.value('matrix_for', t.matrix_for, (i, i + 1)), c.value('matrix_for in reverse', t.matrix_for, (i, i + 1), reverse=True)
        c.prove('the transforms stay', c.and_(c.eq(O, affine(c, F[i])), c.eq(U, affine(c, R[i]))))

@contract('P24', 'identity', [CT + '.matrix_for', CT + '.__call__'], samples=60, budget=60, fallback=[{'n': [0, 1, 2]}])
def identity(c):
    """an empty composite or range maps every point to itself, in both modes"""
    empty = c.boolean('empty')
    if empty: t, a, kw = c.value('CompositeTransform', CT), 0, {}
    else:
        n = c.int('n', lo=0)
        t, F, R, H = composite(c, n)
        a = c.int('a', lo=0) if c.symbolic else c.int('a', lo=0, hi=n + 1)
        c.assume(c.le(a, n))
        kw = {'from_range': (a, a)}
    if c.boolean('reverse'): kw['reverse'] = True
    M = c.value('matrix_for', t.matrix_for, **kw)
    c.prove('the identity matrix', c.and_(c.shape_is(M, (4, 4)), *[c.eq(M[i][j], 1 if i == j else 0) for i in range(4) for j in range(4)]))
    k = c.int('k', lo=1)
    x = c.pts('x', k)
    c.prove('every point is mapped to itself', c.eq(c.value('__call__', t, x, **kw), x))

# ------------------------------------------------------------------ P25
class Carrier(object):
    """an object carrying vertices"""
    def __init__(self, v, other): self.v, self.other = v, other
class Copied(Carrier):
    """... with its own copy method"""
    def copy(self):
        o = Copied(self.v, self.other)
        o.made = True
        return o

def manager(c, n):
    """a manager over a stack of n arbitrary invertible affine transforms; tag(name, k) gives a name to the state after the first k"""
    cm = c.value('CoordinateManager', CM)
    if c.symbolic:
        F = R = None
        t = cm.__dict__.get('_transform')
        if type(t) is not c.fn(CT) or t.__dict__ != {'transforms': []}: c.unsupported('representation of a manager other than a composite of pairs')
        F, R, H = pairs(c, 'm', n)
        def state(k): t.transforms = c.list(k, lambda i: (affine(c, F[i]), affine(c, R[i])))
        def tag(*tags):
            for name, k in tags:
                state(k)
                c.value('tag_as', cm.tag_as, name, mutates=(cm,))
            state(n)
    else:
        F, R, H = pairs(c, 'm', n)
        def tag(*tags):
            for k in range(n + 1):
                for name, j in tags:
                    if j == k: c.value('tag_as', cm.tag_as, name, mutates=(cm,))
                if k < n: c.value('append_transform4', cm.append_transform4, affine(c, F[k]), affine(c, R[k]), mutates=(cm,))
    return cm, F, R, tag

def states(c, n, k, F, R):
    """the k points at each of the states 0..n, and the contract of CompositeTransform.__call__ over them: ranges take the points at one
    end to the points at the other"""
    if not c.symbolic:
        W = c.np.empty((n + 1, k, 3))
        W[0] = c.pts('w', k)
        for i in range(n):
            for j in range(k): W[i + 1][j] = ap(c, F[i], W[i][j])
        return W
    W = c.arr('W', (n + 1, k, 3))
    def call(self, points, from_range=None, reverse=False):
        s, e = (0, n) if from_range is None else from_range
        s, e = c.ite(c.lt(n, s), n, s), c.ite(c.lt(n, e), n, e)
        e = c.ite(c.lt(e, s), s, e)
        if reverse: s, e = e, s
        if not c.decided(c.shape_is(points, (k, 3))) or not c.decided(c.eq(points, W[s])): c.unsupported('transforming other points')
        return W[e] + c.np.zeros((k, 3))
    c.callee(CT + '.__call__', call, 'a composite takes the points at one end of a range to those at the other, in either mode (P24/forward, reverse, call)')
    return W

@contract('P25', 'reading', [CM + '.__init__', CM + '.tag_as', CM + '.do_transform', CM + '.__setattr__', CM + '.__getattr__'], samples=200, budget=120)
def reading(c):
    """points given in one frame and read in another went through exactly the transforms between them; through an intermediate frame too"""
    n = c.int('n', lo=0)
    a, b, m = (c.int(x, lo=0) if c.symbolic else c.int(x, lo=0, hi=n + 1) for x in 'abm')
    for x in (a, b, m): c.assume(c.le(x, n))
    k = c.int('k', lo=1)
    cm, F, R, tag = manager(c, n)
    tag(('A', a), ('B', b), ('M', m))
    W = states(c, n, k, F, R)
    c.tolerance(1e5)
    c.well(lambda: n <= 6)
    x = W[a] + c.np.zeros((k, 3))
    if c.boolean('attributes'):
        c.value('assigning', lambda: setattr(cm, 'A', x))
        get = lambda name: c.value('reading', lambda: getattr(cm, name))
    else: get = lambda name: c.value('do_transform', cm.do_transform, x, 'A', name)
    y = get('B')
    c.prove('exactly the transforms in between are applied, or undone', c.and_(c.shape_is(y, (k, 3)), c.eq(y, W[b])))
    c.prove('reading back in the original frame returns the original points', c.eq(get('A'), x, tol=0))
    z = get('M')
    c.value('assigning', lambda: setattr(cm, 'M', z))
    y = c.value('reading', lambda: getattr(cm, 'B'))
    c.prove('an intermediate frame changes nothing', c.and_(c.shape_is(y, (k, 3)), c.eq(y, W[b])))
    c.prove('back in the original frame through another one', c.eq(c.value('reading', lambda: getattr(cm, 'A')), x))

@contract('P25', 'carriers', [CM + '.do_transform', CM + '.__setattr__', CM + '.__getattr__'], samples=150, budget=120)
def carriers(c):
    """objects carrying vertices are returned as copies with the transformed vertices"""
    n = c.int('n', lo=0)
    a, b = (c.int(x, lo=0) if c.symbolic else c.int(x, lo=0, hi=n + 1) for x in 'ab')
    for x in (a, b): c.assume(c.le(x, n))
    k = c.int('k', lo=1)
    cm, F, R, tag = manager(c, n)
    tag(('A', a), ('B', b))
    W = states(c, n, k, F, R)
    c.tolerance(1e5)
    c.well(lambda: n <= 6)
    x = W[a] + c.np.zeros((k, 3))
    cls = c.choice('class', [Carrier, Copied])
    other = object()
    o = cls(x, other)
    if c.boolean('attributes'):
        c.value('assigning', lambda: setattr(cm, 'A', o))
        y = c.value('reading', lambda: getattr(cm, 'B'))
    else: y = c.value('do_transform', cm.do_transform, o, 'A', 'B')
    c.prove('the object is copied', type(y) is cls and y is not o and y.other is other)
    if cls is Copied: c.prove('its own way of copying is used', getattr(y, 'made', False) is True)
    c.prove('the copy carries the transformed vertices', c.and_(c.shape_is(y.v, (k, 3)), c.eq(y.v, W[b])))
    c.prove('the object given keeps its vertices', o.v is x and c.eq(x, W[a], tol=0) and o.other is other)
    e = Carrier(None, other)
    c.prove('an object without vertices is returned', c.value('do_transform without vertices', cm.do_transform, e, 'A', 'B').v is None and e.v is None)

@contract('P25', 'history', [CM + '.' + f for f in ('append_transform4', 'append_transform3', 'scale', 'convert_units', 'translate', 'reorient', 'rotate', 'tag_as', 'do_transform')], samples=200, budget=200)
def history(c):
    """every way of adding a transform adds exactly the transform the composite would add, in order"""
    n = c.int('n', lo=0)
    cm, F, R, tag = manager(c, n)
    again = c.boolean('tagged before')
    tag(('first', 0), ('before', n), *([('after', n)] if again else []))
    ref = c.value('CompositeTransform', CT)
    for i in range(1 if c.symbolic else c.int('steps', lo=1, hi=5)):
        what = c.choice('what%d' % i, ['append_transform4', 'append_transform3', 'scale', 'convert_units', 'translate', 'reorient', 'rotate'])
        kw = {}
        if what.startswith('append'):
            A, B, h = pairs(c, 'new%d' % i, 1)
            if c.symbolic: c.assume(inverse(c, A[0], B[0]))
            args = (affine(c, A[0]), affine(c, B[0])) if what.endswith('4') else (A[0][:, :3], B[0][:, :3])
            if c.boolean('keyword'): args, kw = args[:1], {'reverse': args[1]}
        elif what == 'scale': args = (c.real('s', pos=True) if c.symbolic else c.rng.choice([.5, 2, 3]),)
        elif what == 'convert_units': args = ('ft', 'in')
        elif what == 'translate': args = (c.vec('v%d' % i, 3),)
        elif what == 'reorient': args, kw = (), {'up': [0, 0, 1], 'look': [1, 0, 0]}
        else: args = (c.np.array([[0., 1, 0], [-1, 0, 0], [0, 0, 1]]),)
        c.value(what, getattr(cm, what), *args, mutates=(cm,), **kw)
        c.value(what, getattr(ref, what), *args, mutates=(ref,), **kw)
    c.value('tag_as', cm.tag_as, 'after', mutates=(cm,))    # a tag given again denotes the present state
    c.tolerance(1e5)
    x = c.pts('x', 2)
    y = c.value('do_transform', cm.do_transform, x, 'before', 'after')
    c.prove('the transforms added between the tags are applied', c.eq(y, c.value('composite', ref, x)))
    y = c.value('do_transform backwards', cm.do_transform, x, 'after', 'before')
    c.prove('the transforms added between the tags are undone', c.eq(y, c.value('composite backwards', ref, x, reverse=True)))

@contract('P25', 'refused', [CM + '.do_transform', CM + '.__setattr__', CM + '.__getattr__'], samples=60, budget=60)
def refused_tags(c):
    """unknown tags and reading before anything was set"""
    n = c.int('n', lo=0)
    cm, F, R, tag = manager(c, n)
    tag(('A', 0), ('B', n))
    x = c.pts('x', c.int('k', lo=1))
    c.raises('reading before anything was set', lambda: getattr(cm, 'A'))
    c.raises('reading an unknown tag before anything was set', lambda: getattr(cm, 'C'))
    c.raises('assigning to an unknown tag', lambda: setattr(cm, 'C', x))
    c.raises('reading after a refused assignment', lambda: getattr(cm, 'A'))
    c.value('assigning', lambda: setattr(cm, 'B', x))
    c.raises('reading an unknown tag', lambda: getattr(cm, 'C'))
    c.raises('transforming to an unknown tag', cm.do_transform, x, 'A', 'C')
    c.raises('transforming from an unknown tag', cm.do_transform, x, 'C', 'A')
    c.raises('transforming from an unknown tag to itself', cm.do_transform, x, 'C', 'C')
    c.prove('what was set remains', c.eq(c.value('reading', lambda: getattr(cm, 'B')), x, tol=0))
