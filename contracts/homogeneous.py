"""P08: homogeneous coordinates."""
from vc.registry import contract
VX = 'blmath.numerics.vector_shortcuts.'
CT = 'blmath.geometry.transform.composite.'

def affine(c, name):
    """an arbitrary 4x4 affine matrix: last row 0 0 0 1"""
    return c.np.vstack([c.arr(name, (3, 4)), c.np.array([[0., 0., 0., 1.]])])

def applied(c, M, v, k):
    """coordinate k of A v + t"""
    return M[k][0] * v[0] + M[k][1] * v[1] + M[k][2] * v[2] + M[k][3]

@contract('P08', 'pad_unpad', [VX + 'pad_with_ones', VX + 'unpad'])
def pad_unpad(c):
    """padding appends a one to every point; unpadding gives the points back"""
    n = c.int('n', lo=0)
    v = c.pts('v', n)
    r = c.value('pad_with_ones', VX + 'pad_with_ones', v)
    c.prove('the padded array is n x 4', c.shape_is(r, (n, 4)))
    c.prove('the coordinates are kept', c.forall(n, lambda i: c.and_(*[c.eq(r[i][k], v[i][k]) for k in range(3)])))
    c.prove('the fourth column is one', c.forall(n, lambda i: c.eq(r[i][3], 1)))
    u = c.value('unpad', VX + 'unpad', r)
    c.prove('unpadding gives the original array', c.eq(u, v))

@contract('P08', 'unpad_any', VX + 'unpad')
def unpad_any(c):
    """unpadding an arbitrary n x 4 array: accepted exactly when its last column is all ones"""
    n = c.int('n', lo=0)
    a = c.arr('a', (n, 4))
    if c.boolean('ones'):
        a = a.copy(); a[:, 3] = 1
        u = c.value('unpad', VX + 'unpad', a)
        c.prove('the first three columns remain', c.and_(c.shape_is(u, (n, 3)), c.forall(n, lambda i: c.and_(*[c.eq(u[i][k], a[i][k]) for k in range(3)]))))
    else:
        if not c.symbolic and c.given is None:
            a = a.copy(); a[:, 3] = 1
            if n: a[c.rng.randrange(n), 3] = c.rng.choice([0, 2, -1, 1.5, 1.001, 1 + 1e-6, 1 - 1e-9, 1 + 2.0 ** -52])
        c.exact_if(True)
        c.assume(c.exists(n, lambda i: c.ne(a[i][3], 1)))
        c.raises('unpad of a column that is not all ones', VX + 'unpad', a)

@contract('P08', 'shapes', [VX + 'pad_with_ones', VX + 'unpad', VX + 'apply_homogeneous', CT + 'convert_33_to_44', CT + 'convert_44_to_33'])
def shapes(c):
    """wrong shapes are refused"""
    n = c.int('n', lo=0)
    what = c.choice('what', ['pad2', 'pad1d', 'pad3d', 'unpad3', 'unpad5', 'unpad1d', 'apply1d', 'apply4', 'apply33', 'apply34', '33', '33v', '44', '44v'])
    if what == 'pad2': c.raises('pad_with_ones', VX + 'pad_with_ones', c.pts('v', n, c.choice('d', [0, 1, 2, 4, 5])))
    if what == 'pad1d': c.raises('pad_with_ones', VX + 'pad_with_ones', c.vec('v', 3))
    if what == 'pad3d': c.raises('pad_with_ones', VX + 'pad_with_ones', c.arr('v', (n, 3, 3)))
    if what == 'unpad3': c.raises('unpad', VX + 'unpad', c.np.ones((n, 3)))
    if what == 'unpad5': c.raises('unpad', VX + 'unpad', c.np.ones((n, 5)))
    if what == 'unpad1d': c.raises('unpad', VX + 'unpad', c.np.ones(4))
    if what == 'apply1d': c.raises('apply_homogeneous', VX + 'apply_homogeneous', c.vec('v', 3), affine(c, 'M'))
    if what == 'apply4': c.raises('apply_homogeneous', VX + 'apply_homogeneous', c.pts('v', n, 4), affine(c, 'M'))
    if what == 'apply33': c.raises('apply_homogeneous', VX + 'apply_homogeneous', c.pts('v', n), c.arr('A', (3, 3)))
    if what == 'apply34': c.raises('apply_homogeneous', VX + 'apply_homogeneous', c.pts('v', n), c.arr('A', (3, 4)))
    if what == '33': c.raises('convert_33_to_44', CT + 'convert_33_to_44', c.arr('A', c.choice('s', [(4, 4), (3, 4), (2, 2)])))
    if what == '33v': c.raises('convert_33_to_44', CT + 'convert_33_to_44', c.vec('A', 3))
    if what == '44': c.raises('convert_44_to_33', CT + 'convert_44_to_33', c.arr('A', c.choice('s', [(3, 3), (3, 4), (5, 5)])))
    if what == '44v': c.raises('convert_44_to_33', CT + 'convert_44_to_33', c.vec('A', 4))

@contract('P08', 'apply', VX + 'apply_homogeneous')
def apply(c):
    """every point p is mapped to A p + t, independently of the others"""
    n = c.int('n', lo=0)
    v, M = c.pts('v', n), affine(c, 'M')
    r = c.value('apply_homogeneous', VX + 'apply_homogeneous', v, M)
    c.prove('one point per point', c.shape_is(r, (n, 3)))
    c.prove('every point is mapped to A p + t', c.forall(n, lambda i: c.and_(*[c.eq(r[i][k], applied(c, M, v[i], k)) for k in range(3)])))
    k = c.int('k', lo=0)
    c.assume(c.lt(k, n))
    one = c.value('apply_homogeneous to one point', VX + 'apply_homogeneous', v[k:k + 1], M)
    c.prove('the image of a point does not depend on the other points', c.and_(c.shape_is(one, (1, 3)), c.eq(one[0], r[k])))

@contract('P08', 'convert', [CT + 'convert_33_to_44', CT + 'convert_44_to_33', VX + 'apply_homogeneous'])
def convert(c):
    """3x3 -> 4x4 -> 3x3 is the identity, and the 4x4 form acts as the 3x3 one"""
    A = c.arr('A', (3, 3), ints=True)
    B = c.value('convert_33_to_44', CT + 'convert_33_to_44', A)
    c.prove('the result is 4 x 4', c.shape_is(B, (4, 4)))
    c.prove('the upper left block is the matrix', c.and_(*[c.eq(B[i][j], A[i][j]) for i in range(3) for j in range(3)]))
    c.prove('the rest is that of the identity', c.and_(*[c.and_(c.eq(B[3][i], 0), c.eq(B[i][3], 0)) for i in range(3)] + [c.eq(B[3][3], 1)]))
    D = c.value('convert_44_to_33', CT + 'convert_44_to_33', B)
    c.prove('converting back gives the matrix', c.and_(c.shape_is(D, (3, 3)), c.eq(D, A)))
    n = c.int('n', lo=0)
    v = c.pts('v', n)
    r = c.value('apply_homogeneous', VX + 'apply_homogeneous', v, B)
    c.prove('the 4 x 4 form acts as the matrix', c.forall(n, lambda i: c.eq(r[i], c.np.dot(A, v[i]))))
    F = c.arr('F', (4, 4))
    E = c.value('convert_44_to_33 of any matrix', CT + 'convert_44_to_33', F)
    c.prove('the upper left block is taken', c.and_(c.shape_is(E, (3, 3)), *[c.eq(E[i][j], F[i][j]) for i in range(3) for j in range(3)]))
