"""P26: rigid alignment, P27: orthogonalisation and change of basis."""
from vc.registry import contract
GS = 'blmath.numerics.linalg.gram_schmidt'
IS = 'blmath.numerics.linalg.isomorphism.isomorphism'
RT = 'blmath.geometry.transform.rigid_transform'

# ------------------------------------------------------------------ P27
def dots(c, a, b): return sum((x * y for x, y in zip(a, b)), 0)

def rand(c): return c.np.random.RandomState(c.rng.randrange(2 ** 31))

def independent(c, ints=False):
    """m linearly independent vectors of dimension d"""
    if c.symbolic:
        d = c.choice('d', [1, 2, 3])
        m = c.choice('m', list(range(1, d + 1)))
        v = c.arr('v', (m, d))
        c.assume(c.ne(dots(c, v[0], v[0]), 0))
        if m == 2: c.assume(c.ne(dots(c, v[0], v[0]) * dots(c, v[1], v[1]) - dots(c, v[0], v[1]) * dots(c, v[0], v[1]), 0))
        if m == 3: c.assume(c.ne(c.det3(v), 0))
        return v, m, d
    np = c.np
    d = c.int('d', lo=1, hi=7)
    m = c.int('m', lo=1, hi=d)
    while True:
        v = np.array(c.arr('v', (m, d)))
        if ints and c.boolean('integers'): v = rand(c).randint(-5, 6, (m, d))
        if np.abs(v).max() == 0 or np.linalg.svd(v / np.abs(v).max())[1].min() < 1e-2: v = rand(c).standard_normal((m, d)) * c.u
        if np.linalg.svd(v / np.abs(v).max())[1].min() > 1e-2:
            c.inputs['v'] = v.tolist()
            c._scale(v.astype(float))
            return v, m, d

@contract('P27', 'orthogonalize', [GS + '.orthogonalize', GS + '.orthonormalize', GS + '.proj'], samples=300, budget=200, bounded='at most 3 vectors of dimension at most 3')
def orthogonalize(c):
    """as many mutually orthogonal nonzero vectors, each differing from its input by a combination of the earlier inputs"""
    v, m, d = independent(c, ints=True)
    c.tolerance(1e5)
    o = c.value('orthogonalize', GS + '.orthogonalize', v)
    c.prove('as many vectors', c.shape_is(o, (m, d)))
    if m > 1 and c.symbolic:
        # the coefficients a, b of the earlier inputs, by the orthogonality to them
        c.lemma('the first vector is the first input', c.eq(o[0], v[0]))
        k = dots(c, v[1], v[0]) / dots(c, v[0], v[0])
        c.lemma('the second vector', c.eq(o[1], v[1] - k * v[0]))
        c.lemma('the second vector is not zero', c.ne(dots(c, v[1] - k * v[0], v[1] - k * v[0]), 0))
    for i in range(m):
        for j in range(i): c.prove('mutually orthogonal', c.eq(dots(c, o[i], o[j]), 0, deg=2))
    if c.symbolic:
        if m == 3: c.prove('nonzero', c.ne(dots(c, c.cross(v[0], v[1]), c.cross(v[0], v[1])), 0))
        for i in range(m): c.prove('nonzero', c.ne(dots(c, o[i], o[i]), 0))
        # in the span of the inputs up to i: o[i] - v[i] is a combination of the earlier inputs
        if m > 0: c.prove('the first is the first input', c.eq(o[0], v[0]))
        if m > 1:
            w = o[1] - v[1]
            for i in range(d):
                for j in range(i): c.prove('differs from the input by a combination of the earlier ones', c.eq(w[i] * v[0][j], w[j] * v[0][i]))
        if m > 2: c.prove('differs from the input by a combination of the earlier ones', c.eq(c.det3([v[0], v[1], o[2] - v[2]]), 0))
    else:
        np = c.np
        V = np.array(v, dtype=float)
        for i in range(m):
            c.prove('nonzero', np.linalg.norm(o[i]) > 0)
            w = o[i] - V[i]
            if i: w = w - np.dot(V[:i].T, np.linalg.lstsq(V[:i].T, w, rcond=None)[0])
            c.prove('differs from the input by a combination of the earlier ones', c.eq(w, np.zeros(d)))

@contract('P27', 'orthonormalize', [GS + '.orthonormalize', GS + '.orthogonalize'], samples=300, budget=200, bounded='at most 3 vectors of dimension at most 3')
def orthonormalize(c):
    """the orthogonal vectors, scaled to length one (the requested ones)"""
    v, m, d = independent(c, ints=True)
    c.tolerance(1e5)
    o = c.value('orthogonalize', GS + '.orthogonalize', v)
    if c.symbolic:
        k = dots(c, v[1], v[0]) / dots(c, v[0], v[0]) if m > 1 else None
        if m > 1: c.lemma('the second vector is not zero', c.ne(dots(c, v[1] - k * v[0], v[1] - k * v[0]), 0))
        for i in range(m): c.lemma('nonzero', c.ne(dots(c, o[i], o[i]), 0))
    which = c.choice('which', ['all', 'none', 'last', 'first and last'])
    idx = {'all': None, 'none': [], 'last': [m - 1], 'first and last': [0, m - 1] if m > 1 else [0]}[which]
    r = c.value('orthonormalize', GS + '.orthonormalize', v, **({} if idx is None and c.boolean('short') else {'indices': idx}))
    c.prove('as many vectors', c.shape_is(r, (m, d)))
    for i in range(m):
        if idx is None or i in idx:
            n = c.norm(o[i])
            c.prove('the orthogonal vector scaled to length one', c.and_(*[c.eq(r[i][j] * n, o[i][j]) for j in range(d)]))
        else: c.prove('the vectors not requested are as they were', c.eq(r[i], o[i]))

def frame(c, name, n):
    if c.symbolic:
        F = c.arr(name, (n, n))
        return F, (F[0][0] if n == 1 else F[0][0] * F[1][1] - F[0][1] * F[1][0] if n == 2 else c.det3(F))
    np = c.np
    F = np.array(c.arr(name, (n, n)))
    if c.rng.random() < .2: F = rand(c).randint(-4, 5, (n, n))
    if np.abs(F).max() == 0 or np.linalg.cond(F) > 1e4: F = np.eye(n) + np.triu(rand(c).standard_normal((n, n)), 1)
    return F, None

@contract('P27', 'isomorphism', [IS], samples=300, budget=200, bounded='bases of dimension at most 3')
def isomorphism(c):
    """takes the first basis to the second"""
    n = c.choice('n', [1, 2, 3]) if c.symbolic else c.int('n', lo=1, hi=7)
    (F, p), (G, q) = frame(c, 'F', n), frame(c, 'G', n)
    if c.symbolic: c.assume(c.and_(c.ne(p, 0), c.ne(q, 0)))
    c.tolerance(1e6)
    M = c.value('isomorphism', IS, F, G)
    c.prove('a square matrix', c.shape_is(M, (n, n)))
    if c.symbolic: at = lambda i, j: M.at(i, j)
    M = c.np.array(M)
    c.prove('the first basis times the operator is the second', c.and_(*[c.eq(sum(F[k][i] * M[k][j] for k in range(n)), G[j][i]) for i in range(n) for j in range(n)]))
    I = c.np.array(c.value('isomorphism of equal bases', IS, F, F))
    c.prove('the identity for equal bases', c.and_(*[c.eq(I[i][j], 1 if i == j else 0, deg=0) for i in range(n) for j in range(n)]))

@contract('P27', 'refused', [IS], samples=300, budget=100, bounded='bases of dimension at most 3')
def refused(c):
    """dependent bases and bases of different sizes"""
    n = c.choice('n', [1, 2, 3]) if c.symbolic else c.int('n', lo=1, hi=6)
    what = c.choice('what', ['first dependent', 'second dependent', 'sizes', 'vectors'])
    F, p = frame(c, 'F', n)
    if c.symbolic: c.assume(c.ne(p, 0))
    if 'dependent' in what:
        if c.symbolic:
            G = c.arr('G', (n, n))
            c.assume(c.eq(G[0][0] if n == 1 else G[0][0] * G[1][1] - G[0][1] * G[1][0] if n == 2 else c.det3(G), 0))
        else:
            G = c.np.array(c.arr('G', (n, n)))
            k = c.int('k', lo=0, hi=n - 1)
            G[k] = 0
            G[k] = sum((c.rng.choice([-1, 0, .5, 2, .3]) * G[i] for i in range(n) if i != k), c.np.zeros(n))
        args = (G, F) if what.startswith('first') else (F, G)
    elif what == 'sizes': args = (F, c.np.eye(n + 1))
    else: args = (F, c.arr('H', (n, n + 1)))
    c.raises('a pair that is not two bases of the same space', IS, *args)

# ------------------------------------------------------------------ P26
def rotation(c, name):
    """an arbitrary rotation matrix"""
    if not c.symbolic:
        q = c.rng.choice([None, None, [1, 0, 0, 0], [0, 1, 0, 0], [1, 1, 0, 0], [1, 1, 1, 1], [0, 0, 1, 1]])
        q = c.np.array(q if q is not None else [c.rng.gauss(0, 1) for i in range(4)], dtype=float)
        w, x, y, z = q / c.np.linalg.norm(q)
        return c.np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)], [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])
    Q = c.arr(name, (3, 3))
    c.assume(orthonormal(c, Q))
    c.assume(c.eq(c.det3(Q), 1))
    return Q

def orthonormal(c, Q):
    """Q times its transpose and its transpose times Q are the identity (either implies the other)"""
    return c.and_(*[c.eq(sum(m(i, k) * m(j, k) for k in range(3)), 1 if i == j else 0, deg=0) for m in (lambda i, k: Q[i][k], lambda i, k: Q[k][i]) for i in range(3) for j in range(i + 1)])

def points(c, N):
    """two sets of N points, as the columns of 3 x N arrays, and what is passed to the function"""
    a = c.arr('a', (3, N))
    b = c.arr('b', (3, N))
    if not c.symbolic:
        np = c.np
        a = np.array(a, dtype=float)
        kind = c.rng.choice(['any', 'any', 'copy', 'copy', 'noisy copy', 'mirrored'])
        flat = c.rng.choice(['no', 'no', 'plane', 'line', 'coordinate plane'])
        if flat == 'coordinate plane': a[c.rng.randrange(3)] = c.rng.choice([0, 1, .3]) * c.u
        if flat == 'plane': a = np.dot(rotation(c, 'P'), np.vstack((a[:2], np.zeros((1, N)))))
        if flat == 'line': a = np.outer(rotation(c, 'P')[0], a[0]) + np.array([[c.rng.gauss(0, 1)] for i in range(3)]) * c.u
        if kind != 'any':
            b = np.dot(rotation(c, 'B'), a if kind != 'mirrored' else -a) + np.array([[c.rng.choice([0, c.rng.gauss(0, 1)])] for i in range(3)]) * c.u
            if kind.startswith('noisy'): b = b + rand(c).standard_normal((3, N)) * c.u * c.rng.choice([1e-3, .1])
        else: b = np.array(b, dtype=float)
    return a, b

def mean(c, a, N): return [c.sum(N, lambda k: a[i][k]) / N for i in range(3)]
def image(R, T, a, k): return [sum(R[i][j] * a[j][k] for j in range(3)) + T[i] for i in range(3)]
def distance(c, R, T, a, b, N): return c.sum(N, lambda k: sum((p - b[i][k]) * (p - b[i][k]) for i, p in enumerate(image(R, T, a, k))))

def product(A, B): return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
def trace(A): return A[0][0] + A[1][1] + A[2][2]
def flat(*ms): return [x for m in ms for r in m for x in r]
def cut(l): return [[l[9 * k + 3 * i:9 * k + 3 * i + 3] for i in range(3)] for k in range(len(l) // 9)]

def signs(c):
    """lemma: the determinants of the factors are signs"""
    U, s, W, M = c.svd()
    p, q = c.let(c.det3(W)), c.let(c.det3(U))
    c.lemma('signs of the factors', c.and_(c.eq(p * p, 1), c.eq(q * q, 1)))
    c.theorem('signs of a product', lambda p, q: (c.and_(c.eq(p * p, 1), c.eq(q * q, 1)), c.or_(c.eq(p * q, 1), c.eq(p * q, -1))), p, q)
    return p, q

def factors(c, R):
    """lemma: the determinant of the rotation found is one"""
    p, q = signs(c)
    d = 1 if c.hint(c.eq(c.det3(R), p * q)) else -1
    c.lemma('determinant of the rotation', c.eq(c.det3(R), d * p * q))
    return p, q, d

def minor(X, i, j): return X[(i + 1) % 3][(j + 1) % 3] * X[(i + 2) % 3][(j + 2) % 3] - X[(i + 1) % 3][(j + 2) % 3] * X[(i + 2) % 3][(j + 1) % 3]

def turned(c, U, W, Q, p, q, d):
    """lemma: W Q U is orthonormal; when it is a reflection (d = -1) its diagonal cofactors are the negated diagonal"""
    Y = product(W, Q)
    X = product(Y, U)
    def ortho(*l):
        A, B = cut(list(l))
        return c.and_(orthonormal(c, A), orthonormal(c, B)), orthonormal(c, product(A, B))
    def dets(*l):
        A, B = cut(list(l[3:]))
        a, b, p = l[:3]
        return c.and_(c.eq(a, c.det3(A)), c.eq(b, c.det3(B)), c.eq(p, c.det3(product(A, B)))), c.eq(p, a * b)
    c.theorem('a product of orthonormal matrices', ortho, *flat(W, Q))
    c.theorem('a product of three orthonormal matrices', ortho, *flat(Y, U))
    if d == 1: return
    e, f, g = c.let(c.det3(Q)), c.let(c.det3(Y)), c.let(c.det3(X))
    c.theorem('determinant of a product', dets, *([p, e, f] + flat(W, Q)))
    c.theorem('determinant of a product of three', dets, *([f, q, g] + flat(Y, U)))
    c.lemma('determinant of a rotation', c.eq(e, 1))
    c.theorem('determinant of a reflection', lambda p, q, e, f, g: (c.and_(c.eq(p * q, -1), c.eq(f, p * e), c.eq(g, f * q), c.eq(e, 1)), c.eq(g, -1)), p, q, e, f, g)
    for k in range(3):
        def cofactors(g, *l):
            A, = cut(list(l))
            r = c.and_(*[c.eq(sum(A[i][m] * A[i][k] for i in range(3)), 1 if m == k else 0) for m in range(3)], c.eq(g, c.det3(A)), c.eq(g, -1))
            return r, c.eq(minor(A, k, k), -A[k][k])
        c.theorem('cofactors of a reflection', cofactors, *([g] + flat(X)))

def best(c, R, Q, p, q, d):
    """lemma: no rotation Q has a larger trace of Q times the decomposed matrix than R"""
    U, s, W, M = c.svd()
    c.lemma('the factors have the same orientation, or not', c.eq(p * q, d))
    def framed(*l):
        s, (U, W, M, Q) = l[:3], cut(list(l[3:]))
        X = product(product(W, Q), U)
        return c.and_(*[c.eq(M[i][j], sum(U[i][k] * s[k] * W[k][j] for k in range(3))) for i in range(3) for j in range(3)]), c.eq(trace(product(Q, M)), sum(s[k] * X[k][k] for k in range(3)))
    m = [[c.let(x) for x in r] for r in M]
    t = []
    start = c.facts()
    for name, Z in (('found', R), ('any', Q)):
        Y = product(W, Z)
        X = product(Y, U)
        x = [c.let(X[i][i]) for i in range(3)]
        c.theorem('the trace of the rotation %s' % name, framed, *(s + flat(U, W, m, Z)))
        t.append(c.let(trace(product(Z, m))))
        c.lemma('the trace of the rotation %s, from the diagonal' % name, c.eq(t[-1], s[0] * x[0] + s[1] * x[1] + s[2] * x[2]))
        if Z is not Q:
            for i in range(3): c.lemma('the rotation found in the frames of the factors (%d)' % i, c.eq(X[i][i], d if i == 2 else 1))
            for i in range(3): c.lemma('diagonal (%d)' % i, c.eq(x[i], d if i == 2 else 1))
            c.theorem('the trace of the rotation found', lambda s, t, u, x, y, z, r: (c.and_(c.eq(r, s * x + t * y + u * z), c.eq(x, 1), c.eq(y, 1), c.eq(z, d)), c.eq(r, s + t + d * u)), *(s + x + [t[-1]]))
    turned(c, U, W, Q, p, q, d)
    for i in range(3): c.theorem('entries are at most one', lambda v, x, y, z: (c.and_(c.eq(x * x + y * y + z * z, 1), c.eq(v, x)), v <= 1), x[i], X[i][i], X[i][(i + 1) % 3], X[i][(i + 2) % 3])
    if d == 1: c.theorem('bound', lambda s, t, u, x, y, z: (c.and_(s >= t, t >= u, u >= 0, x <= 1, y <= 1, z <= 1), s * x + t * y + u * z <= s + t + u), *(s + x))
    else:
        def reflected(*l):
            A, = cut(list(l))
            t = trace(A)
            n = [sum(A[i][j] * A[i][j] for j in range(3)) for i in range(3)]
            z = lambda i, j: (A[i][j] - A[j][i]) * (A[i][j] - A[j][i])
            return c.and_(*[c.eq(q, 1) for q in n], *[c.eq(minor(A, i, i), -A[i][i]) for i in range(3)]), c.eq(4 * (1 - t), (1 - t) * (1 - t) + z(0, 1) + z(1, 2) + z(0, 2))
        c.theorem('trace of a reflection as squares', reflected, *flat(X))
        c.theorem('trace of a reflection', lambda p, q, r, t, x, y, z: (c.and_(c.eq(4 * (1 - t), (1 - t) * (1 - t) + x * x + y * y + z * z), c.eq(p + q + r, t)), p + q + r <= 1), *x, trace(X), X[0][1] - X[1][0], X[1][2] - X[2][1], X[0][2] - X[2][0])
        c.theorem('bound', lambda s, t, u, x, y, z: (c.and_(s >= t, t >= u, u >= 0, x <= 1, y <= 1, x + y + z <= 1), s * x + t * y + u * z <= s + t - u), *(s + x))
    c.theorem('the trace is the largest', lambda s, t, u, x, y, z, a, b: (c.and_(c.eq(b, s + t + d * u), c.eq(a, s * x + t * y + u * z), s * x + t * y + u * z <= s + t + d * u), a <= b), *(s + x + [t[1], t[0]]))
    c.only(start, t[0], t[1], t[1] <= t[0])
    return m, t

def least(c, a, b, N, turns, m, t):
    """lemma: the sum of squared distances, up to a constant, from the trace of the turn times the matrix m of products"""
    A = [[c.let(c.sum(N, lambda k: a[i][k] * a[j][k])) for j in range(3)] for i in range(3)]
    P = [[c.let(c.sum(N, lambda k: a[i][k] * b[j][k])) for j in range(3)] for i in range(3)]
    B = c.let(c.sum(N, lambda k: sum(b[i][k] * b[i][k] for i in range(3))))
    p, q = [c.let(c.sum(N, lambda k: a[i][k])) for i in range(3)], [c.let(c.sum(N, lambda k: b[i][k])) for i in range(3)]
    gram = lambda Z: [[sum(Z[i][j] * Z[i][l] for i in range(3)) for l in range(3)] for j in range(3)]
    def square(*l):
        A, Z = cut(list(l))
        G = gram(Z)
        return c.and_(*[c.eq(G[i][j], 1 if i == j else 0) for i in range(3) for j in range(3)]), c.eq(sum(G[i][j] * A[i][j] for i in range(3) for j in range(3)), trace(A))
    sums = lambda: ([[c.sum(N, lambda k: a[i][k] * a[j][k]) for j in range(3)] for i in range(3)], [[c.sum(N, lambda k: a[i][k] * b[j][k]) for j in range(3)] for i in range(3)],
        c.sum(N, lambda k: sum(b[i][k] * b[i][k] for i in range(3))), [c.sum(N, lambda k: a[i][k]) for i in range(3)], [c.sum(N, lambda k: b[i][k]) for i in range(3)])
    def split(Z, x, A, P, B, p, q):
        return (sum(gram(Z)[i][j] * A[i][j] for i in range(3) for j in range(3)) + B + N * sum(y * y for y in x) + 2 * sum(x[i] * Z[i][j] * p[j] for i in range(3) for j in range(3)) - 2 * sum(x[i] * q[i] for i in range(3)) - 2 * sum(Z[i][j] * P[j][i] for i in range(3) for j in range(3)))
    def coefficients(d, B, *l):
        (Z, A, P), x, p, q = cut(list(l[:27])), l[27:30], l[30:33], l[33:]
        As, Ps, Bs, ps, qs = sums()
        return c.and_(c.eq(d, distance(c, Z, x, a, b, N)), c.eq(B, Bs), *[c.eq(u, v) for u, v in zip(flat(A, P) + list(p) + list(q), flat(As, Ps) + ps + qs)]), c.eq(d, split(Z, x, A, P, B, p, q))
    for i in range(3):
        for j in range(3): c.lemma('products about the centroids (%d, %d)' % (i, j), c.eq(N * m[i][j], N * P[i][j] - p[i] * q[j]))
    E = [[c.let(N * m[i][j]) for j in range(3)] for i in range(3)]
    for i in range(3):
        for j in range(3): c.lemma('scaled products about the centroids (%d, %d)' % (i, j), c.eq(E[i][j], N * P[i][j] - p[i] * q[j]))
    dot = lambda x, y: sum(u * v for u, v in zip(x, y))
    def turned(*l):
        (Z,), p = cut(list(l[:9])), l[9:]
        return c.and_(*[c.eq(gram(Z)[i][j], 1 if i == j else 0) for i in range(3) for j in range(3)]), c.eq(sum(dot(Z[i], p) * dot(Z[i], p) for i in range(3)), dot(p, p))
    def scaled(n, t, *l):
        Z, m, E = cut(list(l))
        return c.and_(c.eq(t, trace(product(Z, m))), *[c.eq(E[i][j], n * m[i][j]) for i in range(3) for j in range(3)]), c.eq(n * t, trace(product(Z, E)))
    def moved(n, t, w, *l):
        (Z, P, E), p, q = cut(list(l[:27])), l[27:30], l[30:]
        return c.and_(c.eq(n * t, trace(product(Z, E))), c.eq(w, trace(product(Z, P))), *[c.eq(E[i][j], n * P[i][j] - p[i] * q[j]) for i in range(3) for j in range(3)]), c.eq(n * t, n * w - sum(q[i] * dot(Z[i], p) for i in range(3)))
    def named(d, g, B, w, *l):
        (Z, A, P), x, v, p, q = cut(list(l[:27])), l[27:30], l[30:33], l[33:36], l[36:]
        return c.and_(c.eq(d, split(Z, x, A, P, B, p, q)), c.eq(sum(gram(Z)[i][j] * A[i][j] for i in range(3) for j in range(3)), trace(A)), c.eq(g, trace(A)), c.eq(w, trace(product(Z, P))), *[c.eq(v[i], dot(Z[i], p)) for i in range(3)]), c.eq(d, g + B + N * dot(x, x) + 2 * dot(x, v) - 2 * dot(x, q) - 2 * w)
    def completed(n, d, g, B, t, w, pp, *l):
        x, v, q, r = l[:3], l[3:6], l[6:9], l[9:]
        return c.and_(c.eq(d, g + B + n * dot(x, x) + 2 * dot(x, v) - 2 * dot(x, q) - 2 * w), c.eq(n * t, n * w - dot(q, v)), c.eq(dot(v, v), pp), *[c.eq(r[i], n * x[i] + v[i] - q[i]) for i in range(3)]), c.eq(n * d, n * (g + B) - pp - dot(q, q) + dot(r, r) - 2 * n * t)
    D = []
    start = c.facts() + 2
    g, pp = c.let(trace(A)), c.let(dot(p, p))
    for (name, Z, x), f in zip(turns, t):
        D.append(c.let(distance(c, Z, x, a, b, N)))
        c.theorem('the sum of squared distances of the rotation %s, by coefficients' % name, coefficients, *([D[-1], B] + flat(Z, A, P) + list(x) + p + q))
        c.theorem('lengths under the rotation %s' % name, square, *flat(A, Z))
        c.theorem('length of the sum under the rotation %s' % name, turned, *(flat(Z) + p))
        v, w = [c.let(dot(Z[i], p)) for i in range(3)], c.let(trace(product(Z, P)))
        c.theorem('scaled products of the rotation %s' % name, scaled, N, f, *flat(Z, m, E))
        c.theorem('moved products of the rotation %s' % name, moved, *([N, f, w] + flat(Z, P, E) + p + q))
        r = [c.let(N * x[i] + v[i] - q[i]) for i in range(3)]
        if Z is turns[0][1]:
            for i in range(3): c.lemma('the centroid of the rotation found (%d)' % i, c.eq(r[i], 0))
        c.lemma('length of the turned sum of the rotation %s' % name, c.eq(dot(v, v), pp))
        c.lemma('moved products of the rotation %s' % name, c.eq(N * f, N * w - dot(q, v)))
        c.theorem('naming the sums of the rotation %s' % name, named, *([D[-1], g, B, w] + flat(Z, A, P) + list(x) + v + p + q))
        c.theorem('completing the square for the rotation %s' % name, completed, *([N, D[-1], g, B, f, w, pp] + list(x) + v + q + r))
        if Z is turns[0][1]:
            final = lambda n, d, g, B, pp, f, x, y, z, *q: (c.and_(c.eq(n * d, n * (g + B) - pp - dot(q, q) + x * x + y * y + z * z - 2 * n * f), c.eq(x, 0), c.eq(y, 0), c.eq(z, 0)), c.eq(n * d, n * (g + B) - pp - dot(q, q) - 2 * n * f))
            c.theorem('the least sum', final, N, D[-1], g, B, pp, f, *(r + q))
            c.only(start, D[0], final(N, D[0], g, B, pp, f, *(r + q))[1])
    c.theorem('a larger trace gives a smaller sum', lambda n, d, e, g, B, pp, s, t, x, y, z, *q: (c.and_(n > 0, c.eq(n * d, n * (g + B) - pp - dot(q, q) - 2 * n * s), c.eq(n * e, n * (g + B) - pp - dot(q, q) + x * x + y * y + z * z - 2 * n * t), t <= s), d <= e), N, *(D + [g, B, pp] + t + r + q))

def is_rotation(c, R):
    c.prove('orthonormal', c.and_(*[c.eq(sum(x[k] * y[k] for k in range(3)), 1 if i == j else 0, deg=0) for m in (R, [[R[j][i] for j in range(3)] for i in range(3)]) for i, x in enumerate(m) for j, y in enumerate(m) if j <= i]))
    c.prove('of determinant one, never a reflection', c.eq(c.det3(R), 1, deg=0))

@contract('P26', 'transform', [RT + '.find_rigid_transform'], samples=400, budget=1200)
def transform(c):
    """a rotation and a translation mapping the centroids onto each other, no other rigid motion giving a smaller sum of squared distances; or an error"""
    N = c.int('N', lo=1)
    a, b = points(c, N)
    turned = c.choice('layout', [0, 1, 2, 3])
    if turned: c.assume(c.ne(N, 3))
    x, y = (a.T if turned & 1 else a), (b.T if turned & 2 else b)
    r = c.call(RT + '.find_rigid_transform', x, y)
    if c.raised(r): return
    R, T = r
    c.tolerance(1e3)
    c.prove('a rotation matrix and a translation', c.and_(c.shape_is(R, (3, 3)), c.shape_is(T, (3, 1))))
    T = [T[i][0] for i in range(3)]
    x = factors(c, R) if c.symbolic and c.svd() else None
    is_rotation(c, R)
    ma, mb = mean(c, a, N), mean(c, b, N)
    c.prove('the centroid is mapped onto the centroid', c.and_(*[c.eq(sum(R[i][j] * ma[j] for j in range(3)) + T[i], mb[i]) for i in range(3)]))
    Q = rotation(c, 'Q')
    t = c.vec('t', 3)
    if not c.symbolic and c.boolean('best'): t = [mb[i] - sum(Q[i][j] * ma[j] for j in range(3)) for i in range(3)]
    if x is not None:
        m, f = best(c, R, Q, *x)
        least(c, a, b, N, [('found', R, T), ('any', Q, t)], m, f)
    c.prove('no rotation gives a smaller sum of squared distances', c.le(distance(c, R, T, a, b, N), distance(c, Q, t, a, b, N), deg=2))

@contract('P26', 'copies', [RT + '.find_rigid_transform'], samples=400, budget=700)
def copies(c):
    """when points spanning at least a plane and a rotated and translated copy are not refused, every point is mapped onto its counterpart"""
    copied(c)

@contract('P26', 'copies_accepted', [RT + '.find_rigid_transform'], samples=400, concrete_only='that no reflection arises for a copy needs the positive definiteness of the products of the points in the frames of the decomposition; checked at run time')
def accepted(c):
    """a rotated and translated copy of points spanning at least a plane is not refused"""
    copied(c)

def copied(c):
    N = c.int('N', lo=3)
    a = c.arr('a', (3, N))
    B = rotation(c, 'B')
    t = c.vec('t', 3)
    turned = c.choice('layout', [0, 3] if c.symbolic else [0, 1, 2, 3])
    if turned: c.assume(c.ne(N, 3))
    if not c.symbolic:
        np = c.np
        a = np.array(a, dtype=float)
        if c.boolean('flat'):
            a[2] = 0
            a = np.dot(rotation(c, 'P'), a) + np.array(c.vec('at', 3))[:, None]
        ac = a - a.mean(axis=1)[:, None]
        s = np.linalg.svd(ac)[1]
        c.well(lambda: s[1] > 1e-2 * (s[0] + np.abs(a).max() * 1e-1))
        b = c.np.array([[sum(B[i][j] * a[j][k] for j in range(3)) + t[i] for k in range(N)] for i in range(3)])
    else:
        b = c.arr('b', (3, N))
        H = c.forall(N, lambda k: c.and_(*[c.eq(b[i][k], sum(B[i][j] * a[j][k] for j in range(3)) + t[i]) for i in range(3)]))
        c.assume(H)
    c.tolerance(1e4)
    r = c.call(RT + '.find_rigid_transform', (a.T if turned & 1 else a), (b.T if turned & 2 else b))
    if c.raised(r):
        if not c.symbolic: c.prove('a copy is not refused', False)
        return
    if not c.symbolic: c.prove('a copy is not refused', True)
    R, T = r
    T = [T[i][0] for i in range(3)]
    if c.symbolic and c.svd():
        x = factors(c, R)
        is_rotation(c, R)
        m, f = best(c, R, B, *x)
        least(c, a, b, N, [('found', R, T), ('any', B, t)], m, f)
        for k in c.each('k', N):
            c.congruent_sums('the copy is at distance zero', N, lambda j: sum((p - b[i][j]) * (p - b[i][j]) for i, p in enumerate(image(B, t, a, j))), lambda j: c.q(0), lambda j: c.instance(H, j))
            c.squares_vanish(N, lambda j: [p - b[i][j] for i, p in enumerate(image(R, T, a, j))], k)
            c.prove('every point is mapped onto its counterpart', c.and_(*[c.eq(p, b[i][k]) for i, p in enumerate(image(R, T, a, k))]))
    else: c.prove('every point is mapped onto its counterpart', c.forall(N, lambda k: c.and_(*[c.eq(p, b[i][k]) for i, p in enumerate(image(R, T, a, k))])))

def about_origin(c, a, b, N, turns, m, t):
    """lemma: the sum of squared distances without a translation, up to a constant, from the trace of the turn times the matrix m of products"""
    A = [[c.let(c.sum(N, lambda k: a[i][k] * a[j][k])) for j in range(3)] for i in range(3)]
    B, g = c.let(c.sum(N, lambda k: sum(b[i][k] * b[i][k] for i in range(3)))), c.let(trace(A))
    gram = lambda Z: [[sum(Z[i][j] * Z[i][l] for i in range(3)) for l in range(3)] for j in range(3)]
    def split(d, B, *l):
        Z, A, m = cut(list(l))
        return c.and_(c.eq(d, distance(c, Z, [0, 0, 0], a, b, N)), c.eq(B, c.sum(N, lambda k: sum(b[i][k] * b[i][k] for i in range(3)))), *[c.eq(x[i][j], c.sum(N, lambda k: a[i][k] * y[j][k])) for x, y in ((A, a), (m, b)) for i in range(3) for j in range(3)]), c.eq(d, sum(gram(Z)[i][j] * A[i][j] for i in range(3) for j in range(3)) + B - 2 * trace(product(Z, m)))
    def square(*l):
        A, Z = cut(list(l))
        return c.and_(*[c.eq(gram(Z)[i][j], 1 if i == j else 0) for i in range(3) for j in range(3)]), c.eq(sum(gram(Z)[i][j] * A[i][j] for i in range(3) for j in range(3)), trace(A))
    def named(d, g, B, t, *l):
        Z, A, m = cut(list(l))
        return c.and_(c.eq(d, sum(gram(Z)[i][j] * A[i][j] for i in range(3) for j in range(3)) + B - 2 * trace(product(Z, m))), c.eq(sum(gram(Z)[i][j] * A[i][j] for i in range(3) for j in range(3)), trace(A)), c.eq(g, trace(A)), c.eq(t, trace(product(Z, m)))), c.eq(d, g + B - 2 * t)
    D = []
    for (name, Z), f in zip(turns, t):
        D.append(c.let(distance(c, Z, [0, 0, 0], a, b, N)))
        c.theorem('the sum of squared distances of the rotation %s, by coefficients' % name, split, *([D[-1], B] + flat(Z, A, m)))
        c.theorem('lengths under the rotation %s' % name, square, *flat(A, Z))
        c.theorem('the sum of squared distances of the rotation %s' % name, named, *([D[-1], g, B, f] + flat(Z, A, m)))
    c.theorem('a larger trace gives a smaller sum', lambda d, e, g, B, s, t: (c.and_(c.eq(d, g + B - 2 * s), c.eq(e, g + B - 2 * t), t <= s), d <= e), *(D + [g, B] + t))

@contract('P26', 'rotation', [RT + '.find_rigid_rotation'], samples=400, budget=400)
def only_rotation(c):
    """a rotation, no other giving a smaller sum of squared distances; times the ratio of the sizes when scaling is allowed"""
    alone(c, c.int('N', lo=2))

@contract('P26', 'single', [RT + '.find_rigid_rotation'], samples=150, concrete_only='the optimum for one point follows from that of the two pairs the function decomposes only through a rotation about their cross product; checked at run time against random rotations')
def single(c):
    """the same for single points"""
    alone(c, 1)

def alone(c, N):
    a, b = points(c, N)
    if not c.symbolic and c.boolean('copies'): b = c.np.dot(rotation(c, 'B'), a)
    scaling = c.boolean('scaling')
    if scaling:
        A, B = c.sum(N, lambda k: sum(a[i][k] * a[i][k] for i in range(3))), c.sum(N, lambda k: sum(b[i][k] * b[i][k] for i in range(3)))
        c.assume(c.and_(c.ne(A, 0, deg=2), c.ne(B, 0, deg=2)))
        if not c.symbolic: c.well(lambda: c.sqrt(A) > 1e-2 * c.u and c.sqrt(B) > 1e-2 * c.u)
    c.tolerance(1e3)
    R = c.value('find_rigid_rotation', RT + '.find_rigid_rotation', a, b, **({'allow_scaling': True} if scaling else {}))
    c.prove('a matrix', c.shape_is(R, (3, 3)))
    if scaling:
        S = R
        R = c.value('find_rigid_rotation', RT + '.find_rigid_rotation', a, b)
        s = c.sqrt(B) / c.sqrt(A)
        c.prove('the rotation times the ratio of the sizes', c.and_(*[c.eq(S[i][j], R[i][j] * s, deg=0) for i in range(3) for j in range(3)]))
    x = factors(c, R) if c.symbolic and c.svd() else None
    is_rotation(c, R)
    Q = rotation(c, 'Q')
    O = [0, 0, 0]
    if x is not None:
        m, f = best(c, R, Q, *x)
        about_origin(c, a, b, N, [('found', R), ('any', Q)], m, f)
    c.prove('no rotation gives a smaller sum of squared distances', c.le(distance(c, R, O, a, b, N), distance(c, Q, O, a, b, N), deg=2))
