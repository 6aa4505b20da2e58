"""P32: differentiable face and vertex normals (blmath.optimization.objectives.normals)."""
from vc.registry import contract
NO = 'blmath.optimization.objectives.normals.'

def skew(x): return [[0, -x[2], x[1]], [x[2], 0, -x[0]], [-x[1], x[0], 0]]

def dense(J): return J.toarray() if hasattr(J, 'toarray') else J

def surface(c, used=False, n=None):
    """a mesh with non-degenerate faces: vertices, faces"""
    np, r = c.np, c.rng
    n = n or r.randint(3, 8)
    v = np.array([[r.gauss(0, 1) for k in range(3)] for i in range(n)]) * c.u + (np.array([r.gauss(0, 3) for k in range(3)]) * c.u if r.random() < .5 else 0)
    f = [r.sample(range(n), 3) for i in range(r.randint(1, 10))]
    if used:
        for i in range(n):
            if not any(i in x for x in f): f.append([i] + r.sample([j for j in range(n) if j != i], 2))
    r.shuffle(f)
    f = np.array(f, dtype=r.choice([np.int64, np.uint32, np.int32]))
    a, b = v[f[:, 1]] - v[f[:, 0]], v[f[:, 2]] - v[f[:, 0]]
    x = np.cross(a, b)
    c.inputs.update(v=v.tolist(), f=f.tolist())
    c.scale = max(c.scale, abs(v).max())
    c.well(lambda: (np.linalg.norm(x, axis=1) > .05 * np.linalg.norm(a, axis=1) * np.linalg.norm(b, axis=1)).all() and np.linalg.norm(a, axis=1).min() > .05 * c.u)
    return v, f, x

def cross_jacobian(np, v, f):
    """of the scaled face normals with respect to the vertices"""
    J = np.zeros((3 * len(f), 3 * len(v)))
    for i, t in enumerate(f):
        t = [int(x) for x in t]
        # d((q - p) x (s - p)) = (q - s) x dp + (s - p) x ... written out for each corner
        p, q, s = (v[k] for k in t)
        for k, w in ((t[0], s - q), (t[1], p - s), (t[2], q - p)): J[3 * i:3 * i + 3, 3 * k:3 * k + 3] += np.array(skew(w))
    return J

def power_jacobian(np, x, e):
    """of x / |x|^e, row by row"""
    n = len(x)
    J = np.zeros((3 * n, 3 * n))
    for i in range(n):
        l = np.linalg.norm(x[i])
        J[3 * i:3 * i + 3, 3 * i:3 * i + 3] = (np.eye(3) - e * np.outer(x[i], x[i]) / l ** 2) / l ** e
    return J

def close(np, a, b, tol=1e-7):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.isfinite(a).all()) and float(abs(a - b).max()) <= tol * max(float(abs(b).max()), 1e-300)

RT = 'the objects combine chumpy expressions and scipy sparse matrices; checked at run time with the real chumpy on generated meshes of up to 8 vertices and 18 faces'

@contract('P32', 'faces', [NO + 'TriNormals', NO + 'TriNormalsScaled', NO + 'TriEdges', NO + 'CrossProduct', NO + 'NormalizedNx3'], samples=300, concrete_only=RT, frame=False)
def faces(c):
    """face normals, scaled and normalised: values and Jacobians, before and after the vertices change"""
    np, ch = c.np, c.chumpy
    m = c.mod('blmath.optimization.objectives.normals')
    v, f, x = surface(c)
    x0 = v
    V = ch.array(v if c.rng.random() < .5 else v.ravel())
    S, N = c.value('TriNormalsScaled', m.TriNormalsScaled, V, f), c.value('TriNormals', m.TriNormals, V, f)
    for step in range(2):
        l = np.linalg.norm(x, axis=1)[:, None]
        order = c.rng.random() < .5
        if order: JN = N.dr_wrt(V)
        c.prove('the scaled normal of a face is the cross product of its edges', close(np, np.reshape(S.r, (-1, 3)), x))
        c.prove('the normal of a face is the normalised cross product of its edges', close(np, np.reshape(N.r, (-1, 3)), x / l))
        J = cross_jacobian(np, v, f)
        c.prove('the Jacobian of the scaled normals', close(np, dense(S.dr_wrt(V)), J))
        c.prove('the Jacobian of the normals', close(np, dense(JN if order else N.dr_wrt(V)), power_jacobian(np, x, 1).dot(J)))
        E = c.value('TriEdges', m.TriEdges, f, 2, 1, V)
        c.prove('edges are differences of the vertices', close(np, np.reshape(E.r, (-1, 3)), v[f[:, 2]] - v[f[:, 1]]))
        JE = np.zeros((3 * len(f), v.size))
        for i, t in enumerate(f):
            for k in range(3): JE[3 * i + k, 3 * int(t[2]) + k] += 1; JE[3 * i + k, 3 * int(t[1]) + k] -= 1
        c.prove('the Jacobian of the edges', close(np, dense(E.dr_wrt(V)), JE))
        w = v + np.array([[c.rng.gauss(0, .02) for k in range(3)] for i in v]) * c.u
        a, b = w[f[:, 1]] - w[f[:, 0]], w[f[:, 2]] - w[f[:, 0]]
        y = np.cross(a, b)
        if (np.linalg.norm(y, axis=1) < .04 * np.linalg.norm(a, axis=1) * np.linalg.norm(b, axis=1)).any(): break
        v, x = w, y
        V[:] = v.reshape(np.shape(V.r))

@contract('P32', 'vertices', [NO + 'VertNormals'], samples=300, concrete_only=RT, frame=False)
def vertices(c):
    """vertex normals: the (averaged) scaled normals of the faces around a vertex, normalised, or scaled by the inverse root of the length"""
    np, ch = c.np, c.chumpy
    m = c.mod('blmath.optimization.objectives.normals')
    kind = c.boolean('normalized')
    v, f, x = surface(c, used=True)
    V = ch.array(v)
    k = {} if kind and c.rng.random() < .5 else {'normalized': kind}
    N = c.value('VertNormals', lambda: m.VertNormals(v=V, f=f, **k))
    for step in range(3):
        A = np.zeros((3 * len(v), 3 * len(f)))
        for i, t in enumerate(f):
            for j in t:
                for q in range(3): A[3 * int(j) + q, 3 * i + q] += 1
        if not kind: A = A / A.sum(axis=1)[:, None]
        s = A.dot(x.ravel()).reshape(-1, 3)
        l = np.linalg.norm(s, axis=1)[:, None]
        if l.min() < .05 * np.linalg.norm(x, axis=1).max(): 
            if step == 0: c.well(lambda: False)
            return
        e = 1 if kind else .5
        c.prove('the normals', close(np, N.r, s / l ** e))
        J = dense(N.dr_wrt(V))
        c.prove('the Jacobian', close(np, J, power_jacobian(np, s, e).dot(A).dot(cross_jacobian(np, v, f))))
        w = v + np.array([[c.rng.gauss(0, .02) for q in range(3)] for i in v]) * c.u
        v = w
        x = np.cross(v[f[:, 1]] - v[f[:, 0]], v[f[:, 2]] - v[f[:, 0]])
        q = c.rng.random()
        if q < .4: V[:] = v
        elif q < .8:
            V = ch.array(v)
            N.v = V
        else:
            v, f, x = surface(c, used=True, n=len(v))
            V[:] = v
            N.f = f

@contract('P32', 'rows', [NO + 'NormalizedNx3', NO + 'CrossProduct'], samples=200, concrete_only=RT, frame=False)
def rows(c):
    """cross products and normalisation of any rows, also after the operands were replaced by others, of other sizes"""
    np, ch = c.np, c.chumpy
    m = c.mod('blmath.optimization.objectives.normals')
    n = c.rng.randint(1, 6)
    g = lambda: np.array([[c.rng.gauss(0, 1) for k in range(3)] for i in range(n)]) * c.u
    a, b = g(), g()
    c.well(lambda: np.linalg.norm(a, axis=1).min() > .05 * c.u)
    shape = c.rng.choice([(n, 3), (3 * n,)])
    A, B = ch.array(a.reshape(shape)), ch.array(b.reshape(shape))
    X, N = c.value('CrossProduct', m.CrossProduct, A, B), c.value('NormalizedNx3', m.NormalizedNx3, A)
    for step in range(2):
        c.prove('the cross products', close(np, np.reshape(X.r, (-1, 3)), np.cross(a, b)))
        block = lambda ms: np.array([[ms[i // 3][i % 3][j % 3] if i // 3 == j // 3 else 0. for j in range(3 * n)] for i in range(3 * n)])
        c.prove('the Jacobian for the first factor', close(np, dense(X.dr_wrt(A)), block([skew(-x) for x in b])))
        c.prove('the Jacobian for the second factor', close(np, dense(X.dr_wrt(B)), block([skew(x) for x in a])))
        c.prove('the normalised rows, in the shape given', close(np, N.r, (a / np.linalg.norm(a, axis=1)[:, None]).reshape(shape)))
        c.prove('the Jacobian of the normalised rows', close(np, dense(N.dr_wrt(A)), power_jacobian(np, a, 1)))
        if c.rng.random() < .5:
            a, b = b, a
            if np.linalg.norm(a, axis=1).min() <= .05 * c.u: return
            A[:], B[:] = a.reshape(shape), b.reshape(shape)
        else:
            n = c.rng.randint(1, 6)
            a, b = g(), g()
            if np.linalg.norm(a, axis=1).min() <= .05 * c.u: return
            shape = c.rng.choice([(n, 3), (3 * n,)])
            A, B = ch.array(a.reshape(shape)), ch.array(b.reshape(shape))
            X.a, X.b, N.v = A, B, A
