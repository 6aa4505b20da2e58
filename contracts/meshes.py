"""P28: cross sections of meshes, P29: planar convex hulls."""
from vc.registry import contract
PL = 'blmath.geometry.primitives.plane.Plane'
PO = 'blmath.geometry.primitives.polyline.Polyline'
CX = 'blmath.geometry.convexify.'
RO = 'blmath.geometry.transform.rotation.'

class Mesh(object):
    def __init__(self, v, f): self.v, self.f = v, f

# ------------------------------------------------------------------ P28
def grid(c, n, m, wrap_n, wrap_m):
    """faces of a grid of n x m quads, cut into triangles, optionally closed up in either direction; number of vertices"""
    N, M = n + (0 if wrap_n else 1), m + (0 if wrap_m else 1)
    ix = lambda i, j: (i % N) * M + (j % M)
    f = []
    for i in range(n):
        for j in range(m):
            a, b, d, e = ix(i, j), ix(i + 1, j), ix(i + 1, j + 1), ix(i, j + 1)
            f += [[a, b, d], [a, d, e]] if c.rng.random() < .5 else [[a, b, e], [b, d, e]]
    return f, N, M

def mesh(c):
    """a manifold triangle mesh of one to three pieces, with or without boundary"""
    np, r = c.np, c.rng
    vs, fs = [], []
    n0 = 0
    for piece in range(r.choice([1, 1, 2, 2, 3])):
        kind = r.choice(['tetrahedron', 'box', 'torus', 'tube', 'sheet', 'triangle', 'octahedron', 'fan'])
        if kind == 'tetrahedron': v, f = [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]]
        elif kind == 'octahedron': v, f = [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]], [[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]]
        elif kind == 'triangle': v, f = [[0, 0, 0], [1, 0, 0], [0, 1, 1]], [[0, 1, 2]]
        elif kind == 'fan':
            k = r.randint(3, 7)
            v, f = [[0, 0, 1]] + [[np.cos(2 * np.pi * i / k), np.sin(2 * np.pi * i / k), 0] for i in range(k)], [[0, i + 1, (i + 1) % k + 1] for i in range(k)]
        elif kind == 'box':
            v = [[x, y, z] for x in (0, 1) for y in (0, 1) for z in (0, 1)]
            f = [[0, 1, 3], [0, 3, 2], [4, 6, 7], [4, 7, 5], [0, 4, 5], [0, 5, 1], [2, 3, 7], [2, 7, 6], [0, 2, 6], [0, 6, 4], [1, 5, 7], [1, 7, 3]]
        else:
            n, m = r.randint(3, 6), r.randint(3, 6)
            f, N, M = grid(c, n, m, kind in ('torus', 'tube'), kind == 'torus')
            v = []
            for i in range(N):
                for j in range(M):
                    s, t = 2 * np.pi * i / n, 2 * np.pi * j / m
                    v.append([np.cos(s) * (2 + np.cos(t)), np.sin(s) * (2 + np.cos(t)), np.sin(t)] if kind == 'torus' else [np.cos(s), np.sin(s), j / 2.] if kind == 'tube' else [i / 2., j / 2., r.uniform(-1, 1)])
        v = np.array(v, dtype=float)
        if r.random() < .6: v = v + .1 * np.array([[r.uniform(-1, 1) for k in range(3)] for x in v])
        f = [x if r.random() < .5 else x[1:] + x[:1] for x in f]
        if r.random() < .3: f = [x for x in f if r.random() < .85] or f
        v = v + np.array([r.uniform(-1, 1) * (1 if r.random() < .5 else 4) for k in range(3)])
        vs.append(v); fs += [[i + n0 for i in x] for x in f]
        n0 += len(v)
    r.shuffle(fs)
    v = np.vstack(vs) * c.u
    p = list(range(n0))
    if r.random() < .5:
        r.shuffle(p)
        w = np.empty_like(v)
        for i in range(n0): w[p[i]] = v[i]
        v, fs = w, [[p[i] for i in x] for x in fs]
    f = np.array(fs, dtype=r.choice([np.int64, np.uint32, np.int32]))
    return v, f

def key(a, b): return (min(a, b), max(a, b))

def section(c, v, f, s):
    """reference: the crossed edges with their crossing points, and the segments as pairs of crossed edges"""
    pts, segs = {}, set()
    for t in f:
        t = [int(x) for x in t]
        if len({s[x] > 0 for x in t}) == 1: continue
        es = [key(a, b) for a, b in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0])) if (s[a] > 0) != (s[b] > 0)]
        for a, b in es: pts[a, b] = v[a] + (v[b] - v[a]) * (s[a] / (s[a] - s[b]))
        segs.add(frozenset(es))
    return pts, segs

def pieces(pts, segs):
    """connected pieces of the segments: lists of sets of crossed edges"""
    at = {p: {p} for p in pts}
    for a, b in map(tuple, segs):
        if at[a] is not at[b]:
            u = at[a] | at[b]
            for x in u: at[x] = u
    out = []
    for u in at.values():
        if not any(u is w for w in out): out.append(u)
    return out

def cut(c, v):
    """a plane in general position"""
    np, r = c.np, c.rng
    n = np.array(r.choice([[1., 0, 0], [0, 1., 0], [0, 0, 1.], [r.gauss(0, 1), r.gauss(0, 1), r.gauss(0, 1)], [r.gauss(0, 1), r.gauss(0, 1), r.gauss(0, 1)]]))
    n = n / np.linalg.norm(n)
    i = r.randrange(len(v))
    o = v.mean(axis=0) * r.choice([1, 1, .5]) + .3 * np.array([r.uniform(-1, 1) for k in range(3)]) * c.u
    if r.random() < .1: o = o + 100 * c.u * n
    s = np.dot(v - o, n)
    return c.value('Plane', PL, o, n), s

def edge_of(c, p, pts, tol):
    """the crossed edges whose crossing point is p"""
    return [e for e in pts if abs(p - pts[e]).max() <= tol]

def chains(c, what, comps, pts, segs, whole, tol):
    """comps are exactly the connected pieces `whole` of the section"""
    seen, found = [], []
    for q in comps:
        n = len(q.v)
        c.prove(what + ': chains', n > 1 and q.e.tolist() == [[i, i + 1] for i in range(n - 1)] + ([[n - 1, 0]] if q.closed else []))
        ids = []
        for p in q.v:
            e = edge_of(c, p, pts, tol)
            if len(e) != 1:
                c.prove(what + ': every vertex is the crossing point of a crossed edge', False, note=str(e))
                return
            ids.append(e[0])
        seen += ids
        pairs = list(zip(ids, ids[1:])) + ([(ids[-1], ids[0])] if q.closed else [])
        found += [frozenset(x) for x in pairs]
        c.prove(what + ': each chain is one connected piece', any(set(ids) == u for u in whole))
        u = set(ids)
        n = sum(1 for s in segs if s <= u)
        c.prove(what + ': a loop is closed, a chain that ends is open', bool(q.closed) == (n == len(u)))
    c.prove(what + ': every crossing point once', sorted(seen) == sorted(x for u in whole for x in u))
    ss = [s for s in segs if any(s <= u for u in whole)]
    c.prove(what + ': the segments are those in which the plane meets the crossed faces', len(found) == len(set(found)) and set(found) == set(ss))

@contract('P28', 'sections', [PL + '.mesh_xsections', PL + '.mesh_xsection', PL + '.mesh_intersecting_faces'], samples=2000, concrete_only='the path tracing over graphs of any size is beyond the verifier; checked at run time on generated meshes of up to 3 pieces and 250 faces')
def sections(c):
    """exactly the crossing points, segments and connected pieces of the intersection"""
    np = c.np
    v, f = mesh(c)
    P, s = cut(c, v)
    scale = abs(v).max()
    pts, segs = section(c, v, f, s)
    xs = np.array(list(pts.values()))
    tol = 1e-6 * scale
    c.well(lambda: abs(s).min() > 1e-4 * scale and (len(xs) < 2 or min(abs(xs[i + 1:] - x).max(axis=1).min() for i, x in enumerate(xs[:-1])) > 1e-4 * scale))
    m = Mesh(v, f)
    fs = c.value('mesh_intersecting_faces', P.mesh_intersecting_faces, m)
    want = np.array([t for t in f if len({bool(s[x] > 0) for x in t}) == 2]).reshape(-1, 3)
    c.prove('the faces reported are exactly those with vertices on both sides', np.asarray(fs).shape == want.shape and bool((fs == want).all()))
    comps = c.value('mesh_xsections', P.mesh_xsections, m)
    whole = pieces(pts, segs)
    c.prove('a list of chains', type(comps) is list and all(type(q).__name__ == 'Polyline' for q in comps))
    chains(c, 'all chains', comps, pts, segs, whole, tol)
    one = c.value('mesh_xsection', P.mesh_xsection, m)
    if comps: c.prove('one chain through all of them', one.closed and sorted(map(tuple, one.v)) == sorted(tuple(p) for q in comps for p in q.v))
    else: c.prove('no intersection gives an empty chain', one.v is None)
    near = np.array([[c.rng.uniform(-2, 2) for k in range(3)] for i in range(c.rng.randint(1, 5))]) * c.u
    if pts and c.rng.random() < .7: near = near * .1 + xs[c.rng.randrange(len(xs))]
    one = c.value('mesh_xsections near a neighborhood', P.mesh_xsections, m, neighborhood=near)
    if not comps: c.prove('no intersection gives no chain near a neighborhood', one == []); return
    mean = [np.mean([min(np.linalg.norm(near - pts[e], axis=1)) for e in u]) for u in whole]
    order = np.argsort(mean)
    if len(whole) > 1 and mean[order[1]] - mean[order[0]] < 1e-6 * scale: return
    c.prove('one chain near the neighborhood', len(one) == 1)
    chains(c, 'the chain closest on average to the neighborhood', one, pts, segs, [whole[order[0]]], tol)

@contract('P28', 'faces', [PL + '.mesh_intersecting_faces'], samples=100, budget=60)
def faces(c):
    """exactly the faces with vertices on both sides, for any number of faces and vertices"""
    n, k = c.int('n', lo=1), c.int('k', lo=0)
    v = c.pts('v', n)
    f = c.iarr('f', (k, 3), lo=0, hi=n)
    o, d = c.vec('o', 3), c.unit('d')
    if not c.symbolic:
        d = c.np.array(d)
        c.well(lambda: min(abs(c.np.dot(c.np.array(v) - c.np.array(o), d))) > 1e-6 * c.u)
    P = c.value('Plane', PL, o, d)
    g = lambda i: sum((v[i][j] - o[j]) * d[j] for j in range(3))
    c.assume(c.forall(n, lambda i: c.ne(g(i), 0)))
    r = c.value('mesh_intersecting_faces', P.mesh_intersecting_faces, Mesh(v, f))
    both = lambda i: c.not_(c.and_(c.iff(c.gt(g(f[i][0]), 0), c.gt(g(f[i][1]), 0)), c.iff(c.gt(g(f[i][1]), 0), c.gt(g(f[i][2]), 0))))
    c.prove('exactly the faces with vertices on both sides', c.selects_rows(r, f, k, both))

# ------------------------------------------------------------------ P29
def planar(c):
    """a planar curve of three or more vertices spanning its plane: vertices, unit normal, plane coordinates"""
    np, r = c.np, c.rng
    n = r.choice([3, 3, 4, 5, 6, 8, 12, 20])
    kind = r.choice(['any', 'any', 'lattice', 'circle', 'star'])
    w = r.uniform(0, 6.3)
    if kind == 'any': p = [[r.gauss(0, 1), r.gauss(0, 1)] for i in range(n)]
    elif kind == 'lattice': p = [[r.randint(-2, 2), r.randint(-2, 2)] for i in range(n)]
    else: p = [[(1 if kind == 'circle' or i % 2 else .4) * f(w + 6.283185307179586 * i / n) for f in (np.cos, np.sin)] for i in range(n)]
    p = np.array(p, dtype=float)
    if r.random() < .2: p = p[::-1].copy()
    if r.random() < .2: p[r.randrange(n)] = p[r.randrange(n)]
    q = p - p.mean(axis=0)
    s = np.linalg.svd(q)[1]
    c.well(lambda: s[1] > 1e-2 * s[0] and s[0] > 0)
    p = p * c.u
    d = np.array(r.choice([[0., 1, 0], [0., -1, 0], [1., 0, 0], [0, 0, -1.], [0, 1, 1], [r.gauss(0, 1), r.gauss(0, 1), r.gauss(0, 1)], [r.gauss(0, 1), r.gauss(0, 1), r.gauss(0, 1)], [r.gauss(0, 1) * .05, r.choice([-1, 1]), r.gauss(0, 1) * .05]]))
    d = d / np.linalg.norm(d)
    x = np.cross(d, np.eye(3)[np.argmin(abs(d))])
    x = x / np.linalg.norm(x)
    y = np.cross(d, x)
    o = np.array([r.gauss(0, 1) for k in range(3)]) * c.u * r.choice([0, 1, 1, 5])
    v = o + p[:, :1] * x + p[:, 1:] * y
    c.inputs.update(v=v.tolist())
    return v, d, p

def convex(c, what, h, v, d, tol):
    """the points h are in cyclic order around a convex polygon containing the points v (all in a plane of normal d)"""
    np = c.np
    m = len(h)
    c.prove(what + ': a polygon', m >= 3)
    e = np.roll(h, -1, axis=0) - h
    z = np.cross(e, np.roll(e, -1, axis=0)).dot(d)
    s = 1 if z.sum() > 0 else -1
    l = np.linalg.norm(e, axis=1)
    c.prove(what + ': no vertex twice', l.min() > 0)
    t = np.arctan2(s * z, np.sum(e * np.roll(e, -1, axis=0), axis=1))
    c.prove(what + ': in cyclic order around a convex polygon', t.min() > -1e-6 and abs(t.sum() - 2 * np.pi) < 1e-3)
    out = max(float((-s * np.cross(e[k], v - h[k]).dot(d)).max()) / l[k] for k in range(m))
    c.prove(what + ': every vertex of the curve inside or on the polygon', out <= tol)

def normals(c, d):
    r = c.rng
    return d * r.choice([1, -1]) * r.choice([1, 1, 3, 1e-3, 200.])

@contract('P29', 'hull', [CX + 'convexify_planar_curve'], samples=600, concrete_only='scipy.spatial.ConvexHull and sklearn PCA are external; the whole is checked at run time on generated planar curves of up to 20 vertices (the projection is proved in P29/projection)')
def hull(c):
    """the hull consists of vertices of the curve, in order around a convex polygon containing all of them"""
    np, r = c.np, c.rng
    v, d, p = planar(c)
    size = abs(v - v.mean(axis=0)).max() 
    tol = 1e-7 * (size + abs(v).max())
    curve = c.value('Polyline', PO, v.copy(), closed=r.random() < .5)
    k = {}
    if r.random() < .5:
        k['normal'] = normals(c, d)
        if r.random() < .3: k['normal'] = list(k['normal'])
    h, idx = c.value('hull', CX + 'convexify_planar_curve', curve, want_vertices=True, **k)
    c.prove('a curve with the same closedness', type(h) is type(curve) and h.closed == curve.closed and h is not curve)
    idx = [int(i) for i in idx]
    c.prove('the indices select the vertices of the hull', len(idx) == len(h.v) and len(set(idx)) == len(idx) and all(0 <= i < len(v) for i in idx) and bool((v[idx] == h.v).all()))
    convex(c, 'hull', h.v, v, d, tol)
    g = c.value('hull without indices', CX + 'convexify_planar_curve', curve, **k)
    c.prove('the same without indices', g.v.shape == h.v.shape and bool((g.v == h.v).all()) and g.closed == curve.closed)

@contract('P29', 'flatten', [CX + 'convexify_planar_curve', CX + 'convexify_and_flatten_planar_curve', RO + 'rotate_to_xz_plane'], samples=600, concrete_only='scipy.spatial.ConvexHull, cv2.Rodrigues and sklearn PCA are external; the whole is checked at run time on generated planar and almost planar curves of up to 20 vertices')
def flatten(c):
    """with flattening, the hull of the curve projected onto its plane, in the original frame"""
    np, r = c.np, c.rng
    v, d, p = planar(c)
    size = abs(p - p.mean(axis=0)).max()
    tol = 3e-5 * size + 1e-9 * abs(v).max()
    k = {}
    flat = v
    if r.random() < .5:
        k['normal'] = normals(c, d)
        if r.random() < .3: k['normal'] = list(k['normal'])
        if r.random() < .6:
            v = v + np.outer([r.uniform(-.3, .3) for x in v], d) * size
            if r.random() < .3: v[r.randrange(len(v))] += d * size
            c.inputs.update(v=v.tolist())
    mean = v.mean(axis=0)
    flat = v - np.outer((v - mean).dot(d), d)      # onto the plane through the mean
    curve = c.value('Polyline', PO, v.copy(), closed=r.random() < .5)
    h, idx = c.value('flattened hull', CX + 'convexify_planar_curve', curve, flatten=True, want_vertices=True, **k)
    idx = [int(i) for i in idx]
    c.prove('the indices select the vertices, projected onto the plane of the curve', len(idx) == len(h.v) and len(set(idx)) == len(idx) and all(0 <= i < len(v) for i in idx) and float(abs(flat[idx] - h.v).max()) <= tol, note=str(float(abs(flat[idx] - h.v).max())) if len(idx) == len(h.v) else '')
    c.prove('a curve with the same closedness', type(h) is type(curve) and h.closed == curve.closed and h is not curve)
    convex(c, 'flattened hull', h.v, flat, d, tol)
    g = c.value('flattened hull without indices', CX + 'convexify_planar_curve', curve, flatten=True, **k)
    c.prove('the same without indices', g.v.shape == h.v.shape and bool((g.v == h.v).all()) and g.closed == curve.closed)

@contract('P29', 'choice', [CX + 'convexify_planar_curve'], samples=300, concrete_only='scipy.spatial.ConvexHull is external; checked at run time')
def choice(c):
    """a supplied normal does not change which vertices form the hull"""
    np, r = c.np, c.rng
    v, d, p = planar(c)
    curve = c.value('Polyline', PO, v.copy(), closed=r.random() < .5)
    q = p - p.mean(axis=0)
    # no vertex close to the boundary of the hull of the others, so that rounding plays no part
    a = np.sort(np.concatenate([np.abs(np.cross(np.append(p[i] - p[j], 0), np.append(p[k] - p[j], 0))[2:]) for i in range(len(p)) for j in range(i) for k in range(j)]))
    c.well(lambda: a[0] > 1e-5 * abs(q).max() ** 2)
    flat = r.random() < .5
    k = {'flatten': True} if flat else {}
    sets = []
    for n in (None, normals(c, d), normals(c, d)):
        if n is not None and not flat and r.random() < .5:
            n = n / np.linalg.norm(n) + .2 * np.array([r.uniform(-1, 1) for i in range(3)])
            if abs(d[np.argmax(abs(n))]) < .2: continue
        h, idx = c.value('hull', CX + 'convexify_planar_curve', curve, want_vertices=True, **dict(k, **({} if n is None else {'normal': n})))
        sets.append(frozenset(int(i) for i in idx))
    c.prove('the same vertices whichever normal is supplied, if any', len(set(sets)) == 1)

@contract('P29', 'degenerate', [CX + 'convexify_planar_curve', CX + 'convexify_and_flatten_planar_curve'], samples=60)
def degenerate(c):
    """curves of at most one vertex are returned unchanged"""
    n = c.choice('n', [None, 0, 1])
    v = None if n is None else c.pts('v', n)
    curve = c.value('Polyline', PO, v, closed=c.boolean('closed'))
    k = {'flatten': True} if c.boolean('flatten') else {}
    if c.boolean('supplied'): k['normal'] = c.unit('d')
    r = c.value('hull', CX + 'convexify_planar_curve', curve, **k)
    c.prove('the curve itself', r is curve)

@contract('P29', 'projection', [CX + 'convexify_planar_curve'], samples=200, budget=200)
def projection(c):
    """hulls of planar curves with any number of vertices: the vertices selected, in order around a convex polygon in the plane of the curve, all on one side of each edge"""
    n = c.int('n', lo=3)
    d = c.unit('d')
    if c.symbolic:
        v, o = c.pts('v', n), c.vec('o', 3)
        c.assume(c.forall(n, lambda i: c.eq(sum(d[j] * (v[i][j] - o[j]) for j in range(3)), 0)))
        c.callee(CX + 'estimate_normal', lambda *a, **k: c.np.array(d if c.decided(c.gt(c.vec('side', 1)[0], 0)) else [-x for x in d]), 'estimate_normal of points spanning a plane is one of its two unit normals (checked at run time, P29/normal)')
    else:
        v, d, p = planar(c)
        n = len(v)
    supplied = c.boolean('supplied')
    curve = c.value('Polyline', PO, v, closed=supplied)
    k = {}
    if supplied:
        s = c.real('length')
        c.assume(c.ne(s, 0))
        k['normal'] = c.np.array([x * s for x in d])
    h, idx = c.value('hull', CX + 'convexify_planar_curve', curve, want_vertices=True, **k)
    c.prove('the same closedness', c.iff(h.closed, curve.closed))
    m = c.len(idx)
    c.prove('as many vertices as indices, three or more', c.and_(c.shape_is(h.v, (m, 3)), c.ge(m, 3)))
    c.prove('the indices select the vertices of the hull', c.forall(m, lambda i: c.and_(c.ge(idx[i], 0), c.lt(idx[i], n, tol=0), *[c.eq(h.v[i][j], v[idx[i]][j], tol=0) for j in range(3)])))
    if not c.symbolic:
        convex(c, 'hull', h.v, v, d, 1e-7 * (abs(v).max() + abs(v - v.mean(axis=0)).max()))
        return
    what = 'the curve is on one side of every edge of the hull, the side being the same for all'
    sub = lambda x, y: [x[j] - y[j] for j in range(3)]
    def parallel(*x):
        e, f, d = x[:3], x[3:6], x[6:]
        r, dot = c.cross(e, f), c.dot(d, c.cross(e, f))
        return c.and_(c.eq(c.dot(d, d), 1), c.eq(c.dot(d, e), 0), c.eq(c.dot(d, f), 0)), c.and_(*[c.eq(dot * d[j], r[j]) for j in range(3)])
    def side(a, b, x):
        """the side of the edge x is on: 1 for the left, -1 for the right, seen against the normal"""
        e, f = sub(b, a), sub(x, a)
        r = c.cross(e, f)
        c.theorem('cross products in the plane are parallel to its normal', parallel, *(e + f + list(d)))
        s = c.dot(d, r)
        for j in steep:
            t = 1 if c.hint(c.ge(r[j], 0)) else -1 if c.hint(c.le(r[j], 0)) else 0
            if t:
                u = t if signs[j] else -t
                c.theorem('sign', lambda s, y, z: (c.and_(c.eq(s * y, z), (c.ge if t > 0 else c.le)(z, 0), (c.gt if signs[j] else c.lt)(y, 0)), (c.ge if u > 0 else c.le)(s, 0)), s, d[j], r[j])
                return s, u
        return s, 1
    steep = [j for j in range(3) if c.hint(c.ne(d[j], 0))]
    signs = {j: c.decided(c.gt(d[j], 0)) for j in steep}
    i, q = c.int('vertex', lo=0, hi=n - 1), c.int('edge', lo=0, hi=m - 2)
    s, u = side(h.v[q], h.v[q + 1], v[i])
    c.prove(what, (c.ge if u > 0 else c.le)(s, 0))
    s, w = side(h.v[m - 1], h.v[0], v[i])
    c.prove(what, (c.ge if u > 0 else c.le)(s, 0))

@contract('P29', 'normal', [RO + 'estimate_normal'], samples=200, concrete_only='sklearn PCA is external; its contract for points spanning a plane is checked at run time')
def estimated(c):
    """the estimated normal of points spanning a plane is one of its unit normals"""
    np = c.np
    v, d, p = planar(c)
    size = abs(v).max() + abs(v - v.mean(axis=0)).max()
    w = c.value('estimate_normal', RO + 'estimate_normal', v)
    c.prove('a unit vector', np.shape(w) == (3,) and abs(np.linalg.norm(w) - 1) < 1e-9)
    e = abs(v - v.mean(axis=0)).max()
    c.prove('normal to the plane of the points', float(np.linalg.norm(np.cross(w, d))) <= 1e-9 * size / e * 100)
