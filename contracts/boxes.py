"""P18: boxes, P19: prisms, P20: extreme points, P21: surface normals and barycentric coordinates."""
from vc.registry import contract
BX = 'blmath.geometry.primitives.box.Box'
SH = 'blmath.geometry.shapes.'
AP = 'blmath.geometry.apex.'

@contract('P18', 'measures', [BX] + [BX + '.' + a for a in ('ranges', 'min_x', 'min_y', 'min_z', 'max_x', 'max_y', 'max_z', 'mid_x', 'mid_y', 'mid_z', 'width', 'height', 'depth', 'center_point', 'floor_point', 'volume', 'surface_area')])
def measures(c):
    """every reported measure of a box with nonnegative size"""
    o, s = c.vec('o', 3, ints=True), c.vec('s', 3, lo=0)
    if c.boolean('lists'):
        o2, s2 = [o[0], o[1], o[2]], [s[0], s[1], s[2]]
    else: o2, s2 = o, s
    b = c.value('Box', BX, o2, s2)
    g = lambda a: c.value(a, lambda: getattr(b, a))
    c.prove('origin and shape are kept', c.and_(c.eq(g('origin'), o), c.eq(g('shape'), s)))
    for k, ax in enumerate('xyz'):
        c.prove('minimum along %s is the origin' % ax, c.eq(g('min_' + ax), o[k]))
        c.prove('maximum along %s is origin + size' % ax, c.eq(g('max_' + ax), o[k] + s[k]))
        c.prove('midpoint along %s is half way' % ax, c.eq(2 * g('mid_' + ax), 2 * o[k] + s[k]))
    r = g('ranges')
    c.prove('ranges is 3 x 2', c.shape_is(r, (3, 2)))
    for k in range(3):
        c.prove('ranges pair minimum and maximum', c.and_(c.eq(r[k][0], o[k]), c.eq(r[k][1], o[k] + s[k])))
    ce, fl = g('center_point'), g('floor_point')
    c.prove('points are 3-vectors', c.and_(c.shape_is(ce, (3,)), c.shape_is(fl, (3,))))
    for k in range(3): c.prove('the centre is the midpoint on every axis', c.eq(2 * ce[k], 2 * o[k] + s[k]))
    c.prove('the floor point is the midpoint on x and z', c.and_(c.eq(2 * fl[0], 2 * o[0] + s[0]), c.eq(2 * fl[2], 2 * o[2] + s[2])))
    c.prove('the floor point is at minimum y', c.eq(fl[1], o[1]))
    c.prove('width, height and depth are the sizes along x, y and z', c.and_(c.eq(g('width'), s[0]), c.eq(g('height'), s[1]), c.eq(g('depth'), s[2])))
    c.prove('volume is the product of the sizes', c.eq(g('volume'), s[0] * s[1] * s[2]))
    c.prove('surface area is twice the sum of the pairwise products', c.eq(g('surface_area'), 2 * (s[0] * s[1] + s[1] * s[2] + s[2] * s[0])))

@contract('P18', 'refusals', BX)
def refusals(c):
    """a negative size, wrong shapes and non-numeric input are refused"""
    o, s = c.vec('o', 3), c.vec('s', 3)
    what = c.choice('what', ['negative', 'none', 'none2', 'string', 'bool', 'nan', 'inf', 'two', 'four', 'matrix', 'nan origin'])
    if what == 'negative':
        c.assume(c.or_(*[c.lt(s[k], 0) for k in range(3)]))
        c.raises('Box with a negative size', BX, o, s)
        return
    c.assume(c.and_(*[c.ge(s[k], 0) for k in range(3)]))
    if what == 'none': c.raises('Box without an origin', BX, None, s)
    if what == 'none2': c.raises('Box without a size', BX, o, None)
    if what == 'string': c.raises('Box of strings', BX, o, ['a', 'b', 'c'])
    if what == 'bool': c.raises('Box of booleans', BX, [True, False, True], s)
    k = c.choice('k', [0, 1, 2])
    if what in ('nan', 'inf'):
        s = s.copy(); s[k] = float(what)
        c.raises('Box with a size that is not finite', BX, o, s)
    if what == 'nan origin':
        o = o.copy(); o[k] = float('nan')
        c.raises('Box with an origin that is not finite', BX, o, s)
    if what == 'two': c.raises('Box of two sizes', BX, o, s[:2])
    if what == 'four': c.raises('Box of four coordinates', BX, c.vec('q', 4), s)
    if what == 'matrix': c.raises('Box of a matrix', BX, c.arr('q', (1, 3)), s)

# ------------------------------------------------------------------ P19
def faces_of(c, f):
    """the faces as lists of Python integers (the topology never depends on the inputs)"""
    return [[int(x) for x in t] for t in f]

def closed_oriented(faces, nv):
    """every directed edge once, matched by its reverse; every vertex used"""
    es = [(t[a], t[(a + 1) % 3]) for t in faces for a in range(3)]
    return (all(len(t) == 3 and len(set(t)) == 3 and all(0 <= x < nv for x in t) for t in faces) and len(set(es)) == len(es) and all((b, a) in set(es) for a, b in es) and set(x for t in faces for x in t) == set(range(nv)))

def volume6(c, v, faces):
    """six times the signed volume enclosed by a closed surface (measured from its first vertex)"""
    t = 0
    for a, b, d in faces: t = t + c.dot(v[a] - v[0], c.cross(v[b] - v[0], v[d] - v[0]))
    return t

def same_flat(c, flat, v, faces):
    return c.and_(c.shape_is(flat, (len(faces), 3, 3)), *[c.eq(flat[i][j], v[faces[i][j]]) for i in range(len(faces)) for j in range(3)])

@contract('P19', 'triangular_prism', [SH + 'create_triangular_prism', 'blmath.geometry.primitives.plane.Plane.from_points'], budget=90)
def triangular_prism(c):
    """three base vertices, their translates by the height against the base normal, closed outward surface"""
    p = [c.vec('p%d' % k, 3) for k in range(3)]
    h = c.real('h')
    c.assume(c.ne(h, 0, tol=0))
    n = c.cross(p[1] - p[0], p[2] - p[0])
    c.assume(c.or_(*[c.gt(c.abs(n[k]), c.q('1/100000000')) for k in range(3)]))
    c.well(lambda: c.gt(c.norm2(n), 1e-2 * c.u ** 4))
    c.assume(c.gt(c.norm2(n), 0, deg=4))            # implied by the line above
    l = c.norm(n)
    v, f = c.value('create_triangular_prism', SH + 'create_triangular_prism', p[0], p[1], p[2], h, ret_unique_vertices_and_faces=True)
    c.prove('six vertices', c.shape_is(v, (6, 3)))
    F = faces_of(c, f)
    c.prove('eight triangles form a closed, consistently oriented surface', len(F) == 8 and closed_oriented(F, 6))
    base = [[c.eq(v[i], p[k]) for k in range(3)] for i in range(6)]
    top = [c.eq((v[i + 3] - p[i]) * l, n * (-h), deg=3) for i in range(3)]
    c.prove('the first vertices are the base', c.and_(*[c.eq(v[k], p[k]) for k in range(3)]))
    c.prove('the others are its translate by the height against the base normal', c.and_(*top))
    c.prove('the surface encloses base area times height, outward', c.eq(volume6(c, v, F), 3 * l * h, deg=3))
    flat = c.value('create_triangular_prism flattened', SH + 'create_triangular_prism', p[0], p[1], p[2], h)
    c.prove('the flattened form lists the same triangles', same_flat(c, flat, v, F))

def corners(c, o, s): return [[o[0] + (s[0] if k & 1 else 0), o[1] + (s[1] if k & 2 else 0), o[2] + (s[2] if k & 4 else 0)] for k in range(8)]

def box_faces(F, where):
    """every triangle lies in one face of the box (where[i] = corner code of vertex i) and the faces have two triangles each"""
    count = {}
    for t in F:
        common = [(ax, (where[t[0]] >> ax) & 1) for ax in range(3) if len({(where[x] >> ax) & 1 for x in t}) == 1]
        if len(common) != 1: return False
        count.setdefault(common[0], []).append(t)
    return len(count) == 6 and all(len(ts) == 2 and len(set(ts[0]) | set(ts[1])) == 4 for ts in count.values())

@contract('P19', 'rectangular_prism', [SH + 'create_rectangular_prism', SH + 'create_cube'])
def rectangular_prism(c):
    """the eight corners between origin and origin + size, every triangle in a face of the box"""
    o = c.vec('o', 3)
    cube = c.boolean('cube')
    if cube:
        a = c.real('a')
        s = [a, a, a]
        v, f = c.value('create_cube', SH + 'create_cube', o, a, ret_unique_vertices_and_faces=True)
        flat = c.value('create_cube flattened', SH + 'create_cube', o, a)
    else:
        s = c.vec('s', 3)
        v, f = c.value('create_rectangular_prism', SH + 'create_rectangular_prism', o, s, ret_unique_vertices_and_faces=True)
        flat = c.value('create_rectangular_prism flattened', SH + 'create_rectangular_prism', o, s)
    c.prove('eight vertices', c.shape_is(v, (8, 3)))
    C = corners(c, o, s)
    # which corner each row is: the layout does not depend on the inputs, so it is read off a generic box
    where = layout(c, SH)
    c.prove('the rows are the eight different corners', sorted(where) == list(range(8)))
    c.prove('every vertex is its corner of the box', c.and_(*[c.eq(v[i][k], C[where[i]][k]) for i in range(8) for k in range(3)]))
    F = faces_of(c, f)
    c.prove('twelve triangles on every corner', len(F) == 12 and all(0 <= x < 8 for t in F for x in t) and set(x for t in F for x in t) == set(range(8)))
    c.prove('every triangle lies in a face of the box and every face is covered by two', box_faces(F, where))
    c.prove('the flattened form lists the same triangles', same_flat(c, flat, v, F))

def layout(c, SH):
    g, _ = c.call(SH + 'create_rectangular_prism', c.np.array([1., 10., 100.]), c.np.array([1., 1., 1.]), ret_unique_vertices_and_faces=True)
    return [sum(1 << k for k in range(3) if g[i][k] == [2, 11, 101][k]) for i in range(8)]

@contract('P19', 'horizontal_plane', SH + 'create_horizontal_plane')
def horizontal_plane(c):
    v, f = c.value('create_horizontal_plane', SH + 'create_horizontal_plane', ret_unique_vertices_and_faces=True)
    F = faces_of(c, f)
    c.prove('the plane lies in y = 0', c.and_(*[c.eq(v[i][1], 0) for i in range(c.len(v))]))
    c.prove('its faces are triangles of its vertices', all(len(set(t)) == 3 and all(0 <= x < c.len(v) for x in t) for t in F) and len(F) > 0)
    edges = [(t[k], t[(k + 1) % 3]) for t in F for k in range(3)]
    c.prove('its triangles have the same side up', len(set(edges)) == len(edges))
    area = [c.cross(v[t[1]] - v[t[0]], v[t[2]] - v[t[0]])[1] for t in F]
    c.prove('its triangles are not degenerate and face the same way', c.or_(c.and_(*[c.gt(a, 0) for a in area]), c.and_(*[c.lt(a, 0) for a in area])))
    w = [F[0], F[1]] if len(F) == 2 else None
    c.prove('its two triangles form a square of side root two around the origin', w is not None and c.and_(c.eq(c.abs(sum(area)), 4), *[c.eq(v[i][0] * v[i][0] + v[i][2] * v[i][2], 1) for i in range(c.len(v))]))
    flat = c.value('create_horizontal_plane flattened', SH + 'create_horizontal_plane')
    c.prove('the flattened form lists the same triangles', same_flat(c, flat, v, F))

@contract('P19', 'degenerate', SH + 'create_triangular_prism')
def degenerate(c):
    """a base of collinear points has no prism"""
    p, d = c.vec('p', 3, ints=True), c.vec('d', 3)
    t = c.real('t')
    if not c.symbolic:
        d = c.np.round(d * 4) / 4; t = round(t * 4) / 4; p = c.np.round(p * 4) / 4
    c.raises('prism on collinear points', SH + 'create_triangular_prism', p, p + d, p + d * t, c.real('h', pos=True))

# ------------------------------------------------------------------ P20
@contract('P20', 'apex', AP + 'apex')
def apex(c):
    """a point of the set, no other is further along the axis; scaling the axis changes nothing"""
    n = c.int('n', lo=1)
    d = c.int('d', lo=1) if c.boolean('anydim') else 3
    v, a = c.pts('v', n, d), c.vec('a', d)
    r = c.value('apex', AP + 'apex', v, a)
    c.prove('the apex is one of the points', c.exists(n, lambda i: c.eq(r, v[i], tol=0)))
    c.prove('no point is further along the axis', c.forall(n, lambda i: c.or_(c.eq(r, v[i], tol=0), c.le(c.dot(v[i], a), c.dot(r, a), deg=2))))

@contract('P20', 'apex_scaling', AP + 'apex')
def apex_scaling(c):
    n = c.int('n', lo=1)
    v, a = c.pts('v', n), c.vec('a', 3)
    s = c.real('s', pos=True); c.well(lambda: c.gt(s, 0.01))
    if not c.symbolic: s = 2.0 ** round(s)           # exact, so that ties stay ties
    r, q = c.value('apex', AP + 'apex', v, a), c.value('apex', AP + 'apex', v, a * s)
    c.prove('the apex does not depend on the length of the axis', c.eq(c.dot(r, a), c.dot(q, a), deg=2))

@contract('P20', 'farthest', AP + 'farthest')
def farthest(c):
    """one of the candidates with its own index; no other candidate is farther away"""
    n = c.int('n', lo=1)
    v, p = c.pts('v', n), c.vec('p', 3)
    r = c.value('farthest', AP + 'farthest', p, v)
    c.prove('a point and an index', len(r) == 2)
    q, i = r
    c.prove('the index is in range', c.and_(c.ge(i, 0), c.lt(i, n)))
    c.prove('the point is the candidate with that index', c.eq(q, v[i], tol=0))
    c.prove('no candidate is farther away', c.forall(n, lambda k: c.or_(c.eq(q, v[k], tol=0), c.le(c.norm2(v[k] - p), c.norm2(q - p), deg=2))))

PO = 'blmath.geometry.primitives.polyline.Polyline'
@contract('P20', 'polyline_apex', PO + '.apex')
def polyline_apex(c):
    n = c.int('n', lo=1)
    v, a = c.pts('v', n), c.vec('a', 3)
    p = c.call(PO, v, closed=c.boolean('closed'))
    r = c.value('Polyline.apex', lambda: p.apex(a))
    c.prove('the apex is one of the vertices', c.exists(n, lambda i: c.eq(r, v[i], tol=0)))
    c.prove('no vertex is further along the axis', c.forall(n, lambda i: c.or_(c.eq(r, v[i], tol=0), c.le(c.dot(v[i], a), c.dot(r, a), deg=2))))

# ------------------------------------------------------------------ P21
SN = 'blmath.geometry.surface_normals.surface_normal'
BC = 'blmath.geometry.barycentric.barycentric_coordinates_of_projection'

def tri_ok(c, t):
    n = c.cross(t[1] - t[0], t[2] - t[0])
    c.assume(c.gt(c.norm2(n), 0, deg=4)); c.well(lambda: c.gt(c.norm2(n), 1e-3 * c.u ** 4))
    return n

@contract('P21', 'surface_normal', SN)
def surface_normal(c):
    """one triangle"""
    t = c.arr('t', (3, 3))
    n = tri_ok(c, t)
    r = c.value('surface_normal', SN, t)
    q = c.value('surface_normal not normalised', SN, t, normalize=False)
    c.prove('the results are 3-vectors', c.and_(c.shape_is(r, (3,)), c.shape_is(q, (3,))))
    c.prove('perpendicular to the edges', c.and_(c.eq(c.dot(r, t[1] - t[0]), 0), c.eq(c.dot(r, t[2] - t[0]), 0), c.eq(c.dot(q, t[1] - t[0]), 0, deg=3), c.eq(c.dot(q, t[2] - t[0]), 0, deg=3)))
    c.prove('length one when normalised', c.eq(c.norm2(r), 1))
    c.prove('twice the area otherwise', c.eq(c.norm2(q), c.norm2(n), deg=4))
    c.prove('right-hand rule', c.and_(c.gt(c.dot(r, n), 0, deg=2), c.gt(c.dot(q, n), 0, deg=4)))

@contract('P21', 'surface_normals', SN)
def surface_normals(c):
    """a batch is treated triangle by triangle"""
    n = c.int('n', lo=1)
    t = c.arr('t', (n, 3, 3), dups=False)
    nn = lambda i: c.cross(t[i][1] - t[i][0], t[i][2] - t[i][0])
    c.assume(c.forall(n, lambda i: c.gt(c.norm2(nn(i)), 0, deg=4)))
    c.well(lambda: c.forall(n, lambda i: c.gt(c.norm2(nn(i)), 1e-3 * c.u ** 4)))
    normalize = c.boolean('normalize')
    r = c.value('surface_normal', SN, t, normalize=normalize)
    c.prove('one normal per triangle', c.shape_is(r, (n, 3)))
    if normalize:
        c.prove('every normal is that of its triangle, with length one', c.forall(n, lambda i: c.eq(r[i] * c.norm(nn(i)), nn(i), deg=2)))
    else:
        c.prove('every normal is that of its triangle', c.forall(n, lambda i: c.eq(r[i], nn(i), deg=2)))

@contract('P21', 'barycentric', BC)
def barycentric(c):
    """single point: sums to one and describes the orthogonal projection onto the triangle's plane"""
    p, q, u, v = [c.vec(k, 3) for k in 'pquv']
    n = c.cross(u, v)
    c.assume(c.gt(c.norm2(n), 0, deg=4)); c.well(lambda: c.gt(c.norm2(n), 1e-2 * c.u ** 4))
    b = c.value('barycentric_coordinates_of_projection', BC, p, q, u, v)
    b = b.reshape(-1)
    c.prove('three coordinates', c.shape_is(b, (3,)))
    c.prove('they sum to one', c.eq(b[0] + b[1] + b[2], 1))
    x = q * b[0] + (q + u) * b[1] + (q + v) * b[2]
    c.prove('the point described lies in the triangle plane under the point', c.eq(c.cross(x - p, n), c.np.zeros(3), deg=3))
    c.prove('it is the orthogonal projection', c.eq((x - p) * c.norm2(n), n * c.dot(q - p, n), deg=5))

@contract('P21', 'barycentric_batch', BC)
def barycentric_batch(c):
    n = c.int('n', lo=1)
    p, q, u, v = [c.pts(k, n, dups=False) for k in 'pquv']
    nn = lambda i: c.cross(u[i], v[i])
    c.assume(c.forall(n, lambda i: c.gt(c.norm2(nn(i)), 0, deg=4)))
    c.well(lambda: c.forall(n, lambda i: c.gt(c.norm2(nn(i)), 1e-2 * c.u ** 4)))
    b = c.value('barycentric_coordinates_of_projection', BC, p, q, u, v)
    c.prove('three coordinates per point', c.shape_is(b, (n, 3)))
    c.prove('they sum to one', c.forall(n, lambda i: c.eq(b[i][0] + b[i][1] + b[i][2], 1)))
    x = lambda i: q[i] * b[i][0] + (q[i] + u[i]) * b[i][1] + (q[i] + v[i]) * b[i][2]
    c.prove('the points described are the orthogonal projections', c.forall(n, lambda i: c.eq((x(i) - p[i]) * c.norm2(nn(i)), nn(i) * c.dot(q[i] - p[i], nn(i)), deg=5)))
