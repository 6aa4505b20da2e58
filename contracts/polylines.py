"""P14: derived data of polylines, P15: cutting and intersecting them with a plane."""
from vc.registry import contract
PO = 'blmath.geometry.primitives.polyline.Polyline'
PL = 'blmath.geometry.primitives.plane.Plane'

def edges_of(n, closed): return n if closed else n - 1

def nxt(c, i, n): return c.ite(c.eq(i + 1, n), 0, i + 1)

def check(c, p, v, n, closed, what=''):
    """the class invariant, as observed: everything derived from the n vertices v and the flag"""
    m = edges_of(n, closed)
    c.prove('the vertices are those assigned last' + what, c.and_(c.eq(c.value('v', lambda: p.v), v), c.eq(c.value('len', lambda: c.len(p)), n)))
    c.prove('the flag is the one assigned last' + what, bool(c.value('closed', lambda: p.closed)) == closed)
    e = c.value('e', lambda: p.e)
    c.prove('one edge per consecutive pair, plus the closing one' + what, c.shape_is(e, (m, 2)))
    c.prove('the edges join consecutive vertices' + what, c.forall(m, lambda i: c.and_(c.eq(e[i][0], i), c.eq(e[i][1], nxt(c, i, n) if closed else i + 1))))
    s = c.value('segments', lambda: p.segments)
    c.prove('one segment per edge' + what, c.shape_is(s, (m, 2, 3)))
    end = (lambda i: v[nxt(c, i, n)]) if closed else (lambda i: v[i + 1])
    c.prove('the segments are those of the edges' + what, c.forall(m, lambda i: c.and_(c.eq(s[i][0], v[i]), c.eq(s[i][1], end(i)))))
    w = c.value('segment_vectors', lambda: p.segment_vectors)
    c.prove('the segment vectors are those of the edges' + what, c.and_(c.shape_is(w, (m, 3)), c.forall(m, lambda i: c.eq(w[i], end(i) - v[i]))))
    l = c.value('segment_lengths', lambda: p.segment_lengths)
    c.prove('the lengths are those of the edges' + what, c.and_(c.shape_is(l, (m,)), c.forall(m, lambda i: c.eq(l[i], c.norm(end(i) - v[i])))))
    c.prove('the total length is their sum' + what, c.eq(c.value('total_length', lambda: p.total_length), c.sum(m, lambda i: l[i])))

def chain(c, name='v', lo=None, **kw):
    closed = c.boolean('closed')
    n = c.int('n', lo=(1 if lo is None else lo) if closed else (1 if lo is None else lo))
    v = c.pts(name, n, **kw)
    return c.value('Polyline', PO, v, closed=closed), v, n, closed

@contract('P14', 'construction', [PO + '.__init__', PO + '._update_edges', PO + '.v', PO + '.closed', PO + '.e', PO + '.segments', PO + '.segment_lengths', PO + '.total_length', PO + '.segment_vectors', PO + '.__len__'])
def construction(c):
    """everything derived matches the vertices and the flag, for any number of vertices"""
    closed = c.boolean('closed')
    n = c.int('n', lo=1)
    v = c.pts('v', n, ints=True)
    kw = {'closed': closed} if closed or c.boolean('explicit') else {}
    p = c.value('Polyline', PO, v, **kw)
    check(c, p, v, n, closed)
    e = p.e
    c.prove('the edges cannot be modified', c.readonly(e))
    c.raises('assigning to the edges', lambda: setattr(p, 'e', v))
    check(c, p, v, n, closed)

@contract('P14', 'empty', [PO + '.__init__', PO + '._update_edges', PO + '.v', PO + '.closed', PO + '.segment_lengths', PO + '.total_length'])
def empty(c):
    """chains without vertices"""
    closed, later = c.boolean('closed'), c.boolean('later')
    none = c.boolean('none')
    v = None if none else c.np.zeros((0, 3))
    if later:
        p = c.value('Polyline', PO, c.pts('w', 2), closed=c.boolean('was'))
        c.value('assigning v', lambda: setattr(p, 'v', v))
        c.value('assigning closed', lambda: setattr(p, 'closed', closed))
    else: p = c.value('Polyline', PO, v, closed=closed)
    c.prove('there are no edges', p.e is None if none else c.shape_is(p.e, (0, 2)))
    c.prove('there are no lengths', c.shape_is(c.value('segment_lengths', lambda: p.segment_lengths), (0,)))
    c.prove('the total length is zero', c.eq(c.value('total_length', lambda: p.total_length), 0))
    q = c.value('copy', p.copy)
    c.prove('a copy is empty too', (q.v is None if none else c.shape_is(q.v, (0, 3))) and q.closed == closed)
    if not none:
        c.prove('no vertices', c.shape_is(p.v, (0, 3)))
        c.value('flip', lambda: p.flip())
        c.prove('no vertices after flipping', c.and_(c.shape_is(p.v, (0, 3)), c.shape_is(p.e, (0, 2))))
    w = c.pts('x', c.int('n', lo=1))
    c.value('assigning v afterwards', lambda: setattr(p, 'v', w))
    check(c, p, w, c.len(w), closed)

def read(c, p):
    for a in ('e', 'segments', 'segment_vectors', 'segment_lengths', 'total_length'): c.value(a, lambda: getattr(p, a))

def step(c, k, p, v, n, closed, ops=('v', 'closed', 'flip', 'copy', 'reindexed', 'refused', 'same', 'inplace')):
    """one operation on a chain: the chain to look at afterwards and what it must hold"""
    op = c.choice('op%d' % k, list(ops))
    if op == 'v':
        n = c.int('n%d' % k, lo=1)
        v = c.pts('v%d' % k, n)
        c.value('assigning v', lambda: setattr(p, 'v', v))
    if op == 'same':
        v = c.pts('w%d' % k, n)
        c.value('assigning v of the same length', lambda: setattr(p, 'v', v))
    if op == 'closed':
        closed = c.boolean('closed%d' % k)
        c.value('assigning closed', lambda: setattr(p, 'closed', closed))
    if op == 'flip':
        c.value('flip', lambda: p.flip())
        v = reverse(c, v, n)
    if op == 'copy':
        old, p = p, c.value('copy', p.copy)
        c.value('flipping the original', lambda: old.flip())
        c.value('closing the original', lambda: setattr(old, 'closed', not closed))
    if op == 'reindexed':
        if not closed:
            c.raises('reindexing an open chain', lambda: p.reindexed(0))
        else:
            i = c.int('k%d' % k, lo=0, hi=None if c.symbolic else n - 1)
            c.assume(c.lt(i, n))
            p = c.value('reindexed', lambda: p.reindexed(i))
            v = rotate(c, v, n, i)
    if op == 'refused':
        bad = c.choice('bad%d' % k, ['two columns', 'one point', 'text', 'four columns'])
        x = {'two columns': lambda: c.pts('b%d' % k, 4, 2), 'one point': lambda: c.vec('b%d' % k, 3), 'text': lambda: 'abc', 'four columns': lambda: c.arr('b%d' % k, (5, 4))}[bad]()
        c.raises('assigning vertices that are not points', lambda: setattr(p, 'v', x))
    if op == 'inplace':
        c.assume(c.gt(n, 0))
        x = c.vec('x%d' % k, 3)
        if not c.readonly(p.v):
            v = v.copy(); v[0] = x
            c.value('writing a vertex', lambda: p.v.__setitem__(0, x))
    return p, v, n, closed

def reverse(c, v, n):
    return c.table(n, 3, lambda i, j: v[n - 1 - i][j])
def rotate(c, v, n, k):
    return c.table(n, 3, lambda i, j: v[c.ite(c.lt(i + k, n), i + k, i + k - n)][j])

MUT = [PO + '.v', PO + '.closed', PO + '.flip', PO + '.copy', PO + '.reindexed', PO + '._update_edges']

@contract('P14', 'step', MUT, samples=150, budget=100, frame=False)
def one_step(c):
    """one operation on an arbitrary chain whose derived data were read before: the state afterwards is that of a construction, hence by induction after any number of operations"""
    p, v, n, closed = chain(c)
    if not c.symbolic: v = v.copy()
    read(c, p)
    p, v, n, closed = step(c, 0, p, v, n, closed)
    check(c, p, v, n, closed)

@contract('P14', 'two_steps', MUT, samples=20, budget=120, frame=False)
def two_steps(c):
    """two operations without reading anything in between"""
    p, v, n, closed = chain(c)
    if not c.symbolic: v = v.copy()
    ops = ['v', 'closed', 'flip', 'copy', 'reindexed']
    for k in range(2): p, v, n, closed = step(c, k, p, v, n, closed, ops)
    check(c, p, v, n, closed)

@contract('P14', 'histories', MUT, samples=400, concrete_only='longer sequences, as a run-time check; the deductive argument is the induction of P14/step', frame=False)
def histories(c):
    """sequences of up to six operations, with and without the derived data being read in between"""
    p, v, n, closed = chain(c)
    v = v.copy()
    reading = c.boolean('read in between')
    for k in range(c.choice('length', [2, 3, 4, 6])):
        if reading: read(c, p)
        p, v, n, closed = step(c, k, p, v, n, closed)
    check(c, p, v, n, closed)

@contract('P14', 'flip', [PO + '.flip'])
def flip(c):
    """reverses the vertex order"""
    p, v, n, closed = chain(c)
    v0 = v.copy()
    c.value('flip', lambda: p.flip())
    c.prove('the vertices are reversed', c.and_(c.shape_is(p.v, (n, 3)), c.forall(n, lambda i: c.eq(p.v[i], v0[n - 1 - i]))))
    c.prove('the flag is kept', p.closed == closed)
    c.value('flip again', lambda: p.flip())
    c.prove('flipping twice restores the chain', c.eq(p.v, v0))

@contract('P14', 'copy', [PO + '.copy'])
def copy(c):
    """equal and independent"""
    p, v, n, closed = chain(c)
    v0 = v.copy()
    q = c.value('copy', p.copy)
    c.prove('a copy is another object', q is not p)
    check(c, q, v0, n, closed, ' (copy)')
    c.prove('a copy does not share its vertices', not c.shares(q.v, p.v))
    x = c.vec('x', 3)
    q.v[0] = x
    check(c, p, v0, n, closed, ' (original)')
    p.v[0] = v0[0] + x
    c.prove('writing the original leaves the copy', c.eq(q.v[0], x))

@contract('P14', 'reindexed', [PO + '.reindexed'])
def reindexed(c):
    """rotates the vertices, with the matching edge mapping"""
    n = c.int('n', lo=1)
    v = c.pts('v', n)
    k = c.int('k', lo=0, hi=None if c.symbolic else n - 1)
    c.assume(c.lt(k, n))
    if c.boolean('open'):
        p = c.value('Polyline', PO, v, closed=False)
        c.raises('reindexing an open chain', p.reindexed, k, ret_edge_mapping=c.boolean('mapping'))
        return
    p = c.value('Polyline', PO, v, closed=True)
    q0 = c.value('reindexed', p.reindexed, k)
    q, m = c.value('reindexed with the mapping', p.reindexed, k, ret_edge_mapping=True)
    check(c, q, rotate(c, v, n, k), n, True, ' (reindexed)')
    c.prove('the same without the mapping', c.and_(c.eq(q0.v, q.v), bool(q0.closed)))
    c.prove('one original edge for every new edge', c.and_(c.shape_is(m, (n,)), c.forall(n, lambda i: c.and_(c.ge(m[i], 0), c.lt(m[i], n)))))
    a, b = p.segments, q.segments
    c.prove('the original segments are the new ones under the mapping', c.forall(n, lambda i: c.and_(c.eq(b[i][0], a[m[i]][0]), c.eq(b[i][1], a[m[i]][1]))))
    check(c, p, v, n, True, ' (original)')

@contract('P14', 'to_dict', [PO + '.to_dict', PO + '.__init__', PO + '._update_edges'], samples=80)
def to_dict(c):
    """the dictionary form lists the vertices, rounded to the given number of decimals (three by default), and the edges"""
    closed = c.boolean('closed')
    n = c.int('n', lo=1)
    v = c.pts('v', n, scale=1 if c.symbolic else c.choice('scale', [1, 1e-2, 1e3]))
    p = c.value('Polyline', PO, v, closed=closed)
    k = c.choice('decimals', [None, 0, 1, 2, 4, 5])
    d = c.value('to_dict', p.to_dict) if k is None else c.value('to_dict', p.to_dict, decimals=k)
    unit = 10 ** (3 if k is None else k)
    L, E, m = d['vertices'], d['edges'], edges_of(n, closed)
    c.prove('three numbers for every vertex', c.and_(c.eq(c.len(L), n), c.forall(n, lambda i: c.eq(c.len(L[i]), 3))))
    c.prove('the vertices, rounded', c.forall(n, lambda i: c.and_(*[c.and_(c.le(c.abs(L[i][j] - v[i][j]) * unit, c.q(1, 2)), c.is_int(L[i][j] * unit)) for j in range(3)])))
    c.prove('the edges', c.and_(c.eq(c.len(E), m), c.forall(m, lambda i: c.and_(c.eq(E[i][0], i), c.eq(E[i][1], nxt(c, i, n) if closed else i + 1)))))

@contract('P14', 'validation', [PO + '.__init__', PO + '.v'])
def validation(c):
    """vertices are n x 3 numbers"""
    what = c.choice('what', ['two columns', 'one point', 'text', 'four columns', 'nan', 'infinite', 'cube', 'scalar', 'lists', 'tuples'])
    if what in ('lists', 'tuples'):
        x = c.pts('b', c.choice('rows', [1, 2, 3]))
        l = [[x[i][j] for j in range(3)] for i in range(c.len(x))]
        if what == 'tuples': l = tuple(tuple(r) for r in l)
        p = c.value('Polyline of a list', PO, l)
        check(c, p, x, c.len(x), False)
        return
    n = c.int('n', lo=1)
    c.assume(c.ne(n, 3))          # the library takes three points given as columns as well
    if what in ('nan', 'infinite'):
        x = c.pts('b', n).copy(); x[0] = float('nan' if what == 'nan' else 'inf')
    else: x = {'two columns': lambda: c.pts('b', n, 2), 'one point': lambda: c.vec('b', 3), 'text': lambda: 'abc', 'four columns': lambda: c.arr('b', (n, 4)), 'cube': lambda: c.arr('b', (n, 3, 3)), 'scalar': lambda: c.real('b')}[what]()
    c.raises('vertices that are not points', PO, x, closed=c.boolean('closed'))

# ------------------------------------------------------------------ P15
def plane(c):
    r, n = c.vec('r', 3), c.unit('pn', 3)
    c.assume(c.or_(*[c.gt(c.abs(n[k]), c.q('1/100000000')) for k in range(3)]))   # implied by the length being one
    return c.value('Plane', PL, r, n), r, n

def off(c, N, h):
    """no vertex on the plane"""
    c.ghost('height', h)
    if c.symbolic: c.assume(c.forall(N, lambda i: c.ne(h(i), 0)))
    else: c.well(lambda: c.forall(N, lambda i: abs(h(i)) > 1e-3 * c.u))

INTER = [PO + '.intersect_plane', PO + '.segments', PO + '.e', PL + '.signed_distance']
@contract('P15', 'intersect_which', INTER, samples=80, budget=300)
def intersect_which(c):
    """one point per edge with endpoints strictly on opposite sides, in edge order"""
    pl, r, nn = plane(c)
    p, v, n, closed = chain(c)
    h = lambda i: c.dot(nn, v[i] - r)
    off(c, n, h)
    m = edges_of(n, closed)
    end = (lambda i: nxt(c, i, n)) if closed else (lambda i: i + 1)
    q, idx = c.value('intersect_plane with indices', p.intersect_plane, pl, ret_edge_indices=True)
    q0 = c.value('intersect_plane', p.intersect_plane, pl)
    c.prove('the edges crossed by the plane, in order', c.is_selection(idx, m, lambda i: c.not_(c.iff(c.lt(h(i), 0), c.lt(h(end(i)), 0)))))
    K = c.len(idx)
    c.prove('one point per crossed edge', c.shape_is(q, (K, 3)))
    c.prove('the same points without the indices', c.eq(q0, q))

@contract('P15', 'intersect_open', INTER, samples=80, budget=300)
def intersect_open(c): intersect(c, False)
@contract('P15', 'intersect_closed', INTER, samples=80, budget=500)
def intersect_closed(c): intersect(c, True)

def intersect(c, closed):
    """every reported point lies on its edge and on the plane"""
    pl, r, nn = plane(c)
    n = c.int('n', lo=1)
    v = c.pts('v', n)
    p = c.value('Polyline', PO, v, closed=closed)
    h = lambda i: c.dot(nn, v[i] - r)
    off(c, n, h)
    q, idx = c.value('intersect_plane', p.intersect_plane, pl, ret_edge_indices=True)
    for k in c.each('crossing', c.len(idx)):
        i = idx[k]
        j = i + 1
        if closed and c.decided(c.eq(i, n - 1)): j = 0          # the closing edge is a case of its own
        a, b = v[i], v[j]
        ha, hb = h(i), h(j)
        front = c.decided(c.gt(ha, 0))
        c.lemma('its ends lie on opposite sides', c.lt(hb, 0) if front else c.gt(hb, 0))
        for j in range(3): c.lemma('a number', c.not_(c.is_nan(q[k][j])))
        c.prove('the point lies on the plane', c.eq(c.dot(nn, q[k] - r), 0))
        c.prove('the point lies on its edge', c.and_(*[c.eq((q[k] - a)[j] * (ha - hb), ha * (b - a)[j], deg=2) for j in range(3)]))

def arrange(c, v, n, r, nn, front):
    """concrete mode: reflect the vertices through the plane so that exactly those with front(i) are in front"""
    if c.symbolic: return v
    v = c.np.array(v, dtype=float)
    for i in range(n):
        h = c.dot(nn, v[i] - r)
        if (h > 0) != front(i): v[i] = v[i] - 2 * h * c.np.asarray(nn)
    return v

def crossing(c, v, h, i, j):
    """the point where the edge from i to j meets the plane"""
    t = h(i) / (h(i) - h(j))
    return c.table(1, 3, lambda _, k: v[i][k] + t * (v[j][k] - v[i][k]))[0]

CUT = [PO + '.cut_by_plane', PO + '.intersect_plane', PL + '.sign', PL + '.signed_distance']

def listed(c, idx, ks):
    """lemma: a selection whose members are exactly ks (increasing) lists exactly them"""
    K, n = c.len(idx), len(ks)
    for j in range(n):
        if c.decided(c.le(K, j)):
            c.lemma('member %d is listed' % j, False)
            c.stop()
        c.lemma('entry %d is a member' % j, c.or_(*[c.eq(idx[j], k) for k in ks]))
    if c.decided(c.gt(K, n)):
        c.lemma('entry %d is a member' % n, c.or_(*[c.eq(idx[n], k) for k in ks]))
        c.lemma('there are no more entries than members', False)
        c.stop()
    for j in range(n): c.lemma('entry %d' % j, c.eq(idx[j], ks[j]))

@contract('P15', 'cut_open_front', CUT + [PO + '._cut_by_plane_open'], samples=80, budget=300)
def cut_open_front(c): cut_open(c, True)
@contract('P15', 'cut_open_back', CUT + [PO + '._cut_by_plane_open'], samples=80, budget=300)
def cut_open_back(c): cut_open(c, False)

def cut_open(c, first):
    """a chain crossed exactly once: the part in front, in the chain's order, with the crossing point at the cut end"""
    pl, r, nn = plane(c)
    n = c.int('n', lo=2)
    k = c.int('k', lo=0, hi=None if c.symbolic else n - 2)
    c.assume(c.lt(k + 1, n))
    v = arrange(c, c.pts('v', n), n, r, nn, lambda i: (i <= k) == first)
    p = c.value('Polyline', PO, v)
    h = lambda i: c.dot(nn, v[i] - r)
    off(c, n, h)
    front = lambda i: c.gt(h(i), 0)
    c.assume(c.iff(front(0), first))
    if c.symbolic:
        c.assume(c.forall(n - 1, lambda i: c.iff(c.not_(c.iff(front(i), front(i + 1))), c.eq(i, k))))     # crossed exactly at edge k
        c.induction('the vertices up to the crossing are on the side of the first', k, lambda i: c.iff(front(i), front(0)))
        c.induction('the vertices after the crossing are on the other side', n - 2 - k, lambda i: c.iff(front(i + k + 1), c.not_(front(0))))
        idx = c.value('intersect_plane', p.intersect_plane, pl, ret_edge_indices=True)[1]
        listed(c, idx, [k])
    q = c.value('cut_by_plane', p.cut_by_plane, pl)
    c.prove('the result is open', not q.closed)
    x = crossing(c, v, h, k, k + 1)
    if first:
        c.prove('the vertices in front and the crossing point', c.shape_is(q.v, (k + 2, 3)))
        c.prove('the kept vertices are the original ones', c.forall(k + 1, lambda i: c.eq(q.v[i], v[i])))
        c.prove('the crossing point is at the cut end', c.eq(q.v[k + 1], x))
    else:
        c.prove('the crossing point and the vertices in front', c.shape_is(q.v, (n - k, 3)))
        c.prove('the crossing point is at the cut end', c.eq(q.v[0], x))
        c.prove('the kept vertices are the original ones', c.forall(n - k - 1, lambda i: c.eq(q.v[i + 1], v[i + k + 1])))

CLOSED = CUT + [PO + '._cut_by_plane_closed', PO + '.reindexed', PL + '.line_segment_xsection']
BOUND = 'loops of up to 5 vertices (every position of the crossings)'
@contract('P15', 'cut_closed_front', CLOSED, samples=150, budget=400, bounded=BOUND)
def cut_closed_front(c): cut_closed(c, True)
@contract('P15', 'cut_closed_back', CLOSED, samples=150, budget=400, bounded=BOUND)
def cut_closed_back(c): cut_closed(c, False)

def cut_closed(c, first):
    """a loop crossed exactly twice: the arc in front, in the loop's order, with the crossing points at both ends"""
    pl, r, nn = plane(c)
    n = c.choice('n', [2, 3, 4, 5] + ([] if c.symbolic else [6, 8, 12]))
    k = c.choice('k', list(range(n - 1)))
    l = c.choice('l', list(range(k + 1, n)))
    v = arrange(c, c.pts('v', n), n, r, nn, lambda i: (i <= k or i > l) == first)
    p = c.value('Polyline', PO, v, closed=True)
    h = lambda i: c.dot(nn, v[i] - r)
    off(c, n, h)
    for i in range(n): c.assume(c.gt(h(i), 0) if (i <= k or i > l) == first else c.lt(h(i), 0))
    def xsection(self, a, b):
        """contract of Plane.line_segment_xsection (P13/segment): reported exactly when the ends are not strictly on one side and not parallel; the point of the line on the plane"""
        ha, hb = (c.dot(self.normal, e - self.reference_point) for e in (a, b))
        if not c.decided(c.and_(c.ne(ha, hb), c.not_(c.and_(c.gt(ha, 0), c.gt(hb, 0))), c.not_(c.and_(c.lt(ha, 0), c.lt(hb, 0))))): return None
        t = ha / (ha - hb)
        return c.np.array([a[j] + t * (b[j] - a[j]) for j in range(3)])
    c.callee(PL + '.line_segment_xsection', xsection, 'contract of Plane.line_segment_xsection (proved as P13/segment)')
    q = c.value('cut_by_plane', p.cut_by_plane, pl)
    c.prove('the result is open', not q.closed)
    x, y = crossing(c, v, h, k, k + 1), crossing(c, v, h, l, (l + 1) % n)
    keep = list(range(l + 1, n)) + list(range(k + 1)) if first else list(range(k + 1, l + 1))
    if first: x, y = y, x
    c.prove('the vertices in front between the crossing points', c.shape_is(q.v, (len(keep) + 2, 3)))
    c.prove('one crossing point comes first', c.eq(q.v[0], x))
    c.prove('the kept vertices are the original ones, in order', c.and_(*[c.eq(q.v[i + 1], v[j]) for i, j in enumerate(keep)]))
    c.prove('the other comes last', c.eq(q.v[len(keep) + 1], y))

@contract('P15', 'cut_refused', CUT, samples=150, budget=100)
def cut_refused(c):
    """refused unless an open chain is crossed exactly once, a loop exactly twice"""
    pl, r, nn = plane(c)
    p, v, n, closed = chain(c)
    h = lambda i: c.dot(nn, v[i] - r)
    off(c, n, h)
    idx = c.value('intersect_plane', p.intersect_plane, pl, ret_edge_indices=True)[1]     # the crossed edges, by P15/intersect
    K = c.len(idx)
    c.assume(c.ne(K, 2 if closed else 1))
    c.raises('cutting with another number of crossings', p.cut_by_plane, pl)
