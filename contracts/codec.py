"""P04: JSON encoding of quantities and arrays."""
from vc.registry import contract
JS = 'blmath.util.json.'
VA = 'blmath.value.Value'
UNITS = ['cm', 'ft', 'kg', 'deg', 'yr', 'g', 'm/s', None]

class File(object):
    """a text file"""
    def __init__(self): self.parts = []
    def write(self, s): self.parts.append(s)
    def read(self): return self.parts[0] if len(self.parts) == 1 else ''.join(self.parts)

def units(c): return [u for u in UNITS if u is None or u in c.mod('blmath.units').all_units]

def quantity(c, name):
    u = c.choice(name + ' unit', units(c) if not c.symbolic else units(c)[:3] + [None])
    x = c.real(name)
    if not c.symbolic: x = c.rng.choice([x, x, 0.0, -0.0, 1e300, 5e-324, 1 / 3., -x * 1e-9, 2.0 ** 53 + 2])
    return c.value('constructor', VA, x, u), x, u

def same(c, r, x, u): return c.and_(type(r).__name__ == 'Value', r.units == u, c.eq(r.value, x, tol=0)) if type(r).__name__ == 'Value' else False

def back(c, obj):
    """written and read back, as text or through a file"""
    if c.boolean('file'):
        f = File()
        c.value('dump', JS + 'dump', obj, f, mutates=(f,))
        return c.value('load', JS + 'load', f)
    return c.value('loads', JS + 'loads', c.value('dumps', JS + 'dumps', obj))

@contract('P04', 'values', [JS + 'dump', JS + 'load', JS + 'dumps', JS + 'loads', JS + 'decode_json', VA + '.for_json', VA + '.from_json'], samples=200, budget=60)
def values(c):
    """the same number and unit, at any nesting depth; what surrounds it as it was"""
    (v, x, u), (w, y, t) = quantity(c, 'v'), quantity(c, 'w')
    where = c.choice('where', ['top', 'object', 'list', 'deep', 'beside'])
    if where == 'top': c.prove('the same quantity', same(c, back(c, v), x, u))
    elif where == 'object':
        r = back(c, {'a': v, 'n': 1, 'value': 2.5, 'b': w, 'units': 'cm'})
        c.prove('the same quantities', c.and_(same(c, r['a'], x, u), same(c, r['b'], y, t)))
        c.prove('the rest as it was', {k: r[k] for k in r if k not in 'ab'} == {'n': 1, 'value': 2.5, 'units': 'cm'})
    elif where == 'list':
        r = back(c, [v, 'cm', w, None, True])
        c.prove('the same quantities', c.and_(same(c, r[0], x, u), same(c, r[2], y, t)))
        c.prove('the rest as it was', r[1] == 'cm' and r[3] is None and r[4] is True and len(r) == 5)
    elif where == 'deep':
        r = back(c, {'a': [{'b': {'c': [[v, {'d': w}], []], 'e': {}}}]})
        c.prove('the same quantities', c.and_(same(c, r['a'][0]['b']['c'][0][0], x, u), same(c, r['a'][0]['b']['c'][0][1]['d'], y, t)))
        c.prove('the rest as it was', list(r) == ['a'] and r['a'][0]['b']['e'] == {} and r['a'][0]['b']['c'][1] == [])
    else:
        r = back(c, {'x': {'__value__': {'value': 2.5, 'units': 'cm'}}, 'y': v})
        c.prove('an annotated object is a quantity', same(c, r['x'], 2.5, 'cm'))
        c.prove('the same quantity', same(c, r['y'], x, u))
    c.prove('the quantity written stays', same(c, v, x, u))

@contract('P04', 'plain', [JS + 'decode_json', JS + 'loads'], samples=60, budget=30)
def plain(c):
    """objects without a recognised annotation are returned as they were"""
    d = c.choice('object', [{}, {'a': 1}, {'value': 1.5, 'units': 'cm'}, {'ndarray': [1, 2], 'dtype': 'int64'}, {'__array__': [1]}, {'dtype': 'float64', 'shape': [1, 1], 'data': [1], 'format': 'csr', 'row': [0], 'col': [0]}, {'__values__': {'value': 1, 'units': None}}])
    e = dict(d)
    r = c.value('decode_json', JS + 'decode_json', d)
    c.prove('returned as it was', r is d and d == e)
    c.prove('read back as it was', back(c, [d, {'in': d}]) == [e, {'in': e}])

@contract('P04', 'incomplete', [JS + 'decode_json'], samples=60, budget=30)
def incomplete(c):
    """incomplete sparse annotations are returned as they were"""
    full = {'__scipy.sparse.sparsematrix__': True, 'dtype': 'float64', 'shape': [2, 2], 'data': [1.0], 'format': 'csr', 'row': [0], 'col': [1]}
    gone = [k for k in list(full)[1:] if c.boolean('without ' + k)]
    if not gone: return
    d = {k: full[k] for k in full if k not in gone}
    r = c.value('decode_json', JS + 'decode_json', d)
    c.prove('returned as it was', r is d and d == {k: full[k] for k in full if k not in gone})

@contract('P04', 'arrays', [JS + 'decode_json', JS + 'loads'], samples=200, budget=60)
def arrays(c):
    """annotated arrays: the annotated element type, or double precision; shape and contents"""
    shape = c.choice('shape', [(0,), (1,), (3,), (2, 3), (1, 1), (2, 0), (2, 2, 2)] + ([] if c.symbolic else [(150, 3)]))
    kind = c.choice('dtype', [None, 'float64', 'int64', 'bool', 'float32', 'uint32'])
    a = c.arr('a', shape, kind={'int64': 'i', 'uint32': 'i', 'bool': 'b'}.get(kind, 'f'), **({'lo': 0} if kind == 'uint32' else {'lo': -9} if kind == 'int64' else {}))
    if not c.symbolic and kind == 'float32': a = a.astype('float32')
    def nest(x, d): return x.item() if d == 0 and hasattr(x, 'item') else x if d == 0 else [nest(x[i], d - 1) for i in range(len(x))]
    l = nest(a, len(shape))
    d = {'__ndarray__': l}
    if kind: d['dtype'] = kind
    direct = c.boolean('direct')
    r = c.value('decode_json', JS + 'decode_json', d) if direct else back(c, {'in': [d]})['in'][0]
    c.prove('an array', c.is_array(r))
    c.prove('the annotated element type', str(r.dtype) == (kind or 'float64'))
    c.prove('the shape and the contents', c.and_(c.shape_is(r, shape), c.eq(r, a, tol=0)))

@contract('P04', 'sparse', [JS + 'decode_json', JS + 'loads'], samples=300, concrete_only='scipy.sparse is not modelled; checked at run time on matrices of up to 5 by 5')
def sparse(c):
    """complete annotated sparse matrices: the same matrix in the annotated format and element type"""
    np = c.np
    m, n = c.int('m', lo=1, hi=5), c.int('n', lo=1, hi=5)
    k = c.int('k', lo=0, hi=8)
    kind = c.choice('dtype', ['float64', 'int32', 'float32', 'int64'])
    fmt = c.choice('format', ['csr', 'csc', 'coo', 'lil', 'dok'])
    i, j = [c.rng.randrange(m) for x in range(k)], [c.rng.randrange(n) for x in range(k)]
    v = [c.rng.randint(-9, 9) if kind[0] == 'i' else c.rng.randint(-9, 9) / 4. for x in range(k)]
    M = np.zeros((m, n))
    for x in range(k): M[i[x], j[x]] += v[x]
    d = {'__scipy.sparse.sparsematrix__': True, 'dtype': kind, 'shape': [m, n], 'data': v, 'format': fmt, 'row': i, 'col': j}
    r = c.value('decode_json', JS + 'decode_json', d) if c.boolean('direct') else back(c, {'in': [d]})['in'][0]
    c.prove('in the annotated format', getattr(r, 'format', None) == fmt)
    c.prove('of the annotated element type', str(r.dtype) == kind)
    c.prove('the same matrix', r.shape == (m, n) and bool((r.toarray() == M).all()))
