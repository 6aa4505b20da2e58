"""P09: numeric validation, P10: zero-safe division and range scaling."""
from vc.registry import contract
CO = 'blmath.numerics.coercion.as_numeric_array'
PR = 'blmath.numerics.predicates.'
OP = 'blmath.numerics.operations.'

def check_predicates(c, x, numeric, array):
    a = c.value('isnumeric', PR + 'isnumeric', x)
    s = c.value('isnumericscalar', PR + 'isnumericscalar', x)
    r = c.value('isnumericarray', PR + 'isnumericarray', x)
    c.prove('accepted as numeric exactly when finite real numbers', c.iff(a, numeric))
    c.prove('accepted as a numeric scalar exactly when a finite real scalar', c.iff(s, numeric and not array))
    c.prove('accepted as a numeric array exactly when an array of finite real numbers', c.iff(r, numeric and array))

@contract('P09', 'predicates_scalars', [PR + 'isnumeric', PR + 'isnumericscalar', PR + 'isnumericarray'])
def predicates_scalars(c):
    """scalars of every kind"""
    import decimal
    what = c.choice('what', ['real', 'npreal', 'int', 'zero', 'nan', 'inf', 'ninf', 'bool', 'string', 'complex', 'complexreal', 'none', 'npbool', 'npnan', 'big', 'emptystring', 'dict'])
    x = {'real': lambda: c.real('x'), 'npreal': lambda: c.real('x', np=True), 'int': lambda: c.int('k', lo=-10), 'zero': lambda: 0, 'nan': lambda: float('nan'), 'inf': lambda: float('inf'), 'ninf': lambda: float('-inf'),
         'bool': lambda: c.boolean('b'), 'string': lambda: '12.5', 'complex': lambda: 1 + 2j, 'complexreal': lambda: 1 + 0j, 'none': lambda: None, 'npbool': lambda: c.np.all(c.bools('m', (1,))), 'npnan': lambda: c.np.float64(float('nan')), 'big': lambda: 10 ** 30,
         'emptystring': lambda: '', 'dict': lambda: {}}[what]()
    check_predicates(c, x, what in ('real', 'npreal', 'int', 'zero', 'big'), False)

@contract('P09', 'predicates_arrays', [PR + 'isnumeric', PR + 'isnumericscalar', PR + 'isnumericarray'])
def predicates_arrays(c):
    """arrays and lists of finite numbers, and the same with one entry that is not a finite number"""
    shape = [(c.int('n', lo=0),), (c.int('n', lo=0), c.int('m', lo=0)), (c.int('n', lo=0), 2, 3)][c.choice('dim', [0, 1, 2])]
    kind = c.choice('kind', ['f', 'i', 'b'])
    a = c.arr('a', shape, kind=kind, lo=-9 if kind == 'i' else None)
    if kind == 'b': check_predicates(c, a, False, True); return
    bad = c.choice('bad', [None, 'nan', 'inf', '-inf']) if kind == 'f' else None
    if bad is None: check_predicates(c, a, True, True); return
    a = a.copy()
    c.assume(c.and_(*[c.gt(d, 0) for d in shape]))
    ix = []
    for k, d in enumerate(shape):
        i = c.int('i%d' % k, lo=0, hi=d - 1 if isinstance(d, int) else None)
        c.assume(c.lt(i, d)); ix.append(i)
    a[tuple(ix)] = float(bad)
    check_predicates(c, a, False, True)

@contract('P09', 'predicates_lists', [PR + 'isnumeric', PR + 'isnumericscalar', PR + 'isnumericarray'])
def predicates_lists(c):
    """lists and tuples with one odd entry at any place"""
    vals = [c.real('x%d' % k) for k in range(c.choice('n', [1, 2, 3]))]
    odd = c.choice('odd', [None, 'str', 'none', 'complex', 'nan', 'inf', 'allbool', 'int', 'nested', 'nestednan'])
    k = c.choice('at', list(range(len(vals))))
    if odd == 'str': vals[k] = '1'
    if odd == 'none': vals[k] = None
    if odd == 'complex': vals[k] = 1j
    if odd in ('nan', 'inf'): vals[k] = float(odd)
    if odd == 'allbool': vals = [bool(j & 1) for j in range(len(vals))]
    if odd == 'int': vals[k] = c.int('z', lo=-5)
    if odd == 'nested': vals = [list(vals), list(vals)]
    if odd == 'nestednan': vals = [list(vals), list(vals)]; vals[1][k] = float('nan')
    if c.boolean('tuple'): vals = tuple(vals)
    check_predicates(c, vals, odd in (None, 'int', 'nested'), True)

def match(want, have):
    return len(want) == len(have)

@contract('P09', 'coercion_shape', [CO, PR + 'isnumericarray'])
def coercion_shape(c):
    """arrays of every shape against every required shape with wildcards"""
    nd = c.choice('nd', [1, 2, 3])
    shape = [c.int('d%d' % k, lo=0, typical=[0, 1, 2, 3, 3, 4]) for k in range(nd)]
    wd = c.choice('wd', [1, 2, 3])
    want = []
    for k in range(wd):
        if c.boolean('wild%d' % k): want.append(-1)
        else:
            w = c.int('w%d' % k, lo=0, typical=[0, 1, 2, 3, 3, 4])
            if not c.symbolic and c.given is None and nd == wd and c.rng.random() < 0.7: w = c.inputs['w%d' % k] = shape[k if c.rng.random() < 0.6 else nd - 1 - k]
            want.append(w)
    a = c.arr('a', tuple(shape))
    if wd != nd:
        c.raises('another number of dimensions', CO, a, shape=tuple(want))
        return
    fits = lambda s: c.and_(True, *[c.eq(w, d) for w, d in zip(want, s) if not (isinstance(w, int) and w == -1)])
    if c.decided(fits(shape)):
        r = c.value('as_numeric_array with its shape', CO, a, shape=tuple(want))
        c.prove('an array of the required shape is returned with the same numbers', c.and_(c.is_array(r), c.eq(r, a)))
    elif c.decided(fits(shape[::-1])):
        r = c.value('as_numeric_array with the shape of the transpose', CO, a, shape=tuple(want))
        c.prove('the transpose is returned when only it has the required shape', c.and_(c.is_array(r), c.eq(r, a.T)))
    else:
        c.raises('as_numeric_array of another shape', CO, a, shape=tuple(want))

@contract('P09', 'coercion_lists', [CO, PR + 'isnumericarray'])
def coercion_lists(c):
    """nested lists and tuples"""
    rows, cols = c.choice('rows', [1, 2, 3]), c.choice('cols', [1, 2, 3])
    v = c.arr('v', (rows, cols), layout=False)
    l = [[v[i, j] for j in range(cols)] for i in range(rows)]
    if c.boolean('tuple'): l = tuple(tuple(r) for r in l)
    r = c.value('as_numeric_array of a list', CO, l)
    c.prove('a list becomes an array of the same numbers', c.and_(c.is_array(r), c.eq(r, v)))
    r = c.value('as_numeric_array of a list with its shape', CO, l, shape=(-1, cols))
    c.prove('with a shape that fits', c.and_(c.is_array(r), c.eq(r, v)))
    c.raises('as_numeric_array of a list with another shape', CO, l, shape=(rows + 1, cols + 5))
    c.raises('as_numeric_array of a ragged list', CO, [[1.0, 2.0], [v[0, 0]]])

@contract('P09', 'coercion_none', CO)
def coercion_none(c):
    """a missing value is passed through only when that is allowed"""
    shape = c.choice('shape', [None, (3,), (-1, 3)])
    r = c.value('as_numeric_array of None when allowed', CO, None, shape=shape, allow_none=True)
    c.prove('a missing value is passed through when allowed', r is None)
    c.raises('as_numeric_array of None', CO, None, shape=shape)
    c.raises('as_numeric_array of None, empty allowed', CO, None, shape=shape, empty_as_none=True)
    e = c.np.zeros((0,))
    r = c.value('as_numeric_array of an empty array as None', CO, e, shape=shape, allow_none=True, empty_as_none=True)
    c.prove('an empty array counts as missing when asked', r is None)
    r = c.value('as_numeric_array of an empty array', CO, e)
    c.prove('an empty array is an array otherwise', c.shape_is(r, (0,)))

@contract('P09', 'coercion_refusals', CO)
def coercion_refusals(c):
    """inputs that are not arrays of finite real numbers"""
    n = c.int('n', lo=1)
    what = c.choice('what', ['nan', 'inf', 'bools', 'strings', 'string', 'complex', 'scalar', 'none in list'])
    a = c.arr('a', (n, 3)).copy()
    k = c.int('k', lo=0); c.assume(c.lt(k, n))
    an = c.boolean('allow_none')
    if what in ('nan', 'inf'):
        a[k, c.choice('j', [0, 1, 2])] = float(what)
        c.raises('an array with an entry that is not finite', CO, a, shape=(-1, 3), allow_none=an)
    if what == 'bools': c.raises('an array of booleans', CO, c.bools('b', (n, 3)), allow_none=an)
    if what == 'strings': c.raises('a list of strings', CO, ['1', '2'], allow_none=an)
    if what == 'string': c.raises('a string', CO, 'abc', allow_none=an)
    if what == 'complex': c.raises('a list of complex numbers', CO, [1j, 2.0], allow_none=an)
    if what == 'scalar': c.raises('a scalar where points are required', CO, c.real('x'), shape=(-1, 3), allow_none=an)
    if what == 'none in list': c.raises('a list with a missing value', CO, [1.0, None], allow_none=an)

@contract('P09', 'coercion_dtype', CO)
def coercion_dtype(c):
    """the requested element type is applied"""
    n = c.int('n', lo=0)
    a = c.iarr('a', (n, 3), lo=0, hi=100)
    dt = c.choice('dt', ['float64', 'float32', 'uint32', 'int64', 'uint64'])
    r = c.value('as_numeric_array with an element type', CO, a, shape=(-1, 3), dtype=getattr(c.np, dt))
    c.prove('the requested element type is applied', r.dtype == c.np.dtype(dt))
    c.prove('the numbers are the same', c.eq(r, a))
    b = c.pts('b', n)
    q = c.value('as_numeric_array of integers', CO, b, dtype=c.np.float64)
    c.prove('the requested element type is kept', q.dtype == c.np.dtype('float64'))

@contract('P09', 'empty', PR + 'is_empty_arraylike')
def empty(c):
    """(also P34) nothing, and empty arrays, lists and tuples are empty; nothing else is"""
    f = PR + 'is_empty_arraylike'
    n, m = c.int('n', lo=0), c.int('m', lo=0)
    c.prove('None is empty', c.eq(bool(c.value('is_empty_arraylike', f, None)), True))
    for a in [c.vec('a', n), c.arr('b', (n, m))]:
        z = c.eq(a.size, 0)
        c.prove('an array is empty exactly when it has no element', c.iff(c.value('is_empty_arraylike', f, a), z))
    k = c.choice('k', [0, 1, 2])
    l = [c.real('x%d' % j) for j in range(k)]
    c.prove('a list is empty exactly when it has no element', c.eq(bool(c.value('is_empty_arraylike', f, l)), k == 0))
    c.prove('a tuple is empty exactly when it has no element', c.eq(bool(c.value('is_empty_arraylike', f, tuple(l))), k == 0))

# ------------------------------------------------------------------ P10
@contract('P10', 'zero_safe_divide', OP + 'zero_safe_divide')
def zero_safe_divide(c):
    """finite quotients are the quotients, everything else is the default"""
    n = c.int('n', lo=0)
    a, b = c.vec('a', n), c.vec('b', n)
    if not c.symbolic and c.given is None:
        for i in range(n):
            if c.rng.random() < 0.3: b[i] = 0
            if c.rng.random() < 0.2: a[i] = 0
    if c.boolean('default'): d = c.real('d'); kw = {'default_error_value': d}
    else: d, kw = 0, {}
    r = c.value('zero_safe_divide', OP + 'zero_safe_divide', a, b, **kw)
    c.prove('one result per element', c.shape_is(r, (n,)))
    c.well(lambda: c.forall(n, lambda i: c.or_(b[i] == 0, abs(b[i]) > 1e-3 * c.u)))
    c.prove('finite quotients are kept', c.forall(n, lambda i: c.implies(b[i] != 0 if not c.symbolic else c.ne(b[i], 0), lambda: c.eq(r[i] * b[i], a[i]))))
    c.prove('the default stands for every quotient that is not finite', c.forall(n, lambda i: c.implies(bool(b[i] == 0) if not c.symbolic else c.eq(b[i], 0), lambda: c.eq(r[i], d))))

@contract('P10', 'zero_safe_divide_nonfinite', OP + 'zero_safe_divide')
def zero_safe_divide_nonfinite(c):
    """infinite and missing elements in either argument"""
    n = c.int('n', lo=1)
    a, b = c.vec('a', n).copy(), c.vec('b', n).copy()
    d = c.real('d')
    k = c.int('k', lo=0); c.assume(c.lt(k, n))
    which, what = c.choice('which', [0, 1]), c.choice('what', ['nan', 'inf', '-inf'])
    if which == 0: a[k] = float(what)
    else: b[k] = float(what)
    r = c.value('zero_safe_divide', OP + 'zero_safe_divide', a, b, default_error_value=d)
    if which == 1 and what != 'nan': c.prove('a number over infinity is zero', c.eq(r[k], 0))
    else: c.prove('the default stands for a quotient that is not finite', c.eq(r[k], d))

@contract('P10', 'zero_safe_divide_broadcast', OP + 'zero_safe_divide')
def zero_safe_divide_broadcast(c):
    """two-dimensional arrays, and an array over a row"""
    n, m = c.int('n', lo=0), c.int('m', lo=0)
    a = c.arr('a', (n, m))
    b = c.arr('b', (n, m)) if c.boolean('full') else c.vec('b', m)
    if not c.symbolic and c.given is None: b[b < 0] = 0
    d = c.real('d')
    r = c.value('zero_safe_divide', OP + 'zero_safe_divide', a, b, default_error_value=d)
    c.prove('the shape is that of the quotient', c.shape_is(r, (n, m)))
    bb = lambda i, j: b[i][j] if b.ndim == 2 else b[j]
    z = (lambda x: bool(x == 0)) if not c.symbolic else (lambda x: c.eq(x, 0))
    c.well(lambda: c.forall(n, lambda i: c.forall(m, lambda j: c.or_(bb(i, j) == 0, abs(bb(i, j)) > 1e-3 * c.u))))
    c.prove('every element is its quotient, or the default when that is not finite', c.forall(n, lambda i: c.forall(m, lambda j: c.and_(
        c.implies(z(bb(i, j)), lambda: c.eq(r[i][j], d)), c.implies(c.not_(z(bb(i, j))), lambda: c.eq(r[i][j] * bb(i, j), a[i][j]))))))

@contract('P10', 'scale_to_range', OP + 'scale_to_range')
def scale_to_range(c):
    """smallest to the lower end, largest to the upper end, affine in between"""
    if c.boolean('two'): shape = (c.int('n', lo=1), c.choice('m', [1, 2, 3])); a = c.arr('a', shape)
    else: shape = (c.int('n', lo=1),); a = c.arr('a', shape)
    lo, hi = c.real('lo'), c.real('hi')
    mn, mx = c.np.min(a), c.np.max(a)
    c.assume(c.lt(mn, mx)); c.well(lambda: c.gt(mx - mn, 1e-2 * c.u))
    r = c.value('scale_to_range', OP + 'scale_to_range', a, lo, hi)
    c.prove('the shape is kept', c.shape_is(r, shape))
    e = lambda x, y: c.eq((y - lo) * (mx - mn), (hi - lo) * (x - mn))
    if len(shape) == 1: c.prove('every element is mapped affinely, smallest to the lower and largest to the upper end', c.forall(shape[0], lambda i: e(a[i], r[i])))
    else: c.prove('every element is mapped affinely, smallest to the lower and largest to the upper end', c.forall(shape[0], lambda i: c.forall(shape[1], lambda j: e(a[i][j], r[i][j]))))
    if c.boolean('list'):
        l = c.reals('l', c.choice('k', [2, 3]))
        mn, mx = c.min(*l), c.max(*l)
        c.assume(c.lt(mn, mx)); c.well(lambda: c.gt(mx - mn, 1e-2 * c.u))
        q = c.value('scale_to_range of a list', OP + 'scale_to_range', l, lo, hi)
        c.prove('a list is scaled the same way', c.and_(*[e(x, q[k]) for k, x in enumerate(l)]))
