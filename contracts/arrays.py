"""P34: array helpers."""
from vc.registry import contract
NE = 'blmath.numerics.numpy_ext.'
ML = 'blmath.numerics.matlab.'
PR = 'blmath.numerics.predicates.is_empty_arraylike'
OP = 'blmath.numerics.operations.scale_to_range'

@contract('P34', 'views', [ML + 'row', ML + 'col'], samples=60, budget=30)
def views(c):
    """a row and a column with the entries in order, sharing the memory of contiguous arrays"""
    shape = [(c.int('n', lo=0),), (c.int('n', lo=0), 3), (2, 3), (1, c.int('n', lo=0)), (c.int('n', lo=0), 1)][c.choice('shape', [0, 1, 2, 3, 4])]
    a = c.arr('a', shape)
    flat = a.reshape(-1)
    n = c.len(flat)
    r, k = c.value('row', ML + 'row', a), c.value('col', ML + 'col', a)
    c.prove('one row', c.shape_is(r, (1, n)))
    c.prove('one column', c.shape_is(k, (n, 1)))
    c.prove('the entries in order', c.forall(n, lambda i: c.and_(c.eq(r[0][i], flat[i], tol=0), c.eq(k[i][0], flat[i], tol=0))))
    if c.symbolic or (a.flags.c_contiguous and a.size): c.prove('views of the array', c.and_(c.shares(r, a), c.shares(k, a)))

def one(x): return isinstance(x, int) and x == 1

OPERS = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'less': lambda x, y: x < y}

@contract('P34', 'bsxfun', [ML + 'bsxfun'], samples=150, budget=60)
def bsxfun(c):
    """singleton dimensions are expanded; the operation is applied elementwise"""
    n, m = c.int('n', lo=1), c.int('m', lo=1)
    sa, sb = [((n, m), (n, m)), ((n, m), (n, 1)), ((n, m), (1, m)), ((n, 1), (n, m)), ((1, m), (n, m)), ((n, 1), (1, m)), ((1, m), (n, 1)), ((n, 1), (n, 1)), ((1, m), (1, m))][c.choice('shapes', list(range(9)))]
    a, b = c.arr('a', sa), c.arr('b', sb)
    f = OPERS[c.choice('op', ['add', 'sub', 'less'])]
    r = c.value('bsxfun', ML + 'bsxfun', f, a, b)
    h = sb[0] if one(sa[0]) else sa[0]
    w = sb[1] if one(sa[1]) else sa[1]
    c.prove('the expanded shape', c.shape_is(r, (h, w)))
    c.prove('the operation on the expanded entries', c.forall(h, lambda i: c.forall(w, lambda j: c.eq(r[i][j], f(a[0 if one(sa[0]) else i][0 if one(sa[1]) else j], b[0 if one(sb[0]) else i][0 if one(sb[1]) else j]), tol=0))))

@contract('P34', 'bsxfun_mismatch', [ML + 'bsxfun'], samples=60, budget=30)
def bsxfun_mismatch(c):
    """shapes that cannot be expanded to each other are refused"""
    n, m, k, l = (c.int(x, lo=2) for x in 'nmkl')
    c.assume(c.ne(m, l))
    if c.boolean('rows'): c.assume(c.ne(n, k))
    a, b = c.arr('a', (n, m)), c.arr('b', (k, l))
    c.raises('matrices of different shapes', ML + 'bsxfun', OPERS['add'], a, b)

@contract('P34', 'readonly', [NE + 'np_make_readonly'], samples=60, budget=30)
def readonly(c):
    """every array given is protected, other items are ignored"""
    n = c.choice('n', [0, 1, 2, 3, 4])
    arrs = [c.arr('a%d' % i, (c.int('k', lo=0), 3)) if c.boolean('array%d' % i) else c.choice('other%d' % i, [None, 'text', [1, 2]]) for i in range(n)]
    was = [a for a in arrs]
    c.value('np_make_readonly', NE + 'np_make_readonly', arrs if c.boolean('list') else tuple(arrs), mutates=arrs)
    for a, b in zip(arrs, was):
        c.prove('the items are the same', a is b)
        if c.is_array(a):
            c.prove('the array is protected', c.readonly(a))
            c.raises('writing to the array', lambda: a.__setitem__(slice(None), 1.))
        else: c.prove('other items are as they were', a in (None, 'text', [1, 2]))

@contract('P34', 'alike', [PR, OP], samples=60, budget=30)
def alike(c):
    """arrays, lists and tuples are accepted alike"""
    n = c.choice('n', [0, 1, 2, 3])
    a = c.arr('a', (n,))
    l = [a[i] for i in range(n)]
    for what, x in (('an array', a), ('a list', l), ('a tuple', tuple(l)), ('a nested array', c.arr('m', (2, n))), ('a nested array', c.arr('m2', (n, 2)))):
        c.prove('%s is empty exactly when it has no entries' % what, bool(c.value('is_empty_arraylike', PR, x)) is (n == 0))
    c.prove('nothing is empty', c.value('is_empty_arraylike of None', PR, None) is True)
    c.prove('a nested list is not empty', not c.value('is_empty_arraylike', PR, [[]]))
    if n > 1:
        lo, hi = c.real('lo'), c.real('hi')
        c.assume(c.ne(a[0], a[1]))
        if not c.symbolic: c.well(lambda: max(l) - min(l) > 1e-2 * max(map(abs, l)))
        r = [c.value('scale_to_range', OP, x, lo, hi) for x in (a, l, tuple(l))]
        c.prove('scaling gives the same for arrays, lists and tuples', c.and_(c.eq(r[0], r[1]), c.eq(r[0], r[2])))

LAYOUTS = ['C', 'transposed', 'strided', 'reversed', 'slice', 'readonly']

@contract('P34', 'reshape', [NE + 'np_reshape_safe'], samples=600, concrete_only='memory layouts of numpy arrays are not modelled; checked at run time on arrays of up to 4 dimensions in six layouts')
def reshape(c):
    """an array of the requested shape sharing memory, or an error (or a warning and a copy)"""
    np = c.np
    d = c.int('d', lo=0, hi=4)
    shape = tuple(c.int('s%d' % i, lo=0 if c.int('zero', lo=0, hi=9) == 0 else 1, hi=4) for i in range(d))
    layout = c.choice('layout', LAYOUTS)
    kind = c.choice('kind', ['f', 'i'])
    size = int(np.prod(shape))
    base = np.arange(4 * size + 4).astype(float if kind == 'f' else int)
    a = base[:size].reshape(shape)
    if layout == 'transposed': a = a.T
    if layout == 'strided' and d: a = base[:2 * size].reshape(shape[:-1] + (2 * shape[-1],))[..., ::2]
    if layout == 'reversed' and d: a = a[::-1]
    if layout == 'slice' and d: a = base[:2 * size].reshape((2 * shape[0],) + shape[1:])[:shape[0]]
    if layout == 'readonly': a.flags.writeable = False
    dims = list(a.shape)
    how = c.choice('how', ['same', 'flat', 'column', 'merge', 'permuted', 'minus one', 'wrong', 'split', 'squeeze'])
    new = {'same': tuple(dims), 'flat': (size,), 'column': (size, 1), 'merge': tuple(dims[:-2]) + (dims[-1] * dims[-2],) if len(dims) > 1 else (size,), 'permuted': tuple(dims[::-1]), 'minus one': (-1,), 'wrong': (size + 1,),
           'split': (2, size // 2) if size and size % 2 == 0 else (size,), 'squeeze': tuple(x for x in dims if x != 1) + (1,)}[how]
    warn = c.boolean('warn')
    import warnings
    want = None if how == 'wrong' else a.copy().reshape(new)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        kw = {'just_warn': True} if warn else {}
        f = c.fn(NE + 'np_reshape_safe')
        try: r, err = f(a, new, **kw), None
        except Exception as e: r, err = None, e
    c.prove('the array given keeps its shape', a.shape == tuple(dims))
    if how == 'wrong':
        c.prove('a shape of another size is refused', err is not None)
        return
    viewable = np.shares_memory(a.reshape(new), a) if size else True
    if size == 0: return
    mine = [x for x in w if 'eshape' in str(x.message) and not issubclass(x.category, DeprecationWarning)]
    if err is not None:
        c.prove('refused only when a copy would be needed', not viewable and not warn)
        return
    c.prove('the requested shape', r.shape == want.shape)
    c.prove('the contents in order', bool((r == want).all()) and r.dtype == a.dtype)
    if viewable: c.prove('shares memory with the array, without a warning', bool(np.shares_memory(r, a)) and not mine)
    else: c.prove('a copy only in warning mode, with a warning', warn and len(mine) > 0)

@contract('P34', 'sparse', [ML + 'sparse'], samples=300, concrete_only='scipy.sparse is not modelled; checked at run time on matrices of up to 6 by 6')
def sparse(c):
    """the matrix of the triplets, repeated ones added"""
    np = c.np
    m, n = c.int('m', lo=1, hi=6), c.int('n', lo=1, hi=6)
    k = c.int('k', lo=1, hi=12)
    i, j = np.array([c.rng.randrange(m) for x in range(k)]), np.array([c.rng.randrange(n) for x in range(k)])
    v = np.array(c.arr('v', (k,)))
    M = np.zeros((m, n))
    for x in range(k): M[i[x], j[x]] += v[x]
    shaped = c.boolean('shaped')
    I, J = i, j
    if c.boolean('columns'): I, J = i[:, None], j[None]
    r = c.value('sparse', ML + 'sparse', I, J, v, *((m, n) if shaped else ()))
    if not shaped: M = M[:i.max() + 1, :j.max() + 1]
    c.prove('the given shape, or the smallest one', r.shape == M.shape)
    c.prove('the entries are the sums of the triplets', c.eq(r.toarray(), M))
    c.prove('stored by columns', r.format == 'csc')
