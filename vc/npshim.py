"""Contracts of the numpy operations, in executable form over symbolic arrays.  Everything in this file is part of the trusted
base: it states what numpy does; the contracts run with the installed numpy in concrete mode are the check on it."""
import types, functools, itertools
from fractions import Fraction
from . import terms as T
from . import ctx as C
from . import sym as S
from .sym import *
from .ctx import Unsupported

class LinAlgError(ValueError):
    pass

def _mod(name):
    m = types.ModuleType(name)
    def ga(attr, name=name):
        if attr.startswith('__'): raise AttributeError(attr)
        raise Unsupported('%s.%s' % (name, attr))
    m.__getattr__ = ga
    return m

np = _mod('numpy')
np.__path__ = []
linalg = _mod('numpy.linalg')
np.linalg = linalg
linalg.LinAlgError = LinAlgError

# scalar types ------------------------------------------------------
class _Meta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, (SNum, SBool)) and getattr(x, 'np', False):
            k = 'b' if isinstance(x, SBool) else x.kind
            return k in cls._kinds
        return False
    def __call__(cls, x=0, *a, **k):
        r = asarr(x, cls._np_name)
        return wrap(r) if r.ndim == 0 else r
    def __eq__(cls, o):
        if isinstance(o, DType): return o == cls
        return cls is o
    def __hash__(cls): return id(cls)

def _scalar(name, np_name, kinds):
    t = _Meta(name, (), {'_np_name': np_name, '_kinds': kinds})
    return t
for nm, canonical, kinds in [('float64', 'float64', 'f'), ('float32', 'float32', ''), ('float16', 'float16', ''), ('double', 'float64', 'f'), ('int64', 'int64', 'i'), ('int32', 'int32', ''), ('int_', 'int64', 'i'), ('intp', 'int64', 'i'), ('uint32', 'uint32', ''), ('uint64', 'uint64', ''), ('uint8', 'uint8', ''), ('int8', 'int8', ''), ('int16', 'int16', ''), ('uint16', 'uint16', ''), ('bool_', 'bool', 'b')]:
    setattr(np, nm, _scalar(nm, canonical, kinds))
np.bool = np.bool_
np.floating = _scalar('floating', None, 'f')
np.integer = _scalar('integer', None, 'i')
np.number = _scalar('number', None, 'fi')
np.generic = _scalar('generic', None, 'fib')
np.ndarray = SArr
class _Mat(object): pass
np.dtype = lambda d: (lambda k: DType(*k) if k else (_ for _ in ()).throw(TypeError('data type %r not understood' % (d,))))(dkind(d))
np.newaxis = None
np.pi = SNum(V(T.var('pi')), 'f')
np.nan = np.NaN = float('nan')
np.inf = float('inf')
np.e = None

def removed(name):
    raise AttributeError("module 'numpy' has no attribute '%s'" % name)
_removed = ('int', 'float', 'object', 'str', 'NaN_', 'mat', 'product', 'cumproduct', 'float_', 'in1d_', 'row_stack_', 'trapz', 'asfarray', 'alltrue', 'sometrue', 'Inf', 'infty', 'complex')
def _np_getattr(attr):
    if attr in _removed: removed(attr)
    if attr.startswith('__'): raise AttributeError(attr)
    raise Unsupported('numpy.%s' % attr)
np.__getattr__ = _np_getattr
del np.NaN

def exp(f):
    setattr(np, f.__name__.lstrip('_').rstrip('_'), f)
    return f

# creation ----------------------------------------------------------
@exp
def asarray(a, dtype=None, order=None, **k):
    return asarr(a, dtype)
np.asanyarray = np.ascontiguousarray = np.asarray
@exp
def array(a, dtype=None, copy=True, ndmin=0, **k):
    r = asarr(a, dtype, copy=bool(copy))
    if copy and r is a: r = r.copy()
    while r.ndim < int(ndmin): r = r[None]
    return r
@exp
def copy(a, *k, **kw):
    return asarr(a).copy()

def _shape(s):
    if isinstance(s, (list, tuple)): return tuple(dim(d) for d in s)
    if isinstance(s, SArr): return tuple(dim(x) for x in s)
    return (dim(s),)
def _neg(s):
    for d in s:
        if isinstance(d, int) and d < 0: raise ValueError('negative dimensions are not allowed')
    return s
@exp
def full(shape, fill_value, dtype=None, **k):
    a = asarr(fill_value, dtype)
    if a.ndim:
        return broadcast_to(a, shape).copy()
    v = a.at()
    return SArr.make(_neg(_shape(shape)), a.kind, lambda i: v)
@exp
def zeros(shape, dtype=float, **k):
    kd = dkind(dtype)
    v = {'f': V(T.ZERO), 'i': V(T.cI(0)), 'b': V(T.FALSE)}.get(kd[0])
    if v is None: raise Unsupported('zeros of objects')
    return SArr.make(_neg(_shape(shape)), kd[0], lambda i: v)
@exp
def ones(shape, dtype=float, **k):
    kd = dkind(dtype)
    v = {'f': V(T.ONE), 'i': V(T.cI(1)), 'b': V(T.TRUE)}[kd[0]]
    return SArr.make(_neg(_shape(shape)), kd[0], lambda i: v)
@exp
def empty(shape, dtype=float, **k):
    # unspecified contents
    kd = dkind(dtype)
    c = C.get()
    nm = 'uninit!%d' % len(c.memo)
    c.memo[nm] = True
    sort = {'f': 'R', 'i': 'I', 'b': 'B'}[kd[0]]
    return SArr.make(_neg(_shape(shape)), kd[0], lambda i: V(T.app(nm, i, sort) if i else T.var(nm, sort)))
@exp
def zeros_like(a, dtype=None, **k):
    a = asarr(a); return zeros(a.shape, dtype or a.dtype)
@exp
def ones_like(a, dtype=None, **k):
    a = asarr(a); return ones(a.shape, dtype or a.dtype)
@exp
def empty_like(a, dtype=None, **k):
    a = asarr(a); return empty(a.shape, dtype or a.dtype)
@exp
def full_like(a, v, dtype=None, **k):
    a = asarr(a); return full(a.shape, v, dtype or a.dtype)
@exp
def eye(N, M=None, k=0, dtype=float, **kw):
    kd = dkind(dtype)[0]
    n = dim(N); m = n if M is None else dim(M)
    k = int(k)
    one, zero = cast(V(T.cI(1)), kd), cast(V(T.cI(0)), kd)
    return SArr.make((n, m), kd, lambda i: v_ite(T.eq(T.add(i[0], T.cI(k)), i[1]), one, zero))
@exp
def identity(n, dtype=float): return eye(n, dtype=dtype)
@exp
def diag(v, k=0):
    a = asarr(v)
    k = int(k)
    if a.ndim == 1:
        n = dadd(a._shape[0], abs(k))
        g = a.getter()
        zero = cast(V(T.cI(0)), a.kind)
        return SArr.make((n, n), a.kind, lambda i: v_ite(T.eq(T.add(i[0], T.cI(max(k, 0))), T.add(i[1], T.cI(max(-k, 0)))), g((T.sub(i[0], T.cI(max(-k, 0))),)), zero) if not (T.is_const(i[0]) and T.is_const(i[1]) and T.cval(i[0]) + k != T.cval(i[1])) else zero)
    if a.ndim == 2:
        return diagonal(a, k).copy()
    raise ValueError('Input must be 1- or 2-d.')
@exp
def diagonal(a, offset=0, **kw):
    a = asarr(a); k = int(offset)
    if a.ndim != 2 or k != 0: raise Unsupported('diagonal')
    d0, d1 = a._shape
    n = d0 if d0 is d1 or (isinstance(d0, int) and isinstance(d1, int) and d0 <= d1) else (d1 if isinstance(d0, int) and isinstance(d1, int) else None)
    if n is None: raise Unsupported('diagonal of a symbolic matrix')
    g = a.getter()
    r = SArr.make((n,), a.kind, lambda i: g((i[0], i[0])))
    r._w = False
    return r
@exp
def fill_diagonal(a, val, wrap=False):
    if a.ndim != 2: raise Unsupported('fill_diagonal')
    old = a.getter(); v = cast(asarr(val).at(), a.kind)
    S.write_fn(a, lambda i: v_ite(T.eq(i[0], i[1]), v, old(i)))
@exp
def arange(start, stop=None, step=1, dtype=None):
    if stop is None: start, stop = 0, start
    (a, ka), (b, kb), (s, ks) = lift(start), lift(stop), lift(step)
    kind = dkind(dtype)[0] if dtype is not None else join_kind(ka, kb, ks)
    if 'f' in (ka, kb, ks):
        if all(T.is_const(x.v) for x in (a, b, s)):
            import math
            n = max(0, math.ceil((T.cval(b.v) - T.cval(a.v)) / T.cval(s.v)))
            return SArr.make((n,), kind, lambda i: cast(v_add(a, v_mul(s, V(i[0]))), kind))
        if T.is_const(s.v) and T.cval(s.v) == 1:
            n = T.ceil(T.sub(T.toR(b.v), T.toR(a.v)))
            if C.get().decide(T.lt(n, T.cI(0))): n = T.cI(0)
            return SArr.make((n,), kind, lambda i: cast(v_add(a, V(i[0])), kind))
        raise Unsupported('symbolic float arange')
    if not T.is_const(s.v): raise Unsupported('symbolic arange step')
    st = int(T.cval(s.v))
    ln = T.sub(b.v, a.v)
    if st == 1: n = ln
    elif st == -1: n = T.neg(ln)
    elif T.is_const(ln): n = T.cI(len(range(0, int(T.cval(ln)), st)))
    else: raise Unsupported('strided symbolic arange')
    if T.is_const(n): n = T.cI(max(0, int(T.cval(n))))
    elif C.get().decide(T.lt(n, T.cI(0))): n = T.cI(0)
    return SArr.make((n,), kind, lambda i: cast(V(T.add(a.v, T.mul(T.cI(st), i[0]))), kind))
@exp
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if axis != 0 or retstep: raise Unsupported('linspace options')
    n = dterm(dim(num))
    if C.get().decide(T.lt(n, T.cI(0))): raise ValueError('Number of samples must be non-negative')
    div_ = T.sub(n, T.cI(1)) if bool(endpoint) else n
    a, b = astype(asarr(start), float), astype(asarr(stop), float)
    shape = broadcast([a._shape, b._shape])
    ga, gb = bget(a, shape), bget(b, shape)
    one_pt = T.eq(div_, T.cI(0))
    def fn(i):
        x, y = ga(i[1:]), gb(i[1:])
        if C.get().known(one_pt) is True: return x
        t = v_div(V(T.toR(i[0])), V(T.toR(div_)))
        return v_add(x, v_mul(t, v_sub(y, x)))
    # numpy places the exact endpoint; over the reals this is the same number
    r = SArr.make((dim(n),) + shape, 'f', fn)
    return astype(r, dtype) if dtype is not None else r

# elementwise -------------------------------------------------------
def _maybe_out(r, kw):
    out = kw.pop('out', None)
    w = kw.pop('where', None)
    kw.pop('casting', None); kw.pop('dtype', None)
    if kw: raise Unsupported('ufunc options %s' % sorted(kw))
    if out is not None:
        if isinstance(out, tuple): out = out[0]
        if w is not None and w is not True:
            old = out.copy()
            S.assign(out, where(w, r, old))
        else: S.assign(out, r)
        return out
    if w is not None and w is not True: raise Unsupported('ufunc where without out')
    return r
def uf2(name, f, *aliases):
    def g(a, b, out=None, **kw):
        if out is not None: kw['out'] = out
        return _maybe_out(elementwise2(f, asarr(a), asarr(b)), kw)
    g.__name__ = name
    for n in (name,) + aliases: setattr(np, n, g)
    return g
def uf1(name, f, *aliases):
    def g(a, out=None, **kw):
        if out is not None: kw['out'] = out
        if isinstance(a, (str, S.Opaque)) or a is None: raise TypeError("ufunc '%s' not supported for the input types" % name)
        return _maybe_out(elementwise1(f, asarr(a)), kw)
    g.__name__ = name
    for n in (name,) + aliases: setattr(np, n, g)
    return g
class UFunc(object):
    def __init__(self, f): self.f = f; self.__name__ = f.__name__
    def __call__(self, *a, **k): return self.f(*a, **k)
    def outer(self, a, b):
        a, b = asarr(a), asarr(b)
        return self.f(a.reshape(a.shape + (1,) * b.ndim), b)
    def reduce(self, a, axis=0, **k):
        fn = {'add': np_sum, 'multiply': prod, 'logical_and': np_all, 'logical_or': np_any, 'maximum': np_max, 'minimum': np_min}.get(self.__name__)
        if fn is None: raise Unsupported('ufunc.reduce')
        return fn(a, axis=axis)
    def at(self, *a): raise Unsupported('ufunc.at')
    def accumulate(self, *a): raise Unsupported('ufunc.accumulate')
def bv(f):
    return lambda *a: V(f(*a))
uf2('add', v_add); uf2('subtract', v_sub); uf2('multiply', v_mul); uf2('divide', v_div, 'true_divide')
uf2('floor_divide', v_floordiv); uf2('mod', v_mod, 'remainder'); np.power = lambda a, b, **kw: _maybe_out(S.power(a, b), kw)
np.float_power = lambda a, b, **kw: _maybe_out(S.power(asarr(a).astype(float), b), kw)
uf2('maximum', v_max, 'fmax'); uf2('minimum', v_min, 'fmin')
uf2('less', bv(v_lt)); uf2('greater', bv(lambda a, b: v_lt(b, a))); uf2('less_equal', bv(v_le)); uf2('greater_equal', bv(lambda a, b: v_le(b, a)))
uf2('equal', bv(v_eq)); uf2('not_equal', bv(lambda a, b: T.not_(v_eq(a, b))))
_b = lambda v: cast(v, 'b').v
uf2('logical_and', bv(lambda a, b: T.and_(_b(a), _b(b)))); uf2('logical_or', bv(lambda a, b: T.or_(_b(a), _b(b))))
uf2('logical_xor', bv(lambda a, b: T.not_(T.iff(_b(a), _b(b)))))
uf1('logical_not', bv(lambda a: T.not_(_b(a))))
def _bit(f):
    def g(a, b):
        if a.v.sort != 'B' or b.v.sort != 'B': raise Unsupported('bitwise operation on integers')
        return V(f(a.v, b.v))
    return g
uf2('bitwise_and', _bit(T.and_)); uf2('bitwise_or', _bit(T.or_)); uf2('bitwise_xor', _bit(lambda a, b: T.not_(T.iff(a, b))))
def _bnot(a):
    if a.v.sort != 'B': raise Unsupported('bitwise not of integers')
    return V(T.not_(a.v))
uf1('bitwise_not', _bnot, 'invert')
uf1('negative', v_neg); uf1('positive', lambda a: a); uf1('absolute', v_abs, 'abs', 'fabs'); uf1('sign', v_sign)
uf1('sqrt', v_sqrt); uf1('square', lambda a: v_mul(a, a)); uf1('reciprocal', lambda a: v_div(V(T.ONE), a))
uf1('isnan', bv(lambda a: a.nan)); uf1('isinf', bv(lambda a: T.and_(a.inf, T.not_(a.nan)))); uf1('isfinite', bv(lambda a: T.and_(T.not_(a.nan), T.not_(a.inf))))
uf1('floor', lambda a: V(T.toR(T.floor(a.v)), a.nan, a.inf)); uf1('ceil', lambda a: V(T.toR(T.ceil(a.v)), a.nan, a.inf))
uf1('rint', lambda a: V(T.toR(T.rnd(a.v)), a.nan, a.inf)); uf1('trunc', lambda a: V(T.toR(cast(V(a.v), 'i').v), a.nan, a.inf), 'fix')
for _n in ('add', 'multiply', 'subtract', 'logical_and', 'logical_or', 'maximum', 'minimum', 'divide', 'true_divide', 'less', 'greater', 'equal', 'less_equal', 'greater_equal'):
    setattr(np, _n, UFunc(getattr(np, _n)))
np.conj = np.conjugate = lambda a: asarr(a)
np.real = lambda a: asarr(a)

def _plain(a, what):
    if not a.plain: raise Unsupported('%s of a possibly non-finite number' % what)
    return cast(num(a), 'f')
def v_cos(a):
    a = _plain(a, 'cos')
    v = S.recognise(a.v)
    k = half_turns(v)
    if k is not None: return V(T.const((1, 0, -1, 0)[k % 4]))
    if v.op == 'app' and v.args[0] == 'acos': return V(v.args[1])
    return V(T.app('cos', (v,)))
def half_turns(v):
    """k when v is k pi / 2"""
    if T.is_const(v): return 0 if T.cval(v) == 0 else None
    try: p = T.poly(v)
    except T.TooBig: return None
    if set(p) == set(T.poly(PI)):
        k, = p.values()
        if (2 * k).denominator == 1: return int(2 * k)
    return None
def v_sin(a):
    a = _plain(a, 'sin')
    v = S.recognise(a.v)
    k = half_turns(v)
    if k is not None: return V(T.const((0, 1, 0, -1)[k % 4]))
    return V(T.app('sin', (v,)))
def v_tan(a):
    return v_div(v_sin(a), v_cos(a))
def v_acos(a):
    a = V(S.recognise(_plain(a, 'acos').v))
    if T.is_const(a.v) and T.cval(a.v) in (1, 0, -1): return V({1: T.ZERO, 0: T.div(PI, T.const(2)), -1: PI}[int(T.cval(a.v))])
    if a.v.op == 'app' and a.v.args[0] == 'cos':
        t = a.v.args[1]
        if C.get().known(T.and_(T.ge(t, T.ZERO), T.le(t, PI))) is True: return V(t)
    rng = T.and_(T.ge(a.v, T.const(-1)), T.le(a.v, T.ONE))
    if C.get().known(rng) is True: return V(T.app('acos', (a.v,)))
    return V(T.app('acos', (a.v,)), T.not_(rng))
PI = T.var('pi')
v_deg = lambda a: v_mul(cast(num(a), 'f'), V(T.div(T.const(180), PI)))
v_rad = lambda a: v_mul(cast(num(a), 'f'), V(T.div(PI, T.const(180))))
uf1('cos', v_cos); uf1('sin', v_sin); uf1('tan', v_tan); uf1('arccos', v_acos, 'acos')
uf1('degrees', v_deg, 'rad2deg'); uf1('radians', v_rad, 'deg2rad')
uf2('hypot', lambda a, b: v_sqrt(v_add(v_mul(cast(num(a), 'f'), cast(num(a), 'f')), v_mul(cast(num(b), 'f'), cast(num(b), 'f')))))

@exp
def around(a, decimals=0, **k):
    a = asarr(a); d = int(decimals)
    if a.kind != 'f': return a.copy()
    p = T.const(Fraction(10) ** d)
    return elementwise1(lambda x: V(T.div(T.toR(T.rnd(T.mul(x.v, p))), p), x.nan, x.inf), a)
np.round = np.around
@exp
def clip(a, a_min=None, a_max=None, **kw):
    r = asarr(a)
    if getattr(C.get(), 'known_values', None): r = asarr(elementwise1(lambda x: V(S.recognise(x.v), x.nan, x.inf), r))
    lo = kw.pop('min', a_min); hi = kw.pop('max', a_max)
    out = kw.pop('out', None)
    def isinf(x): return isinstance(x, float) and x in (float('inf'), float('-inf'))
    isnum = lambda q: q is None or isinstance(q, (int, float)) and not isinstance(q, bool)
    if r.kind == 'f' and S.shape_const(r._shape) and not C.get().binder and isnum(lo) and isnum(hi):
        known = C.get().known
        inside = lambda x: x.plain and (lo is None or isinf(lo) or known(T.ge(x.v, T.const(S.frac(lo)))) is True) and (hi is None or isinf(hi) or known(T.le(x.v, T.const(S.frac(hi)))) is True)
        if all(inside(num(r.at(*i))) for i in S.indices(r._shape)): lo = hi = None
    if lo is not None and not isinf(lo): r = asarr(np.maximum(r, lo))
    if hi is not None and not isinf(hi): r = asarr(np.minimum(r, hi))
    if out is not None:
        S.assign(out, r); return out
    return wrap(r) if r is not a else r.copy()
@exp
def where(cond, x=None, y=None):
    if x is None:
        return nonzero(cond)
    c = asarr(cond)
    xx, yy = asarr(x), asarr(y)
    k = join_kind(xx.kind, yy.kind)
    return elementwise_n(lambda a, b, d: v_ite(_b(a), cast(b, k), cast(d, k)), [c, xx, yy], k)
@exp
def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    a = asarr(x)
    if posinf is None or neginf is None: raise Unsupported('nan_to_num default infinities')
    n, p, m = lift(nan)[0], lift(posinf)[0], lift(neginf)[0]
    return elementwise1(lambda v: v_ite(v.nan, n, v_ite(v.inf, v_ite(T.gt(v.v, T.ZERO), p, m), V(v.v))), a)
@exp
def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    rt, at = lift(rtol)[0], lift(atol)[0]
    def f(x, y):
        x, y = cast(num(x), 'f'), cast(num(y), 'f')
        fin = T.and_(T.not_(x.nan), T.not_(y.nan), T.not_(x.inf), T.not_(y.inf))
        close = v_le(v_abs(V(T.sub(x.v, y.v))), v_add(at, v_mul(rt, v_abs(V(y.v)))))
        r = T.or_(T.and_(fin, close), T.and_(T.not_(fin), v_eq(x, y)))
        if equal_nan: r = T.or_(r, T.and_(x.nan, y.nan))
        return V(r)
    return elementwise2(f, asarr(a), asarr(b))
@exp
def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = np_all(isclose(a, b, rtol, atol, equal_nan))
    return SBool(r.t)
@exp
def array_equal(a, b, equal_nan=False):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim: return False
    for x, y in zip(a._shape, b._shape):
        if not deq(x, y): return False
    r = np_all(asarr(np.equal(a, b)))
    return SBool(r.t)
@exp
def array_equiv(a, b):
    try: r = np.equal(a, b)
    except ValueError: return False
    return SBool(np_all(asarr(r)).t)
np.isscalar = lambda x: isscalar(x) or isinstance(x, str)
np.isrealobj = lambda x: not np.iscomplexobj(x)
np.iscomplexobj = lambda x: isinstance(x, complex) or (isinstance(x, S.Opaque) and x.tname == 'complex128') or (isinstance(x, (list, tuple)) and np.iscomplexobj(asarr(x)))
np.isreal = lambda x: elementwise1(lambda a: V(T.TRUE), asarr(x))
np.iscomplex = lambda x: elementwise1(lambda a: V(T.FALSE), asarr(x))
np.ndim = lambda a: asarr(a).ndim
np.shape = lambda a: asarr(a).shape
np.size = lambda a, axis=None: asarr(a).size if axis is None else asarr(a).shape[axis]
np.issubdtype = lambda a, b: _issub(a, b)
def _issub(a, b):
    k = dkind(a)
    if k is None: raise Unsupported('issubdtype')
    nm = getattr(b, '__name__', None)
    if nm == 'number': return k[0] in 'fi'
    if nm == 'floating': return k[0] == 'f'
    if nm == 'integer': return k[0] == 'i'
    kb = dkind(b)
    if kb is None: raise Unsupported('issubdtype')
    return kb[1] == k[1]
np.result_type = lambda *a: DTYPES[join_kind(*[asarr(x).kind if not isinstance(x, (DType, type)) else dkind(x)[0] for x in a])]
np.spacing = lambda x: SNum(V(T.const(Fraction(1, 2 ** 52))), 'f', True)
class _Finfo(object):
    def __init__(self, d):
        self.eps = SNum(V(T.const(Fraction(1, 2 ** 52))), 'f', True)
        self.tiny = SNum(V(T.const(Fraction(1, 2 ** 1022))), 'f', True)
np.finfo = _Finfo
class errstate(object):
    def __init__(self, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
np.errstate = errstate
np.seterr = lambda **k: {}

# reductions --------------------------------------------------------
def _red(f):
    @functools.wraps(f)
    def g(a, axis=None, *r, **k):
        k.pop('out', None) if k.get('out') is None else (_ for _ in ()).throw(Unsupported('out='))
        return f(a, axis, *r, **k)
    return g
np.sum = _red(np_sum); np.all = _red(np_all); np.any = _red(np_any); np.max = np.amax = _red(np_max); np.min = np.amin = _red(np_min)
np.argmax = _red(np_argmax); np.argmin = _red(np_argmin); np.mean = np.average = _red(np_mean)
def vprod(n, f):
    if not isinstance(n, int): raise Unsupported('product over a symbolic axis')
    r = V(T.cI(1))
    for k in range(n): r = v_mul(r, num(f(T.cI(k))))
    return r
@exp
def prod(a, axis=None, **k):
    a = asarr(a)
    return reduce_(a, axis, lambda n, f: cast(vprod(n, f), 'f') if a.kind == 'f' else vprod(n, f), 'f' if a.kind == 'f' else 'i')
@exp
def ptp(a, axis=None): return np_max(a, axis) - np_min(a, axis)
@exp
def count_nonzero(a, axis=None):
    return np_sum(asarr(np.not_equal(a, 0) if asarr(a).kind != 'b' else a), axis)
@exp
def var(a, axis=None, ddof=0, **k):
    a = asarr(a)
    m = np_mean(a, axis, keepdims=axis is not None)
    d = a - m
    s = np_sum(d * d, axis)
    n = a.size if axis is None else a.shape[axis]
    return s / (n - int(ddof))
@exp
def std(a, axis=None, ddof=0, **k): return np.sqrt(var(a, axis, ddof))
@exp
def cumsum(a, axis=None, **k):
    a = asarr(a)
    if a.ndim != 1 or not shape_const(a._shape): raise Unsupported('cumsum')
    out, s = [], None
    for i in range(a._shape[0]):
        s = num(a.at(i)) if s is None else v_add(s, a.at(i)); out.append(s)
    return SArr.from_list(a._shape, 'f' if a.kind == 'f' else 'i', out)
@exp
def diff(a, n=1, axis=-1, **k):
    a = asarr(a)
    if n != 1 or k: raise Unsupported('diff')
    ax = norm_axis(axis, a.ndim)
    hi = tuple([slice(None)] * ax + [slice(1, None)]); lo = tuple([slice(None)] * ax + [slice(None, -1)])
    return a[hi] - a[lo]
@exp
def trace(a, **k):
    return np_sum(diagonal(asarr(a)))
@exp
def cov(m, **k):
    raise Unsupported('cov')
@exp
def median(*a, **k): raise Unsupported('median')

# selection ---------------------------------------------------------
@exp
def nonzero(a):
    a = asarr(a)
    m = a if a.kind == 'b' else asarr(np.not_equal(a, 0))
    if m.ndim == 1: return (mask_to_indices(m),)
    if shape_const(m._shape):
        pos = [i for i in indices(m._shape) if C.get().decide(m.at(*i).v)]
        return tuple(SArr.from_list((len(pos),), 'i', [V(T.cI(p[k])) for p in pos]) for k in range(m.ndim))
    raise Unsupported('nonzero of a symbolic matrix')
@exp
def flatnonzero(a):
    a = asarr(a)
    if a.ndim != 1: a = reshape(a, (-1,))
    return nonzero(a)[0]
@exp
def argwhere(a):
    r = nonzero(a)
    return stack(r, axis=1)
@exp
def take(a, idx, axis=None, **k):
    a = asarr(a)
    if axis is None:
        if a.ndim > 1: a = reshape(a, (-1,))
        return a[asarr(idx)] if not isscalar(idx) else a[idx]
    ax = norm_axis(axis, a.ndim)
    return a[tuple([slice(None)] * ax + [idx if isscalar(idx) else asarr(idx)])]
@exp
def compress(cond, a, axis=None):
    a = asarr(a); c = asarr(cond)
    if axis is None:
        if a.ndim > 1: a = reshape(a, (-1,))
        return a[c]
    ax = norm_axis(axis, a.ndim)
    return a[tuple([slice(None)] * ax + [c])]
@exp
def extract(cond, a): return asarr(a)[asarr(cond)]
@exp
def argsort(a, axis=-1, **k):
    a = asarr(a)
    if a.ndim != 1 or not shape_const(a._shape): raise Unsupported('argsort')
    # branch on the order (insertion sort)
    order = []
    for i in range(a._shape[0]):
        p = len(order)
        while p > 0 and C.get().decide(v_lt(a.at(i), a.at(order[p - 1]))): p -= 1
        order.insert(p, i)
    return SArr.from_list((len(order),), 'i', [V(T.cI(x)) for x in order])
@exp
def sort(a, axis=-1, **k):
    a = asarr(a)
    return a[argsort(a)]
@exp
def unique(a, **k):
    raise Unsupported('unique')

# assembling --------------------------------------------------------
@exp
def concatenate(arrs, axis=0, **k):
    if isinstance(arrs, SymList): raise Unsupported('concatenate of a symbolic list')
    arrs = [asarr(a) for a in arrs]
    if not arrs: raise ValueError('need at least one array to concatenate')
    if axis is None:
        arrs = [reshape(a, (-1,)) for a in arrs]; axis = 0
    nd = arrs[0].ndim
    if nd == 0: raise ValueError('zero-dimensional arrays cannot be concatenated')
    ax = norm_axis(axis, nd)
    for a in arrs[1:]:
        if a.ndim != nd: raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
        for j in range(nd):
            if j != ax and not deq(a._shape[j], arrs[0]._shape[j]): raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    kind = join_kind(*[a.kind for a in arrs])
    if len(arrs) == 1: 
        return astype(arrs[0], DTYPES[kind]) if arrs[0].kind != kind else arrs[0].copy()
    offs = [T.cI(0)]
    for a in arrs: offs.append(T.add(offs[-1], dterm(a._shape[ax])))
    shape = list(arrs[0]._shape); shape[ax] = dim(offs[-1])
    gs = [a.getter() for a in arrs]
    def fn(idx):
        def pick(k):
            return cast(gs[k](tuple(idx[:ax]) + (T.sub(idx[ax], offs[k]),) + tuple(idx[ax + 1:])), kind)
        i = idx[ax]
        r = None
        # find the piece
        todo = []
        for k in range(len(arrs)):
            if dterm(arrs[k]._shape[ax]) is T.cI(0): continue
            c = T.lt(i, offs[k + 1])
            kn = C.get().known(c)
            if kn is False: continue
            todo.append((k, c))
            if kn is True: break
        if not todo: todo = [(len(arrs) - 1, T.TRUE)]
        r = pick(todo[-1][0])
        for k, c in reversed(todo[:-1]): r = v_ite(c, pick(k), r)
        return r
    return SArr.make(shape, kind, fn)
@exp
def vstack(tup, **k):
    if isinstance(tup, SArr): tup = [tup[i] for i in range(tup._shape[0])] if isinstance(tup._shape[0], int) else (_ for _ in ()).throw(Unsupported('vstack'))
    return concatenate([atleast_2d(a) for a in tup], 0)
np.row_stack = np.vstack
@exp
def hstack(tup, **k):
    arrs = [atleast_1d(a) for a in tup]
    return concatenate(arrs, 0 if arrs and arrs[0].ndim == 1 else 1)
@exp
def column_stack(tup):
    return concatenate([reshape(a, (-1, 1)) if a.ndim < 2 else a for a in map(asarr, tup)], 1)
@exp
def dstack(tup): 
    return concatenate([atleast_3d(a) for a in tup], 2)
@exp
def atleast_1d(a):
    a = asarr(a); return a if a.ndim else reshape(a, (1,))
@exp
def atleast_2d(a):
    a = asarr(a)
    return a if a.ndim >= 2 else (a[None] if a.ndim == 1 else reshape(a, (1, 1)))
@exp
def atleast_3d(a):
    a = asarr(a)
    if a.ndim >= 3: return a
    if a.ndim == 2: return a[:, :, None]
    if a.ndim == 1: return a[None, :, None]
    return reshape(a, (1, 1, 1))
@exp
def stack(arrs, axis=0, **k):
    arrs = [asarr(a) for a in arrs]
    nd = arrs[0].ndim + 1
    ax = norm_axis(axis, nd)
    for a in arrs[1:]:
        if a.ndim != arrs[0].ndim or not all(deq(x, y) for x, y in zip(a._shape, arrs[0]._shape)): raise ValueError('all input arrays must have the same shape')
    return concatenate([a[tuple([slice(None)] * ax + [None])] if a.ndim else reshape(a, (1,)) for a in arrs], ax)
@exp
def append(arr, values, axis=None):
    a, b = asarr(arr), asarr(values)
    if axis is None: return concatenate([reshape(a, (-1,)), reshape(b, (-1,))], 0)
    return concatenate([a, b], axis)
@exp
def tile(a, reps):
    a = asarr(a)
    if isscalar(reps): reps = (reps,)
    reps = [dim(r) for r in reps]
    nd = max(a.ndim, len(reps))
    reps = [1] * (nd - len(reps)) + reps
    s = (1,) * (nd - a.ndim) + a._shape
    a = reshape(a, [dnum(d) for d in s])
    g = a.getter()
    shape = [dmul(x, r) for x, r in zip(s, reps)]
    return SArr.make(shape, a.kind, lambda i: g(tuple(k if r == 1 else (T.cI(0) if x == 1 else T.imod(k, dterm(x))) for k, x, r in zip(i, s, reps))))
@exp
def repeat(a, repeats, axis=None):
    a = asarr(a)
    if axis is None:
        a = reshape(a, (-1,)); ax = 0
    else: ax = norm_axis(axis, a.ndim)
    if not isscalar(repeats):
        ra = asarr(repeats)
        if ra.ndim == 1 and shape_const(ra._shape) and isinstance(a._shape[ax], int):
            pos = []
            for i in range(a._shape[ax]): pos += [i] * int(mknum(ra.at(i if ra._shape[0] != 1 else 0), 'i'))
            return a[tuple([slice(None)] * ax + [pos])]
        raise Unsupported('repeat counts per element')
    r = dterm(dim(repeats))
    if T.is_const(r) and T.cval(r) < 0: raise ValueError('repeats may not contain negative values.')
    g = a.getter()
    shape = list(a._shape); shape[ax] = dmul(shape[ax], dim(r))
    n1 = isinstance(a._shape[ax], int) and a._shape[ax] == 1
    return SArr.make(shape, a.kind, lambda i: g(tuple(i[:ax]) + ((T.cI(0) if n1 else T.idiv(i[ax], r)),) + tuple(i[ax + 1:])))
@exp
def pad(a, width, mode='constant', constant_values=0, **k):
    a = asarr(a)
    if mode != 'constant': raise Unsupported('pad mode')
    w = asarr(width)
    ws = broadcast_to(w, (a.ndim, 2))
    b = [(int(mknum(ws.at(i, 0), 'i')), int(mknum(ws.at(i, 1), 'i'))) for i in range(a.ndim)]
    cv = asarr(constant_values)
    cvs = broadcast_to(cv, (a.ndim, 2))
    r = a
    for ax, (p, q) in enumerate(b):
        parts = []
        def block(n, v):
            sh = list(r._shape); sh[ax] = n
            vv = cast(v, a.kind)
            return SArr.make(sh, a.kind, lambda i: vv)
        if p: parts.append(block(p, cvs.at(ax, 0)))
        parts.append(r)
        if q: parts.append(block(q, cvs.at(ax, 1)))
        if len(parts) > 1: r = concatenate(parts, ax)
    return r if r is not a else a.copy()
@exp
def delete(a, obj, axis=None):
    a = asarr(a)
    if axis is None:
        a = reshape(a, (-1,)); axis = 0
    ax = norm_axis(axis, a.ndim)
    d = a._shape[ax]
    if isinstance(obj, (list, tuple, range)) or (isinstance(obj, SArr) and obj.ndim == 1):
        ks = [int(x) for x in obj]
        if not isinstance(d, int): raise Unsupported('delete from a symbolic axis')
        ks = {k % d for k in ks}
        keep = [k for k in range(d) if k not in ks]
        return a[tuple([slice(None)] * ax + [keep])]
    if isinstance(obj, slice):
        if not isinstance(d, int): raise Unsupported('delete from a symbolic axis')
        ks = set(range(d)[obj]); keep = [k for k in range(d) if k not in ks]
        return a[tuple([slice(None)] * ax + [keep])]
    t = norm_index(as_int_term(obj), d)
    g = a.getter()
    shape = list(a._shape); shape[ax] = dim(T.sub(dterm(d), T.cI(1)))
    def fn(i):
        before = T.lt(i[ax], t)
        kn = C.get().known(before)
        k = i[ax] if kn is True else T.add(i[ax], T.cI(1)) if kn is False else T.ite(before, i[ax], T.add(i[ax], T.cI(1)))
        return g(tuple(i[:ax]) + (k,) + tuple(i[ax + 1:]))
    return SArr.make(shape, a.kind, fn)
@exp
def insert(a, obj, values, axis=None):
    a = asarr(a)
    if axis is None:
        a = reshape(a, (-1,)); axis = 0
    ax = norm_axis(axis, a.ndim)
    t = as_int_term(obj)
    if t is None: raise Unsupported('insert with several positions')
    d = a._shape[ax]
    if T.is_const(t) and T.cval(t) < 0: t = T.add(t, dterm(d))
    lo = a[tuple([slice(None)] * ax + [slice(None, SNum(V(t), 'i'))])]
    hi = a[tuple([slice(None)] * ax + [slice(SNum(V(t), 'i'), None)])]
    v = asarr(values)
    if a.ndim == 1: v = reshape(v, (-1,))
    elif v.ndim < a.ndim:
        sh = list(a.shape); sh[ax] = 1
        if v.ndim == a.ndim - 1: v = v[tuple([slice(None)] * ax + [None])]
        v = broadcast_to(v, sh)
    return concatenate([lo, astype(v, DTYPES[a.kind]) if v.kind != a.kind else v, hi], ax)
@exp
def broadcast_to(a, shape, **k):
    a = asarr(a); shape = _shape(shape)
    bs = broadcast([a._shape, shape])
    if len(bs) != len(shape) or not all(deq(x, y) for x, y in zip(bs, shape)): raise ValueError('operands could not be broadcast together')
    g = bget(a, shape)
    r = SArr.make(shape, a.kind, g)
    r._w = False
    return r
@exp
def broadcast_arrays(*arrs, **k):
    arrs = [asarr(a) for a in arrs]
    sh = broadcast([a._shape for a in arrs])
    return [broadcast_to(a, [dnum(d) for d in sh]) for a in arrs]
@exp
def flip(a, axis=None):
    a = asarr(a)
    axes = range(a.ndim) if axis is None else [norm_axis(x, a.ndim) for x in (axis if isinstance(axis, (tuple, list)) else [axis])]
    return a[tuple(slice(None, None, -1) if k in axes else slice(None) for k in range(a.ndim))]
@exp
def flipud(a): return flip(a, 0)
@exp
def fliplr(a): return flip(a, 1)
@exp
def roll(a, shift, axis=None):
    a = asarr(a)
    if axis is None:
        if a.ndim != 1: raise Unsupported('roll of a flattened array')
        axis = 0
    ax = norm_axis(axis, a.ndim)
    d = a._shape[ax]
    s = as_int_term(shift)
    n = dterm(d)
    if isinstance(d, int) and T.is_const(s):
        if d == 0: return a.copy()
        k = int(T.cval(s)) % d
        return concatenate([a[tuple([slice(None)] * ax + [slice(d - k, None)])], a[tuple([slice(None)] * ax + [slice(0, d - k)])]], ax)
    c = C.get()
    if c.decide(T.and_(T.ge(s, T.cI(0)), T.le(s, n))): cut = T.sub(n, s)
    elif c.decide(T.and_(T.le(s, T.cI(0)), T.ge(T.add(s, n), T.cI(0)))): cut = T.neg(s)
    else: raise Unsupported('roll by more than the length')
    cn = SNum(V(cut), 'i')
    return concatenate([a[tuple([slice(None)] * ax + [slice(cn, None)])], a[tuple([slice(None)] * ax + [slice(None, cn)])]], ax)
@exp
def transpose(a, axes=None): return asarr(a).transpose(axes)
@exp
def swapaxes(a, x, y):
    a = asarr(a); p = list(range(a.ndim)); x, y = norm_axis(x, a.ndim), norm_axis(y, a.ndim)
    p[x], p[y] = p[y], p[x]
    return a.transpose(p)
@exp
def moveaxis(a, s, d):
    a = asarr(a); p = list(range(a.ndim)); s, d = norm_axis(s, a.ndim), norm_axis(d, a.ndim)
    p.remove(s); p.insert(d, s)
    return a.transpose(p)
@exp
def _reshape(a, shape, **k): return S.reshape(asarr(a), shape)
np.reshape = lambda a, shape=None, order='C', newshape=None, **k: S.reshape(asarr(a), shape if shape is not None else newshape)
np.ravel = lambda a, order='C': S.reshape(asarr(a), (-1,))
@exp
def expand_dims(a, axis):
    a = asarr(a); ax = norm_axis(axis, a.ndim + 1)
    return a[tuple([slice(None)] * ax + [None])] if ax else a[None]
@exp
def squeeze(a, axis=None):
    a = asarr(a)
    if axis is None: axes = [k for k, d in enumerate(a._shape) if deq(d, 1)]
    else: axes = [norm_axis(x, a.ndim) for x in (axis if isinstance(axis, (tuple, list)) else [axis])]
    for x in axes:
        if not deq(a._shape[x], 1): raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
    r = a[tuple(0 if k in axes else slice(None) for k in range(a.ndim))]
    return asarr(r)
@exp
def ix_(*args):
    out = []
    for k, x in enumerate(args):
        x = asarr(x)
        if x.kind == 'b': x = mask_to_indices(x)
        out.append(reshape(x, tuple(-1 if j == k else 1 for j in range(len(args)))))
    return tuple(out)
np.ix_ = ix_
@exp
def meshgrid(*a, **k): raise Unsupported('meshgrid')
class _R(object):
    def __getitem__(self, k): raise Unsupported('np.r_/c_')
class _Cc(_R):
    def __getitem__(self, k):
        if isinstance(k, tuple): return column_stack(k)
        return column_stack([k])
np.c_ = _Cc()
class _Rr(_R):
    def __getitem__(self, k):
        if isinstance(k, tuple) and not any(isinstance(x, (slice, str)) for x in k): return concatenate([atleast_1d(x) for x in k])
        raise Unsupported('np.r_')
np.r_ = _Rr()

# products ----------------------------------------------------------
np.dot = lambda a, b, out=None: S.dot(asarr(a), asarr(b))
np.matmul = lambda a, b, **k: S.dot(asarr(a), asarr(b), matmul=True)
@exp
def inner(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0: return elementwise2(v_mul, a, b)
    return S.dot(a, b.transpose(list(range(b.ndim - 2)) + [b.ndim - 1, b.ndim - 2]) if b.ndim >= 2 else b)
@exp
def vdot(a, b): return S.dot(reshape(asarr(a), (-1,)), reshape(asarr(b), (-1,)))
@exp
def outer(a, b):
    a, b = reshape(asarr(a), (-1,)), reshape(asarr(b), (-1,))
    return elementwise2(v_mul, a[:, None], b[None])
@exp
def tensordot(a, b, axes=2):
    if axes == 1: return S.dot(asarr(a), asarr(b)) if asarr(b).ndim <= 2 else (_ for _ in ()).throw(Unsupported('tensordot'))
    raise Unsupported('tensordot')
@exp
def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    a, b = asarr(a), asarr(b)
    if axis is not None: axisa = axisb = axisc = axis
    if a.ndim == 0 or b.ndim == 0: raise ValueError('At least one array has zero dimension')
    a = moveaxis(a, axisa, -1); b = moveaxis(b, axisb, -1)
    for x in (a, b):
        if not isinstance(x._shape[-1], int): 
            if not deq(x._shape[-1], 3): raise ValueError('incompatible dimensions for cross product')
        elif x._shape[-1] not in (2, 3): raise ValueError('incompatible dimensions for cross product (dimension must be 2 or 3)')
    if a._shape[-1] == 2 or b._shape[-1] == 2:
        if a._shape[-1] == 2 and b._shape[-1] == 2:
            return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
        raise Unsupported('cross of 2d and 3d vectors')
    shape = broadcast([a._shape[:-1], b._shape[:-1]])
    ga, gb = bget(a, shape + (3,)), bget(b, shape + (3,))
    ka = {'f': 'f'}.get(join_kind(a.kind, b.kind), 'i')
    def fn(i):
        pre, k = tuple(i[:-1]), i[-1]
        def comp(k):
            x, y = (k + 1) % 3, (k + 2) % 3
            A = lambda j: ga(pre + (T.cI(j),)); B = lambda j: gb(pre + (T.cI(j),))
            return v_sub(v_mul(A(x), B(y)), v_mul(A(y), B(x)))
        if T.is_const(k): return comp(int(T.cval(k)))
        return v_ite(T.eq(k, T.cI(0)), comp(0), v_ite(T.eq(k, T.cI(1)), comp(1), comp(2)))
    r = SArr.make(shape + (3,), ka, fn)
    return moveaxis(r, -1, axisc) if r.ndim > 1 else r
@exp
def einsum(spec, *ops, **k):
    spec = spec.replace(' ', '')
    if '.' in spec: raise Unsupported('einsum ellipsis')
    if '->' in spec: ins, out = spec.split('->')
    else:
        ins = spec
        cnt = {}
        for ch in ins.replace(',', ''): cnt[ch] = cnt.get(ch, 0) + 1
        out = ''.join(sorted(ch for ch in cnt if cnt[ch] == 1))
    ins = ins.split(',')
    ops = [asarr(o) for o in ops]
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim: raise ValueError('einsum dimensions')
        for ch, d in zip(s, o._shape):
            if ch in dims:
                if not deq(dims[ch], d): raise ValueError('einsum operands could not be broadcast')
            else: dims[ch] = d
    summed = [ch for ch in dims if ch not in out]
    gs = [o.getter() for o in ops]
    kind = 'f' if any(o.kind == 'f' for o in ops) else 'i'
    def fn(idx):
        env = dict(zip(out, idx))
        def rec(rest, env):
            if not rest:
                r = None
                for s, g in zip(ins, gs):
                    x = num(g(tuple(env[ch] for ch in s)))
                    r = x if r is None else v_mul(r, x)
                return r
            ch = rest[0]
            return vsum(dims[ch], lambda t: rec(rest[1:], dict(env, **{ch: t})))
        return rec(summed, env)
    return wrap(SArr.make([dims[ch] for ch in out], kind, fn))
@exp
def kron(a, b): raise Unsupported('kron')
def multi_dot(arrs):
    r = arrs[0]
    for a in arrs[1:]: r = np.dot(r, a)
    return r
linalg.multi_dot = multi_dot

# linear algebra ----------------------------------------------------
def norm(x, ord=None, axis=None, keepdims=False):
    a = asarr(x)
    if ord is not None and not (ord == 2 and (a.ndim == 1 or (axis is not None and not isinstance(axis, tuple)))) and ord not in ('fro',):
        raise Unsupported('matrix / p norms')
    a = astype(a, float) if a.kind != 'f' else a
    return np.sqrt(np_sum(a * a, axis, keepdims=bool(keepdims)))
linalg.norm = norm

def det3(m, n):
    if n == 0: return V(T.ONE)
    if n == 1: return m[0][0]
    if n == 2: return v_sub(v_mul(m[0][0], m[1][1]), v_mul(m[0][1], m[1][0]))
    r = V(T.ZERO)
    for j in range(n):
        if m[0][j].plain and m[0][j].v is T.ZERO: continue
        minor = [[m[i][k] for k in range(n) if k != j] for i in range(1, n)]
        t = v_mul(m[0][j], det3(minor, n - 1))
        r = v_add(r, t) if j % 2 == 0 else v_sub(r, t)
    return r
def square(a):
    if a.ndim < 2: raise LinAlgError('%d-dimensional array given. Array must be at least two-dimensional' % a.ndim)
    if a.ndim > 2: raise Unsupported('stacked matrices')
    if not deq(a._shape[0], a._shape[1]): raise LinAlgError('Last 2 dimensions of the array must be square')
    n = a._shape[0] if isinstance(a._shape[0], int) else a._shape[1]
    if not isinstance(n, int): return None
    return n
def det(a):
    a = asarr(a)
    n = square(a)
    if n is None: raise Unsupported('determinant of symbolic size')
    m = [[cast(a.at(i, j), 'f') for j in range(n)] for i in range(n)]
    return mknum(det3(m, n), 'f', True)
linalg.det = det
def matrix_rank(a, tol=None, **k):
    a = asarr(a)
    if tol is not None or k or a.ndim != 2 or not all(isinstance(x, int) for x in a._shape): raise Unsupported('matrix_rank')
    r, n = a._shape
    if r != n:
        x = T.fresh('rank', 'I')
        C.get().add_fact(T.ge(x, T.cI(0))); C.get().add_fact(T.le(x, T.cI(min(r, n))))
        return mknum(V(x), 'i')
    d = det(a)
    C.get().assume_label('numpy.linalg.matrix_rank of a square matrix is full exactly when its determinant is not zero')
    if C.get().decide(T.eq(lift(d)[0].v, T.ZERO)):
        x = T.fresh('rank', 'I')
        C.get().add_fact(T.ge(x, T.cI(0))); C.get().add_fact(T.lt(x, T.cI(n)))
        return mknum(V(x), 'i')
    return n
linalg.matrix_rank = matrix_rank
def inv(a):
    a = asarr(a)
    n = square(a)
    if n is None: raise Unsupported('inverse of symbolic size')
    m = [[cast(a.at(i, j), 'f') for j in range(n)] for i in range(n)]
    d = det3(m, n)
    if C.get().decide(T.eq(d.v, T.ZERO)): raise LinAlgError('Singular matrix')
    C.get().assume_label('numpy.linalg: inv / solve / det are exact; a matrix is singular exactly when its determinant is zero')
    out = []
    for i in range(n):
        for j in range(n):
            minor = [[m[r][c] for c in range(n) if c != i] for r in range(n) if r != j]
            x = det3(minor, n - 1)
            if (i + j) % 2: x = v_neg(x)
            out.append(v_div(x, d))
    return SArr.from_list((n, n), 'f', out)
linalg.inv = inv
def solve(a, b):
    a, b = asarr(a), asarr(b)
    return np.dot(inv(a), b)
linalg.solve = solve

def det_sign(name, m):
    d = det3([[V(x) for x in r] for r in m], 3).v
    C.get().add_fact(T.eq(T.mul(d, d), T.ONE))
def svd(a, full_matrices=True, compute_uv=True, **k):
    a = asarr(a)
    if a.ndim != 2 or a._shape != (3, 3) or not compute_uv: raise Unsupported('svd of other than 3x3 matrices')
    c = C.get()
    M = [[cast(a.at(i, j), 'f') for j in range(3)] for i in range(3)]
    if not all(x.plain for r in M for x in r): raise LinAlgError('SVD did not converge')
    M = [[x.v for x in r] for r in M]
    key = ('svd', tuple(x for r in M for x in r))
    if key in c.memo:
        U, s, W, orth = c.memo[key]
    else:
        k = len([x for x in c.memo if x[0] == 'svd'])
        mat = lambda n: [[T.var('%s%d[%d,%d]' % (n, k, i, j)) for j in range(3)] for i in range(3)]
        U, W = mat('svd.u'), mat('svd.vh')
        dot = lambda x, y: T.add(*[T.mul(p, q) for p, q in zip(x, y)])
        delta = lambda i, j: T.ONE if i == j else T.ZERO
        cols = lambda m: [list(x) for x in zip(*m)]
        orth = all(S.same_value(dot(M[i], M[j]), delta(i, j)) for i in range(3) for j in range(i + 1))
        for m in (U, W):
            for i in range(3):
                for j in range(i + 1):
                    c.add_fact(T.eq(dot(m[i], m[j]), delta(i, j)))
                    c.add_fact(T.eq(dot(cols(m)[i], cols(m)[j]), delta(i, j)))
            det_sign('svd', m)
        if orth:
            s = [T.ONE] * 3
            c.assume_label('numpy.linalg.svd of an orthonormal matrix: singular values one, u.vh is the matrix itself (theorem: polar decomposition)')
        else:
            s = [T.var('svd.s%d[%d]' % (k, i)) for i in range(3)]
            for x, y in ((s[0], s[1]), (s[1], s[2]), (s[2], T.ZERO)): c.add_fact(T.ge(x, y))
            c.assume_label('numpy.linalg.svd: a = u diag(s) vh exactly, u and vh orthonormal, s decreasing and nonnegative')
        for i in range(3):
            for j in range(3):
                c.add_fact(T.eq(M[i][j], T.add(*[T.mul(T.mul(U[i][l], s[l]), W[l][j]) for l in range(3)])))
        c.memo[key] = (U, s, W, orth)
    mk = lambda m: SArr.from_list((3, 3), 'f', [V(x) for r in m for x in r])
    u, vh = mk(U), mk(W)
    if orth:
        u.svd = (vh, u.buf.node, a, a.buf.node); vh.svd = (u, vh.buf.node)
    c.__dict__.setdefault('svds', []).append((u, SArr.from_list((3,), 'f', [V(x) for x in s]), vh, mk(M)))
    return u.copy() if not orth else u, SArr.from_list((3,), 'f', [V(x) for x in s]), vh.copy() if not orth else vh
linalg.svd = svd
linalg.SVD = svd

def _eigh(a, UPLO='L'):
    """eigenvalues, ascending, and orthonormal eigenvectors (columns) of a real symmetric 3x3 matrix"""
    a = asarr(a)
    if a.ndim != 2 or a._shape != (3, 3): raise Unsupported('eigenvalues of other than 3x3 matrices')
    M = [[cast(a.at(i, j), 'f') for j in range(3)] for i in range(3)]
    if not all(x.plain for r in M for x in r): raise LinAlgError('Array must not contain infs or NaNs')
    M = [[x.v for x in r] for r in M]
    if not all(S.same_value(M[i][j], M[j][i]) for i in range(3) for j in range(i)): raise Unsupported('eigenvalues of a matrix that is not symmetric')
    c = C.get()
    c.assume_label('numpy.linalg.eigh: ascending real eigenvalues and orthonormal eigenvectors, each the cross product of the two others up to one sign (spectral theorem)')
    eigs = c.__dict__.setdefault('eigs', [])
    k = len(eigs) + 1
    w = [T.var('eig%d.w%d' % (k, i)) for i in range(3)]
    U = [[T.var('eig%d.v[%d,%d]' % (k, i, j)) for j in range(3)] for i in range(3)]
    hand = T.var('eig%d.hand' % k)
    cols = [list(x) for x in zip(*U)]
    eigs.append((w, cols, hand))
    dot = lambda x, y: T.add(*[T.mul(p, q) for p, q in zip(x, y)])
    for m in (U, cols):
        for i in range(3):
            for j in range(i + 1): c.add_fact(T.eq(dot(m[i], m[j]), T.ONE if i == j else T.ZERO))
    for i in range(3):
        for j in range(i + 1): c.add_fact(T.eq(M[i][j], T.add(*[T.mul(w[l], U[i][l], U[j][l]) for l in range(3)])))
    c.add_fact(T.or_(T.eq(hand, T.ONE), T.eq(hand, T.neg(T.ONE))))
    half = T.div(T.ONE, T.add(T.ONE, T.ONE))
    for l in range(3):
        p, q, r = cols[(l + 1) % 3], cols[(l + 2) % 3], cols[l]
        x = [T.canon(T.sub(T.mul(p[(i + 1) % 3], q[(i + 2) % 3]), T.mul(p[(i + 2) % 3], q[(i + 1) % 3]))) for i in range(3)]
        for i in range(3): c.add_fact(T.eq(x[i], T.mul(hand, r[i])))
        c.add_fact(T.eq(T.canon(dot(x, x)), T.ONE))
        c.add_fact(T.or_(*[T.or_(T.lt(half, y), T.lt(y, T.neg(half))) for y in x]))
    for i in range(2): c.add_fact(T.le(w[i], w[i + 1]))
    return SArr.from_list((3,), 'f', [V(x) for x in w]), SArr.from_list((3, 3), 'f', [V(x) for r in U for x in r])
linalg.eigh = _eigh

@exp
def cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    m = asarr(m)
    if y is not None or k or m.ndim != 2: raise Unsupported('cov')
    if not rowvar: m = m.T
    n = m._shape[1]
    q = m - np_mean(m, axis=1).reshape((-1, 1))
    d = int(ddof) if ddof is not None else 0 if bias else 1
    return np.dot(q, q.T) / mknum(V(T.sub(dterm(n), T.cI(d))), 'i')

# ndarray methods ---------------------------------------------------
def _m(name, f): METHODS[name] = f
_m('sum', lambda a, axis=None, dtype=None, out=None, keepdims=False: np_sum(a, axis, keepdims=keepdims)); _m('all', lambda a, axis=None, out=None, keepdims=False: np_all(a, axis, keepdims=keepdims)); _m('any', lambda a, axis=None, out=None, keepdims=False: np_any(a, axis, keepdims=keepdims))
_m('max', lambda a, axis=None, out=None, keepdims=False: np_max(a, axis, keepdims=keepdims)); _m('min', lambda a, axis=None, out=None, keepdims=False: np_min(a, axis, keepdims=keepdims))
_m('argmax', np_argmax); _m('argmin', np_argmin); _m('mean', lambda a, axis=None, dtype=None, out=None, keepdims=False: np_mean(a, axis, keepdims=keepdims)); _m('prod', prod)
_m('dot', lambda a, b, out=None: S.dot(a, asarr(b)))
_m('astype', lambda a, dtype, copy=True, **k: astype(a, dtype) if copy or dkind(dtype)[1] != a.dtype.name else a)
_m('flatten', lambda a, order='C': S.reshape(a, (-1,)).copy() if order == 'C' else (_ for _ in ()).throw(Unsupported('order')))
_m('ravel', lambda a, order='C': S.reshape(a, (-1,)))
_m('reshape', lambda a, *s, **k: S.reshape(a, s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s) if not k.get('order') else (_ for _ in ()).throw(Unsupported('order')))
_m('nonzero', lambda a: nonzero(a)); _m('repeat', repeat); _m('take', take); _m('squeeze', squeeze); _m('swapaxes', swapaxes)
_m('clip', clip); _m('round', around); _m('cumsum', cumsum); _m('diagonal', diagonal); _m('trace', trace); _m('std', std); _m('var', var); _m('ptp', ptp)
_m('argsort', argsort); _m('conj', lambda a: a); _m('compress', lambda a, c, axis=None: compress(c, a, axis))
def _setflags(a, write=None, align=None, uic=None):
    if write is not None: a._w = bool(write)
_m('setflags', _setflags)
def _sort(a, axis=-1, **k):
    S.assign(a, sort(a))
_m('sort', _sort)
@exp
def shares_memory(a, b): return a.buf is b.buf
np.may_share_memory = np.shares_memory

# matrix class (only what the library needs) ------------------------
class matrix(SArr):
    def __init__(self, data, *a, **k):
        r = asarr(data).copy()
        if r.ndim == 1: r = r[None]
        if r.ndim == 0: r = reshape(r, (1, 1))
        if r.ndim > 2: raise ValueError('matrix must be 2-dimensional')
        SArr.__init__(self, r.buf, r._shape, r.axes, r.imap)
    @classmethod
    def wrap(cls, r):
        m = cls.__new__(cls)
        SArr.__init__(m, r.buf, r._shape, r.axes, r.imap)
        return m
    def transpose(self, *a): return matrix.wrap(SArr.transpose(self, *a))
    @property
    def I(self): return matrix.wrap(inv(self))
    @property
    def A(self): return SArr(self.buf, self._shape, self.axes, self.imap)
    def __mul__(self, o):
        if isscalar(o): return matrix.wrap(SArr.__mul__(self, o))
        return matrix.wrap(S.dot(self.A, asarr(matrix(o).A if not isinstance(o, SArr) else o)))
    def __rmul__(self, o):
        if isscalar(o): return matrix.wrap(SArr.__rmul__(self, o))
        return matrix.wrap(S.dot(asarr(o), self.A))
    def __getitem__(self, k): raise Unsupported('matrix indexing')
np.matrix = matrix
np.asmatrix = lambda a: matrix.wrap(asarr(a)) if asarr(a).ndim == 2 else matrix(a)
