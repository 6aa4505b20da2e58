"""Contracts of the non-numpy modules the library imports (trusted), used in symbolic mode only."""
import types, math as _math, sys, importlib.util, builtins as B
from fractions import Fraction
from . import terms as T
from . import ctx as C
from . import sym as S
from . import npshim
from .sym import SNum, SBool, SArr, V, SymList, SymRange, asarr, lift, mknum, isscalar
from .ctx import Unsupported

np = npshim.np

def _mod(name, **kw):
    m = npshim._mod(name)
    for k, v in kw.items(): setattr(m, k, v)
    return m

# ------------------------------------------------------------------ math
def _sc(x):
    if isinstance(x, SArr):
        if x.ndim == 0 or (isinstance(x.size, int) and x.size == 1):
            x = x.item() if x.ndim == 0 else x[tuple([0] * x.ndim)]
        else: raise TypeError('only length-1 arrays can be converted to Python scalars')
    if not isscalar(x):
        f = getattr(type(x), '__float__', None)
        if f is None: raise TypeError('must be real number, not %s' % type(x).__name__)
        x = f(x)
    return x

def _m1(f):
    def g(x):
        v, k = lift(_sc(x))
        return mknum(f(v), 'f')
    return g
def _sqrt(x):
    v, k = lift(_sc(x))
    return mknum(S.v_sqrt(v, py=True), 'f')
PI = T.var('pi')
def _degrees(x):
    v, _ = lift(_sc(x))
    return mknum(V(T.div(T.mul(S.cast(v, 'f').v, T.const(180)), PI)), 'f')
def _radians(x):
    v, _ = lift(_sc(x))
    return mknum(V(T.div(T.mul(S.cast(v, 'f').v, PI), T.const(180))), 'f')
def _acos(x):
    v, _ = lift(_sc(x))
    r = S.cast(v, 'f')
    c = C.get()
    if c.decide(T.or_(T.lt(r.v, T.const(-1)), T.gt(r.v, T.ONE))): raise ValueError('math domain error')
    return mknum(V(T.app('acos', (r.v,))), 'f')
def _floor(x):
    v, _ = lift(_sc(x)); return mknum(V(T.floor(S.cast(v, 'f').v)), 'i')
def _ceil(x):
    v, _ = lift(_sc(x)); return mknum(V(T.ceil(S.cast(v, 'f').v)), 'i')
def _isnan(x): return SBool(lift(_sc(x))[0].nan)
def _isinf(x): return SBool(lift(_sc(x))[0].inf)
def _isfinite(x):
    v = lift(_sc(x))[0]; return SBool(T.and_(T.not_(v.nan), T.not_(v.inf)))
def _copysign(a, b):
    a, b = lift(_sc(a))[0], lift(_sc(b))[0]
    x = T.abs_(S.cast(a, 'f').v)
    return mknum(V(T.ite(T.lt(S.cast(b, 'f').v, T.ZERO), T.neg(x), x)), 'f')
def _hypot(*a):
    t = T.ZERO
    for x in a:
        v = S.cast(lift(_sc(x))[0], 'f').v
        t = T.add(t, T.mul(v, v))
    return mknum(V(T.sqrt(t)), 'f')
def _fsum(a):
    r = 0.0
    for x in a: r = r + x
    return r
def _mpow(a, b): return _sc(a) ** _sc(b)
def _msin(x): return mknum(npshim.v_sin(lift(_sc(x))[0]), 'f')
def _mcos(x): return mknum(npshim.v_cos(lift(_sc(x))[0]), 'f')
math = _mod('math', pi=SNum(V(PI), 'f'), sqrt=_sqrt, degrees=_degrees, radians=_radians, acos=_acos, floor=_floor, ceil=_ceil,
            isnan=_isnan, isinf=_isinf, isfinite=_isfinite, fabs=lambda x: abs(_sc(x) * SNum(V(T.ONE), 'f')), copysign=_copysign, hypot=_hypot, fsum=_fsum, pow=_mpow,
            sin=_msin, cos=_mcos, inf=float('inf'), nan=float('nan'))

# ------------------------------------------------------------------ builtins
def vc_len(x):
    if isinstance(x, SArr):
        if x.ndim == 0: raise TypeError('len() of unsized object')
        return S.dnum(x._shape[0])
    if isinstance(x, (SymList, SymRange)):
        n = x.length
        return S.dnum(S.dim(n))
    if hasattr(type(x), '__vc_len__'): return type(x).__vc_len__(x)
    f = getattr(type(x), '__len__', None)
    if f is not None and not isinstance(x, (list, tuple, dict, set, str, bytes, range, frozenset)):
        return f(x)
    return B.len(x)

def vc_float(x=0.0):
    if isinstance(x, SNum): return SNum(S.cast(x.V, 'f'), 'f')
    if isinstance(x, SBool): return SNum(S.cast(V(T.toI(x.t)), 'f'), 'f')
    if isinstance(x, SArr):
        return vc_float(_sc(x))
    if isinstance(x, (int, float, Fraction)) and not isinstance(x, bool):
        if isinstance(x, float) and (x != x or x in (_math.inf, -_math.inf)): return x
        return SNum(V(T.const(S.frac(x) if isinstance(x, float) else Fraction(x))), 'f')
    if isinstance(x, str): return B.float(x)
    f = getattr(type(x), '__float__', None)
    if f is None: raise TypeError("float() argument must be a string or a real number, not '%s'" % type(x).__name__)
    return f(x)
def vc_int(x=0, *a):
    if isinstance(x, (SNum, SBool)):
        v, k = lift(x)
        if not v.plain:
            bad = T.or_(v.nan, v.inf)
            if C.get().decide(bad): raise ValueError('cannot convert float NaN to integer')
            v = V(v.v)
        return mknum(S.cast(v, 'i'), 'i')
    if isinstance(x, SArr): return vc_int(_sc(x))
    f = getattr(type(x), '__int__', None)
    if f is not None and not isinstance(x, (int, float, str)): return f(x)
    return B.int(x, *a)
def vc_bool(x=False):
    if isinstance(x, SBool): return SBool(x.t)
    if isinstance(x, SNum): return SBool(S.cast(x.V, 'b').v)
    return B.bool(x)

class _TypeProxy(type):
    def __instancecheck__(cls, x): return cls._chk(x)
    def __subclasscheck__(cls, k):
        try: return B.issubclass(k, cls._real)
        except TypeError: return False
    def __call__(cls, *a, **k): return cls._conv(*a, **k)
    def __eq__(cls, o): return o is cls or o is cls._real
    def __hash__(cls): return hash(cls._real)
class FloatT(metaclass=_TypeProxy):
    _real = float
    _np_name = 'float64'
    _conv = staticmethod(vc_float)
    _chk = staticmethod(lambda x: isinstance(x, float) or (isinstance(x, SNum) and x.kind == 'f'))
class IntT(metaclass=_TypeProxy):
    _real = int
    _np_name = 'int64'
    _conv = staticmethod(vc_int)
    _chk = staticmethod(lambda x: isinstance(x, int) or (isinstance(x, SNum) and x.kind == 'i' and not x.np) or (isinstance(x, SBool) and not x.np))
class BoolT(metaclass=_TypeProxy):
    _real = bool
    _np_name = 'bool'
    _conv = staticmethod(vc_bool)
    _chk = staticmethod(lambda x: isinstance(x, bool) or (isinstance(x, SBool) and not x.np))
class ListT(metaclass=_TypeProxy):
    _real = list
    @staticmethod
    def _conv(x=()):
        if isinstance(x, SymList): return SymList(x.n, x._e)
        if isinstance(x, SymRange): return SymList(x.length, x.elem)
        if isinstance(x, SArr) and not isinstance(x._shape[0], int) and C.get().known_int(x._shape[0]) is None:
            return SymList(x._shape[0], lambda i: x[mknum(V(i), 'i')])
        return B.list(x)
    _chk = staticmethod(lambda x: isinstance(x, (list, SymList)))
class TupleT(metaclass=_TypeProxy):
    _real = tuple
    @staticmethod
    def _conv(x=()): return B.tuple(x)
    _chk = staticmethod(lambda x: isinstance(x, tuple))

def vc_isinstance(x, t):
    if isinstance(t, tuple): return any(vc_isinstance(x, k) for k in t)
    if isinstance(x, SNum):
        if t in (object, ): return True
        import numbers
        if t is numbers.Number or t is numbers.Real: return True
        if t is numbers.Integral: return x.kind == 'i'
        if t is numbers.Rational: return x.kind == 'i'
        if t is complex or t is str: return False
    return isinstance(x, t)

def vc_round(x, n=None):
    if isinstance(x, (SNum,)): return S.py_round(x, n)
    if isinstance(x, (int, float)): return B.round(x, n) if not isinstance(n, SNum) else S.py_round(vc_float(x), n)
    f = getattr(type(x), '__round__', None)
    if f is None: raise TypeError("type %s doesn't define __round__ method" % type(x).__name__)
    return f(x) if n is None else f(x, n)

def vc_range(*a):
    if all(isinstance(x, int) for x in a): return range(*a)
    if len(a) == 1: lo, hi, st = 0, a[0], 1
    elif len(a) == 2: lo, hi, st = a[0], a[1], 1
    else: lo, hi, st = a
    ts = [S.as_int_term(x) for x in (lo, hi)]
    if None in ts: raise TypeError("'float' object cannot be interpreted as an integer")
    if not isinstance(st, int) or st != 1: raise Unsupported('stepped symbolic range')
    d = T.sub(ts[1], ts[0])
    k = C.get().known_int(d)
    if k is not None:
        return [mknum(V(T.add(ts[0], T.cI(i))), 'i') for i in range(max(k, 0))]
    if C.get().decide(T.lt(d, T.cI(0))): return []
    return SymRange(ts[0], ts[1])

def _mm(f2, name):
    def f(*a, **k):
        if k and set(k) - {'default'} : return getattr(B, name)(*a, **k)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not xs: return getattr(B, name)(*a, **k)
        if len(a) == 1 and 'default' in k: pass
        if all(isscalar(x) for x in xs) and any(isinstance(x, (SNum, SBool)) for x in xs):
            r = xs[0]
            for x in xs[1:]:
                # python semantics: max keeps the first of equal elements; NaN never occurs here (plain values)
                (p, k1), (q, k2) = lift(r), lift(x)
                kind = S.join_kind(k1, k2)
                r = mknum(f2(S.num(p), S.num(q)), 'i' if kind == 'b' else kind, S._is_np(r) or S._is_np(x))
            return r
        return getattr(B, name)(xs)
    return f
vc_max = _mm(S.v_max, 'max')
vc_min = _mm(S.v_min, 'min')
def vc_abs(x):
    return abs(x)
def vc_sum(it, start=0):
    if isinstance(it, (SymList, SymRange)) or (isinstance(it, SArr) and not isinstance(it._shape[0], int)):
        a = asarr(it)
        r = S.np_sum(a, 0)
        return r + start if not (isinstance(start, int) and start == 0) else r
    r = start
    for x in it: r = r + x
    return r
def _quant(name, comb):
    def f(it):
        if isinstance(it, SymList):
            n = it.n
            if not isinstance(S.dim(n), int):
                b = S.vall if name == 'all' else S.vany
                return SBool(b(n, lambda i: V(S.cast(lift(it.elem(i))[0], 'b').v)).v)
        if isinstance(it, SArr):
            if it.ndim == 1: 
                r = S.np_all(it) if name == 'all' else S.np_any(it)
                return SBool(lift(r)[0].v)
            it = list(it)
        xs = list(it)
        if any(isinstance(x, (SBool, SNum)) for x in xs) and all(isscalar(x) for x in xs):
            return SBool(comb(*[S.cast(lift(x)[0], 'b').v for x in xs]))
        return getattr(B, name)(xs)
    return f
vc_all = _quant('all', T.and_)
vc_any = _quant('any', lambda *a: T.or_(T.FALSE, *a))
def _seq(x):
    return isinstance(x, (SymList, SymRange)) or (isinstance(x, SArr) and x.ndim and not isinstance(x._shape[0], int) and C.get().known_int(x._shape[0]) is None)
def as_symlist(x):
    if isinstance(x, SymList): return x
    if isinstance(x, SymRange): return SymList(x.length, x.elem)
    return SymList(x._shape[0], lambda i: x[mknum(V(i), 'i')])
def vc_zip(*a, **k):
    if any(_seq(x) for x in a):
        ls = [as_symlist(x) if _seq(x) else x for x in a]
        n = [l for l in ls if isinstance(l, SymList)][0].n
        for l in ls:
            if not isinstance(l, SymList): raise Unsupported('zip of symbolic and concrete sequences')
            if C.get().known(T.eq(l.n, n)) is not True: raise Unsupported('zip of different symbolic lengths')
        return SymList(n, lambda i: tuple(l.elem(i) for l in ls))
    return B.zip(*a, **k)
def vc_enumerate(x, start=0):
    if _seq(x):
        l = as_symlist(x)
        return SymList(l.n, lambda i: (mknum(V(T.add(i, T.cI(start))), 'i'), l.elem(i)))
    return B.enumerate(x, start)
def vc_map(f, *a):
    if len(a) == 1 and _seq(a[0]):
        l = as_symlist(a[0])
        return SymList(l.n, lambda i: f(l.elem(i)))
    return B.map(f, *a)
def vc_reversed(x):
    if _seq(x):
        l = as_symlist(x)
        return SymList(l.n, lambda i: l.elem(T.sub(T.sub(l.n, T.cI(1)), i)))
    if isinstance(x, SArr): return iter(list(x)[::-1])
    return B.reversed(x)
def vc_sorted(x, **k):
    xs = list(x)
    return B.sorted(xs, **k)
def vc_hasattr(o, n):
    try: getattr(o, n)
    except AttributeError: return False
    except Unsupported:
        return True
    return True
def vc_str(*a): return B.str(*a)

OVERRIDES = dict(len=vc_len, float=FloatT, int=IntT, bool=BoolT, list=ListT, tuple=TupleT, isinstance=vc_isinstance, round=vc_round, range=vc_range,
                 max=vc_max, min=vc_min, sum=vc_sum, all=vc_all, any=vc_any, zip=vc_zip, enumerate=vc_enumerate, map=vc_map, reversed=vc_reversed, hasattr=vc_hasattr)
S.dkind_ext = None

# ------------------------------------------------------------------ folds over lists of symbolic length
class Fold(object):
    """ghost: F(0) = init, F(k+1) = f(F(k), x_k), matrices of a fixed shape"""

_nfold = [0]
def vc_reduce(f, it, *init):
    if isinstance(it, SymList) and not isinstance(S.dim(it.n), int):
        return fold(f, it, *init)
    import functools
    if isinstance(it, SymList):
        it = [it.elem(T.cI(k)) for k in range(S.dim(it.n))]
    return functools.reduce(f, it, *init)

def fold(f, it, *init):
    c = C.get()
    if init: raise Unsupported('fold with an initial value')
    if c.known(T.gt(it.n, T.cI(0))) is not True:
        if c.decide(T.le(it.n, T.cI(0))): raise TypeError('reduce() of empty iterable with no initial value')
    first = asarr(it.elem(T.cI(0)))
    if not S.shape_const(first._shape): raise Unsupported('fold of arrays of symbolic shape')
    name = 'fold%d' % len(c.memo)
    c.memo[('fold', name)] = True
    def F(k):
        def fn(idx):
            if not all(T.is_const(t) for t in idx): raise Unsupported('symbolic index into a fold')
            return V(T.app('%s_%s' % (name, '_'.join(str(int(T.cval(t))) for t in idx)), (k,)))
        return SArr.make(first._shape, 'f', fn)
    def same(a, b):
        a, b = asarr(a), asarr(b)
        if tuple(a._shape) != tuple(b._shape): raise Unsupported('fold changes the shape')
        return T.and_(*[T.eq(S.cast(a.at(*i), 'f').v, S.cast(b.at(*i), 'f').v) for i in S.indices(a._shape)])
    c.add_fact(same(F(T.cI(1)), first))
    m1 = T.sub(it.n, T.cI(1))
    with S.under(m1) as v:
        # F(v+2) = f(F(v+1), x_{v+1})
        b = same(F(T.add(v, T.cI(2))), f(F(T.add(v, T.cI(1))), it.elem(T.add(v, T.cI(1)))))
    c.add_fact(T.forall(m1, b, v))
    c.assume_label('functools.reduce: left fold (F(1) = x_0, F(k+1) = f(F(k), x_k))')
    r = F(it.n)
    c.folds = getattr(c, 'folds', []) + [(name, F, it.n)]
    return r

# ------------------------------------------------------------------ modules
class _Moves(object): pass
six_moves = _mod('six.moves', reduce=vc_reduce, range=vc_range, zip=vc_zip, map=vc_map, xrange=vc_range)
six_moves.__path__ = []
six = _mod('six', moves=six_moves, string_types=(str,), integer_types=(IntT,), PY2=False, PY3=True, text_type=str,
           iterkeys=lambda d: iter(d.keys()), itervalues=lambda d: iter(d.values()), iteritems=lambda d: iter(d.items()),
           with_metaclass=None, next=next)
functools = _mod('functools', reduce=vc_reduce)
import functools as _ft, itertools as _it, operator as _op, warnings as _w, copy as _copy, collections as _col
functools.partial, functools.wraps = _ft.partial, _ft.wraps
functools.lru_cache = _ft.lru_cache

class cached_property(object):
    def __init__(self, func):
        self.__doc__ = getattr(func, '__doc__'); self.func = func
    def __get__(self, obj, cls):
        if obj is None: return self
        value = obj.__dict__[self.func.__name__] = self.func(obj)
        return value
cached_property_mod = _mod('cached_property', cached_property=cached_property)
simplejson = _mod('simplejson')

# chumpy: the differentiable expression base class of the objectives (a stand-in keeping terms as attributes)
from .chumpy_stub import make_chumpy
from .stubs import quads_to_tris
chumpy, chumpy_utils = make_chumpy(np)

lace_topology = _mod('lace.topology', quads_to_tris=quads_to_tris(np))
lace = _mod('lace', topology=lace_topology)
lace.__path__ = []

# simplejson: text is a token holding the encoded tree (assumed contract: loads(dumps(x)) visits the same tree, objects bottom-up)
class JsonText(object):
    def __init__(self, tree): self.tree = tree
def _json_encode(o, for_json):
    if for_json and hasattr(type(o), 'for_json'): return _json_encode(o.for_json(), for_json)
    if o is None or isinstance(o, (bool, str, int, float, S.SNum, S.SBool)): return o
    if isinstance(o, dict): return {(k if isinstance(k, str) else str(k)): _json_encode(v, for_json) for k, v in o.items()}
    if isinstance(o, (list, tuple)): return [_json_encode(v, for_json) for v in o]
    raise TypeError('Object of type %s is not JSON serializable' % type(o).__name__)
def _json_decode(t, hook):
    if isinstance(t, dict):
        d = {k: _json_decode(v, hook) for k, v in t.items()}
        return hook(d) if hook is not None else d
    if isinstance(t, list): return [_json_decode(v, hook) for v in t]
    return t
def _json_dumps(obj, for_json=False, **k):
    npshim.C.get().assume_label('simplejson: reading back the text written for a tree of objects, lists, numbers and strings visits the same tree, objects bottom-up')
    if not set(k) <= {'indent', 'sort_keys', 'separators'}: raise Unsupported('simplejson options')
    return JsonText(_json_encode(obj, for_json))
def _json_loads(s, object_hook=None, **k):
    if k or not isinstance(s, JsonText): raise Unsupported('simplejson.loads')
    return _json_decode(s.tree, object_hook)
simplejson.dumps, simplejson.loads = _json_dumps, _json_loads
simplejson.dump = lambda obj, fp, **k: fp.write(_json_dumps(obj, **k))
simplejson.load = lambda fp, **k: _json_loads(fp.read(), **k)

# scipy: only what the library needs outside of sparse matrices
scipy = _mod('scipy')
scipy_linalg = _mod('scipy.linalg', det=npshim.linalg.det, norm=npshim.linalg.norm, inv=npshim.linalg.inv)
scipy_sparse = _mod('scipy.sparse')
scipy.linalg, scipy.sparse = scipy_linalg, scipy_sparse
scipy.__path__ = []

# scipy.spatial.ConvexHull of points in the plane
class ConvexHull(object):
    """vertices: counterclockwise, at least three, distinct; every point is on the left of (or on) every edge"""
    def __init__(self, points, incremental=False, qhull_options=None):
        a = asarr(points)
        if incremental or qhull_options is not None or a.ndim != 2 or a._shape[1] != 2: raise Unsupported('ConvexHull of other than plane points')
        c = C.get()
        c.assume_label('scipy.spatial.ConvexHull (points spanning the plane): distinct vertices in counterclockwise order, all points on the left of every edge')
        n = S.dterm(a._shape[0])
        k = len(c.__dict__.setdefault('hulls', []))
        K, fn = T.var('hull!%d' % k, 'I'), 'hull%d' % k
        H = lambda i: T.app(fn, (i,), 'I')
        at = lambda i, j: S.cast(a.at(i, j), 'f').v
        def left(p, q, x):
            sub = lambda i, l, j: T.sub(at(i, j), at(l, j))
            return T.ge(T.sub(T.mul(sub(q, p, 0), sub(x, p, 1)), T.mul(sub(q, p, 1), sub(x, p, 0))), T.ZERO)
        c.add_fact(T.ge(K, T.cI(3))); c.add_fact(T.le(K, n))
        x, y = T.fresh('b', 'I'), T.fresh('b', 'I')
        c.add_fact(T.forall(K, T.and_(T.ge(H(x), T.cI(0)), T.lt(H(x), n)), x))
        last = T.sub(K, T.cI(1))
        c.add_fact(T.forall(K, T.forall(x, T.ne(H(y), H(x)), y), x))
        c.add_fact(T.forall(last, T.forall(n, left(H(x), H(T.add(x, T.cI(1))), y), y), x))
        c.add_fact(T.forall(n, left(H(last), H(T.cI(0)), y), y))
        self.vertices = SArr.make((K,), 'i', lambda i: V(H(i[0])))
        c.hulls.append((K, H))
scipy_spatial = _mod('scipy.spatial', ConvexHull=ConvexHull)
scipy.spatial = scipy_spatial
