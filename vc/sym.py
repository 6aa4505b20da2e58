"""Symbolic scalars and arrays that stand for the numpy / Python values the code under verification computes with."""
from fractions import Fraction
import math
from . import terms as T
from . import ctx as C
from .ctx import Unsupported

F = T.FALSE

# ------------------------------------------------------------------ extended reals
class V(object):
    """a number: mathematical value, NaN flag, infinity flag (sign of an infinity is the sign of v)"""
    __slots__ = ('v', 'nan', 'inf')
    def __init__(self, v, nan=F, inf=F):
        self.v, self.nan, self.inf = v, nan, inf
    @property
    def plain(self):
        return self.nan is F and self.inf is F
    def __repr__(self):
        return 'V(%s%s%s)' % (T.show(self.v), '' if self.nan is F else ' nan:' + T.show(self.nan), '' if self.inf is F else ' inf:' + T.show(self.inf))

NAN = V(T.ZERO, T.TRUE, F)
PINF = V(T.ONE, F, T.TRUE)
NINF = V(T.const(-1), F, T.TRUE)

def frac(x):
    return Fraction(repr(float(x))) if not float(x).is_integer() else Fraction(int(x))

def lift(x):
    """python / symbolic scalar -> (V, kind)"""
    if isinstance(x, SNum): return x.V, x.kind
    if isinstance(x, SBool): return V(x.t), 'b'
    if isinstance(x, bool): return V(T.TRUE if x else T.FALSE), 'b'
    if isinstance(x, int): return V(T.cI(x)), 'i'
    if isinstance(x, float):
        if x != x: return NAN, 'f'
        if x in (math.inf, -math.inf): return (PINF if x > 0 else NINF), 'f'
        return V(T.const(frac(x))), 'f'
    if isinstance(x, Fraction): return V(T.const(x)), 'f'
    if isinstance(x, V): return x, {'R': 'f', 'I': 'i', 'B': 'b'}[x.v.sort]
    if isinstance(x, T.T): return V(x), {'R': 'f', 'I': 'i', 'B': 'b'}[x.sort]
    return None, None

ORDER = {'b': 0, 'i': 1, 'f': 2, 'O': 9}
def join_kind(*ks):
    k = max(ks, key=lambda k: ORDER[k])
    return k

def cast(v, kind):
    """value-preserving conversion used on stores and dtype changes (float -> int truncates)"""
    s = v.v.sort
    if kind == 'f':
        return v if s == 'R' else V(T.toR(v.v), v.nan, v.inf)
    if kind == 'i':
        if s == 'I': return v
        if s == 'B': return V(T.toI(v.v))
        return V(T.ite(T.ge(v.v, T.ZERO), T.floor(v.v), T.ceil(v.v)))
    if kind == 'b':
        if s == 'B': return v
        return V(T.or_(T.ne(v.v, T.const(0, s)), v.nan, v.inf))
    raise Unsupported('cast to %s' % kind)

def num(v):
    return V(T.toI(v.v)) if v.v.sort == 'B' else v

def v_add(a, b):
    a, b = num(a), num(b)
    if a.plain and b.plain: return V(T.add(a.v, b.v))
    s = T.add(a.v, b.v)
    opp = T.and_(a.inf, b.inf, T.ne(T.gt(T.toR(a.v), T.ZERO) , T.gt(T.toR(b.v), T.ZERO)))
    r = T.ite(a.inf, a.v, T.ite(b.inf, b.v, s))
    return V(r, T.or_(a.nan, b.nan, opp), T.and_(T.or_(a.inf, b.inf), T.not_(T.or_(a.nan, b.nan, opp))))

def v_neg(a):
    a = num(a)
    return V(T.neg(a.v), a.nan, a.inf)

def v_sub(a, b):
    return v_add(a, v_neg(b))

def v_mul(a, b):
    a, b = num(a), num(b)
    if a.plain and b.plain: return V(T.mul(a.v, b.v))
    z = lambda x: T.and_(T.eq(x.v, T.const(0, x.v.sort)), T.not_(x.inf))
    bad = T.or_(a.nan, b.nan, T.and_(a.inf, z(b)), T.and_(b.inf, z(a)))
    inf = T.and_(T.or_(a.inf, b.inf), T.not_(bad))
    return V(T.mul(a.v, b.v), bad, inf)

def v_div(a, b, py=False):
    """true division; numpy semantics (flags) or Python semantics (ZeroDivisionError)"""
    a, b = cast(num(a), 'f'), cast(num(b), 'f')
    zero = T.eq(b.v, T.ZERO)
    if zero is not F:
        k = C.get().known(zero)
        if py and b.plain:
            if k is None:
                k = C.get().decide(zero)
            if k: raise ZeroDivisionError('division by zero')
            zero = F
        elif k is False: zero = F
        elif k is True: zero = T.TRUE
    q = T.div(a.v, b.v)
    if a.plain and b.plain:
        if zero is F: return V(q)
        an = T.eq(a.v, T.ZERO)
        k = C.get().known(an)
        if k is not None: an = T.TRUE if k else F
        return V(T.ite(zero, a.v, q), T.and_(zero, an), T.and_(zero, T.not_(an)))
    zero = T.and_(zero, T.not_(b.inf))
    an = T.and_(T.eq(a.v, T.ZERO), T.not_(a.inf))
    bad = T.or_(a.nan, b.nan, T.and_(zero, an), T.and_(a.inf, b.inf))
    inf = T.and_(T.or_(a.inf, zero), T.not_(bad))
    # value: x/inf = 0 ; inf/y keeps the sign of both
    r = T.ite(b.inf, T.ZERO, T.ite(a.inf, T.mul(a.v, T.ite(T.lt(b.v, T.ZERO), T.const(-1), T.ONE)), T.ite(zero, a.v, q)))
    return V(r, bad, inf)

def v_lt(a, b):
    a, b = num(a), num(b)
    if a.plain and b.plain: return T.lt(a.v, b.v)
    ok = T.and_(T.not_(a.nan), T.not_(b.nan))
    pos = lambda x: T.gt(x.v, T.const(0, x.v.sort))
    neg = lambda x: T.lt(x.v, T.const(0, x.v.sort))
    l = T.or_(T.and_(a.inf, neg(a), T.not_(T.and_(b.inf, neg(b)))),
              T.and_(b.inf, pos(b), T.not_(T.and_(a.inf, pos(a)))),
              T.and_(T.not_(a.inf), T.not_(b.inf), T.lt(a.v, b.v)))
    return T.and_(ok, l)

def v_eq(a, b):
    if a.v.sort == 'B' and b.v.sort == 'B': return T.iff(a.v, b.v)
    a, b = num(a), num(b)
    if a.plain and b.plain: return T.eq(a.v, b.v)
    ok = T.and_(T.not_(a.nan), T.not_(b.nan))
    pos = lambda x: T.gt(x.v, T.const(0, x.v.sort))
    fin = T.and_(T.not_(a.inf), T.not_(b.inf))
    return T.and_(ok, T.or_(T.and_(fin, T.eq(a.v, b.v)), T.and_(a.inf, b.inf, T.iff(pos(a), pos(b)))))

def v_le(a, b):
    if num(a).plain and num(b).plain: return T.le(num(a).v, num(b).v)
    return T.or_(v_lt(a, b), v_eq(a, b))

def v_ite(c, a, b):
    if c is T.TRUE: return a
    if c is F: return b
    return V(T.ite(c, a.v, b.v), T.ite(c, a.nan, b.nan), T.ite(c, a.inf, b.inf))

def v_abs(a):
    a = num(a)
    return V(T.abs_(a.v), a.nan, a.inf)

def v_sign(a):
    a = num(a)
    z = T.const(0, a.v.sort)
    one = T.const(1, a.v.sort)
    return V(T.ite(T.lt(a.v, z), T.neg(one), T.ite(T.gt(a.v, z), one, z)), a.nan, F)

def recognise(t):
    """the registered value (API.known) that t is identically equal to, else t"""
    c = C.get()
    l = getattr(c, 'known_values', None)
    if not l or T.is_const(t): return t
    memo = c.memo.setdefault('recognise', {})
    r = memo.get(t)
    if r is None:
        r = t
        for y in l:
            if same_value(t, y): r = y; break
        memo[t] = r
    return r
def same_value(t, y):
    if t is y: return True
    need = []
    if not T.is_zero(T.sub(t, y), need): return False
    c = C.get()
    for k, x in dict.fromkeys(need):
        x = T.toR(x)
        if k == 'nz':
            if not nonzero_term(x): return False
        elif not T.nonneg(x) and c.known(T.ge(x, T.ZERO)) is not True: return False
    return True
def nonzero_term(x):
    if T.is_const(x): return T.cval(x) != 0
    if x.op == 'sqrt' and nonzero_term(x.args[0]) and T.nonneg(x.args[0]): return True
    if x.op == 'mul': return all(nonzero_term(a) for a in x.args)
    return C.get().known(T.eq(x, T.ZERO)) is False

def pull_squares(t):
    """sqrt(m^2 q) = |m| sqrt(q) for a common monomial m (t is nonnegative)"""
    try: p = T.poly(t)
    except T.TooBig: return None
    if not p or len(p) > 60: return None
    ms = [dict(m) for m in p]
    common = {}
    for i in ms[0]:
        es = [d.get(i, 0) for d in ms]
        if all(e > 0 for e in es): e = min(es) // 2
        elif all(e < 0 for e in es): e = max(es) // 2
        else: e = 0
        if e: common[i] = e
    if not common: return None
    q = T.from_poly({T.m_mul(m, tuple(sorted((i, -2 * e) for i, e in common.items()))): c for m, c in p.items()})
    r = T.ONE
    for i, e in sorted(common.items()):
        x = T._atom_by_id[i]
        x = T.toR(x)
        if e % 2 and not T.nonneg(x):
            k = C.get().known(T.ge(x, T.ZERO))
            if k is None and C.get().known(T.le(x, T.ZERO)) is True: k = False
            x = x if k is True else T.neg(x) if k is False else T.abs_(x)
        for _ in range(abs(e)): r = T.mul(r, x) if e > 0 else T.div(r, x)
    c = T.canon(q)
    T.KNOWN_NONNEG.add(c); T.KNOWN_NONNEG.add(q)
    return T.mul(r, T.sqrt(q))

def v_sqrt(a, py=False):
    a = cast(num(a), 'f')
    u = getattr(C.get(), 'unit_squares', None)
    if u and a.v.op == 'add':
        w = T.canon(a.v)
        if w in u or a.v in u: return V(T.ONE, a.nan, a.inf)
    for y in getattr(C.get(), 'known_roots', ()):
        if same_value(a.v, T.mul(y, y)): return V(y, a.nan, a.inf)
    if T.nonneg(a.v):
        q = pull_squares(a.v)
        return V(T.sqrt(a.v) if q is None else q, a.nan, a.inf)
    neg = T.lt(a.v, T.ZERO)
    k = C.get().known(neg)
    if k is False: return V(T.sqrt(a.v), a.nan, a.inf)
    if py:
        if C.get().decide(neg): raise ValueError('math domain error')
        return V(T.sqrt(a.v), a.nan, a.inf)
    return V(T.sqrt(a.v), T.or_(a.nan, neg), T.and_(a.inf, T.not_(neg)))

def v_pow(a, b, py=False):
    bv = b.v
    if not T.is_const(bv) or not b.plain: raise Unsupported('symbolic exponent')
    e = T.cval(bv)
    if e.denominator == 1:
        e = int(e)
        isint = a.v.sort != 'R' and bv.sort != 'R'
        if e >= 0:
            r = V(T.cI(1) if isint else T.ONE)
            aa = a if isint else cast(num(a), 'f')
            for _ in range(e): r = v_mul(r, aa)
            return r
        one = V(T.ONE)
        return v_div(one, v_pow(a, V(T.cI(-e))), py)
    if e == Fraction(1, 2): return v_sqrt(a, py)
    raise Unsupported('exponent %s' % e)

def v_floordiv(a, b, py=False):
    a, b = num(a), num(b)
    isint = a.v.sort == 'I' and b.v.sort == 'I'
    if isint:
        if T.is_const(b.v) and T.cval(b.v) != 0: return V(T.idiv(a.v, b.v))
        if C.get().decide(T.eq(b.v, T.cI(0))):
            if py: raise ZeroDivisionError('integer division or modulo by zero')
            return V(T.cI(0))
        if C.get().known(T.gt(b.v, T.cI(0))) is not True: raise Unsupported('floor division by a possibly negative integer')
        return V(T.idiv(a.v, b.v))
    q = v_div(a, b, py)
    if not q.plain: raise Unsupported('floor of a possibly infinite quotient')
    return V(T.toR(T.floor(q.v)))

def v_mod(a, b, py=False):
    a, b = num(a), num(b)
    if a.v.sort == 'I' and b.v.sort == 'I' and C.get().known(T.gt(b.v, T.cI(0))) is True:
        return V(T.imod(a.v, b.v))
    q = v_floordiv(a, b, py)
    return v_sub(a, v_mul(q, b))

def v_max(a, b):
    a, b = num(a), num(b)
    if a.v.sort != b.v.sort: a, b = cast(a, 'f'), cast(b, 'f')
    return v_ite(v_lt(a, b), b, a)
def v_min(a, b):
    a, b = num(a), num(b)
    if a.v.sort != b.v.sort: a, b = cast(a, 'f'), cast(b, 'f')
    return v_ite(v_lt(b, a), b, a)

# ------------------------------------------------------------------ python-level scalars
def mknum(v, kind, np=False):
    if kind == 'b': return SBool(v.v, np)
    if kind == 'i' and not np and T.is_const(v.v): return int(T.cval(v.v))
    return SNum(v, kind, np)

class SBool(object):
    __slots__ = ('t', 'np')
    def __init__(self, t, np=False):
        self.t, self.np = t, np
    def __bool__(self):
        return C.get().decide(self.t)
    def __and__(self, o): return _blog(self, o, T.and_)
    def __or__(self, o): return _blog(self, o, T.or_)
    def __xor__(self, o): return _blog(self, o, lambda a, b: T.not_(T.iff(a, b)))
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__
    def __invert__(self): return SBool(T.not_(self.t), self.np)
    def __hash__(self):
        return hash(bool(self))
    def __eq__(self, o): return _cmp(self, o, v_eq)
    def __ne__(self, o): return _cmp(self, o, lambda a, b: T.not_(v_eq(a, b)))
    def __lt__(self, o): return _cmp(self, o, v_lt)
    def __gt__(self, o): return _cmp(self, o, lambda a, b: v_lt(b, a))
    def __le__(self, o): return _cmp(self, o, v_le)
    def __ge__(self, o): return _cmp(self, o, lambda a, b: v_le(b, a))
    def __add__(self, o): return _arith(self, o, v_add)
    def __radd__(self, o): return _arith(o, self, v_add)
    def __mul__(self, o): return _arith(self, o, v_mul)
    def __rmul__(self, o): return _arith(o, self, v_mul)
    def __sub__(self, o): return _arith(self, o, v_sub)
    def __rsub__(self, o): return _arith(o, self, v_sub)
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __repr__(self): return 'SBool(%s)' % T.show(self.t)
    @property
    def dtype(self):
        if not self.np: raise AttributeError('dtype')
        return DTYPES['b']
    def any(self, *a, **k): return self
    def all(self, *a, **k): return self
    def item(self): return SBool(self.t)

def _blog(a, o, f):
    if isinstance(o, SBool): return SBool(f(a.t, o.t), a.np or o.np)
    if isinstance(o, bool): return SBool(f(a.t, T.TRUE if o else T.FALSE), a.np)
    return NotImplemented

def isscalar(x):
    return isinstance(x, (SNum, SBool, bool, int, float, Fraction))

def _is_np(x):
    return isinstance(x, (SNum, SBool)) and x.np

def _arith(a, b, f, div=False):
    if not isscalar(a) or not isscalar(b):
        if isinstance(a, (list, tuple)) and _is_np(b) or isinstance(b, (list, tuple)) and _is_np(a):
            return elementwise2(f, asarr(a), asarr(b))
        return NotImplemented
    (x, k1), (y, k2) = lift(a), lift(b)
    np = _is_np(a) or _is_np(b)
    k = join_kind(k1, k2)
    if k == 'b': k = 'i'
    r = f(x, y)
    if r.v.sort == 'R': k = 'f'
    return mknum(r, k, np)

def _cmp(a, b, f):
    if not isscalar(b):
        if isinstance(b, (list, tuple)) and _is_np(a): return elementwise2(lambda x, y: V(f(x, y)), asarr(a), asarr(b))
        return NotImplemented
    (x, _), (y, _) = lift(a), lift(b)
    t = f(x, y)
    if not (_is_np(a) or _is_np(b)):
        if t is T.TRUE: return True
        if t is T.FALSE: return False
    return SBool(t, _is_np(a) or _is_np(b))

class SNum(object):
    """a symbolic Python number (np=False) or numpy scalar (np=True)"""
    def __init__(self, v, kind, np=False):
        self.V, self.kind, self.np = v, kind, np
    def _py(self, o):
        return not (self.np or _is_np(o))
    def __add__(self, o): return _arith(self, o, v_add)
    def __radd__(self, o): return _arith(o, self, v_add)
    def __sub__(self, o): return _arith(self, o, v_sub)
    def __rsub__(self, o): return _arith(o, self, v_sub)
    def __mul__(self, o): return _arith(self, o, v_mul)
    def __rmul__(self, o): return _arith(o, self, v_mul)
    def __truediv__(self, o): return _arith(self, o, lambda a, b: v_div(a, b, self._py(o)))
    def __rtruediv__(self, o): return _arith(o, self, lambda a, b: v_div(a, b, self._py(o)))
    def __floordiv__(self, o): return _arith(self, o, lambda a, b: v_floordiv(a, b, self._py(o)))
    def __rfloordiv__(self, o): return _arith(o, self, lambda a, b: v_floordiv(a, b, self._py(o)))
    def __mod__(self, o): return _arith(self, o, lambda a, b: v_mod(a, b, self._py(o)))
    def __rmod__(self, o): return _arith(o, self, lambda a, b: v_mod(a, b, self._py(o)))
    def __divmod__(self, o): return self // o, self % o
    def __pow__(self, o): return _arith(self, o, lambda a, b: v_pow(a, b, self._py(o)))
    def __rpow__(self, o):
        if isscalar(o):
            x, _ = lift(o)
            if T.is_const(self.V.v): return _arith(o, self, lambda a, b: v_pow(a, b, self._py(o)))
            if T.is_const(x.v) and self.kind == 'i':
                # integer power of a constant base
                r = T.app('pow', (T.toR(x.v), self.V.v))
                c = C.get()
                if T.cval(x.v) > 0: c.add_fact(T.gt(r, T.ZERO))
                c.assume_label('integer powers of a constant are positive')
                return mknum(V(r), 'f', _is_np(o) or self.np)
        raise Unsupported('symbolic exponent')
    def __neg__(self): return mknum(v_neg(self.V), self.kind, self.np)
    def __pos__(self): return self
    def __abs__(self): return mknum(v_abs(self.V), self.kind, self.np)
    def __eq__(self, o): return _cmp(self, o, v_eq)
    def __ne__(self, o):
        return _cmp(self, o, lambda a, b: T.not_(v_eq(a, b)))
    def __lt__(self, o): return _cmp(self, o, v_lt)
    def __gt__(self, o): return _cmp(self, o, lambda a, b: v_lt(b, a))
    def __le__(self, o): return _cmp(self, o, v_le)
    def __ge__(self, o): return _cmp(self, o, lambda a, b: v_le(b, a))
    def __bool__(self):
        return C.get().decide(cast(self.V, 'b').v)
    def __hash__(self):
        if T.is_const(self.V.v) and self.V.plain:
            x = T.cval(self.V.v)
            return hash(x)
        raise Unsupported('hash of a symbolic number')
    def __index__(self):
        if self.kind != 'i': raise TypeError('float object cannot be interpreted as an integer')
        if T.is_const(self.V.v): return int(T.cval(self.V.v))
        raise Unsupported('symbolic integer used where a concrete one is needed')
    def __int__(self):
        r = cast(self.V, 'i')
        if T.is_const(r.v): return int(T.cval(r.v))
        raise Unsupported('int() of a symbolic number outside the overridden builtin')
    def __float__(self):
        if T.is_const(self.V.v) and self.V.plain: return float(T.cval(self.V.v))
        raise Unsupported('float() of a symbolic number outside the overridden builtin')
    def __round__(self, n=None):
        if n is None: return py_round(self)
        return py_round(self, n)
    def __floor__(self): return mknum(V(T.floor(self.V.v)), 'i')
    def __ceil__(self): return mknum(V(T.ceil(self.V.v)), 'i')
    def __trunc__(self): return mknum(cast(self.V, 'i'), 'i')
    def __repr__(self):
        return 'SNum(%r)' % (self.V,)
    def __format__(self, spec): return '<sym>'
    def is_integer(self):
        return SBool(T.eq(T.toR(T.floor(self.V.v)), T.toR(self.V.v)))
    def conjugate(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        if self.np:
            a = SArr.scalar(self.V, self.kind)
            if name in ('dtype', 'shape', 'ndim', 'size', 'sum', 'mean', 'min', 'max', 'flatten', 'ravel', 'reshape', 'any', 'all', 'astype', 'T', 'dot', 'round', 'prod'):
                return getattr(a, name)
            if name in ('item', 'copy', 'tolist'):
                return lambda: SNum(self.V, self.kind, name == 'copy')
            if name in NDARRAY_ATTRS: raise Unsupported('numpy scalar attribute %s' % name)
        raise AttributeError(name)

def py_round(x, n=None):
    if isinstance(x, (int, float)) and not isinstance(x, bool): return round(x, n) if n is not None else round(x)
    if not isinstance(x, SNum): return type(x).__round__(x) if n is None else type(x).__round__(x, n)
    v = x.V
    if not v.plain: raise Unsupported('round of a possibly non-finite number')
    if n is None: return mknum(V(T.rnd(v.v)), 'i', False)
    if isinstance(n, SNum):
        if not T.is_const(n.V.v):
            p = T.app('pow', (T.const(10), n.V.v))
            C.get().add_fact(T.gt(p, T.ZERO))
            C.get().assume_label('powers of ten are positive')
            return mknum(V(T.div(T.toR(T.rnd(T.mul(T.toR(v.v), p))), p)), x.kind, x.np)
        n = int(T.cval(n.V.v))
    if x.kind == 'i' and n >= 0: return x
    p = T.const(Fraction(10) ** n)
    r = T.div(T.toR(T.rnd(T.mul(T.toR(v.v), p))), p)
    return mknum(V(r), 'f', x.np)

# ------------------------------------------------------------------ dtypes
class DType(object):
    def __init__(self, kind, name):
        self.kind, self.name = kind, name
    def __eq__(self, o):
        k = dkind(o)
        return k is not None and k[1] == self.name
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.name)
    def __repr__(self): return "dtype('%s')" % self.name
    __str__ = lambda self: self.name
    @property
    def type(self): return SCALAR_TYPES.get(self.name)
    @property
    def num(self): raise Unsupported('dtype.num')

NAMES = {'float64': 'f', 'float32': 'f', 'float16': 'f', 'float': 'f', 'double': 'f', 'd': 'f', 'f8': 'f', 'f4': 'f', 'int64': 'i', 'int32': 'i', 'int': 'i', 'uint32': 'i', 'uint64': 'i', 'uint8': 'i', 'int8': 'i', 'int16': 'i', 'uint16': 'i', 'bool': 'b', 'object': 'O'}
CANON = {'float': 'float64', 'double': 'float64', 'd': 'float64', 'f8': 'float64', 'f4': 'float32', 'int': 'int64'}
def dkind(d):
    """-> (kind, name) or None"""
    if d is None: return None
    if isinstance(d, DType): return ('f' if d.kind == 'f' else 'b' if d.kind == 'b' else 'O' if d.kind == 'O' else 'i', d.name)
    if isinstance(d, str):
        n = CANON.get(d, d)
        return (NAMES[n], n) if n in NAMES else None
    n = getattr(d, '_np_name', None)
    if n: return (NAMES[n], n)
    if d is float: return ('f', 'float64')
    if d is int: return ('i', 'int64')
    if d is bool: return ('b', 'bool')
    if d is object: return ('O', 'object')
    return None

DTYPES = {'f': DType('f', 'float64'), 'i': DType('i', 'int64'), 'b': DType('b', 'bool'), 'O': DType('O', 'object')}
SCALAR_TYPES = {}
NDARRAY_ATTRS = set('T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy ctypes cumprod cumsum data device diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemsize mT max mean min nbytes ndim nonzero partition prod put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take to_device tobytes tofile tolist trace transpose var view'.split())

# ------------------------------------------------------------------ array storage
class Node(object):
    __slots__ = ('fn', 'memo')
    def __init__(self, fn):
        self.fn, self.memo = fn, {}
    def get(self, idx):
        r = self.memo.get(idx)
        if r is None:
            r = self.fn(idx)
            self.memo[idx] = r
        return r

class Buf(object):
    """mutable storage: a function from index terms to values"""
    def __init__(self, shape, kind, fn, name=None):
        self.shape, self.kind, self.name = tuple(shape), kind, name
        self.node = Node(fn)
        self.node0 = self.node
        self.writes = 0

def dim(d):
    """dimension -> int or I-term"""
    if isinstance(d, bool): return int(d)
    if isinstance(d, int): return d
    if isinstance(d, SNum):
        if d.kind != 'i': raise TypeError("'float' object cannot be interpreted as an integer")
        t = d.V.v
        return int(T.cval(t)) if T.is_const(t) else t
    if isinstance(d, T.T):
        return int(T.cval(d)) if T.is_const(d) else d
    if isinstance(d, SBool): return int(bool(d))
    raise TypeError('bad dimension %r' % (d,))

def dterm(d):
    return T.cI(d) if isinstance(d, int) else d

def dnum(d):
    return d if isinstance(d, int) else SNum(V(d), 'i')

def dmul(a, b):
    return dim(T.mul(dterm(a), dterm(b)))
def dadd(a, b):
    return dim(T.add(dterm(a), dterm(b)))

def deq(a, b):
    """are two dimensions equal (may branch)"""
    if a is b: return True
    if isinstance(a, int) and isinstance(b, int): return a == b
    return C.get().decide(T.eq(dterm(a), dterm(b)))

def shape_const(shape):
    return all(isinstance(d, int) for d in shape)

def indices(shape):
    import itertools
    return itertools.product(*[range(d) for d in shape])

def cidx(i):
    return tuple(T.cI(k) if isinstance(k, int) else k for k in i)

class Fix(object):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
class Ax(object):
    """base axis = start + step * view axis"""
    __slots__ = ('axis', 'start', 'step')
    def __init__(self, axis, start, step): self.axis, self.start, self.step = axis, start, step

class Flags(object):
    def __init__(self, arr): self._a = arr
    @property
    def writeable(self): return self._a._w
    @writeable.setter
    def writeable(self, v):
        v = bool(v)
        self._a._w = v
    @property
    def c_contiguous(self): raise Unsupported('flags.c_contiguous')
    def __getitem__(self, k): return getattr(self, k.lower())
    def __setitem__(self, k, v):
        if k.upper() != 'WRITEABLE': raise Unsupported('flags')
        self.writeable = v

class SArr(object):
    __array_priority__ = 100
    _np_name = None
    def __init__(self, buf, shape, axes=None, imap=None, dtype=None):
        self.buf = buf
        self._shape = tuple(dim(d) for d in shape)
        self.axes = axes          # structured view, or None when imap is used
        self.imap = imap
        self._w = True
        self._dt = dtype
        if axes is None and imap is None:
            self.axes = [Ax(k, T.cI(0), 1) for k in range(len(self._shape))]

    # construction -------------------------------------------------
    @staticmethod
    def make(shape, kind, fn, name=None, dtype=None):
        shape = tuple(dim(d) for d in shape)
        return SArr(Buf(shape, kind, fn, name), shape, dtype=dtype)
    @staticmethod
    def scalar(v, kind):
        return SArr.make((), kind, lambda i: v)
    @staticmethod
    def from_list(shape, kind, vals):
        """row-major list of V"""
        d = {cidx(i): v for i, v in zip(indices(shape), vals)}
        def fn(idx):
            r = d.get(idx)
            if r is not None: return r
            return select_const(d, shape, idx)
        return SArr.make(shape, kind, fn)

    # element access ------------------------------------------------
    def base_index(self, idx):
        if self.axes is not None:
            out = []
            for a in self.axes:
                if isinstance(a, Fix): out.append(a.t)
                else: out.append(T.add(a.start, T.mul(T.cI(a.step), idx[a.axis])))
            return tuple(out)
        return self.imap(idx)
    def getter(self):
        node, f = self.buf.node, self.base_index
        return lambda idx: node.get(f(idx))
    def at(self, *idx):
        return self.buf.node.get(self.base_index(cidx(idx)))
    @property
    def kind(self): return self.buf.kind

    # numpy attributes ---------------------------------------------
    @property
    def shape(self): return tuple(dnum(d) for d in self._shape)
    @shape.setter
    def shape(self, s):
        r = reshape(self, s, view_only=True)
        self.buf, self._shape, self.axes, self.imap = r.buf, r._shape, r.axes, r.imap
    @property
    def ndim(self): return len(self._shape)
    @property
    def size(self):
        n = 1
        for d in self._shape: n = dmul(n, d)
        return dnum(n)
    @property
    def dtype(self): return self._dt or DTYPES[self.kind]
    @property
    def flags(self): return Flags(self)
    @property
    def T(self): return self.transpose()
    @property
    def base(self): raise Unsupported('ndarray.base')
    @property
    def real(self): return self
    def __array_hint__(self): pass
    def transpose(self, *axes):
        n = self.ndim
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))): axes = axes[0]
        if not axes: axes = tuple(reversed(range(n)))
        axes = [int(a) % n for a in axes]
        shape = [self._shape[a] for a in axes]
        if self.axes is not None:
            inv = {a: k for k, a in enumerate(axes)}
            r = SArr(self.buf, shape, [a if isinstance(a, Fix) else Ax(inv[a.axis], a.start, a.step) for a in self.axes])
        else:
            f = self.imap
            def imap(idx):
                j = [None] * n
                for k, a in enumerate(axes): j[a] = idx[k]
                return f(tuple(j))
            r = SArr(self.buf, shape, None, imap)
        r._w = self._w; r._dt = self._dt
        return r
    def __len__(self):
        if not self._shape: raise TypeError('len() of unsized object')
        d = self._shape[0]
        if isinstance(d, int): return d
        raise Unsupported('len() of a symbolic array outside the overridden builtin')
    def __iter__(self):
        if not self._shape: raise TypeError('iteration over a 0-d array')
        d = self._shape[0]
        if not isinstance(d, int):
            k = C.get().known_int(d)
            if k is None: raise Unsupported('iteration over an array of symbolic length')
            d = k
        return iter([self[i] for i in range(d)])
    def __bool__(self):
        n = self.size
        if isinstance(n, int) and n == 1:
            return bool(mknum(cast(self.at(*([0] * self.ndim)), 'b'), 'b'))
        if isinstance(n, int) or not C.get().decide(T.eq(dterm(dim(n)), T.cI(1))):
            raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
        return bool(mknum(cast(self.at(*([0] * self.ndim)), 'b'), 'b'))
    def __float__(self):
        return float(self.item())
    def __index__(self):
        if self.ndim == 0 and self.kind == 'i': return self.item().__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')
    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")
    def __repr__(self):
        return 'SArr%r' % (tuple(d if isinstance(d, int) else T.show(d) for d in self._shape),)
    def __format__(self, s): return repr(self)
    def item(self, *a):
        if a: return self[a if len(a) > 1 else a[0]].item()
        return mknum(self.at(*([0] * self.ndim)), self.kind)
    def tolist(self):
        if self.ndim == 0: return self.item()
        return [x.tolist() if isinstance(x, SArr) else (x.item() if hasattr(x, 'item') else x) for x in self]

    # indexing ------------------------------------------------------
    def __getitem__(self, key):
        kind, payload = parse_index(self, key)
        if kind == 'view':
            r = payload
            if r.ndim == 0 and not isinstance(key, type(Ellipsis)) and not (isinstance(key, tuple) and Ellipsis in [k for k in key if k is Ellipsis]):
                return mknum(r.at(), r.kind, True)
            return r
        return adv_get(self, payload)
    def __setitem__(self, key, val):
        if not self._w: raise ValueError('assignment destination is read-only')
        kind, payload = parse_index(self, key)
        if kind == 'view': assign(payload, val)
        else: adv_set(self, payload, val)
    def view(self, *a, **k):
        if a or k: raise Unsupported('view with a dtype')
        r = SArr(self.buf, self._shape, self.axes, self.imap); r._w = self._w; r._dt = self._dt
        return r
    def copy(self, order='C'):
        g = self.getter()
        return SArr.make(self._shape, self.kind, g, dtype=self._dt)
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()
    def fill(self, v): assign(self, v)

    # arithmetic ----------------------------------------------------
    def _b(self, o, f, rev=False):
        if o is None or isinstance(o, (str, dict)): return NotImplemented
        if not isinstance(o, SArr) and not isscalar(o) and not isinstance(o, (list, tuple)): return NotImplemented
        o = asarr(o)
        return elementwise2(f, o, self) if rev else elementwise2(f, self, o)
    def __add__(self, o): return self._b(o, v_add)
    def __radd__(self, o): return self._b(o, v_add, True)
    def __sub__(self, o): return self._b(o, v_sub)
    def __rsub__(self, o): return self._b(o, v_sub, True)
    def __mul__(self, o): return self._b(o, v_mul)
    def __rmul__(self, o): return self._b(o, v_mul, True)
    def __truediv__(self, o): return self._b(o, v_div)
    def __rtruediv__(self, o): return self._b(o, v_div, True)
    def __floordiv__(self, o): return self._b(o, v_floordiv)
    def __rfloordiv__(self, o): return self._b(o, v_floordiv, True)
    def __mod__(self, o): return self._b(o, v_mod)
    def __pow__(self, o): return power(self, o)
    def __neg__(self): return elementwise1(v_neg, self)
    def __pos__(self): return self.copy()
    def __abs__(self): return elementwise1(v_abs, self)
    def __matmul__(self, o): return dot(self, asarr(o), matmul=True)
    def __rmatmul__(self, o): return dot(asarr(o), self, matmul=True)
    def __lt__(self, o): return self._b(o, lambda a, b: V(v_lt(a, b)))
    def __gt__(self, o): return self._b(o, lambda a, b: V(v_lt(b, a)))
    def __le__(self, o): return self._b(o, lambda a, b: V(v_le(a, b)))
    def __ge__(self, o): return self._b(o, lambda a, b: V(v_le(b, a)))
    def __eq__(self, o):
        r = self._b(o, lambda a, b: V(v_eq(a, b)))
        return r if r is not NotImplemented else elementwise1(lambda a: V(T.FALSE), self)
    def __ne__(self, o):
        r = self._b(o, lambda a, b: V(T.not_(v_eq(a, b))))
        return r if r is not NotImplemented else elementwise1(lambda a: V(T.TRUE), self)
    def _bits(self, o, f):
        o = asarr(o)
        if self.kind != 'b' or o.kind != 'b': raise Unsupported('bitwise operation on integers')
        return elementwise2(lambda a, b: V(f(a.v, b.v)), self, o)
    def __and__(self, o): return self._bits(o, T.and_)
    def __or__(self, o): return self._bits(o, T.or_)
    def __xor__(self, o): return self._bits(o, lambda a, b: T.not_(T.iff(a, b)))
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__
    def __invert__(self):
        if self.kind != 'b': raise Unsupported('bitwise not of integers')
        return elementwise1(lambda a: V(T.not_(a.v)), self)
    def _ip(self, o, f):
        if not self._w: raise ValueError('output array is read-only')
        r = elementwise2(f, self, asarr(o))
        rs = r._shape if isinstance(r, SArr) else ()
        if len(rs) != self.ndim: raise ValueError('non-broadcastable output operand')
        for a, b in zip(rs, self._shape):
            if not deq(a, b): raise ValueError('non-broadcastable output operand')
        rk = r.kind if isinstance(r, SArr) else lift(r)[1]
        if ORDER[rk] > ORDER[self.kind]: raise TypeError('Cannot cast ufunc output from %s to %s' % (rk, self.kind))
        assign(self, r)
        return self
    def __iadd__(self, o): return self._ip(o, v_add)
    def __isub__(self, o): return self._ip(o, v_sub)
    def __imul__(self, o): return self._ip(o, v_mul)
    def __itruediv__(self, o): return self._ip(o, v_div)
    def __ipow__(self, o): return self._ip(o, v_pow)

    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        m = METHODS.get(name)
        if m is not None:
            import functools
            return functools.partial(m, self)
        if name in NDARRAY_ATTRS: raise Unsupported('ndarray.%s' % name)
        raise AttributeError("'numpy.ndarray' object has no attribute '%s'" % name)

METHODS = {}

def select_const(d, shape, idx):
    """element of a concrete table at a symbolic index"""
    import itertools
    cands = [[T.cval(i).numerator] if T.is_const(i) else list(range(s)) for i, s in zip(idx, shape)]
    keys = list(itertools.product(*cands))
    if not keys: return V(T.ZERO)
    if len(keys) > 400: raise Unsupported('symbolic index into a large concrete table')
    r = d[cidx(keys[-1])]
    for k in reversed(keys[:-1]):
        cond = T.and_(*[T.eq(i, T.cI(x)) for i, x in zip(idx, k) if not T.is_const(i)])
        r = v_ite(cond, d[cidx(k)], r)
    return r

# ------------------------------------------------------------------ conversion of python data
class Opaque(SArr):
    """an array of strings, complex numbers or other objects: it has a shape and an element type, arithmetic on it raises TypeError"""
    def __init__(self, shape, name):
        def fn(i): raise Unsupported('element of a %s array' % name)
        SArr.__init__(self, Buf(tuple(shape), 'O', fn), shape)
        self.tname = name
    @property
    def dtype(self): return DType('O', self.tname)
    def copy(self, order='C'): return Opaque(self._shape, self.tname)
    def transpose(self, *a): return Opaque(tuple(reversed(self._shape)), self.tname)
def _opq(name):
    def f(self, *a, **k):
        if self.tname == 'complex128': raise Unsupported('arithmetic on complex arrays')
        raise TypeError("ufunc '%s' not supported for the input types" % name)
    return f
for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'floordiv', 'rfloordiv', 'mod', 'pow', 'neg', 'abs', 'matmul', 'rmatmul', 'lt', 'gt', 'le', 'ge', 'iadd', 'isub', 'imul', 'itruediv'):
    setattr(Opaque, '__%s__' % _n, _opq(_n))

def opaque_leaf(x):
    return isinstance(x, (str, bytes, complex, Opaque, dict, set)) or x is None
def opaque_kind(xs):
    if any(isinstance(x, str) or (isinstance(x, Opaque) and x.tname == '<U') for x in xs): return '<U'
    if any(x is None or isinstance(x, (dict, set)) or (isinstance(x, Opaque) and x.tname == 'object') for x in xs): return 'object'
    return 'complex128'
def find_opaque(x):
    """nested sequence containing leaves that are not numbers -> (shape, leaves) else None"""
    if opaque_leaf(x): return ((x._shape if isinstance(x, Opaque) else ()), [x], True)
    if isinstance(x, SArr): return x._shape, [], False
    if isscalar(x): return (), [], False
    if isinstance(x, (list, tuple)):
        ps = [find_opaque(e) for e in x]
        if any(p is None for p in ps): return None
        if ps and any(p[0] != ps[0][0] for p in ps): return None
        return (len(x),) + (ps[0][0] if ps else ()), [l for p in ps for l in p[1]], any(p[2] for p in ps)
    return None

def infer(x):
    """nested sequence -> (shape, kind, leaf list) for concrete nesting; None when ragged"""
    if isinstance(x, SArr): return None
    if isscalar(x):
        v, k = lift(x)
        return (), k, [v]
    if x is None: return (), 'O', [None]
    if isinstance(x, (list, tuple)):
        if len(x) == 0: return (0,), 'f', []
        parts = [infer(e) for e in x]
        s = parts[0][0]
        if any(p[0] != s for p in parts): raise ValueError('setting an array element with a sequence. inhomogeneous shape')
        return (len(x),) + s, join_kind(*[p[1] for p in parts]), [v for p in parts for v in p[2]]
    raise Unsupported('array from %s' % type(x).__name__)

def has_arr(x):
    if isinstance(x, SArr): return True
    if isinstance(x, SymList): return True
    if isinstance(x, (list, tuple)): return any(has_arr(e) for e in x)
    return False

def asarr(x, dtype=None, copy=False):
    """np.asarray / np.array"""
    dk = dkind(dtype)
    if dtype is not None and dk is None: raise Unsupported('dtype %r' % (dtype,))
    if isinstance(x, Opaque):
        if dk is None or dk[0] == 'O': return x.copy() if copy else x
        raise (ValueError if x.tname == '<U' else TypeError)('cannot convert')
    if isinstance(x, SArr):
        if dk is None or (dk[0] == x.kind and (x.dtype.name == dk[1])): return x.copy() if copy else x
        return astype(x, dtype)
    if not isinstance(x, SymList):
        q = find_opaque(x) if isinstance(x, (list, tuple, str, complex, dict, set)) or x is None else None
        if q and q[2] and not (dk and dk[0] == 'f' and all(l is None for l in q[1])):
            if dk and dk[0] != 'O':
                if any(isinstance(l, str) for l in q[1]): raise ValueError('could not convert string to %s' % dk[1])
                raise TypeError('float() argument must be a real number')
            return Opaque(q[0], opaque_kind(q[1]))
    if isinstance(x, SymList):
        r = x.to_array()
        return astype(r, dtype) if dk and dk[0] != r.kind else r
    if isinstance(x, SymRange):
        return x.to_array()
    if isinstance(x, range): x = list(x)
    if isinstance(x, (set, frozenset, dict, str)) or hasattr(x, '__next__'): raise Unsupported('array from %s' % type(x).__name__)
    if hasattr(x, '__array_sym__'): return asarr(x.__array_sym__(), dtype, copy)
    if isinstance(x, (list, tuple)) and has_arr(x):
        parts = [asarr(e) for e in x]
        s = parts[0]._shape
        for p in parts[1:]:
            if len(p._shape) != len(s) or not all(deq(a, b) for a, b in zip(p._shape, s)):
                raise ValueError('setting an array element with a sequence. inhomogeneous shape')
        kind = dk[0] if dk else join_kind(*[p.kind for p in parts])
        gs = [p.getter() for p in parts]
        def fn(idx):
            if T.is_const(idx[0]): return cast(gs[int(T.cval(idx[0]))](idx[1:]), kind)
            r = cast(gs[-1](idx[1:]), kind)
            for k in range(len(gs) - 2, -1, -1):
                r = v_ite(T.eq(idx[0], T.cI(k)), cast(gs[k](idx[1:]), kind), r)
            return r
        return SArr.make((len(parts),) + s, kind, fn)
    r = infer(x) if isinstance(x, (list, tuple)) or isscalar(x) or x is None else None
    if r is None: raise Unsupported('array from %s' % type(x).__name__)
    shape, kind, vals = r
    if kind == 'O':
        if dk and dk[0] == 'f' and all(v is not None for v in vals) is False:
            vals = [NAN if v is None else cast(v, 'f') for v in vals]
            return SArr.from_list(shape, 'f', vals)
        raise Unsupported('object array')
    if dk: kind = dk[0]
    a = SArr.from_list(shape, kind, [cast(v, kind) for v in vals])
    if dk: a._dt = DType(*dk) if dk[1] != DTYPES[dk[0]].name else None
    return a

def astype(x, dtype):
    kind, name = dkind(dtype)
    g = x.getter()
    if x.kind == 'f' and kind == 'i':
        pass
    r = SArr.make(x._shape, kind, lambda i: cast(g(i), kind))
    if name != DTYPES[kind].name: r._dt = DType(kind, name)
    return r

# ------------------------------------------------------------------ elementwise
def broadcast(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        ds = [s[len(s) - n + k] for s in shapes if len(s) - n + k >= 0]
        r = None
        for d in ds:
            if r is None: r = d
            elif d is r or (isinstance(d, int) and isinstance(r, int) and d == r): pass
            elif isinstance(d, int) and d == 1: pass
            elif isinstance(r, int) and r == 1: r = d
            elif isinstance(d, int) and isinstance(r, int): raise ValueError('operands could not be broadcast together with shapes')
            else:
                if deq(d, r):
                    if isinstance(d, int): r = d
                elif not isinstance(d, int) and deq(d, 1): pass
                elif not isinstance(r, int) and deq(r, 1): r = d
                else: raise ValueError('operands could not be broadcast together with shapes')
        out.append(r)
    return tuple(out)

def bget(arr, shape):
    """getter of arr broadcast to shape"""
    g, s = arr.getter(), arr._shape
    off = len(shape) - len(s)
    ones = [isinstance(d, int) and d == 1 and not (isinstance(shape[off + k], int) and shape[off + k] == 1) for k, d in enumerate(s)]
    # a symbolic dimension that was decided to be 1
    for k, d in enumerate(s):
        if not isinstance(d, int) and shape[off + k] is not d and C.get().known(T.eq(d, T.cI(1))) is True and not (isinstance(shape[off + k], int) and shape[off + k] == 1):
            ones[k] = True
    z = T.cI(0)
    return lambda idx: g(tuple(z if ones[k] else idx[off + k] for k in range(len(s))))

def wrap(r):
    if r.ndim == 0: return mknum(r.at(), r.kind, True)
    return r

def vkind(v):
    return {'R': 'f', 'I': 'i', 'B': 'b'}[v.v.sort]

def elementwise1(f, a, kind=None):
    g = a.getter()
    if kind is None: kind = vkind(f(sample(a.kind)))
    return wrap(SArr.make(a._shape, kind, lambda i: f(g(i))))

_samples = {'f': V(T.const(Fraction(7, 5))), 'i': V(T.cI(3)), 'b': V(T.TRUE)}
def sample(k):
    if k not in _samples: raise Unsupported('object arrays')
    return _samples[k]

def elementwise2(f, a, b, kind=None):
    shape = broadcast([a._shape, b._shape])
    if kind is None: kind = vkind(f(sample(a.kind), sample(b.kind)))
    ga, gb = bget(a, shape), bget(b, shape)
    return wrap(SArr.make(shape, kind, lambda i: f(ga(i), gb(i))))

def power(a, b):
    if b is None or isinstance(b, (str, dict)): return NotImplemented
    a, b = asarr(a), asarr(b)
    return elementwise2(v_pow, a, b, 'f' if 'f' in (a.kind, b.kind) else 'i')

def elementwise_n(f, arrs, kind=None):
    shape = broadcast([a._shape for a in arrs])
    if kind is None: kind = vkind(f(*[sample(a.kind) for a in arrs]))
    gs = [bget(a, shape) for a in arrs]
    return wrap(SArr.make(shape, kind, lambda i: f(*[g(i) for g in gs])))

# ------------------------------------------------------------------ basic indexing
def as_int_term(k):
    """integer index -> term, or None"""
    if isinstance(k, bool) or isinstance(k, SBool): return None
    if isinstance(k, int): return T.cI(k)
    if isinstance(k, SNum) and k.kind == 'i': return k.V.v
    if isinstance(k, SArr) and k.ndim == 0 and k.kind == 'i': return k.at().v
    if isinstance(k, T.T) and k.sort == 'I': return k
    return None

def norm_index(t, d):
    """bounds check and negative wrap-around"""
    n = dterm(d)
    if T.is_const(t) and T.is_const(n):
        k, m = int(T.cval(t)), int(T.cval(n))
        if not -m <= k < m: raise IndexError('index %d is out of bounds for axis with size %d' % (k, m))
        return T.cI(k % m)
    c = C.get()
    if T.is_const(t) and T.cval(t) < 0:
        if c.decide(T.lt(T.add(t, n), T.cI(0))): raise IndexError('index out of bounds')
        return T.add(t, n)
    if c.known(T.and_(T.ge(t, T.cI(0)), T.lt(t, n))) is True: return t
    if c.binder:
        # under a quantifier of a specification; the caller keeps indices in range
        return t
    if c.decide(T.ge(t, T.cI(0))):
        if c.decide(T.lt(t, n)): return t
        raise IndexError('index out of bounds')
    if c.decide(T.ge(T.add(t, n), T.cI(0))): return T.add(t, n)
    raise IndexError('index out of bounds')

def clamp(t, d, default):
    """slice bound -> term in [0, d]"""
    n = dterm(d)
    if t is None: return default
    k = as_int_term(t)
    if k is None: raise TypeError('slice indices must be integers')
    c = C.get()
    if T.is_const(k) and T.is_const(n):
        k, n = int(T.cval(k)), int(T.cval(n))
        if k < 0: k = max(0, k + n)
        return T.cI(min(k, n))
    z = T.cI(0)
    neg = T.lt(k, z)
    if neg is not T.FALSE and c.decide(neg):
        k2 = T.add(k, n)
        if c.decide(T.lt(k2, z)): return z
        return k2
    if c.decide(T.lt(n, k)): return n
    return k

def parse_index(arr, key):
    """-> ('view', SArr) for basic indexing or ('adv', list of per-axis items) for fancy indexing"""
    if not isinstance(key, tuple): key = (key,)
    key = list(key)
    def is_adv(k):
        if isinstance(k, (list, tuple, range, SymList)): return True
        if isinstance(k, SArr): return not (k.ndim == 0 and k.kind == 'i')
        if isinstance(k, (bool, SBool)): return True
        return False
    consumed = 0
    for k in key:
        if k is None or k is Ellipsis: continue
        if isinstance(k, SArr) and k.kind == 'b': consumed += k.ndim
        elif isinstance(k, list) and k and isinstance(k[0], list) and isinstance(k[0][0], (bool, SBool)): consumed += 2
        else: consumed += 1
    if consumed > arr.ndim: raise IndexError('too many indices for array: array is %d-dimensional, but %d were indexed' % (arr.ndim, consumed))
    n_e = sum(1 for k in key if k is Ellipsis)
    if n_e > 1: raise IndexError('an index can only have a single ellipsis')
    fill = [slice(None)] * (arr.ndim - consumed)
    if n_e:
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        key[p:p + 1] = fill
    else:
        key += fill
    if any(is_adv(k) for k in key): return 'adv', key
    # basic
    shape, per_axis, ax = [], [], 0
    for k in key:
        if k is None:
            shape.append(1); continue
        d = arr._shape[ax]
        if isinstance(k, slice):
            step = 1 if k.step is None else k.step
            step = int(step)
            if step == 1:
                lo = clamp(k.start, d, T.cI(0))
                hi = clamp(k.stop, d, dterm(d))
                ln = T.sub(hi, lo)
                if not T.is_const(ln):
                    if C.get().decide(T.lt(ln, T.cI(0))): ln = T.cI(0)
                elif T.cval(ln) < 0: ln = T.cI(0)
                per_axis.append(('ax', len(shape), lo, 1)); shape.append(dim(ln))
            elif isinstance(d, int):
                r = range(*slice(*[None if z is None else int(z) for z in (k.start, k.stop, k.step)]).indices(d))
                per_axis.append(('ax', len(shape), T.cI(r.start), r.step)); shape.append(len(r))
            elif step == -1 and k.start is None and k.stop is None:
                per_axis.append(('ax', len(shape), T.sub(dterm(d), T.cI(1)), -1)); shape.append(d)
            else: raise Unsupported('strided slice of a symbolic axis')
        else:
            t = as_int_term(k)
            if t is None:
                raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')
            per_axis.append(('fix', norm_index(t, d)))
        ax += 1
    if arr.axes is not None:
        axes = []
        for a in arr.axes:
            if isinstance(a, Fix): axes.append(a); continue
            p = per_axis[a.axis]
            if p[0] == 'fix': axes.append(Fix(T.add(a.start, T.mul(T.cI(a.step), p[1]))))
            else: axes.append(Ax(p[1], T.add(a.start, T.mul(T.cI(a.step), p[2])), a.step * p[3]))
        r = SArr(arr.buf, shape, axes)
    else:
        f = arr.imap
        def imap(idx):
            return f(tuple(p[1] if p[0] == 'fix' else T.add(p[2], T.mul(T.cI(p[3]), idx[p[1]])) for p in per_axis))
        r = SArr(arr.buf, shape, None, imap)
    r._w = arr._w; r._dt = arr._dt
    return 'view', r

def value_getter(val, shape, kind):
    """getter of a right-hand side broadcast into shape, snapshot"""
    a = asarr(val)
    s = a._shape
    while len(s) > len(shape):
        if not deq(s[0], 1): raise ValueError('could not broadcast input array')
        a = a[0]; a = asarr(a); s = a._shape
    bs = broadcast([s, shape])
    for x, y in zip(bs, shape):
        if not deq(x, y): raise ValueError('could not broadcast input array from shape')
    g = bget(a, shape)
    if a.kind == 'f' and kind == 'i':
        def gi(i):
            v = g(i)
            if not v.plain:
                if v.nan is T.TRUE or v.inf is T.TRUE or True: raise ValueError('cannot convert float NaN to integer')
            return cast(v, 'i')
        # numpy raises when storing NaN into integers (only knowable elementwise)
        return gi
    return lambda i: cast(g(i), kind)

def set_node(buf, fn):
    if buf.name is not None or True:
        buf.writes += 1
    buf.node = Node(fn)

def assign(view, val):
    """view[...] = val"""
    if not view._w: raise ValueError('assignment destination is read-only')
    buf = view.buf
    g = value_getter(val, view._shape, buf.kind)
    write_fn(view, g)

def write_fn(view, g):
    buf, old = view.buf, view.buf.node
    if shape_const(view._shape) and (view.axes is None or all(isinstance(a, Ax) and T.is_const(a.start) or isinstance(a, Fix) and T.is_const(a.t) for a in view.axes)):
        upd = {}
        for i in indices(view._shape):
            ci = cidx(i)
            upd[view.base_index(ci)] = g(ci)
        def fn(idx):
            r = upd.get(idx)
            if r is not None: return r
            if all(T.is_const(t) for t in idx): return old.get(idx)
            r = old.get(idx)
            for k, v in upd.items():
                r = v_ite(T.and_(*[T.eq(a, b) for a, b in zip(idx, k)]), v, r)
            return r
        set_node(buf, fn)
        return
    if view.axes is None: raise Unsupported('store through a reshaped symbolic view')
    axes, shape = view.axes, view._shape
    used = [a.axis for a in axes if isinstance(a, Ax)]
    def fn(idx):
        vi = [T.cI(0)] * len(shape)
        conds = []
        for a, b in zip(axes, idx):
            if isinstance(a, Fix): conds.append(T.eq(b, a.t)); continue
            if a.step not in (1, -1): raise Unsupported('store through a strided view')
            k = T.mul(T.cI(a.step), T.sub(b, a.start))
            vi[a.axis] = k
            conds.append(T.ge(k, T.cI(0))); conds.append(T.lt(k, dterm(shape[a.axis])))
        cond = T.and_(*conds)
        if cond is T.FALSE: return old.get(idx)
        kn = C.get().known(cond)
        if kn is True: return g(tuple(vi))
        if kn is False: return old.get(idx)
        return v_ite(cond, g(tuple(vi)), old.get(idx))
    set_node(buf, fn)

# ------------------------------------------------------------------ fancy indexing
def mask_to_indices(m):
    """boolean array (1-d) -> integer index array (the selected positions in order)"""
    if shape_const(m._shape):
        out = []
        for i in range(m._shape[0]):
            if C.get().decide(m.at(i).v): out.append(i)
        return SArr.from_list((len(out),), 'i', [V(T.cI(k)) for k in out])
    return selection(m)

class Selection(object):
    """ghost description of  flatnonzero(mask): K positions g(0) < g(1) < ... exactly those satisfying mask"""
    def __init__(self, n, mask, K, fn, inv):
        self.n, self.mask, self.K, self.fn, self.inv = n, mask, K, fn, inv

def selection(m):
    c = C.get()
    n = dterm(m._shape[0])
    with under(n) as v: body = m.at(v).v
    key = T.forall(n, T.or_(body, T.app('selkey', (v,), 'B')), v)   # canonical key of (n, mask)
    s = c.ghost_sel.get(key)
    if s is None:
        k = len(c.ghost_sel)
        fn, inv = 'sel%d' % k, 'selinv%d' % k
        K = T.var('count!%d' % k, 'I')
        mask = lambda i, body=body, v=v: T.subst(body, {v: i})
        s = Selection(n, mask, K, fn, inv)
        z = T.cI(0)
        G = lambda i: T.app(fn, (i,), 'I')
        GI = lambda i: T.app(inv, (i,), 'I')
        x, y = T.fresh('b', 'I'), T.fresh('b', 'I')
        c.add_fact(T.ge(K, z)); c.add_fact(T.le(K, n))
        c.add_fact(T.forall(K, T.and_(T.ge(G(x), z), T.lt(G(x), n), mask(G(x)), T.eq(GI(G(x)), x)), x))
        # strictly increasing, in both steps and pairs
        c.add_fact(T.forall(K, T.forall(x, T.lt(G(y), G(x)), y), x))
        c.add_fact(T.forall(n, T.implies(mask(x), T.and_(T.ge(GI(x), z), T.lt(GI(x), K), T.eq(G(GI(x)), x))), x))
        c.ghost_sel[key] = s
        c.assume_label('numpy: flatnonzero / boolean indexing list exactly the selected positions, in increasing order')
    r = SArr.make((s.K,), 'i', lambda i: V(T.app(s.fn, (i[0],), 'I')))
    r.selection = s
    return r

def index_array(k, d):
    """one fancy index item -> integer SArr with values in [0, d)"""
    a = asarr(k)
    if a.kind == 'b':
        if a.ndim != 1: raise Unsupported('multi-dimensional boolean index')
        if not deq(a._shape[0], d): raise IndexError('boolean index did not match indexed array')
        return mask_to_indices(a), True
    if a.kind == 'f':
        if a.ndim == 1 and shape_const(a._shape) and a._shape[0] == 0:
            return SArr.make(a._shape, 'i', lambda i: V(T.cI(0))), False
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    sel = getattr(a, 'selection', None)
    if sel is not None and sel.n is dterm(d): return a, True
    g = a.getter()
    n = dterm(d)
    c = C.get()
    # bounds: for every index position
    checked = False
    if shape_const(a._shape):
        vals = {}
        for i in indices(a._shape):
            ci = cidx(i)
            vals[ci] = V(norm_index(g(ci).v, d))
        def fn(idx):
            r = vals.get(idx)
            return r if r is not None else select_const(vals, a._shape, idx)
        return SArr.make(a._shape, 'i', fn), False
    vs = [T.fresh('ix', 'I') for _ in a._shape]
    rng = T.and_(*[T.and_(T.ge(x, T.cI(0)), T.lt(x, dterm(s))) for x, s in zip(vs, a._shape)])
    t = g(tuple(vs)).v
    ok = c.solver.prove_simple(c.hyps() + [rng], T.and_(T.ge(t, T.cI(0)), T.lt(t, n)))
    if ok: return a, False
    ok = c.solver.prove_simple(c.hyps() + [rng], T.and_(T.ge(t, T.neg(n)), T.lt(t, n)))
    if ok:
        return SArr.make(a._shape, 'i', lambda i: V(T.ite(T.lt(g(i).v, T.cI(0)), T.add(g(i).v, n), g(i).v))), False
    # may be out of range: either every index is in range, or IndexError
    allin = T.TRUE
    body = T.and_(T.ge(t, T.neg(n)), T.lt(t, n))
    for x, s in reversed(list(zip(vs, a._shape))): body = T.forall(dterm(s), body, x)
    if c.decide(body):
        return SArr.make(a._shape, 'i', lambda i: V(T.ite(T.lt(g(i).v, T.cI(0)), T.add(g(i).v, n), g(i).v))), False
    raise IndexError('index out of bounds')

def adv_plan(arr, key):
    """fancy indexing -> (result shape, map result idx -> list of view-axis index terms)"""
    if len([k for k in key if not isinstance(k, slice) and k is not None]) == 1 and any(isinstance(asarr(k), SArr) and asarr(k).kind == 'b' and asarr(k).ndim > 1 for k in key if isinstance(k, (SArr, list))):
        k0 = [k for k in key if not isinstance(k, slice)][0]
        a = asarr(k0)
        if not shape_const(a._shape): raise Unsupported('multi-dimensional boolean index of symbolic size')
        pos = [i for i in indices(a._shape) if C.get().decide(a.at(*i).v)]
        p = key.index(k0) if not isinstance(k0, SArr) else [i for i, k in enumerate(key) if k is k0][0]
        cols = [SArr.from_list((len(pos),), 'i', [V(T.cI(q[j])) for q in pos]) for j in range(a.ndim)]
        key = key[:p] + cols + key[p + 1:]
    ax, items = 0, []
    for k in key:
        if k is None: items.append(('new', None, None)); continue
        d = arr._shape[ax]
        if isinstance(k, slice): items.append(('slice', k, ax))
        else:
            t = as_int_term(k)
            if t is not None: items.append(('adv', SArr.scalar(V(norm_index(t, d)), 'i'), ax))
            else: items.append(('adv', index_array(k, d)[0], ax))
        ax += 1
    advs = [it for it in items if it[0] == 'adv']
    bshape = broadcast([it[1]._shape for it in advs])
    pos = [i for i, it in enumerate(items) if it[0] == 'adv']
    contiguous = pos == list(range(pos[0], pos[-1] + 1))
    where = pos[0] if contiguous else 0
    out_shape, plan = [], {}
    nb = len(bshape)
    done = False
    if not contiguous:
        out_shape.extend(bshape); boff = 0; done = True
    for i, it in enumerate(items):
        if it[0] == 'adv':
            if not done:
                boff = len(out_shape); out_shape.extend(bshape); done = True
            continue
        if it[0] == 'new':
            out_shape.append(1); continue
        # slice on this axis
        sub = SArr.make((arr._shape[it[2]],), 'i', lambda i: V(i[0]))
        _, sv = parse_index(sub, it[1])
        a0 = sv.axes[0]
        plan[it[2]] = (len(out_shape), a0.start, a0.step)
        out_shape.append(sv._shape[0])
    getters = {it[2]: bget(it[1], bshape) for it in advs}
    def mapping(idx):
        bi = tuple(idx[boff:boff + nb])
        out = []
        for a in range(arr.ndim):
            if a in getters: out.append(getters[a](bi).v)
            else:
                p, st, step = plan[a]
                out.append(T.add(st, T.mul(T.cI(step), idx[p])))
        return tuple(out)
    return tuple(out_shape), mapping

def known_atoms(m, f):
    """f plus the atoms settled by the true condition f"""
    for x in (f.args if f.op == 'and' else (f,)):
        if x.op == 'not': m[x.args[0]] = T.FALSE
        elif x.op not in ('const',): m[x] = T.TRUE
    return m

def v_subst(v, m):
    return V(T.subst(v.v, m), T.subst(v.nan, m), T.subst(v.inf, m))

def sel_simp(v, sel, g):
    """v, knowing that g is one of the selected positions"""
    m = known_atoms({}, sel.mask(g))
    m[T.lt(g, T.cI(0))] = T.FALSE
    m[T.lt(g, sel.n)] = T.TRUE
    m.pop(T.FALSE, None); m.pop(T.TRUE, None)
    return v_subst(v, m)

def adv_get(arr, key):
    shape, mapping = adv_plan(arr, key)
    g = arr.getter()
    sels = C.get().ghost_sel
    if sels:
        byfn = {s.fn: s for s in sels.values()}
        def get(idx):
            p = mapping(idx)
            r = g(p)
            for t in p:
                if t.op == 'app' and t.args[0] in byfn: r = sel_simp(r, byfn[t.args[0]], t)
            return r
    else: get = lambda idx: g(mapping(idx))
    r = SArr.make(shape, arr.kind, get, dtype=arr._dt)
    # which rows were taken (ghost)
    if arr.ndim and r.ndim == arr.ndim and not any(k is None for k in key) and all(isinstance(k, slice) and k == slice(None) for k in key[1:]) and not isinstance(key[0], slice):
        m = asarr(key[0])
        if m.ndim == 1: r.rows = mask_to_indices(m) if m.kind == 'b' else m
    return wrap(r) if r.ndim == 0 else r

def adv_set(arr, key, val):
    nonslices = [(i, k) for i, k in enumerate(key) if not isinstance(k, slice)]
    buf = arr.buf
    # boolean mask on one axis (others full slices)
    if len(nonslices) == 1 and all(k == slice(None) for i, k in enumerate(key) if i != nonslices[0][0]):
        p, k = nonslices[0]
        m = asarr(k)
        if m.kind == 'b':
            ax = sum(1 for x in key[:p] if x is not None)
            if m.ndim == 1 or (m.ndim == arr.ndim):
                dims = arr._shape[ax:ax + m.ndim]
                for a, b in zip(m._shape, dims):
                    if not deq(a, b): raise IndexError('boolean index did not match indexed array')
                v = asarr(val)
                gm = m.getter()
                if v.ndim == 0 or (m.ndim == 1 and v.ndim == 1 and ax == 0 and arr.ndim == 2):
                    gv = v.getter()
                    old = arr.getter()
                    kind = arr.kind
                    def new(i):
                        vv = gv(()) if v.ndim == 0 else gv((i[1],))
                        if kind == 'i' and v.kind == 'f' and not vv.plain: raise ValueError('cannot convert float NaN to integer')
                        return v_ite(gm(tuple(i[ax:ax + m.ndim])).v, cast(vv, kind), old(i))
                    if kind == 'i' and v.kind == 'f' and not v.at().plain: raise ValueError('cannot convert float NaN to integer')
                    write_fn(arr, new)
                    return
                if m.ndim == 1:
                    # value per selected position
                    idxs = mask_to_indices(m)
                    sel = getattr(idxs, 'selection', None)
                    if sel is not None:
                        rest = tuple(arr._shape[:ax]) + (sel.K,) + tuple(arr._shape[ax + 1:])
                        gv = value_getter(v, rest, arr.kind)
                        old = arr.getter()
                        def new(i):
                            pos = T.app(sel.inv, (i[ax],), 'I')
                            j = tuple(i[:ax]) + (pos,) + tuple(i[ax + 1:])
                            cnd = gm((i[ax],)).v
                            if cnd is T.FALSE: return old(i)
                            mm = known_atoms({}, cnd)
                            mm[T.app(sel.fn, (pos,), 'I')] = i[ax]
                            mm[T.lt(pos, T.cI(0))] = T.FALSE
                            mm[T.lt(pos, sel.K)] = T.TRUE
                            mm.pop(T.FALSE, None); mm.pop(T.TRUE, None)
                            x = v_subst(v_subst(gv(j), mm), mm)
                            return v_ite(cnd, x, old(i))
                        write_fn(arr, new)
                        return
    shape, mapping = adv_plan(arr, key)
    g = value_getter(val, shape, arr.kind)
    if not shape_const(shape): raise Unsupported('scatter store of symbolic size')
    for i in indices(shape):
        ci = cidx(i)
        tgt = mapping(ci)
        v = g(ci)
        one = SArr(arr.buf, (), None, (lambda b: (lambda idx: b))(arr.base_index(tgt)))
        base = arr.base_index(tgt)
        old = buf.node
        def fn(idx, base=base, v=v, old=old):
            return v_ite(T.and_(*[T.eq(a, b) for a, b in zip(idx, base)]), v, old.get(idx))
        set_node(buf, fn)

# ------------------------------------------------------------------ reshape
def is_contig(a):
    if a.axes is None: return getattr(a, 'contig', False)
    seen_full = True
    last = -1
    phase = 0   # 0 leading fixes, 1 first partial axis, 2 remaining full
    for k, x in enumerate(a.axes):
        if isinstance(x, Fix):
            if phase: 
                return False
            continue
        if x.step != 1: return False
        if x.axis < last: return False
        last = x.axis
        full = x.start is T.cI(0) and (a._shape[x.axis] is a.buf.shape[k] or a._shape[x.axis] == a.buf.shape[k] if isinstance(a._shape[x.axis], int) else a._shape[x.axis] is a.buf.shape[k])
        if phase == 0: phase = 1
        elif not full: return False
    return True

def reshape(a, shape, view_only=False):
    if isinstance(shape, (SNum, int)): shape = (shape,)
    shape = [dim(d) for d in shape]
    total = 1
    for d in a._shape: total = dmul(total, d)
    neg = [i for i, d in enumerate(shape) if isinstance(d, int) and d == -1]
    if len(neg) > 1: raise ValueError('can only specify one unknown dimension')
    known = 1
    for i, d in enumerate(shape):
        if i not in neg: known = dmul(known, d)
    if neg:
        if isinstance(known, int) and isinstance(total, int):
            if known == 0 or total % known: raise ValueError('cannot reshape array of size %s' % total)
            shape[neg[0]] = total // known
        else:
            q = dterm(total) if isinstance(known, int) and known == 1 else T._exact_div(dterm(total), dterm(known))
            if q is None: raise Unsupported('reshape with a symbolic size')
            shape[neg[0]] = dim(q)
    else:
        if not deq(total, known): raise ValueError('cannot reshape array of size into shape')
    shape = tuple(shape)
    contig = is_contig(a)
    nz = lambda s: [(k, d) for k, d in enumerate(s) if not (isinstance(d, int) and d == 1)]
    A, B = nz(a._shape), nz(shape)
    f = a.base_index
    if len(A) == len(B) and all((x[1] is y[1]) or (isinstance(x[1], int) and x[1] == y[1]) for x, y in zip(A, B)):
        pairs = {x[0]: y[0] for x, y in zip(A, B)}
        n = len(a._shape)
        if a.axes is not None:
            axes = [x if isinstance(x, Fix) else (Ax(pairs[x.axis], x.start, x.step) if x.axis in pairs else Fix(x.start)) for x in a.axes]
            r = SArr(a.buf, shape, axes)
        else:
            r = SArr(a.buf, shape, None, lambda idx: f(tuple(idx[pairs[k]] if k in pairs else T.cI(0) for k in range(n))))
            r.contig = contig
        r._w = a._w; r._dt = a._dt
        return r
    strides_from = lambda s: [dterm(d) for d in s]
    def flat(idx, s):
        t = T.cI(0)
        for i, d in zip(idx, s): t = T.add(T.mul(t, dterm(d)), i)
        return t
    def unflat(t, s):
        out = []
        for d in reversed(s[1:]):
            out.append(T.imod(t, dterm(d))); t = T.idiv(t, dterm(d))
        return tuple([t] + list(reversed(out))) if s else ()
    src, dst = a._shape, shape
    if not shape_const(src) or not shape_const(dst):
        # only the leading axis may be symbolic in what is divided
        pass
    imap = lambda idx: f(unflat(flat(idx, dst), src))
    if contig or True:
        if not contig:
            if view_only: raise AttributeError('incompatible shape for in-place modification. Use `.reshape()` to make a copy with the desired shape.')
            g = a.getter()
            return SArr.make(shape, a.kind, lambda idx: g(unflat(flat(idx, dst), src)), dtype=a._dt)
        r = SArr(a.buf, shape, None, imap)
        r.contig = True
        r._w = a._w; r._dt = a._dt
        return r

# ------------------------------------------------------------------ reductions
def binder_var():
    c = C.get()
    v = T.var('@%d' % c.binder, 'I')
    return v

class under(object):
    """evaluate a body for all v in [0, n)"""
    def __init__(self, n):
        self.n = n
    def __enter__(self):
        c = C.get()
        self.v = T.fresh('b', 'I')
        c.local.append(T.ge(self.v, T.cI(0))); c.local.append(T.lt(self.v, self.n)); c.binder += 1
        return self.v
    def __exit__(self, *a):
        c = C.get()
        c.local.pop(); c.local.pop(); c.binder -= 1
        return False

def vsum(n, f):
    """sum of f(i) for i in [0, n): n an int or term; f: term -> V"""
    if isinstance(n, int):
        r = None
        for k in range(n):
            x = num(f(T.cI(k)))
            r = x if r is None else v_add(r, x)
        return r if r is not None else V(T.ZERO)
    with under(n) as v:
        x = num(f(v))
    if not x.plain:
        nn = T.forall(n, T.and_(T.not_(x.nan), T.not_(x.inf)), v)
        c = C.get()
        k = c.known(nn)
        if k is not True:
            nan = T.not_(T.forall(n, T.not_(x.nan), v))
            if x.inf is not F: raise Unsupported('sum of possibly infinite numbers over a symbolic axis')
            return V(T.sum_(n, x.v, v), nan)
    s = T.sum_(n, x.v, v)
    if x.v.sort == 'I' and s.sort == 'R': return V(int_sum(n, x.v, v))
    return V(s)

def int_sum(n, body, v):
    s = T.sum_(n, body, v)
    r = T.app('intsum', (s,), 'I')
    return r

def norm_axis(axis, nd):
    if axis is None: return None
    if isinstance(axis, (tuple, list)): return [norm_axis(a, nd) for a in axis]
    a = int(axis)
    if not -nd <= a < nd: raise IndexError_axis('axis %d is out of bounds for array of dimension %d' % (a, nd))
    return a % nd

class IndexError_axis(ValueError, IndexError):
    pass

def reduce_axis(a, axis, f, kind, keepdims=False):
    """f(n, getter k -> V) -> V over one axis"""
    ax = norm_axis(axis, a.ndim)
    g = a.getter()
    n = a._shape[ax]
    shape = a._shape[:ax] + a._shape[ax + 1:]
    def fn(idx):
        return f(n, lambda k: g(tuple(idx[:ax]) + (k,) + tuple(idx[ax:])))
    r = SArr.make(shape, kind, fn)
    if keepdims:
        r = r[tuple([slice(None)] * ax + [None])] if r.ndim or True else r
    if not isinstance(r, SArr): return r
    return wrap(r)

def reduce_(a, axis, f, kind, keepdims=False):
    if isinstance(axis, (list, tuple)):
        if len(axis) == 1: return reduce_(a, axis[0], f, kind, keepdims)
        axes = sorted([norm_axis(x, a.ndim) for x in axis], reverse=True)
        if keepdims: raise Unsupported('keepdims with several axes')
        for x in axes: a = asarr(reduce_axis(a, x, f, kind))
        return wrap(a)
    if axis is None:
        if a.ndim == 0: return wrap(a)
        if a.ndim == 1: r = reduce_axis(a, 0, f, kind)
        else:
            r = a
            for _ in range(a.ndim): r = asarr(reduce_axis(r, r.ndim - 1, f, kind))
            r = wrap(r)
        if keepdims: raise Unsupported('keepdims over all axes')
        return r
    return reduce_axis(a, axis, f, kind, keepdims)

def np_sum(a, axis=None, dtype=None, keepdims=False, **kw):
    a = asarr(a)
    return reduce_(a, axis, vsum, 'f' if a.kind == 'f' else 'i', keepdims)

def vall(n, f):
    if isinstance(n, int): return V(T.and_(*[cast(f(T.cI(k)), 'b').v for k in range(n)]))
    with under(n) as v: b = cast(f(v), 'b').v
    return V(T.forall(n, b, v))
def vany(n, f):
    if isinstance(n, int): return V(T.or_(*([T.FALSE] + [cast(f(T.cI(k)), 'b').v for k in range(n)])))
    with under(n) as v: b = cast(f(v), 'b').v
    return V(T.not_(T.forall(n, T.not_(b), v)))

def np_all(a, axis=None, keepdims=False, **kw):
    if isinstance(a, (bool,)): return SBool(T.TRUE if a else T.FALSE, True)
    return reduce_(asarr(a), axis, vall, 'b', keepdims)
def np_any(a, axis=None, keepdims=False, **kw):
    if isinstance(a, (bool,)): return SBool(T.TRUE if a else T.FALSE, True)
    return reduce_(asarr(a), axis, vany, 'b', keepdims)

def vextreme(sign):
    def f(n, g):
        if isinstance(n, int):
            if n == 0: raise ValueError('zero-size array to reduction operation has no identity')
            r = num(g(T.cI(0)))
            for k in range(1, n):
                r = (v_max if sign > 0 else v_min)(r, num(g(T.cI(k))))
            return r
        return extreme_ghost(n, g, sign)[0]
    return f

def extreme_ghost(n, g, sign):
    """(value, first position) of the maximum (sign 1) or minimum (-1) over a symbolic axis"""
    c = C.get()
    if not c.binder and c.decide(T.le(n, T.cI(0))): raise ValueError('zero-size array to reduction operation has no identity')
    with under(n) as v: body = num(g(v))
    if not body.plain: raise Unsupported('extremum of possibly non-finite numbers')
    free = [x for x in T.fv(body.v) if x is not v and x.args[0].startswith('b!')]
    if free: raise Unsupported('extremum under a quantifier')
    key = (T.forall(n, T.lt(T.toR(body.v), T.app('extkey', (v,))), v), sign)
    r = c.memo.get(key)
    if r is None:
        w = T.var('arg!%d' % len(c.memo), 'I')
        z = T.cI(0)
        val = T.subst(body.v, {v: w})
        c.add_fact(T.ge(w, z)); c.add_fact(T.lt(w, n))
        x = T.fresh('b', 'I')
        bx = T.subst(body.v, {v: x})
        c.add_fact(T.forall(n, T.le(bx, val) if sign > 0 else T.ge(bx, val), x))
        c.add_fact(T.forall(w, T.lt(bx, val) if sign > 0 else T.gt(bx, val), x))
        c.assume_label('numpy: max / min / argmax / argmin return the (first) extreme element')
        r = c.memo[key] = (V(val), w)
    return r

def np_max(a, axis=None, keepdims=False, **kw):
    a = asarr(a); return reduce_(a, axis, vextreme(1), a.kind, keepdims)
def np_min(a, axis=None, keepdims=False, **kw):
    a = asarr(a); return reduce_(a, axis, vextreme(-1), a.kind, keepdims)

def varg(sign):
    def f(n, g):
        if isinstance(n, int):
            if n == 0: raise ValueError('attempt to get argmax of an empty sequence')
            best, pos = num(g(T.cI(0))), T.cI(0)
            for k in range(1, n):
                x = num(g(T.cI(k)))
                better = v_lt(best, x) if sign > 0 else v_lt(x, best)
                best, pos = v_ite(better, x, best), T.ite(better, T.cI(k), pos)
            return V(pos)
        return V(extreme_ghost(n, g, sign)[1])
    return f
def np_argmax(a, axis=None, **kw):
    a = asarr(a)
    if axis is None and a.ndim > 1: a = reshape(a, (-1,))
    return reduce_(a, axis, varg(1), 'i')
def np_argmin(a, axis=None, **kw):
    a = asarr(a)
    if axis is None and a.ndim > 1: a = reshape(a, (-1,))
    return reduce_(a, axis, varg(-1), 'i')

def np_mean(a, axis=None, keepdims=False, **kw):
    a = asarr(a)
    if a.kind != 'f': a = astype(a, float)
    if axis is None:
        n = a.size
    else: n = dnum(a._shape[norm_axis(axis, a.ndim)])
    s = np_sum(a, axis, keepdims=keepdims)
    nv = lift(n)[0]
    if isinstance(n, int):
        if n == 0: raise Unsupported('mean of an empty array')
    elif C.get().known(T.gt(nv.v, T.cI(0))) is not True:
        if C.get().decide(T.le(nv.v, T.cI(0))): raise Unsupported('mean of an empty array')
    return s / SNum(V(T.toR(nv.v)), 'f', True)

# ------------------------------------------------------------------ products
def dot(a, b, matmul=False):
    a, b = asarr(a), asarr(b)
    sv = getattr(a, 'svd', None)
    if sv is not None and len(sv) == 4 and sv[0] is b and sv[1] is a.buf.node and b.svd[1] is b.buf.node and sv[2].buf.node is sv[3]: return sv[2].copy()
    if a.ndim == 0 or b.ndim == 0:
        if matmul: raise ValueError('matmul: scalar operand')
        return elementwise2(v_mul, a, b)
    if matmul and (a.ndim > 2 or b.ndim > 2): raise Unsupported('batched matmul')
    n, m = a._shape[-1], b._shape[-2] if b.ndim >= 2 else b._shape[0]
    if not deq(n, m): raise ValueError('shapes not aligned')
    if not isinstance(n, int) and isinstance(m, int): n = m
    ga, gb = a.getter(), b.getter()
    na = a.ndim - 1
    bpos = b.ndim - 2 if b.ndim >= 2 else 0
    shape = a._shape[:-1] + (b._shape[:-2] + b._shape[-1:] if b.ndim >= 2 else ())
    kind = 'f' if 'f' in (a.kind, b.kind) else 'i'
    def fn(idx):
        ia, ib = tuple(idx[:na]), tuple(idx[na:])
        return vsum(n, lambda k: v_mul(ga(ia + (k,)), gb(ib[:bpos] + (k,) + ib[bpos:])))
    return wrap(SArr.make(shape, kind, fn))

# ------------------------------------------------------------------ sequences of symbolic length
class SymRange(object):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step
    @property
    def length(self):
        return T.sub(self.hi, self.lo)
    def elem(self, i):
        return SNum(V(T.add(self.lo, i)), 'i')
    def to_array(self):
        n = self.length
        if C.get().decide(T.lt(n, T.cI(0))): n = T.cI(0)
        return SArr.make((n,), 'i', lambda i: V(T.add(self.lo, i[0])))
    def __iter__(self):
        raise Unsupported('iteration over a symbolic range')

class SymList(object):
    """list of symbolic length: elem(i: term) -> python value"""
    def __init__(self, n, elem):
        self.n, self._e = n, elem
        self.length = n
    def elem(self, i): return self._e(i)
    def __iter__(self): raise Unsupported('iteration over a symbolic list')
    def __len__(self):
        raise Unsupported('len of a symbolic list outside the overridden builtin')
    def __getitem__(self, k):
        if isinstance(k, slice):
            sub = SArr.make((self.n,), 'i', lambda i: V(i[0]))[k]
            g = sub.getter()
            return SymList(dterm(sub._shape[0]), lambda i: self._e(g((i,)).v))
        t = as_int_term(k)
        if t is None: raise TypeError('list indices must be integers or slices')
        return self._e(norm_index(t, dim(self.n)))
    def __bool__(self):
        return C.get().decide(T.gt(self.n, T.cI(0)))
    def append(self, x):
        n, e = self.n, self._e
        def elem(i):
            k = C.get().known(T.eq(i, n))
            if k is True: return x
            if k is False: return e(i)
            raise Unsupported('undetermined position in a list')
        self.n, self._e = T.add(n, T.cI(1)), elem
        self.length = self.n
    def __add__(self, o): raise Unsupported('concatenation of symbolic lists')
    def to_array(self):
        c = C.get()
        with under(self.n) as v:
            x = asarr(self._e(v))
        shape, kind = x._shape, x.kind
        memo = {}
        def fn(idx):
            r = memo.get(idx[0])
            if r is None: r = memo[idx[0]] = asarr(self._e(idx[0]))
            return r.at(*idx[1:])
        return SArr.make((self.n,) + shape, kind, fn)
