"""Hash-consed terms over exact reals, integers and booleans, with light simplification, and
a rational normal form used both to canonicalise sums and to decide polynomial identities."""
from fractions import Fraction
import itertools

class T(object):
    __slots__ = ('op', 'args', 'sort', 'id', '_poly', '_fv')
    def __repr__(self):
        return show(self)
    def __bool__(self):
        raise TypeError('term used as a python boolean')
    def __hash__(self):
        return self.id
    def __eq__(self, o):
        return self is o

_table = {}
_counter = itertools.count()

def mk(op, args, sort):
    key = (op, sort) + tuple((a.id if isinstance(a, T) else ('c', a)) for a in args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, tuple(args), sort
        t.id = next(_counter)
        t._poly = None
        t._fv = None
        _table[key] = t
    return t

def const(v, sort='R'):
    if sort == 'B':
        return TRUE if v else FALSE
    return mk('const', (Fraction(v),), sort)

TRUE = mk('const', (True,), 'B')
FALSE = mk('const', (False,), 'B')
ZERO = const(0)
ONE = const(1)

def cI(v):
    return const(v, 'I')

def var(name, sort='R'):
    return mk('var', (name,), sort)

_fresh = itertools.count()
def fresh(prefix, sort='R'):
    return var('%s!%d' % (prefix, next(_fresh)), sort)

def app(fn, args, sort='R'):
    if fn in ('cos', 'sin', 'acos', 'tan') and args[0].sort == 'R':
        a = canon(args[0])
        if fn in ('cos', 'sin'):
            if is_const(a) and cval(a) == 0: return ONE if fn == 'cos' else ZERO
            p = poly(a)
            if p and p[max(p)] < 0:
                r = mk('app', (fn, from_poly(p_scale(p, -1))), sort)
                return r if fn == 'cos' else neg(r)
            if fn == 'cos' and a.op == 'app' and a.args[0] == 'acos' and trig_safe(a.args[1]): return a.args[1]
        args = (a,) + tuple(args[1:])
    return mk('app', (fn,) + tuple(args), sort)

def trig_safe(x):
    """syntactically in [-1, 1]: a constant"""
    return is_const(x) and abs(cval(x)) <= 1

def is_const(t):
    return t.op == 'const'

def cval(t):
    return t.args[0]

# ---------------------------------------------------------------- arithmetic
def toR(t):
    if t.sort == 'R':
        return t
    if t.sort == 'B':
        return ite(t, ONE, ZERO)
    if t.op == 'const':
        return const(t.args[0], 'R')
    if t.op == 'add':
        return add(*[toR(a) for a in t.args])
    if t.op == 'mul':
        return mul(*[toR(a) for a in t.args])
    if t.op == 'ite':
        return ite(t.args[0], toR(t.args[1]), toR(t.args[2]))
    return mk('toR', (t,), 'R')

def _join(ts):
    if any(t.sort == 'R' for t in ts):
        return [toR(t) for t in ts], 'R'
    return [toI(t) for t in ts], 'I'

def toI(t):
    if t.sort == 'B':
        return ite(t, cI(1), cI(0))
    assert t.sort == 'I', t
    return t

def _coef(t):
    """t = c * rest"""
    if t.op == 'const':
        return t.args[0], None
    if t.op == 'mul' and t.args[0].op == 'const':
        c = t.args[0].args[0]
        rest = t.args[1:]
        r = rest[0] if len(rest) == 1 else mk('mul', rest, t.sort)
        return c, r
    return Fraction(1), t

def add(*ts):
    ts, s = _join(ts)
    acc, k = {}, Fraction(0)
    stack = list(reversed(ts))
    while stack:
        t = stack.pop()
        if t.op == 'add':
            stack.extend(reversed(t.args))
            continue
        c, r = _coef(t)
        if r is None:
            k += c
        else:
            acc[r] = acc.get(r, 0) + c
    out = []
    for r in sorted(acc, key=lambda x: x.id):
        c = acc[r]
        if c == 0:
            continue
        out.append(r if c == 1 else _cmul(c, r, s))
    if k != 0 or not out:
        out.append(const(k, s))
    if len(out) == 1:
        return out[0]
    return mk('add', out, s)

def _cmul(c, r, s):
    if r.op == 'mul':
        return mk('mul', (const(c, s),) + r.args, s)
    return mk('mul', (const(c, s), r), s)

def mul(*ts):
    ts, s = _join(ts)
    k, fs = Fraction(1), []
    stack = list(reversed(ts))
    while stack:
        t = stack.pop()
        if t.op == 'mul':
            stack.extend(reversed(t.args))
        elif t.op == 'const':
            k *= t.args[0]
        else:
            fs.append(t)
    if k == 0 or not fs:
        return const(k, s)
    fs.sort(key=lambda x: x.id)
    if len(fs) == 1:
        f = fs[0]
        if k == 1:
            return f
        if f.op == 'add':
            return add(*[mul(const(k, s), a) for a in f.args])
        if f.op == 'ite' and is_const(f.args[1]) and is_const(f.args[2]):
            return ite(f.args[0], mul(const(k, s), f.args[1]), mul(const(k, s), f.args[2]))
        return _cmul(k, f, s)
    if k == 1:
        return mk('mul', fs, s)
    return mk('mul', [const(k, s)] + fs, s)

def neg(t):
    return mul(cI(-1), t) if t.sort == 'I' else mul(const(-1), t)

def sub(a, b):
    return add(a, neg(toI(b) if b.sort == 'B' else b))

def div(a, b):
    """real division; the value at b = 0 is unspecified (nan/inf flags are kept beside the term)"""
    a, b = toR(a), toR(b)
    if is_const(b) and cval(b) != 0:
        return mul(const(1 / cval(b)), a)
    if is_const(a) and cval(a) == 0 and not (is_const(b)):
        # 0/b = 0 wherever the division is meaningful
        return ZERO
    return mk('div', (a, b), 'R')

def power(t, n):
    if n == 0:
        return const(1, t.sort)
    return mul(*([t] * n))

def _isqrt_frac(f):
    from math import isqrt
    if f < 0:
        return None
    a, b = isqrt(f.numerator), isqrt(f.denominator)
    if a * a == f.numerator and b * b == f.denominator:
        return Fraction(a, b)
    return None

KNOWN_NONNEG = set()      # canonical forms of terms that are nonnegative for every value of their variables (closed under substitution)
def sqrt(t):
    t = toR(t)
    if is_const(t):
        r = _isqrt_frac(cval(t))
        if r is not None:
            return const(r)
    if t.op == 'mul' and len(t.args) == 2 and t.args[0] is t.args[1]:
        return abs_(t.args[0])
    # canonical argument
    nn = nonneg(t)
    t = canon(t)
    if nn: KNOWN_NONNEG.add(t)
    if is_const(t):
        r = _isqrt_frac(cval(t))
        if r is not None:
            return const(r)
    if t.op == 'mul' and len(t.args) == 2 and t.args[0] is t.args[1]:
        return abs_(t.args[0])
    # pull square constants out:  sqrt(c^2 * x)
    if t.op == 'mul' and is_const(t.args[0]):
        r = _isqrt_frac(cval(t.args[0]))
        if r is not None:
            return mul(const(r), sqrt(mul(*t.args[1:])))
    return mk('sqrt', (t,), 'R')

def abs_(t):
    if is_const(t):
        return const(abs(cval(t)), t.sort)
    if t.op == 'sqrt':
        return t
    return ite(ge(t, const(0, t.sort)), t, neg(t))

def idiv(a, b):
    """floor division of integers"""
    if is_const(a) and is_const(b) and cval(b) != 0:
        return cI(cval(a) // cval(b))
    if is_const(b) and cval(b) == 1:
        return a
    q = _split_div(a, b)
    if q is not None:
        return q[0]
    return mk('idiv', (a, b), 'I')

def imod(a, b):
    if is_const(a) and is_const(b) and cval(b) != 0:
        return cI(cval(a) % cval(b))
    q = _split_div(a, b)
    if q is not None:
        return q[1]
    return mk('imod', (a, b), 'I')

# ghost facts: remainder variables known to lie in [0, p)
rem_ranges = set()
def _split_div(a, b):
    """a = s*b + t with t a registered remainder of b (0 <= t < b)"""
    for (t, p) in rem_ranges:
        if p is b:
            r = sub(a, t)
            q = _exact_div(r, b)
            if q is not None:
                return q, t
    q = _exact_div(a, b)
    if q is not None:
        return q, cI(0)
    return None

def _exact_div(r, b):
    if is_const(r) and cval(r) == 0:
        return cI(0)
    if r is b:
        return cI(1)
    if r.op == 'mul' and b in r.args:
        l = list(r.args); l.remove(b)
        return mul(*l)
    if is_const(b) and r.op == 'mul' and is_const(r.args[0]) and cval(r.args[0]) % cval(b) == 0:
        return mul(cI(cval(r.args[0]) / cval(b)), *r.args[1:])
    if is_const(b) and is_const(r) and cval(r) % cval(b) == 0:
        return cI(cval(r) / cval(b))
    if r.op == 'add':
        qs = [_exact_div(x, b) for x in r.args]
        if all(q is not None for q in qs):
            return add(*qs)
    return None

def floor(t):
    if t.sort == 'I':
        return t
    if is_const(t):
        import math
        return cI(math.floor(cval(t)))
    if t.op == 'toR':
        return t.args[0]
    return mk('floor', (t,), 'I')

def ceil(t):
    return neg(floor(neg(t))) if t.sort != 'I' else t

def rnd(t):
    """round half to even"""
    if t.sort == 'I':
        return t
    if is_const(t):
        return cI(round(cval(t)))
    if t.op == 'toR':
        return t.args[0]
    return mk('rnd', (t,), 'I')

# ---------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    return mk('not', (a,), 'B')

def and_(*ts):
    out, seen = [], set()
    stack = list(reversed(ts))
    while stack:
        t = stack.pop()
        if t is TRUE or t in seen: continue
        if t is FALSE: return FALSE
        if t.op == 'and':
            stack.extend(reversed(t.args)); continue
        if not_(t) in seen: return FALSE
        seen.add(t); out.append(t)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk('and', out, 'B')

def or_(*ts):
    return not_(and_(*[not_(t) for t in ts])) if len(ts) != 1 else ts[0]

def implies(a, b):
    return or_(not_(a), b)

def iff(a, b):
    if a is b: return TRUE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE: return not_(b)
    if b is FALSE: return not_(a)
    return mk('iff', (a, b), 'B')

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort != b.sort:
        if 'B' in (a.sort, b.sort) and {a.sort, b.sort} != {'B'}:
            s = 'R' if 'R' in (a.sort, b.sort) else 'I'
            a, b = (toR(a), toR(b)) if s == 'R' else (toI(a), toI(b))
        else:
            a, b = toR(a), toR(b)
    if a.sort == 'B':
        if a is TRUE: return or_(c, b)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
        if b is FALSE: return and_(c, a)
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if a is b: return a
    return mk('ite', (c, a, b), a.sort)

def _cmp_consts(a, b):
    return is_const(a) and is_const(b)

def eq(a, b):
    if a.sort == 'B' and b.sort == 'B':
        return iff(a, b)
    (a, b), s = _join((a, b))
    if a is b: return TRUE
    if _cmp_consts(a, b): return TRUE if cval(a) == cval(b) else FALSE
    d = sub(a, b)
    if is_const(d): return TRUE if cval(d) == 0 else FALSE
    if is_const(a): a, b = b, a
    if is_const(b) and a.op == 'ite' and (is_const(a.args[1]) or is_const(a.args[2])):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if is_const(b) and cval(b) == 0:
        if a.op == 'mul':
            return or_(*[eq(x, const(0, x.sort)) for x in a.args if not is_const(x)])
        if a.op == 'sqrt' and nonneg(a.args[0]):
            return eq(a.args[0], ZERO)
    if a.op == 'sqrt' and b.op == 'sqrt' and nonneg(a.args[0]) and nonneg(b.args[0]): return eq(a.args[0], b.args[0])
    if not is_const(b) and a.id > b.id: a, b = b, a
    return mk('eq', (a, b), 'B')

def lt(a, b):
    (a, b), s = _join((a, b))
    if a is b: return FALSE
    d = sub(a, b)
    if is_const(d): return TRUE if cval(d) < 0 else FALSE
    if is_const(b) and a.op == 'ite' and is_const(a.args[1]) and is_const(a.args[2]):
        return ite(a.args[0], lt(a.args[1], b), lt(a.args[2], b))
    if is_const(a) and b.op == 'ite' and is_const(b.args[1]) and is_const(b.args[2]):
        return ite(b.args[0], lt(a, b.args[1]), lt(a, b.args[2]))
    if is_const(b) and cval(b) <= 0 and nonneg(a): return FALSE
    if a.op == 'sqrt' and b.op == 'sqrt' and nonneg(a.args[0]) and nonneg(b.args[0]): return lt(a.args[0], b.args[0])
    return mk('lt', (a, b), 'B')

def le(a, b):
    return not_(lt(b, a))
def gt(a, b):
    return lt(b, a)
def ge(a, b):
    return not_(lt(a, b))
def ne(a, b):
    return not_(eq(a, b))

def nonneg(t):
    """syntactic: certainly >= 0"""
    if is_const(t): return cval(t) >= 0
    if t in KNOWN_NONNEG: return True
    if t.op == 'add': return all(nonneg(a) for a in t.args)
    if t.op == 'sqrt': return True
    if t.op == 'mul':
        cnt = {}
        k = True
        for a in t.args:
            if is_const(a):
                if cval(a) < 0: return False
                continue
            if nonneg(a): continue
            cnt[a] = cnt.get(a, 0) + 1
        return all(v % 2 == 0 for v in cnt.values())
    if t.op == 'div': return nonneg(t.args[0]) and nonneg(t.args[1])
    if t.op == 'ite':
        c, a, b = t.args
        if nonneg(a) and nonneg(b): return True
        # |x|
        if c.op == 'not' and c.args[0].op == 'lt' and c.args[0].args[0] is a and is_const(c.args[0].args[1]) and cval(c.args[0].args[1]) == 0 and b is neg(a): return True
        if c.op == 'lt' and c.args[0] is b and is_const(c.args[1]) and cval(c.args[1]) == 0 and a is neg(b): return True
        return False
    if t.op == 'sum': return nonneg(t.args[1])
    if t.op == 'toR': return nonneg(t.args[0])
    return False

# ---------------------------------------------------------------- binders
def bvar(depth):
    return var('$%d' % depth, 'I')

def depth_of(t):
    """1 + the largest bound-variable index used by binders in t (0 when there is none)"""
    m = 0
    for s in subterms(t):
        if s.op in ('sum', 'forall'):
            m = max(m, int(s.args[2].args[0][1:]) + 1)
        elif s.op == 'var' and isinstance(s.args[0], str) and s.args[0].startswith('$'):
            m = max(m, int(s.args[0][1:]) + 1)
    return m

def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen: continue
        seen.add(x)
        yield x
        for a in x.args:
            if isinstance(a, T): stack.append(a)

_subcache = {}
def subst(t, m):
    """m: dict term -> term (variables or arbitrary subterms)"""
    key = (t, tuple(sorted((k.id, v.id) for k, v in m.items())))
    if key in _subcache: return _subcache[key]
    memo = {}
    def go(x):
        if x in m: return m[x]
        r = memo.get(x)
        if r is not None: return r
        if x.op in ('const', 'var'):
            r = x
        elif x.op in ('sum', 'forall') and x.args[2] in m:
            m2 = {k: v for k, v in m.items() if k is not x.args[2]}
            n = go(x.args[0])
            b = subst(x.args[1], m2) if m2 else x.args[1]
            r = x if n is x.args[0] and b is x.args[1] else rebuild(x.op, [n, b, x.args[2]], x.sort)
        else:
            na = [go(a) if isinstance(a, T) else a for a in x.args]
            if x.op == 'sqrt' and x.args[0] in KNOWN_NONNEG: KNOWN_NONNEG.add(na[0]); KNOWN_NONNEG.add(canon(na[0]))
            r = x if all(p is q for p, q in zip(na, x.args)) else rebuild(x.op, na, x.sort)
        memo[x] = r
        return r
    r = go(t)
    if len(_subcache) > 200000: _subcache.clear()
    _subcache[key] = r
    return r

def rebuild(op, a, sort):
    f = {'add': add, 'mul': mul, 'div': div, 'ite': ite, 'sqrt': sqrt, 'eq': eq, 'lt': lt, 'not': not_,
         'and': and_, 'iff': iff, 'toR': toR, 'floor': floor, 'rnd': rnd, 'idiv': idiv, 'imod': imod}.get(op)
    if f is not None: return f(*a)
    if op == 'sum': return sum_(a[0], a[1], a[2])
    if op == 'forall': return forall(a[0], a[1], a[2])
    return mk(op, a, sort)

def sum_(n, body, v):
    """sum of body over v in [0, n)"""
    if is_const(n):
        return add(*([ZERO] + [subst(body, {v: cI(k)}) for k in range(int(cval(n)))]))
    body = canon(toR(body))
    # linearity: split the canonical polynomial and pull constants and v-free factors out
    p = poly(body)
    out = []
    for mono, c in sorted(p.items()):
        inn, outt = [], [const(c)]
        for aid, e in mono:
            atom = _atom_by_id[aid]
            tgt = inn if v in fv(atom) else outt
            if e > 0: tgt.extend([atom] * e)
            else: tgt.extend([div(ONE, atom)] * (-e))
        if not inn:
            out.append(mul(*(outt + [toR(n)])))
        else:
            nb = mul(*inn)
            # canonical bound variable
            d = 0
            others = fv(nb) - {v}
            used = {int(x.args[0][1:]) for x in subterms(nb) if x is not v and x.op == 'var' and isinstance(x.args[0], str) and x.args[0].startswith('$')}
            while d in used: d += 1
            cv = bvar(d)
            if cv is not v: nb = subst(nb, {v: cv})
            out.append(mul(*(outt + [mk('sum', (n, nb, cv), 'R')])))
    return add(*([ZERO] + out))

def forall(n, body, v):
    """for all v in [0, n): body"""
    if body is TRUE: return TRUE
    if v not in fv(body): return or_(le(n, cI(0)), body)
    if is_const(n):
        return and_(*[subst(body, {v: cI(k)}) for k in range(int(cval(n)))])
    used = {int(x.args[0][1:]) for x in subterms(body) if x is not v and x.op == 'var' and isinstance(x.args[0], str) and x.args[0].startswith('$')}
    d = 0
    while d in used: d += 1
    cv = bvar(d)
    if cv is not v: body = subst(body, {v: cv})
    return mk('forall', (n, body, cv), 'B')

def fv(t):
    if t._fv is None:
        if t.op == 'var': t._fv = frozenset([t])
        elif t.op == 'const': t._fv = frozenset()
        else:
            s = frozenset().union(*[fv(a) for a in t.args if isinstance(a, T)])
            if t.op in ('sum', 'forall'): s = (fv(t.args[0]) | (fv(t.args[1]) - {t.args[2]}))
            t._fv = s
    return t._fv

# ---------------------------------------------------------------- rational normal form
# A polynomial is {monomial: Fraction}; a monomial is a sorted tuple of (atom id, exponent), exponents may be
# negative.  1/d for a non-monomial d is the atom d' = canon(d) with a negative exponent.
_atom_by_id = {}

class TooBig(Exception):
    pass
LIMIT = 40000

def _atom(t):
    _atom_by_id[t.id] = t
    return {((t.id, 1),): Fraction(1)}

def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + k * c
        if x == 0: r.pop(m, None)
        else: r[m] = x
    return r

def m_mul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for i, e in b:
        x = d.get(i, 0) + e
        if x == 0: d.pop(i, None)
        else: d[i] = x
    return tuple(sorted(d.items()))

def p_mul(a, b):
    if len(a) * len(b) > LIMIT * 10: raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            x = r.get(m, 0) + c1 * c2
            if x == 0: r.pop(m, None)
            else: r[m] = x
    if len(r) > LIMIT: raise TooBig()
    return r

def p_scale(a, k):
    return {m: c * k for m, c in a.items()} if k != 0 else {}

def poly(t):
    if t._poly is not None: return t._poly
    r = _poly(t)
    t._poly = r
    return r

def _poly(t):
    if t.sort == 'B': return poly(ite(t, ONE, ZERO))
    op = t.op
    if op == 'const':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if op == 'add':
        r = {}
        for a in t.args: r = p_add(r, poly(a))
        return r
    if op == 'mul':
        r = {(): Fraction(1)}
        for a in t.args: r = p_mul(r, poly(a))
        return sqrt_reduce(r)
    if op == 'toR':
        return poly(t.args[0])
    if op == 'div':
        n = poly(t.args[0])
        den = t.args[1]
        if den.op == 'mul' and sum(not is_const(a) for a in den.args) > 1:
            for a in den.args: n = p_mul(n, poly(div(ONE, toR(a))))
            return sqrt_reduce(n)
        d = poly(den)
        if len(d) == 1:
            (m, c), = d.items()
            inv = {tuple((i, -e) for i, e in m): 1 / c}
            return sqrt_reduce(p_mul(n, inv))
        if not d:
            return _atom(t)
        # make monic in its first monomial, then treat 1/d as atom d with exponent -1
        lead = min(d)
        c = d[lead]
        dm = from_poly({m: x / c for m, x in d.items()})
        _atom_by_id[dm.id] = dm
        return p_mul(n, {((dm.id, -1),): 1 / c})
    return _atom(t)

def sqrt_reduce(p):
    """s^2 -> argument for sqrt atoms with exponent >= 2 when the argument is certainly nonnegative"""
    for _ in range(50):
        hit = None
        for m in p:
            for i, e in m:
                a = _atom_by_id[i]
                if e >= 2 and (a.op == 'sqrt' and nonneg(a.args[0]) or a.op == 'app' and a.args[0] == 'sin') or e <= -2 and a.op == 'sqrt' and nonneg(a.args[0]):
                    hit = (m, i, e, a); break
            if hit: break
        if not hit: return p
        r = {}
        i = hit[1]
        argp = poly(hit[3].args[0]) if hit[3].op == 'sqrt' else sin2(hit[3])
        for m, c in p.items():
            e = dict(m).get(i, 0)
            if e <= -2 and hit[2] < 0:
                d = dict(m); h = -e // 2
                if -e % 2: d[i] = -1
                else: d.pop(i)
                q = {tuple(sorted(d.items())): c}
                inv = poly(div(ONE, hit[3].args[0]))
                for _k in range(h): q = p_mul(q, inv)
                r = p_add(r, q)
            elif e >= 2 and hit[2] > 0:
                d = dict(m); h = e // 2
                if e % 2: d[i] = 1
                else: d.pop(i)
                q = {tuple(sorted(d.items())): c}
                for _k in range(h): q = p_mul(q, argp)
                r = p_add(r, q)
            else:
                r = p_add(r, {m: c})
        p = r
    return p

def sin2(a):
    """sin^2 = 1 - cos^2"""
    return poly(sub(ONE, mk_sq(app('cos', a.args[1:]))))
def mk_sq(t): return mul(t, t)

def from_poly(p):
    out = []
    for m, c in sorted(p.items()):
        fs = [const(c)]
        for i, e in m:
            a = toR(_atom_by_id[i]) if _atom_by_id[i].sort == 'I' else _atom_by_id[i]
            if e > 0: fs += [a] * e
            else: fs.append(div(ONE, mul(*([a] * -e))))
        out.append(mul(*fs))
    return add(*([ZERO] + out))

def canon(t):
    """expanded form when that is not larger than the limit; otherwise the term itself"""
    if t.sort == 'B': return t
    try:
        p = poly(t)
    except TooBig:
        return t
    if len(p) > 60: return t
    r = from_poly(p)
    return r

def atoms_of(p):
    return {i for m in p for i, e in m}

def adepth(t, memo={}):
    """nesting depth of an atom (through sqrt arguments and denominators)"""
    if t in memo: return memo[t]
    memo[t] = 0
    if t.op == 'sqrt' or t.op in ('add', 'mul', 'div'):
        try: d = 1 + max([adepth(_atom_by_id[i]) for i in atoms_of(poly(t.args[0] if t.op == 'sqrt' else t))] + [0])
        except TooBig: d = 99
        memo[t] = d
    return memo[t]

def clear_denominators(p, need=None):
    """multiply by denominators and reduce square roots until polynomial; collects the denominators (atoms) assumed
    nonzero and the radicands assumed nonnegative in `need`"""
    need = need if need is not None else []
    for _ in range(200):
        if not p: return p
        # most deeply nested atom that is negative, a denominator, or a reducible root
        cands = {}
        for m in p:
            for i, e in m:
                a = _atom_by_id[i]
                if e < 0: cands.setdefault(i, [0, 0]); cands[i][0] = min(cands[i][0], e)
                if a.op == 'sqrt' and e >= 2: cands.setdefault(i, [0, 0]); cands[i][1] = max(cands[i][1], e)
                if a.op == 'app' and a.args[0] == 'sin' and e >= 2: cands.setdefault(i, [0, 0]); cands[i][1] = max(cands[i][1], e)
                if a.op in ('add', 'mul', 'div') and e > 0: cands.setdefault(i, [0, 0]); cands[i][1] = max(cands[i][1], e)
        if not cands: return p
        i = max(cands, key=lambda j: (adepth(_atom_by_id[j]), j))
        a = _atom_by_id[i]
        lo, hi = cands[i]
        if lo < 0: need.append(('nz', a))
        r = {}
        compound = a.op in ('add', 'mul', 'div')
        ap = poly(a) if compound else None
        sp = poly(a.args[0]) if a.op == 'sqrt' else None
        if a.op == 'sqrt' and (hi >= 2): need.append(('nn', a.args[0]))
        for m, c in p.items():
            d = dict(m); e = d.pop(i, 0) - lo
            base = {tuple(sorted(d.items())): c}
            if compound:
                for _k in range(e): base = p_mul(base, ap)
            elif a.op == 'sqrt':
                if e >= 2: need.append(('nn', a.args[0]))
                for _k in range(e // 2): base = p_mul(base, sp)
                if e % 2: base = p_mul(base, {((i, 1),): Fraction(1)})
            elif a.op == 'app' and a.args[0] == 'sin':
                for _k in range(e // 2): base = p_mul(base, sin2(a))
                if e % 2: base = p_mul(base, {((i, 1),): Fraction(1)})
            elif e:
                base = p_mul(base, {((i, e),): Fraction(1)})
            r = p_add(r, base)
        p = r
    raise TooBig()

def is_zero(t, need=None):
    """True when t is identically zero as a rational expression over its atoms"""
    try:
        p = poly(toR(t) if t.sort != 'R' else t)
        return not clear_denominators(p, need)
    except TooBig:
        return False

def show(t, d=0):
    if d > 12: return '...'
    o, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if o == 'const': return str(a[0])
    if o == 'var': return str(a[0])
    if o == 'add': return '(' + ' + '.join(map(s, a)) + ')'
    if o == 'mul': return '*'.join(map(s, a))
    if o == 'div': return '(%s / %s)' % (s(a[0]), s(a[1]))
    if o == 'eq': return '(%s == %s)' % (s(a[0]), s(a[1]))
    if o == 'lt': return '(%s < %s)' % (s(a[0]), s(a[1]))
    if o == 'not': return 'not(%s)' % s(a[0])
    if o == 'and': return '(' + ' and '.join(map(s, a)) + ')'
    if o == 'ite': return '(%s ? %s : %s)' % tuple(map(s, a))
    if o == 'app': return '%s(%s)' % (a[0], ', '.join(map(s, a[1:])))
    return '%s(%s)' % (o, ', '.join(s(x) if isinstance(x, T) else str(x) for x in a))
