"""Concrete mode of the contract language: the same contract text, executed on the real library with the real numpy.

Used (a) to replay counterexamples and path models of the verifier on the real code, (b) as the bounded run-time contract check that
stands in where no proof is available, (c) as the guard against vacuous contracts.  Comparisons of floating point numbers are
three-valued: True / False only when the difference exceeds the rounding tolerance, None (undecided, never a failure) in between."""
from fractions import Fraction
import sys, os, json, random, math, types, copy, signal, time, traceback, warnings
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
import numpy as np
from vc import registry

class Skip(BaseException): pass
class Stop(BaseException): pass
class Hang(BaseException): pass
class Raised(object):
    def __init__(self, exc): self.exc = exc
    def __repr__(self): return 'Raised(%s: %s)' % (type(self.exc).__name__, self.exc)
class Failure(Exception):
    def __init__(self, name, detail): self.name, self.detail = name, detail

def tri(x):
    if x is None: return None
    if isinstance(x, np.ndarray):
        if x.ndim == 0: return bool(x)
        raise TypeError('array used as a condition in a contract')
    return bool(x)

def exactnum(x):
    return isinstance(x, (bool, int, np.bool_, np.integer)) or (isinstance(x, np.ndarray) and x.dtype.kind in 'iub')

def chumpy_stub():
    from vc import stubs
    return stubs.install(np)

class API(object):
    symbolic = False
    def __init__(self, rng, given=None, style=None, frame=False, frame_only=False, fixed=None):
        self.rng, self.given = rng, given
        self.style = style
        self.np = np
        self.pi = math.pi
        self.inputs = {}
        self.reached = {}
        self.u = 2.0 ** rng.choice([-20, -13, -13, -7]) if style == 'unit' and given is None else 1.0   # scale of the vectors and points
        self.lat = style == 'unit' and rng.random() < 0.3
        self.scale = self.tolfloor = min(1.0, self.u)
        self.exact = False
        self.tolmul = 1.0
        self.failures = []
        self.frame, self.frame_only = frame, frame_only
        self.mixed = None
        self.fixed = fixed or {}
    @property
    def chumpy(self): return chumpy_stub()[0]
    # ---------------------------------------------------------------- generation
    def num(self, lo=None, hi=None, pos=False):
        r, s = self.rng, self.style
        if s == 'scale':
            if self.mixed is None: self.mixed = 10.0 ** r.randint(-2, 2)
            x = r.uniform(-3, 3) * self.mixed
        elif s == 'lattice' or s == 'unit' and self.lat: x = float(r.randint(-3, 3))
        elif s == 'sparse': x = float(r.choice([0, 0, 0, 1, -1, 2]))
        elif s == 'half': x = r.randint(-12, 12) / 4.0
        elif s == 'wide': x = r.choice([r.uniform(-1, 1), r.uniform(-50, 50), float(r.randint(-100, 100))])
        else: x = r.uniform(-4, 4)
        if pos: x = abs(x) or 1.0
        if lo is not None and x < lo: x = lo + (lo - x) if hi is None else r.uniform(lo, hi)
        if hi is not None and x > hi: x = hi - (x - hi) if lo is None else r.uniform(lo, hi)
        return float(x)
    def _scale(self, x):
        if isinstance(x, (int, float)): m = abs(x)
        else: m = float(np.max(np.abs(x))) if x.size else 0.0
        if m == m and m != float('inf'): self.scale = max(self.scale, m)
    @staticmethod
    def dec(v):
        if isinstance(v, list): return v[0] / v[1]
        return v
    def _given(self, name):
        if self.given is None or name not in self.given: return None
        return self.given[name]
    def real(self, name, lo=None, hi=None, pos=False, np=False, **kw):
        g = self._given(name)
        x = float(self.dec(g)) if g is not None else self.num(lo, hi, pos)
        self.inputs[name] = x
        self._scale(x)
        import numpy
        return numpy.float64(x) if np else x
    def int(self, name, lo=0, hi=None, typical=None, **kw):
        g = self._given(name)
        if g is None:
            if name in self.fixed and False: pass
            top = hi if hi is not None else lo + self.rng.choice(typical or [0, 1, 1, 2, 2, 3, 4, 5, 7, 12])
            g = self.rng.randint(lo, max(lo, top)) if hi is not None else top
        if g < lo or (hi is not None and g > hi): raise Skip()
        self.inputs[name] = int(g)
        return int(g)
    def arr(self, name, shape, kind='f', lo=None, hi=None, **kw):
        if not isinstance(shape, (tuple, list)): shape = (shape,)
        shape = tuple(int(d) for d in shape)
        if any(d < 0 for d in shape): raise Skip()
        g = self._given(name)
        rnd = self.rng
        def fresh():
            if kind == 'f': return self.num(lo, hi)
            if kind == 'b': return rnd.random() < 0.5
            l = lo if lo is not None else -5
            h = hi if hi is not None else l + 10
            if h <= l: raise Skip()
            return rnd.randint(l, h - 1)
        dt = {'f': np.float64, 'i': np.int64, 'b': np.bool_}[kind]
        a = np.empty(shape, dtype=dt)
        if g is not None and isinstance(g, dict):
            if list(g['shape']) != list(shape): raise Skip()
            vals = {tuple(i): v for i, v in g['values'] if v is not None}
            default = 0 if g.get('fill') != 'random' else None
            for i in np.ndindex(*shape):
                if i in vals: a[i] = self.dec(vals[i])
                else: a[i] = default if default is not None and not (kind == 'i' and lo and lo > 0) else fresh()
        elif g is not None:
            a = np.array(g, dtype=dt).reshape(shape)
        else:
            for i in np.ndindex(*shape): a[i] = fresh()
            if kind == 'f' and lo is None and hi is None: a *= self.u
            if kind == 'f' and kw.get('dups', True) and len(shape) == 2 and shape[0] > 1 and rnd.random() < 0.15:
                a[rnd.randrange(shape[0])] = a[rnd.randrange(shape[0])]
        self.inputs[name] = a.tolist()
        self._scale(a.astype(float))
        if kind == 'f' and a.ndim and self.given is None and kw.get('layout', True) and rnd.random() < 0.15:
            big = np.full(tuple(2 * d for d in shape), 7.0)
            v = big[tuple(slice(None, None, 2) for _ in shape)]
            v[...] = a
            a = v
        if kw.get('ints') and self.given is None and kind == 'f' and self.style in ('lattice', 'sparse') and rnd.random() < 0.3:
            a = a.astype(np.int64); self.inputs[name] = a.tolist()
        return a
    farr = arr
    def vec(self, name, n=3, **kw): return self.arr(name, (n,), **kw)
    def pts(self, name, n, d=3, **kw): return self.arr(name, (n, d), **kw)
    def iarr(self, name, shape, lo=0, hi=None, **kw): return self.arr(name, shape, kind='i', lo=lo, hi=hi)
    def bools(self, name, shape): return self.arr(name, shape, kind='b')
    def choice(self, name, options, **kw):
        options = list(options)
        g = self._given(name)
        i = g if isinstance(g, int) and 0 <= g < len(options) else self.rng.randrange(len(options))
        self.inputs[name] = i
        return options[i]
    def boolean(self, name): return self.choice(name, [False, True])
    def reals(self, name, n, **kw): return self.arr(name, (n,), layout=False, **kw).tolist()
    def unit(self, name, n=3):
        g = self._given(name)
        if g is not None and isinstance(g, dict):
            v = self.arr(name, (n,), layout=False)
        elif g is not None: v = np.array(g, dtype=float)
        else:
            k = self.rng.randrange(4)
            v = np.zeros(n)
            if k == 0: v[self.rng.randrange(n)] = self.rng.choice([1.0, -1.0])
            elif k == 1 and n >= 2:
                i, j = self.rng.sample(range(n), 2); v[i], v[j] = 0.6 * self.rng.choice([1, -1]), 0.8 * self.rng.choice([1, -1])
            else: v = np.array([self.rng.gauss(0, 1) for _ in range(n)])
        l = np.sqrt((v ** 2).sum())
        if not l > 1e-9: raise Skip()
        if abs(l - 1) > 1e-15: v = v / l
        self.inputs[name] = v.tolist()
        return v
    # ---------------------------------------------------------------- assumptions
    def assume(self, cond):
        if tri(cond) is not True: raise Skip()
    def require(self, cond):
        """a precondition that may be uncertain in floating point"""
        if tri(cond) is False: raise Skip()
    def well(self, cond):
        ex, self.exact = self.exact, True           # a plain comparison: the condition only steers the sampling
        c = cond() if callable(cond) else cond
        self.exact = ex
        if tri(c) is not True: raise Skip()
    def exact_if(self, cond):
        self.exact = bool(cond() if callable(cond) else cond)
    def note(self, label): pass
    # ---------------------------------------------------------------- calls
    def mod(self, name):
        chumpy_stub()
        import importlib
        return importlib.import_module(name)
    def fn(self, name):
        chumpy_stub()
        import importlib
        parts = name.split('.')
        for k in range(len(parts), 0, -1):
            try: m = importlib.import_module('.'.join(parts[:k]))
            except ModuleNotFoundError as e:
                continue
            for p in parts[k:]: m = getattr(m, p)
            return m
        raise ModuleNotFoundError(name)
    def call(self, f, *a, **k):
        mut = k.pop('mutates', ())
        if isinstance(f, str): f = self.fn(f)
        snap = snapshot(a, k, getattr(f, '__self__', None), mut) if self.frame else None
        try:
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                r = f(*a, **k)
        except Exception as e:
            r = Raised(e)
        if snap is not None:
            bad = frame_diff(snap)
            self.prove('frame: %s leaves its arguments unchanged' % getattr(f, '__qualname__', getattr(f, '__name__', str(f))), not bad, kind='frame', note=bad)
        return r
    def callee(self, path, stub, label): pass
    def get(self, obj, attr):
        f = lambda o: getattr(o, attr)
        f.__name__ = f.__qualname__ = attr
        return self.call(f, obj)
    def value(self, name, f, *a, **k):
        r = self.call(f, *a, **k)
        self.prove('%s: returns normally' % name, not isinstance(r, Raised), note=repr(r))
        if isinstance(r, Raised): raise Stop()
        return r
    def raises(self, name, f, *a, **k):
        exc = k.pop('exc', Exception)
        r = self.call(f, *a, **k)
        ok = isinstance(r, Raised) and isinstance(r.exc, exc)
        self.prove('%s: is refused with an error' % name, ok, note='returned %s' % (repr(r)[:300],))
        return ok
    def raised(self, r): return isinstance(r, Raised)
    def stop(self): raise Stop()
    # ---------------------------------------------------------------- obligations
    def prove(self, name, cond, kind='post', note='', **kw):
        if self.frame_only and kind != 'frame': return
        t = tri(cond)
        self.reached[name] = self.reached.get(name, 0) + (1 if t is not None else 0)
        if t is False: self.failures.append((name, str(note)[:500]))
    def lemma(self, name, cond):
        self.prove('lemma: ' + name, cond)
    def theorem(self, name, f, *xs): pass
    def angle(self, name, lo, hi):
        t = self.dec(self._given(name))
        if t is None:
            lo, hi = float(Fraction(lo)), float(Fraction(hi))
            r = self.rng.random()
            t = math.pi * (lo if r < 0.05 else hi if r < 0.1 else lo + (hi - lo) * self.rng.choice([0.25, 0.5, 1 / 3.0, 2 / 3.0, 0.75]) if r < 0.3 else self.rng.uniform(lo, hi))
        self.inputs[name] = t
        return t
    def tolerance(self, k): self.tolmul = k
    def known(self, x): pass
    def known_root(self, x): pass
    def cauchy_schwarz(self, a, b): pass
    def ghost(self, name, h): pass
    def unsupported(self, why): raise Skip()
    def instance(self, fact, i): pass
    def folded(self, back=1): return None
    def hint(self, cond, hyps=()): return False
    def hint_induction(self, n, Ps, use=None): return None
    def induction(self, name, n, P):
        for k in range(int(n) + 1):
            self.prove('lemma: %s: base case' % name if k == 0 else 'lemma: %s: induction step' % name, P(k))
    # ---------------------------------------------------------------- specification language
    def tol(self, *xs, **kw):
        deg = kw.get('deg', 1)
        m = max([self.scale ** deg, self.tolfloor ** deg] + [abs(float(x)) for x in xs if x == x and abs(x) != float('inf')])
        return 2e-8 * m * self.tolmul
    def eq(self, a, b, tol=None, deg=1):
        if a is None or b is None: return a is b
        if isinstance(a, str) or isinstance(b, str): return a == b
        if isinstance(a, Raised) or isinstance(b, Raised): return False
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype.kind not in 'fiub' or b.dtype.kind not in 'fiub': return False
        if a.shape != b.shape: return False
        if a.size == 0: return True
        if a.dtype.kind in 'iub' and b.dtype.kind in 'iub': return bool(np.all(a == b))
        a, b = a.astype(float), b.astype(float)
        if np.any(np.isnan(a)) or np.any(np.isnan(b)): return False
        fin = np.isfinite(a) & np.isfinite(b)
        if not np.all(a[~fin] == b[~fin]): return False
        a, b = a[fin], b[fin]
        if a.size == 0: return True
        if np.all(a == b): return True
        if self.exact: return False
        t = tol if tol is not None else 2e-8 * self.tolmul * max(self.tolfloor ** deg, self.scale ** deg, float(np.max(np.abs(a))), float(np.max(np.abs(b))))
        return False if np.max(np.abs(a - b)) > t else None
    def same_shape(self, a, b): return np.shape(a) == np.shape(b)
    def shape_is(self, a, shape): return isinstance(a, np.ndarray) and a.shape == tuple(int(d) for d in shape)
    def is_array(self, a): return isinstance(a, np.ndarray)
    def ne(self, a, b, **k):
        r = self.eq(a, b, **k)
        return None if r is None else not r
    def lt(self, a, b, tol=None, deg=1):
        a, b = self._f(a), self._f(b)
        if a != a or b != b: return False
        if exactnum(a) and exactnum(b) or self.exact: return bool(a < b)
        if abs(a) == float('inf') or abs(b) == float('inf'): return bool(a < b)
        t = tol if tol is not None else self.tol(a, b, deg=deg)
        if abs(a - b) <= t: return None
        return bool(a < b)
    def _f(self, x):
        if isinstance(x, np.ndarray): x = x.item()
        return x
    def le(self, a, b, tol=None, deg=1):
        a, b = self._f(a), self._f(b)
        if exactnum(a) and exactnum(b) or self.exact: return bool(a <= b)
        if a != a or b != b: return False
        if abs(a) == float('inf') or abs(b) == float('inf'): return bool(a <= b)
        t = tol if tol is not None else self.tol(a, b, deg=deg)
        if abs(a - b) <= t: return None
        return bool(a <= b)
    def gt(self, a, b, tol=None, deg=1): return self.lt(b, a, tol, deg)
    def ge(self, a, b, tol=None, deg=1): return self.le(b, a, tol, deg)
    def and_(self, *xs):
        xs = [tri(x) for x in xs]
        if any(x is False for x in xs): return False
        return None if any(x is None for x in xs) else True
    def or_(self, *xs):
        xs = [tri(x) for x in xs]
        if any(x is True for x in xs): return True
        return None if any(x is None for x in xs) else False
    def not_(self, x):
        x = tri(x)
        return None if x is None else not x
    def implies(self, a, b):
        a = tri(a)
        if a is False: return True
        if callable(b):
            if a is None:
                try: b = b()
                except Exception: return None
            else: b = b()
        b = tri(b)
        if b is True: return True
        if a is True: return b
        return None
    def iff(self, a, b):
        a, b = tri(a), tri(b)
        return None if a is None or b is None else a == b
    def ite(self, c, a, b):
        c = tri(c)
        if c is None: raise Skip()
        return a if c else b
    def forall(self, n, f): return self.and_(*[f(i) for i in range(int(n))])
    def each(self, name, n): return list(range(int(n)))
    def table(self, n, d, f, kind='f'):
        dt = {'f': float, 'i': int, 'b': bool}[kind]
        if d is None: return np.array([f(i) for i in range(int(n))], dtype=dt)
        return np.array([[f(i, j) for j in range(d)] for i in range(int(n))], dtype=dt).reshape(int(n), d)
    def list(self, n, f): return [f(i) for i in range(int(n))]
    def recursion(self, name, n, first, step):
        rows = [list(first)]
        for k in range(int(n)): rows.append(list(step(k, rows[-1])))
        return np.array(rows, dtype=float)
    def exists(self, n, f): return self.or_(*[f(i) for i in range(int(n))])
    def sum(self, n, f): return math.fsum(float(f(i)) for i in range(int(n)))
    def q(self, a, b=1):
                return float(Fraction(a) / Fraction(b))
    def sqrt(self, x): return math.sqrt(max(x, 0.0)) if x > -1e-9 * self.scale ** 2 else float('nan')
    cos = staticmethod(math.cos)
    sin = staticmethod(math.sin)
    def acos(self, x): return math.acos(max(-1.0, min(1.0, x)))
    abs = staticmethod(abs)
    max = staticmethod(max)
    min = staticmethod(min)
    floor = staticmethod(lambda x: int(math.floor(x)))
    def dot(self, a, b): return math.fsum(float(x) * float(y) for x, y in zip(a, b))
    def norm2(self, a): return self.dot(a, a)
    def norm(self, a): return math.sqrt(self.dot(a, a))
    def cross(self, a, b):
        return np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
    def det3(self, m):
        return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
    def mul(self, A, B): return np.dot(A, B)
    def is_nan(self, x): return bool(np.isnan(x))
    def is_finite(self, x): return bool(np.isfinite(x))
    def is_int(self, x):
        r = abs(x - round(x))
        return True if r == 0 else (None if r <= self.tol(x) else False)
    def len(self, x): return len(x)
    def shares(self, a, b): return bool(np.shares_memory(a, b))
    def readonly(self, a): return not a.flags.writeable
    def decided(self, cond):
        t = tri(cond)
        if t is None: raise Skip()
        return t
    def is_selection(self, idx, n, pred):
        idx = np.asarray(idx)
        if idx.ndim != 1 or (idx.dtype.kind not in 'iu' and idx.size): return False
        l = [int(x) for x in idx]
        if any(not 0 <= x < n for x in l) or any(not a < b for a, b in zip(l, l[1:])): return False
        s = set(l)
        return self.and_(*[self.iff(pred(i), i in s) for i in range(int(n))])

    def selects_rows(self, r, f, n, pred):
        sel = []
        for i in range(int(n)):
            t = tri(pred(i))
            if t is None: raise Skip()
            if t: sel.append(i)
        return isinstance(r, np.ndarray) and r.shape == f[sel].shape and bool((r == f[sel]).all())

def snapshot(args, kw, recv, mut):
    seen, out = {}, []
    mutids = {id(m) for m in mut}
    def rec(x, depth=0):
        if id(x) in seen or depth > 5 or id(x) in mutids: return
        seen[id(x)] = x
        if isinstance(x, np.ndarray):
            out.append((x, 'arr', x.copy() if x.dtype.kind != 'O' else x, x.shape, x.dtype, x.flags.writeable))
        elif isinstance(x, (list, tuple)):
            if isinstance(x, list): out.append((x, 'list', list(x)))
            for e in x: rec(e, depth + 1)
        elif isinstance(x, dict):
            out.append((x, 'dict', dict(x)))
            for e in list(x.values()): rec(e, depth + 1)
        elif type(x).__module__.startswith('scipy.sparse'):
            out.append((x, 'sparse', x.toarray().copy()))
        elif hasattr(x, '__dict__') and not isinstance(x, (type, types.ModuleType, types.FunctionType)):
            out.append((x, 'obj', dict(x.__dict__)))
            for e in list(x.__dict__.values()): rec(e, depth + 1)
    for a in args: rec(a)
    for a in kw.values(): rec(a)
    if recv is not None: rec(recv)
    return out
def same(a, b):
    if a is b: return True
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and bool(np.array_equal(a, b, equal_nan=a.dtype.kind == 'f'))
    if isinstance(a, (int, float, str, bool, np.number)) and isinstance(b, (int, float, str, bool, np.number)): return a == b or (a != a and b != b)
    return type(a) is type(b) and type(a).__name__ in ('Buf',) 
def frame_diff(snap):
    for s in snap:
        x, k = s[0], s[1]
        if k == 'arr':
            if x.shape != s[3] or x.dtype != s[4] or x.flags.writeable != s[5] or (x.dtype.kind != 'O' and not np.array_equal(x, s[2], equal_nan=x.dtype.kind == 'f')):
                return 'array changed from %s to %s' % (s[2].tolist(), x.tolist())
        elif k == 'list':
            if len(x) != len(s[2]) or any(a is not b for a, b in zip(x, s[2])): return 'list changed from %r to %r' % (s[2], x)
        elif k == 'dict':
            if x.keys() != s[2].keys() or any(x[q] is not s[2][q] for q in s[2]): return 'dict changed'
        elif k == 'sparse':
            if not np.array_equal(x.toarray(), s[2]): return 'sparse matrix changed'
        elif k == 'obj':
            d = x.__dict__
            for q in s[2]:
                if q not in d: return 'attribute %s removed' % q
                if not same(d[q], s[2][q]): return 'attribute %s changed from %r to %r' % (q, s[2][q], d[q])
    return ''

# ------------------------------------------------------------------ driver
STYLES = ['lattice', 'unif', 'sparse', 'half', 'scale', 'wide', 'unit']

def run_once(K, rng, given=None, style='unif', frame=False, frame_only=False, limit=20):
    c = API(rng, given, style, frame, frame_only)
    def onalarm(*a): raise Hang()
    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        K.fn(c)
        st = 'ok'
    except Skip: st = 'skip'
    except Stop: st = 'ok'
    except Hang:
        st = 'ok'; c.failures.append(('the call terminates', 'no result within %d s' % limit))
    except RecursionError as e:
        st = 'ok'; c.failures.append(('the result has the form the contract describes', repr(e)[:300]))
    except Exception as e:
        st = 'ok'
        if not frame_only:
            c.failures.append(('the result has the form the contract describes', '%s: %s @ %s' % (type(e).__name__, e, traceback.format_exc().strip().splitlines()[-3:])))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return st, c

def variants(m, rng):
    """a model of the verifier, then the model with the abstracted parts varied"""
    m = {k: v for k, v in m.items() if v is not None}
    part = any(isinstance(v, dict) for v in m.values())
    yield {k: (dict(v, fill='zero') if isinstance(v, dict) else v) for k, v in m.items()}
    if part:
        yield {k: (dict(v, fill='random') if isinstance(v, dict) else v) for k, v in m.items()}
    sc = {k: v for k, v in m.items() if isinstance(v, int)}
    if len(sc) < len(m):
        for _ in range(3): yield dict(sc)          # sizes, choices and counts of the model, other data generated
    for k in sc:                                    # each alone
        yield {k: sc[k]}
        if len(sc) > 2: yield {q: v for q, v in sc.items() if q != k}

def campaign(K, seed, n, models, frame=False, frame_only=False, budget=30.0):
    """-> dict: failures (each with inputs), reached obligation counts"""
    t0 = time.time()
    out = {'contract': K.id, 'failures': [], 'reached': {}, 'runs': 0, 'skipped': 0, 'model_runs': 0}
    def absorb(st, c, origin):
        if st == 'skip':
            # failures found before an undecidable point of the contract still count
            if not c.failures:
                out['skipped'] += 1
                for k, v in c.reached.items(): out['reached'][k] = out['reached'].get(k, 0) + v
                return
        out['runs'] += 1
        for k, v in c.reached.items(): out['reached'][k] = out['reached'].get(k, 0) + v
        for name, detail in c.failures:
            if len([f for f in out['failures'] if f['obligation'] == name]) < 2 and len(out['failures']) < 20:
                out['failures'].append({'obligation': name, 'detail': detail, 'inputs': c.inputs, 'origin': origin, 'seed': seed, 'frame': frame, 'frame_only': frame_only})
    for mi, m in enumerate(models):
        if time.time() - t0 > budget: break
        for vi, g in enumerate(variants(m, random.Random('%s|%s|%d' % (seed, K.id, mi)))):
            st, c = run_once(K, random.Random('%s|%s|%d|%d' % (seed, K.id, mi, vi)), g, 'half' if vi < 2 else STYLES[vi % len(STYLES)], frame, frame_only)
            if st != 'skip': out['model_runs'] += 1
            absorb(st, c, 'model')
    done = tries = 0
    while done < n and tries < n * 12 and time.time() - t0 < budget:
        rng = random.Random('%s|%s|%d' % (seed, K.id, tries))
        st, c = run_once(K, rng, None, STYLES[tries % len(STYLES)], frame, frame_only)
        tries += 1
        if st != 'skip': done += 1
        absorb(st, c, 'sample %d' % (tries - 1))
        if len(out['failures']) >= 20: break
    out['tries'] = tries
    out['time'] = round(time.time() - t0, 2)
    return out

def main():
    """stdin: json list of jobs; stdout: json list of results"""
    jobs = json.load(sys.stdin)
    real = os.dup(1); os.dup2(2, 1)
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    Ks = {}
    for K in registry.load_all(): Ks[K.id] = K
    res = []
    for j in jobs:
        K = Ks[j['contract']]
        try:
            res.append(campaign(K, j.get('seed', 1), j.get('samples', K.samples), j.get('models', []), j.get('frame', False), j.get('frame_only', False), j.get('budget', 30)))
        except BaseException as e:
            res.append({'contract': K.id, 'error': '%s: %s' % (type(e).__name__, traceback.format_exc()[-1500:]), 'failures': [], 'reached': {}, 'runs': 0, 'skipped': 0, 'model_runs': 0})
    os.write(real, json.dumps(res).encode())

if __name__ == '__main__': main()
