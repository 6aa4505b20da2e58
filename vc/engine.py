"""Symbolic mode of the contract language: executes the real code on symbolic inputs and discharges every obligation."""
import time, sys, traceback
from fractions import Fraction
from . import terms as T
from . import ctx as C
from . import sym as S
from . import npshim, shims, loader
from . import solver as SO
from .sym import SNum, SBool, SArr, V, SymList, asarr, lift, mknum
from .ctx import Unsupported, Budget, Infeasible

class StopPath(BaseException):
    pass

class Raised(object):
    def __init__(self, exc): self.exc = exc
    def __repr__(self): return 'Raised(%s: %s)' % (type(self.exc).__name__, self.exc)

def bt(x):
    """boolean -> term"""
    if isinstance(x, SBool): return x.t
    if x is True or x is False: return T.TRUE if x else T.FALSE
    if isinstance(x, SNum): return S.cast(x.V, 'b').v
    if isinstance(x, SArr):
        if x.ndim == 0: return S.cast(x.at(), 'b').v
        raise TypeError('array used as a condition in a contract')
    if isinstance(x, T.T): return x
    if x is None: return T.FALSE
    return T.TRUE if x else T.FALSE

class Obl(object):
    __slots__ = ('name', 'status', 'how', 'paths', 'model', 'reason', 'goal', 'kind')
    def __init__(self, name):
        self.name, self.status, self.how, self.paths, self.model, self.reason, self.goal, self.kind = name, 'proved', set(), 0, None, '', '', 'post'

class API(object):
    symbolic = True
    u = 1
    def __init__(self, eng, ctx):
        self.eng, self.ctx = eng, ctx
        self.np = npshim.np
        self.inputs = []
        self.pi = shims.math.pi
        self.chumpy = shims.chumpy
        self.k = 0
    # ---------------------------------------------------------------- inputs
    def _in(self, name, kind, obj, meta=None):
        self.inputs.append((name, kind, obj, meta))
        return obj
    def real(self, name, lo=None, hi=None, pos=False, np=False, **kw):
        v = T.var(name)
        if lo is not None: self.ctx.add_fact(T.ge(v, T.const(S.frac(lo) if isinstance(lo, float) else lo)))
        if hi is not None: self.ctx.add_fact(T.le(v, T.const(S.frac(hi) if isinstance(hi, float) else hi)))
        if pos: self.ctx.add_fact(T.gt(v, T.ZERO))
        return self._in(name, 'real', SNum(V(v), 'f', np), v)
    def int(self, name, lo=0, hi=None, **kw):
        if name in self.eng.fixed: 
            k = self.eng.fixed[name]
            if isinstance(k, (list, tuple)): k = k[self.ctx.choose(len(k))]
            if k < lo or (hi is not None and k > hi): raise StopPath()
            return self._in(name, 'int', k, T.cI(k))
        v = T.var(name, 'I')
        self.ctx.add_fact(T.ge(v, T.cI(lo)))
        if hi is not None: self.ctx.add_fact(T.le(v, T.cI(hi)) if isinstance(hi, int) else T.le(v, lift(hi)[0].v))
        return self._in(name, 'int', mknum(V(v), 'i'), v)
    def arr(self, name, shape, kind='f', lo=None, hi=None, **kw):
        if not isinstance(shape, (tuple, list)): shape = (shape,)
        shape = tuple(S.dim(d) for d in shape)
        sort = {'f': 'R', 'i': 'I', 'b': 'B'}[kind]
        if S.shape_const(shape):
            vals = []
            for i in S.indices(shape):
                v = T.var('%s[%s]' % (name, ','.join(map(str, i))), sort)
                vals.append(V(v))
                if lo is not None: self.ctx.add_fact(T.ge(v, T.const(lo, sort)))
                if hi is not None: self.ctx.add_fact(T.lt(v, lift(hi)[0].v))
            a = SArr.from_list(shape, kind, vals)
        else:
            consts = [k for k, d in enumerate(shape) if isinstance(d, int)]
            syms = [k for k, d in enumerate(shape) if not isinstance(d, int)]
            sub = tuple(shape[k] for k in consts)
            def elem(idx):
                cs = [idx[k] for k in consts]
                sy = tuple(idx[k] for k in syms)
                if all(T.is_const(x) for x in cs):
                    return V(T.app('%s.%s' % (name, '.'.join(str(int(T.cval(x))) for x in cs)), sy, sort))
                d = {S.cidx(j): V(T.app('%s.%s' % (name, '.'.join(map(str, j))), sy, sort)) for j in S.indices(sub)}
                return S.select_const(d, sub, tuple(cs))
            a = SArr.make(shape, kind, elem)
            if lo is not None or hi is not None:
                def bounds(ks, vs):
                    if ks:
                        x = T.fresh('b', 'I')
                        return T.forall(S.dterm(shape[ks[0]]), bounds(ks[1:], vs + [x]), x)
                    out = []
                    for j in S.indices(sub):
                        t = T.app('%s.%s' % (name, '.'.join(map(str, j))), tuple(vs), sort)
                        if lo is not None: out.append(T.ge(t, T.const(lo, sort)))
                        if hi is not None: out.append(T.lt(t, lift(hi)[0].v))
                    return T.and_(*out)
                self.ctx.add_fact(bounds(syms, []))
        a.buf.name = name
        return self._in(name, 'arr', a, (shape, kind))
    farr = arr
    def vec(self, name, n=3, **kw): return self.arr(name, (n,), **kw)
    def pts(self, name, n, d=3, **kw): return self.arr(name, (n, d), **kw)
    def iarr(self, name, shape, lo=0, hi=None, **kw): return self.arr(name, shape, kind='i', lo=lo, hi=hi)
    def bools(self, name, shape): return self.arr(name, shape, kind='b')
    def choice(self, name, options, **kw):
        options = list(options)
        i = self.ctx.choose(len(options))
        self._in(name, 'choice', i, None)
        return options[i]
    def boolean(self, name): return self.choice(name, [False, True])
    def reals(self, name, n, **kw):
        """a Python list of numbers"""
        a = self.arr(name, (n,), **kw)
        d = a._shape[0]
        if isinstance(d, int): return [mknum(a.at(T.cI(i)), 'f') for i in range(d)]
        return SymList(d, lambda i: mknum(a.at(i), 'f'))
    def unit(self, name, n=3):
        """an arbitrary vector of length one"""
        v = self.vec(name, n, unit=True)
        self.assume(self.eq(self.dot(v, v), 1))
        q = lift(self.dot(v, v))[0].v
        us = self.ctx.__dict__.setdefault('unit_squares', set())
        us.add(q); us.add(T.canon(q))          # square roots of this sum are one (by the fact just assumed)
        return v
    def angle(self, name, lo, hi):
        """an angle in [lo, hi] (multiples of pi) with 0 <= lo <= hi <= 1"""
        t = self.real(name)
        lo, hi = Fraction(lo), Fraction(hi)
        v, pi = lift(t)[0].v, shims.PI
        self.ctx.add_fact(T.ge(v, T.mul(T.const(lo), pi))); self.ctx.add_fact(T.le(v, T.mul(T.const(hi), pi)))
        self.ctx.add_fact(T.gt(pi, T.const(Fraction(314159, 100000)))); self.ctx.add_fact(T.lt(pi, T.const(Fraction(314160, 100000))))
        s, co = T.app('sin', (v,)), T.app('cos', (v,))
        self.ctx.add_fact(T.ge(s, T.ZERO)); self.ctx.add_fact(T.le(s, T.ONE)); self.ctx.add_fact(T.le(s, v))
        self.ctx.add_fact(T.ge(co, T.const(-1))); self.ctx.add_fact(T.le(co, T.ONE))
        self.ctx.add_fact(T.eq(T.add(T.mul(s, s), T.mul(co, co)), T.ONE))
        self.ctx.assume_label('sin and cos: sin^2 + cos^2 = 1, 0 <= sin(t) <= t on [0, pi], arccos inverts cos on [0, pi]')
        self.known(t); self.known(SNum(V(co), 'f')); self.known_root(t); self.known_root(SNum(V(s), 'f'))
        return t
    def tolerance(self, k): pass
    def half_turn_facts(self):
        pi = shims.PI
        self.ctx.add_fact(T.gt(pi, T.const(Fraction(314159, 100000)))); self.ctx.add_fact(T.lt(pi, T.const(Fraction(314160, 100000))))
        for x in (T.ONE, pi): self.known_root(SNum(V(x), 'f'))
        self.known(SNum(V(T.const(-1)), 'f'))
        self.ctx.assume_label('cos(pi) = -1, sin(pi) = 0, arccos(-1) = pi')
    def known(self, x):
        """terms identically equal to x are replaced by x where that matters (sound: equality is checked by normal form)"""
        self.ctx.__dict__.setdefault('known_values', []).append(S.cast(lift(self._n(x))[0], 'f').v)
    def known_root(self, x):
        """x is nonnegative (checked): square roots of terms identically equal to x^2 are x"""
        v = S.cast(lift(self._n(x))[0], 'f').v
        if T.nonneg(v) or self.ctx.known(T.ge(v, T.ZERO)) is True: self.ctx.__dict__.setdefault('known_roots', []).append(v)
    # ---------------------------------------------------------------- assumptions
    def assume(self, cond):
        t = bt(cond)
        if t is T.FALSE: raise StopPath()
        if t.op == 'forall': self.ctx.__dict__.setdefault('universal', set()).add(t)
        self.ctx.add_fact(t)
    require = assume
    def well(self, cond): pass
    def exact_if(self, cond): pass
    def note(self, label): self.ctx.assume_label(label)
    # ---------------------------------------------------------------- calls
    def mod(self, name): return loader.load(name)
    def fn(self, name):
        """dotted path of a function, class or method of the library"""
        parts = name.split('.')
        for k in range(len(parts), 0, -1):
            try: m = loader.load('.'.join(parts[:k]))
            except ModuleNotFoundError: continue
            for p in parts[k:]: m = getattr(m, p)
            return m
        raise ModuleNotFoundError(name)
    def call(self, f, *a, **k):
        mut = k.pop('mutates', ())
        if isinstance(f, str): f = self.fn(f)
        snap = self.eng.snapshot(a, k, getattr(f, '__self__', None), mut) if self.eng.frame else None
        try:
            r = f(*a, **k)
        except Exception as e:
            if type(e).__module__.startswith('vc.') and not isinstance(e, (npshim.LinAlgError, S.IndexError_axis)): raise
            r = Raised(e)
        if snap is not None: self.eng.check_frame(snap, getattr(f, '__qualname__', getattr(f, '__name__', str(f))))
        return r
    def callee(self, path, stub, label):
        """calls of the function at path are checked against its contract (proved elsewhere), not its body, for the rest of this path"""
        owner, name = path.rsplit('.', 1)
        o = self.fn(owner)
        if name not in o.__dict__: return
        self.eng.patched.append((o, name, o.__dict__[name]))
        setattr(o, name, stub)
        self.ctx.assume_label(label)
    def get(self, obj, attr):
        """attribute read (properties run code)"""
        return self.call(getattr_of(attr), obj)
    def value(self, name, f, *a, **k):
        r = self.call(f, *a, **k)
        if isinstance(r, Raised):
            self.prove('%s: returns normally' % name, False, kind='normal', note=repr(r))
            raise StopPath()
        self.prove('%s: returns normally' % name, True, kind='normal')
        return r
    def raises(self, name, f, *a, **k):
        exc = k.pop('exc', Exception)
        r = self.call(f, *a, **k)
        ok = isinstance(r, Raised) and isinstance(r.exc, exc)
        self.prove('%s: is refused with an error' % name, ok, kind='raises', note=repr(r))
        return ok
    def raised(self, r): return isinstance(r, Raised)
    def stop(self): raise StopPath()
    # ---------------------------------------------------------------- obligations
    def prove(self, name, cond, kind='post', note='', **kw):
        if self.eng.frame_only and kind != 'frame': return
        self.eng.prove(name, cond, kind=kind, note=note)
    def lemma(self, name, cond):
        """an intermediate assertion: proved, then available"""
        t = bt(cond)
        if self.eng.frame_only: self.ctx.add_fact(t); return
        ok = self.eng.prove('lemma: ' + name, SBool(t), kind='lemma')
        if ok: self.ctx.add_fact(t)
    def theorem(self, name, f, *xs):
        """f(*xs) -> (premise, conclusion): proved for arbitrary reals, then instantiated at xs (premise proved, conclusion available)"""
        fresh = [T.fresh('sk#th', 'R') for _ in xs]
        pre, con = f(*[SNum(V(v), 'f') for v in fresh])
        if not self.eng.frame_only:
            saved, self.ctx.facts, pc, self.ctx.pc = self.ctx.facts, [], self.ctx.pc, []
            try: ok = self.eng.prove('lemma: %s (for all reals)' % name, SBool(T.implies(bt(pre), bt(con))), kind='lemma')
            finally: self.ctx.facts, self.ctx.pc = saved, pc
            if not ok: return
        pre, con = f(*[SNum(V(T.canon(S.cast(lift(self._n(x))[0], 'f').v)), 'f') for x in xs])
        if not self.eng.frame_only and not self.eng.prove('lemma: %s (premise)' % name, pre, kind='lemma'): return
        self.ctx.add_fact(bt(con))
    def eigen(self):
        """the eigenvalues, eigenvectors and handedness the last call of numpy.linalg.eigh introduced, as ghost values; None without such a call"""
        e = self.ctx.__dict__.get('eigs')
        if not e: return None
        num = lambda t: SNum(V(t), 'f')
        w, cols, hand = e[-1]
        return [num(x) for x in w], [[num(x) for x in v] for v in cols], num(hand)
    def facts(self): return len(self.ctx.facts)
    def only(self, n, *kept):
        """forget the facts added since there were n of them, except those given (conditions among them, or names of let): weakens what is assumed"""
        lets = self.ctx.__dict__.get('lets', {})
        keep = set()
        for x in kept:
            if isinstance(x, SNum): keep.add(lets[lift(x)[0].v])
            else: keep.add(bt(x))
        self.ctx.facts = self.ctx.facts[:n] + [f for f in self.ctx.facts[n:] if f in keep]
    def let(self, x):
        """a fresh name for the value of x (a definition: conservative)"""
        t = T.canon(S.cast(lift(self._n(x))[0], 'f').v)
        v = T.fresh('let', 'R')
        f = T.eq(v, t)
        self.ctx.__dict__.setdefault('lets', {})[v] = f
        self.ctx.add_fact(f)
        return SNum(V(v), 'f')
    def svd(self):
        """the factors u, s, vh the last call of numpy.linalg.svd introduced and the matrix, as ghost values; None without such a call"""
        e = self.ctx.__dict__.get('svds')
        if not e: return None
        u, s, w, m = e[-1]
        rows = lambda x: [[x[i, j] for j in range(3)] for i in range(3)]
        return rows(u), [s[i] for i in range(3)], rows(w), rows(m)
    def ghost(self, name, h):
        """ghost function: h(i), a real term over the data at index i, may be treated as an uninterpreted function of i"""
        x = T.fresh('gh', 'I')
        self.ctx.binder += 1
        t = T.canon(S.cast(lift(self._n(h(mknum(V(x), 'i'))))[0], 'f').v)
        self.ctx.binder -= 1
        fns = sorted({s.args[0] for s in T.subterms(t) if s.op == 'app' and len(s.args) == 2 and s.args[1] is x})
        if fns: self.ctx.__dict__.setdefault('heights', []).append(('ghost!' + name, x, t, fns))
    def cauchy_schwarz(self, a, b):
        """|a.b| <= |a||b|, a theorem of real arithmetic, made available to the solver"""
        d, q = T.canon(lift(self.dot(a, b))[0].v), T.canon(lift(self.norm(a) * self.norm(b))[0].v)
        self.ctx.assume_label('Cauchy-Schwarz inequality (theorem of real arithmetic)')
        self.ctx.add_fact(T.le(d, q)); self.ctx.add_fact(T.le(T.neg(q), d))
    def cauchy_schwarz_sums(self, n, f, g):
        """(sum f g)^2 <= (sum f^2)(sum g^2) and 0 <= sum f^2 over 0 <= k < n, theorems of real arithmetic, made available to the solver"""
        q = lambda x: T.canon(S.cast(lift(self._n(x))[0], 'f').v)
        fg, ff, gg = [q(self.sum(n, h)) for h in (lambda k: f(k) * g(k), lambda k: f(k) * f(k), lambda k: g(k) * g(k))]
        self.ctx.assume_label('Cauchy-Schwarz inequality (theorem of real arithmetic)')
        self.ctx.add_fact(T.le(T.mul(fg, fg), T.mul(ff, gg)))
        for x in (ff, gg): self.ctx.add_fact(T.ge(x, T.ZERO))
    def congruent_sums(self, name, n, f, g, use=None):
        """lemma: sum f = sum g over 0 <= k < n, proved term by term for an arbitrary k"""
        k = T.fresh('sk#sum', 'I')
        kn = mknum(V(k), 'i')
        if not self.eng.frame_only:
            saved = list(self.ctx.facts)
            try:
                self.ctx.facts += [T.ge(k, T.cI(0)), T.lt(k, lift(self._n(n))[0].v)]
                if use: use(kn)
                ok = self.eng.prove('lemma: %s (every term)' % name, self.eq(f(kn), g(kn)), kind='lemma')
            finally: self.ctx.facts = saved
            if not ok: return
        self.ctx.add_fact(bt(self.eq(self.sum(n, f), self.sum(n, g))))
    def squares_vanish(self, n, fs, k):
        """sum over i and j of f_i(j)^2 <= 0 implies f_i(k) = 0, 0 <= k < n: a theorem of real arithmetic (induction on n), made available to the solver"""
        q = lambda x: T.canon(S.cast(lift(self._n(x))[0], 'f').v)
        total = q(self.sum(n, lambda j: sum(x * x for x in fs(j))))
        self.ctx.assume_label('a sum of squares that is not positive has no nonzero summand (theorem of real arithmetic)')
        kt = lift(self._n(k))[0].v
        for x in fs(k): self.ctx.add_fact(T.implies(T.and_(T.le(total, T.ZERO), T.ge(kt, T.cI(0)), T.lt(kt, lift(self._n(n))[0].v)), T.eq(q(x), T.ZERO)))
    def unsupported(self, why): raise C.Unsupported(why)
    def folded(self, back=1):
        """the partial results of the last fold over a list of symbolic length: k -> F(k), k >= 1 (a hint; None when there is none)"""
        l = getattr(self.ctx, 'folds', None)
        if not l or len(l) < back: return None
        F = l[-back][1]
        return lambda k: F(S.dterm(k) if isinstance(k, int) else lift(k)[0].v)
    def hint(self, cond, hyps=()):
        """tries to prove an intermediate assertion (only then it is available); no obligation"""
        t = bt(cond)
        if self.eng.frame_only: return False
        if time.time() > self.eng.deadline: raise Budget('time budget of the contract')
        so = self.eng.solver
        wall, so.wall = so.wall, 2
        try: ok = so.prove(C.get().hyps() + list(hyps), t, want_model=False).status == 'proved'
        finally: so.wall = wall
        if not ok: return False
        if not hyps: self.ctx.add_fact(t)
        return True
    def instance(self, fact, i):
        """the instance at i of an assumed fact about all indices of a range (only when i is known to be in it)"""
        fa = bt(fact)
        if fa.op != 'forall' or fa not in self.ctx.__dict__.get('universal', ()): return
        n, body, v = fa.args
        it = S.dterm(i) if isinstance(i, int) else lift(i)[0].v
        if self.eng.solver.in_range(C.get().hyps(), it, n):
            for x in (lambda b: b.args if b.op == 'and' else (b,))(T.subst(body, {v: it})): self.ctx.add_fact(x)
    def hint_induction(self, n, Ps, use=None):
        """the first of the assertions P (functions of k) that induction proves holds for all 0 <= k <= n (a hint: no obligation)"""
        if isinstance(n, int) or self.eng.frame_only: return None
        nt = lift(n)[0].v
        for P in Ps:
            saved = list(self.ctx.facts)
            try:
                if use: use(0)
                ok = self.hint(P(0))
            finally: self.ctx.facts = saved
            if not ok: continue
            k = T.fresh('sk#ind', 'I')
            kn = mknum(V(k), 'i')
            saved = list(self.ctx.facts)
            try:
                self.ctx.facts += [T.ge(k, T.cI(0)), T.lt(k, nt)]
                if use: use(kn + 1)
                self.ctx.facts.append(bt(P(kn)))
                ok = self.hint(P(kn + 1))
            finally: self.ctx.facts = saved
            if not ok: continue
            with S.under(T.add(nt, T.cI(1))) as v: b = bt(P(mknum(V(v), 'i')))
            self.ctx.add_fact(T.forall(T.add(nt, T.cI(1)), b, v))
            self.ctx.add_fact(bt(P(n)))
            return P
    def induction(self, name, n, P):
        """prove P(0) and P(k) -> P(k+1) for 0 <= k < n; then P(k) holds for all 0 <= k <= n"""
        if isinstance(n, int):
            return
        nt = lift(n)[0].v
        if not self.eng.frame_only:
            self.eng.prove('lemma: %s: base case' % name, P(0), kind='lemma')
            k = T.fresh('sk#ind', 'I')
            kn = mknum(V(k), 'i')
            saved = list(self.ctx.facts)
            self.ctx.facts += [T.ge(k, T.cI(0)), T.lt(k, nt)]
            self.ctx.facts.append(bt(P(kn)))
            self.eng.prove('lemma: %s: induction step' % name, P(kn + 1), kind='lemma')
            self.ctx.facts = saved
        with S.under(T.add(nt, T.cI(1))) as v:
            b = bt(P(mknum(V(v), 'i')))
        self.ctx.add_fact(T.forall(T.add(nt, T.cI(1)), b, v))
        self.ctx.add_fact(bt(P(n)))
    # ---------------------------------------------------------------- specification language
    def eq(self, a, b, **kw):
        return SBool(self._eq(a, b))
    def _eq(self, a, b):
        if a is None or b is None: return T.TRUE if a is b else T.FALSE
        if isinstance(a, str) or isinstance(b, str): return T.TRUE if a == b else T.FALSE
        if S.isscalar(a) and S.isscalar(b): return S.v_eq(lift(a)[0], lift(b)[0])
        a, b = asarr(a), asarr(b)
        sh = self._same_shape(a, b)
        if sh is T.FALSE: return sh
        return T.and_(sh, self._all_idx(a._shape, lambda i: S.v_eq(a.buf.node.get(a.base_index(i)), b.buf.node.get(b.base_index(i)))))
    def _same_shape(self, a, b):
        if len(a._shape) != len(b._shape): return T.FALSE
        return T.and_(*[T.eq(S.dterm(x), S.dterm(y)) for x, y in zip(a._shape, b._shape)])
    def _all_idx(self, shape, f):
        def rec(k, idx):
            if k == len(shape): return f(tuple(idx))
            d = shape[k]
            if isinstance(d, int): return T.and_(*[rec(k + 1, idx + [T.cI(i)]) for i in range(d)])
            with S.under(d) as v: b = rec(k + 1, idx + [v])
            return T.forall(d, b, v)
        return rec(0, [])
    def same_shape(self, a, b): return SBool(self._same_shape(asarr(a), asarr(b)))
    def shape_is(self, a, shape):
        if not isinstance(a, SArr): return SBool(T.FALSE)
        if len(a._shape) != len(shape): return SBool(T.FALSE)
        return SBool(T.and_(*[T.eq(S.dterm(x), S.dterm(S.dim(y))) for x, y in zip(a._shape, shape)]))
    def is_array(self, a): return isinstance(a, SArr)
    def ne(self, a, b, **k): return SBool(T.not_(self._eq(a, b)))
    def lt(self, a, b, **k): return SBool(S.v_lt(lift(self._n(a))[0], lift(self._n(b))[0]))
    def le(self, a, b, **k): return SBool(S.v_le(lift(self._n(a))[0], lift(self._n(b))[0]))
    def gt(self, a, b, **k): return self.lt(b, a)
    def ge(self, a, b, **k): return self.le(b, a)
    def _n(self, x):
        if isinstance(x, SArr) and x.ndim == 0: return x.item()
        return x
    def and_(self, *xs): return SBool(T.and_(*[bt(x) for x in xs]))
    def or_(self, *xs): return SBool(T.or_(*([T.FALSE] + [bt(x) for x in xs])))
    def not_(self, x): return SBool(T.not_(bt(x)))
    def implies(self, a, b):
        ta = bt(a)
        if ta is T.FALSE: return SBool(T.TRUE)
        return SBool(T.implies(ta, bt(b() if callable(b) else b)))
    def iff(self, a, b): return SBool(T.iff(bt(a), bt(b)))
    def ite(self, c, a, b):
        t = bt(c)
        if isinstance(a, SArr) or isinstance(b, SArr): return npshim.np.where(SBool(t), a, b)
        (x, k1), (y, k2) = lift(a), lift(b)
        k = S.join_kind(k1, k2)
        return mknum(S.v_ite(t, S.cast(x, k) if k != 'b' else x, S.cast(y, k) if k != 'b' else y), k)
    def forall(self, n, f):
        if isinstance(n, int): return SBool(T.and_(*[bt(f(i)) for i in range(n)]))
        nt = lift(n)[0].v
        with S.under(nt) as v: b = bt(f(mknum(V(v), 'i')))
        return SBool(T.forall(nt, b, v))
    def each(self, name, n):
        """an arbitrary index below n (all of them in concrete mode); no proof path when there is none"""
        if isinstance(n, int):
            if n == 0: return []
            return [self.ctx.choose(n)]
        k = T.var('each!' + name, 'I')
        nt = lift(n)[0].v
        if self.ctx.choose(2) == 0: return []
        self.ctx.add_fact(T.ge(k, T.cI(0))); self.ctx.add_fact(T.lt(k, nt))
        return [mknum(V(k), 'i')]
    def table(self, n, d, f, kind='f'):
        """ghost array: entry (i, j) is f(i, j) for i < n, j < d (d a constant), or f(i) when d is None"""
        n = S.dim(n)
        num = lambda i: int(T.cval(i)) if T.is_const(i) else mknum(V(i), 'i')
        val = lambda x: S.cast(lift(self._n(x))[0], kind)
        if d is None: return SArr.make((n,), kind, lambda ix: val(f(num(ix[0]))))
        return SArr.make((n, d), kind, lambda ix: val(f(num(ix[0]), int(T.cval(ix[1])))) if T.is_const(ix[1]) else S.select_const({S.cidx((j,)): val(f(num(ix[0]), j)) for j in range(d)}, (d,), (ix[1],)))
    def list(self, n, f):
        """a Python list of n elements, element i being f(i)"""
        if isinstance(n, int): return [f(i) for i in range(n)]
        memo = {}
        def elem(i):
            r = memo.get(i)
            if r is None: r = memo[i] = f(int(T.cval(i)) if T.is_const(i) else mknum(V(i), 'i'))
            return r
        return S.SymList(lift(n)[0].v, elem)
    def recursion(self, name, n, first, step):
        """ghost sequence of vectors: x(0) = first, x(k + 1) = step(k, x(k)) for k < n; returned as an array of n + 1 rows"""
        d = len(first)
        if isinstance(n, int):
            rows = [list(first)]
            for k in range(n): rows.append(list(step(k, rows[-1])))
            return self.np.array(rows)
        nt = lift(n)[0].v
        at = lambda k: [mknum(V(T.app('rec!%s.%d' % (name, j), (k,))), 'f') for j in range(d)]
        same = lambda a, b: T.and_(*[T.eq(lift(x)[0].v, S.cast(lift(self._n(y))[0], 'f').v) for x, y in zip(a, b)])
        self.ctx.add_fact(same(at(T.cI(0)), first))
        with S.under(nt) as v: b = same(at(T.add(v, T.cI(1))), step(mknum(V(v), 'i'), at(v)))
        self.ctx.add_fact(T.forall(nt, b, v))
        return self.table(n + 1, d, lambda i, j: at(lift(i)[0].v)[j])
    def exists(self, n, f):
        return self.not_(self.forall(n, lambda i: self.not_(f(i))))
    def sum(self, n, f):
        if not isinstance(n, int): n = lift(n)[0].v
        return mknum(S.vsum(n, lambda i: S.cast(lift(f(mknum(V(i), 'i') if not T.is_const(i) else int(T.cval(i))))[0], 'f')), 'f')
    def q(self, a, b=1): return SNum(V(T.const(Fraction(a) / Fraction(b))), 'f')
    def sqrt(self, x): return shims.math.sqrt(x)
    def cos(self, x): return shims.math.cos(x)
    def sin(self, x): return shims.math.sin(x)
    def acos(self, x): return mknum(V(T.app('acos', (S.cast(lift(x)[0], 'f').v,))), 'f')
    def abs(self, x): return abs(x)
    def max(self, *a): return shims.vc_max(*a)
    def min(self, *a): return shims.vc_min(*a)
    def floor(self, x): return shims.math.floor(x)
    def dot(self, a, b):
        n = shims.vc_len(a)
        return self.sum(n, lambda k: a[k] * b[k])
    def norm2(self, a): return self.dot(a, a)
    def norm(self, a): return self.sqrt(self.dot(a, a))
    def cross(self, a, b):
        return self.np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
    def det3(self, m):
        return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
    def mul(self, A, B): return self.np.dot(A, B)
    def is_nan(self, x): return SBool(lift(x)[0].nan)
    def is_finite(self, x):
        v = lift(x)[0]; return SBool(T.and_(T.not_(v.nan), T.not_(v.inf)))
    def is_int(self, x): return SBool(T.eq(T.toR(T.floor(S.cast(lift(x)[0], 'f').v)), S.cast(lift(x)[0], 'f').v))
    def len(self, x): return shims.vc_len(x)
    def shares(self, a, b): return isinstance(a, SArr) and isinstance(b, SArr) and a.buf is b.buf
    def readonly(self, a): return not a._w
    def decided(self, cond):
        """case split of the contract (forks the proof)"""
        return self.ctx.decide(bt(cond))
    def is_true(self, x): return bt(x) is T.TRUE
    # selections
    def is_selection(self, idx, n, pred):
        """idx lists exactly the positions i in [0, n) with pred(i), in increasing order"""
        idx = asarr(idx)
        if idx.kind != 'i' or idx.ndim != 1: return SBool(T.FALSE)
        K = idx._shape[0]
        g = lambda i: idx.at(i).v
        if isinstance(K, int) and isinstance(n, int):
            ts = [g(k) for k in range(K)]
            out = [T.and_(T.ge(t, T.cI(0)), T.lt(t, T.cI(n))) for t in ts]
            out += [T.lt(a, b) for a, b in zip(ts, ts[1:])]
            for i in range(n):
                out.append(T.iff(bt(pred(i)), T.or_(T.FALSE, *[T.eq(t, T.cI(i)) for t in ts])))
            return SBool(T.and_(*out))
        nt = S.dterm(n) if isinstance(n, int) else lift(n)[0].v
        Kt = S.dterm(K)
        i, j = T.fresh('b', 'I'), T.fresh('b', 'I')
        self.ctx.binder += 1
        sel = getattr(idx, 'selection', None)
        with S.under(Kt) as v: inr = T.and_(T.ge(g(v), T.cI(0)), T.lt(g(v), nt))
        a = T.forall(Kt, inr, v)
        with S.under(Kt) as v:
            self.ctx.local.append(inr)
            pv = bt(pred(mknum(V(g(v)), 'i')))
            self.ctx.local.pop()
        b = T.forall(Kt, pv, v)
        with S.under(Kt) as v:
            with S.under(v) as w: o = T.lt(g(w), g(v))
            inc = T.forall(v, o, w)
        cinc = T.forall(Kt, inc, v)
        with S.under(nt) as v:
            p = bt(pred(mknum(V(v), 'i')))
            if sel is not None:
                w = T.app(sel.inv, (v,), 'I')
                ex = T.and_(T.ge(w, T.cI(0)), T.lt(w, Kt), T.eq(g(w), v))
            else:
                with S.under(Kt) as w: e = T.ne(g(w), v)
                ex = T.not_(T.forall(Kt, e, w))
            comp = T.implies(p, ex)
        self.ctx.binder -= 1
        return SBool(T.and_(a, b, cinc, T.forall(nt, comp, v)))

    def selects_rows(self, r, f, n, pred):
        """r is made of exactly the rows i of f with pred(i), in order"""
        r, f = asarr(r), asarr(f)
        rows = getattr(r, 'rows', None)
        if rows is None:
            if not isinstance(n, int): self.unsupported('rows taken in a way not followed')
            sel = [i for i in range(n) if self.ctx.decide(bt(pred(i)))]
            return self.and_(self.shape_is(r, (len(sel),) + tuple(f._shape[1:])), *[self.eq(r[k][j], f[i][j]) for k, i in enumerate(sel) for j in range(f._shape[1])]) if isinstance(r._shape[0], int) and r._shape[0] == len(sel) else SBool(T.FALSE)
        K = mknum(V(S.dterm(rows._shape[0])), 'i')
        same = self.forall(K, lambda k: self.and_(*[self.eq(r[k][j], f[rows[k]][j]) for j in range(f._shape[1])]))
        return self.and_(self.shape_is(r, (K,) + tuple(f._shape[1:])), same, self.is_selection(rows, n, pred))

def getattr_of(attr):
    f = lambda o: getattr(o, attr)
    f.__name__ = f.__qualname__ = attr
    return f

class Engine(object):
    def __init__(self, contract, fixed=None, frame=False, frame_only=False, budget=None, solver=None):
        self.K = contract
        self.fixed = dict(fixed or {})
        self.frame, self.frame_only = frame, frame_only
        self.solver = solver or SO.Solver()
        self.obls = {}
        self.paths = 0
        self.models = []
        self.refuted = []
        self.unsupported = None
        self.assumed = []
        self.deadline = time.time() + (budget or contract.budget)
        self.solver_time = 0

    def obl(self, name, kind):
        o = self.obls.get(name)
        if o is None:
            o = self.obls[name] = Obl(name); o.kind = kind
        return o

    def prove(self, name, cond, kind='post', note='', loop=False):
        if loop: kind = 'loop'
        if self.frame_only and kind not in ('frame', 'loop'): return True
        if time.time() > self.deadline: raise Budget('time budget of the contract')
        t = bt(cond)
        o = self.obl(name, kind)
        o.paths += 1
        if o.status == 'refuted' and o.reason == 'complete' and len([r for r in self.refuted if r['obligation'] == name]) >= 3: return False
        r = self.solver.prove(C.get().hyps(), t)
        if r.status == 'proved':
            o.how.add(r.how)
            return True
        if r.status == 'refuted':
            o.status = 'refuted'
            o.reason = r.reason
            self.refuted.append({'obligation': name, 'kind': kind, 'reason': r.reason, 'note': note, 'inputs': self.concretise(r.model), 'goal': T.show(t)[:2000]})
        elif o.status != 'refuted':
            o.status = 'unknown'; o.reason = r.reason or 'solver gave up'
            o.goal = T.show(t)[:500]
        return False

    # ---------------------------------------------------------------- models -> inputs
    def concretise(self, model):
        if not model: return None
        out = {}
        apps = {}
        ints = {}
        for k, v in model.items():
            if k.op == 'app' and isinstance(v, tuple): apps.setdefault(k.args[0], {})[v[0]] = v[1]
        def num(x, kind='f'):
            if x is None: return None
            if isinstance(x, bool): return x
            if isinstance(x, int): return x
            return [x.numerator, x.denominator] if x.denominator != 1 else x.numerator
        for name, kind, obj, meta in self.api.inputs:
            if kind == 'real': out[name] = num(model.get(meta))
            elif kind == 'int':
                v = int(T.cval(meta)) if T.is_const(meta) else model.get(meta)
                ints[meta] = v
                out[name] = v
            elif kind == 'choice': out[name] = obj
            elif kind == 'arr':
                shape, akind = meta
                dims = []
                for d in shape:
                    if isinstance(d, int): dims.append(d)
                    else:
                        v = self.evali(d, ints, model)
                        dims.append(v if v is not None else 3)
                if any(d > 200 for d in dims): return None
                sort = {'f': 'R', 'i': 'I', 'b': 'B'}[akind]
                vals = {}
                if S.shape_const(shape):
                    for i in S.indices(shape):
                        v = model.get(T.var('%s[%s]' % (name, ','.join(map(str, i))), sort))
                        if v is not None: vals[i] = v
                else:
                    consts = [k for k, d in enumerate(shape) if isinstance(d, int)]
                    syms = [k for k, d in enumerate(shape) if not isinstance(d, int)]
                    for j in S.indices(tuple(shape[k] for k in consts)):
                        f = '%s.%s' % (name, '.'.join(map(str, j)))
                        for args, v in apps.get(f, {}).items():
                            i = [0] * len(shape)
                            for k, x in zip(consts, j): i[k] = x
                            for k, x in zip(syms, args): i[k] = x
                            if all(isinstance(x, int) and 0 <= x < d for x, d in zip(i, dims)): vals[tuple(i)] = v
                out[name] = {'shape': dims, 'values': [[list(i), num(v)] for i, v in vals.items()]}
        return out
    def evali(self, t, ints, model):
        if t in ints: return ints[t]
        v = model.get(t)
        if isinstance(v, int): return v
        if T.is_const(t): return int(T.cval(t))
        if t.op == 'add':
            xs = [self.evali(a, ints, model) for a in t.args]
            return None if None in xs else sum(xs)
        if t.op == 'mul':
            r = 1
            for a in t.args:
                x = self.evali(a, ints, model)
                if x is None: return None
                r *= x
            return r
        return None

    # ---------------------------------------------------------------- frames
    def snapshot(self, args, kw, recv, mut):
        seen, out = {}, []
        mutids = {id(m) for m in mut}
        def rec(x, depth=0):
            if id(x) in seen or depth > 4: return
            if id(x) in mutids: return
            seen[id(x)] = x
            if isinstance(x, SArr):
                out.append(('arr', x, x.buf.node, x._shape, x.axes, x.imap, x._w))
            elif isinstance(x, (list, tuple)):
                if isinstance(x, list): out.append(('list', x, list(x)))
                for e in x: rec(e, depth + 1)
            elif isinstance(x, dict):
                out.append(('dict', x, dict(x)))
                for e in x.values(): rec(e, depth + 1)
            elif isinstance(x, SymList):
                out.append(('sym', x, x.n, x._e))
            elif hasattr(x, '__dict__') and type(x).__module__.startswith(('blmath', 'contracts', 'vc.shims')):
                out.append(('obj', x, dict(x.__dict__)))
                for e in list(x.__dict__.values()): rec(e, depth + 1)
        for a in args: rec(a)
        for a in kw.values(): rec(a)
        if recv is not None: rec(recv)
        return out
    def check_frame(self, snap, fname):
        name = 'frame: %s leaves its arguments unchanged' % fname
        ok = T.TRUE
        for s in snap:
            if s[0] == 'arr':
                _, x, node, shape, axes, imap, w = s
                if x._shape != shape or x._w != w: ok = T.FALSE; break
                if x.buf.node is not node:
                    f = x.base_index
                    now = x.buf.node
                    ok = T.and_(ok, self.api._all_idx(shape, lambda i: (lambda p, q: T.or_(T.and_(p.nan, q.nan), S.v_eq(p, q)))(node.get(f(i)), now.get(f(i)))))
            elif s[0] == 'list':
                if len(s[1]) != len(s[2]) or any(a is not b for a, b in zip(s[1], s[2])): ok = T.FALSE
            elif s[0] == 'dict' :
                if s[1].keys() != s[2].keys() or any(s[1][k] is not s[2][k] for k in s[2]): ok = T.FALSE
            elif s[0] == 'sym':
                if s[1].n is not s[2] or s[1]._e is not s[3]: ok = T.FALSE
            elif s[0] == 'obj':
                d = s[1].__dict__
                for k in s[2]:
                    if k not in d or d[k] is not s[2][k]:
                        if k in d and S.isscalar(d[k]) and S.isscalar(s[2][k]) : ok = T.and_(ok, self.api._eq(d[k], s[2][k]))
                        elif k in d and isinstance(d[k], SArr) and isinstance(s[2][k], SArr): ok = T.and_(ok, self.api._eq(d[k], s[2][k]))
                        else: ok = T.FALSE
        self.prove(name, SBool(ok), kind='frame')

    # ---------------------------------------------------------------- driver
    def run(self, want_models=True, max_paths=3000):
        dec = []
        t0 = time.time()
        st0 = SO.STATS['time']
        while True:
            ctx = C.Ctx(dec, self.solver)
            ctx.engine = self
            ctx.loops = self.K.loops or {}
            C.set_(ctx)
            self.api = API(self, ctx)
            self.patched = []
            try:
                self.K.fn(self.api)
            except (StopPath, Infeasible, loader.PathEnd):
                pass
            except Budget as e:
                self.unsupported = 'budget: %s' % e
                break
            except Unsupported as e:
                self.unsupported = str(e) or 'unsupported'
                self.where = where(sys.exc_info()[2])
                if not self.keep_going(): break
            except RecursionError:
                self.unsupported = 'recursion limit'
                break
            except Exception as e:
                # a defect of the contract text or of the engine itself: never an alarm
                self.unsupported = 'engine: %s: %s' % (type(e).__name__, e)
                self.where = where(sys.exc_info()[2])
                self.trace = traceback.format_exc()
                break
            finally:
                for o, name, old in reversed(self.patched): setattr(o, name, old)
            self.paths += 1
            for a in ctx.assumed:
                if a not in self.assumed: self.assumed.append(a)
            if want_models and len(self.models) < 12 and time.time() < self.deadline and (len(ctx.pc) or not self.models):
                try:
                    m = self.solver.model(ctx.hyps())
                    if m:
                        i = self.concretise(m)
                        if i: self.models.append(i)
                except Unsupported: pass
            dec = ctx.next_decisions()
            if dec is None: break
            if self.paths > max_paths or time.time() > self.deadline:
                self.unsupported = 'budget: more than %d paths' % self.paths
                break
        self.time = time.time() - t0
        self.solver_time = SO.STATS['time'] - st0
        return self
    def keep_going(self): return False

    def result(self):
        obls = []
        for o in self.obls.values():
            obls.append({'name': o.name, 'status': o.status, 'how': sorted(o.how), 'paths': o.paths, 'reason': o.reason, 'kind': o.kind, 'goal': o.goal})
        return {'contract': self.K.id, 'obligations': obls, 'paths': self.paths, 'unsupported': self.unsupported, 'where': getattr(self, 'where', ''), 'trace': getattr(self, 'trace', ''),
                'assumed': self.assumed, 'models': self.models, 'refuted': self.refuted, 'time': round(self.time, 2), 'solver_time': round(self.solver_time, 2), 'fixed': {k: v for k, v in self.fixed.items()}}

def where(tb):
    fr = traceback.extract_tb(tb)
    l = [f for f in fr if '/blmath/' in f.filename or '/contracts/' in f.filename]
    return '; '.join('%s:%s %s' % (f.filename.split('/')[-1], f.lineno, f.name) for f in l[-3:])
