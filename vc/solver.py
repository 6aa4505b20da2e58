"""Discharging of obligations: polynomial normal form, equational reduction, then z3 (default and nlsat)."""
from fractions import Fraction
import time, sys
import z3
from . import terms as T
from . import lin
from . import ctx as C

STATS = {'time': 0.0, 'queries': 0, 'nf': 0, 'z3': 0, 'nlsat': 0}

# ------------------------------------------------------------------ translation
_z = {}
_fn = {}

def zsort(s):
    return {'R': z3.RealSort(), 'I': z3.IntSort(), 'B': z3.BoolSort()}[s]

def qv(f):
    return z3.RealVal(str(f.numerator)) / z3.RealVal(str(f.denominator)) if f.denominator != 1 else z3.RealVal(str(f.numerator))

def tr(t):
    r = _z.get(t)
    if r is None:
        # iterative to survive deep terms
        stack = [t]
        while stack:
            x = stack[-1]
            if x in _z:
                stack.pop(); continue
            todo = [a for a in x.args if isinstance(a, T.T) and a not in _z] if x.op not in ('sum', 'forall') else []
            if todo:
                stack.extend(todo); continue
            _z[x] = _tr(x)
            stack.pop()
        r = _z[t]
    return r

def _tr(t):
    o, a = t.op, t.args
    g = lambda i: _z[a[i]]
    if o == 'const':
        if t.sort == 'B': return z3.BoolVal(bool(a[0]))
        if t.sort == 'I': return z3.IntVal(int(a[0]))
        return z3.RealVal('%d/%d' % (a[0].numerator, a[0].denominator))
    if o == 'var': return z3.Const(a[0], zsort(t.sort))
    if o == 'app':
        key = (a[0], tuple(x.sort for x in a[1:]), t.sort)
        f = _fn.get(key)
        if f is None:
            f = _fn[key] = z3.Function('%s/%s' % (a[0], ''.join(key[1])), *([zsort(x.sort) for x in a[1:]] + [zsort(t.sort)]))
        return f(*[_z[x] for x in a[1:]])
    if o == 'add': return z3.Sum([_z[x] for x in a])
    if o == 'mul':
        r = _z[a[0]]
        for x in a[1:]: r = r * _z[x]
        return r
    if o in ('div', 'sqrt'): return z3.Real('%s#%d' % (o, t.id))
    if o == 'sum': return z3.Real('sum#%d' % t.id)
    if o == 'rnd': return z3.Int('rnd#%d' % t.id)
    if o == 'floor': return z3.Int('floor#%d' % t.id)
    if o in ('idiv', 'imod'): return z3.Int('%s#%d' % (o, t.id))
    if o == 'toR': return z3.ToReal(g(0))
    if o == 'not': return z3.Not(g(0))
    if o == 'and': return z3.And([_z[x] for x in a])
    if o == 'iff': return g(0) == g(1)
    if o == 'ite': return z3.If(g(0), g(1), g(2))
    if o == 'eq': return g(0) == g(1)
    if o == 'lt': return g(0) < g(1)
    if o == 'forall': return z3.Bool('forall#%d' % t.id)
    raise AssertionError(o)

PI = T.var('pi')

def side(t):
    """defining constraints of an uninterpreted operator occurrence (terms)"""
    o, a = t.op, t.args
    if o == 'div':
        return [T.or_(T.eq(a[1], T.ZERO), T.mk('eq', (T.mul(t, a[1]), a[0]), 'B'))]
    if o == 'sqrt':
        out = [T.not_(T.mk('lt', (t, T.ZERO), 'B'))]
        e = T.mk('eq', (T.mk('mul', (t, t), 'R'), a[0]), 'B')
        out.append(e if T.nonneg(a[0]) else T.or_(T.lt(a[0], T.ZERO), e))
        return out
    if o == 'sum':
        if T.nonneg(a[1]): return [T.not_(T.mk('lt', (t, T.ZERO), 'B'))]
        return []
    if o == 'floor':
        x = T.mk('toR', (t,), 'R')
        return [T.le(x, a[0]), T.lt(a[0], T.add(x, T.ONE))]
    if o == 'rnd':
        x = T.mk('toR', (t,), 'R')
        h = T.const(Fraction(1, 2))
        d = T.sub(a[0], x)
        half = T.mk('floor', (T.mul(h, x),), 'I')
        even = T.eq(T.mul(T.const(2), T.mk('toR', (half,), 'R')), x)
        return [T.le(d, h), T.ge(d, T.neg(h)), T.implies(T.or_(T.eq(d, h), T.eq(d, T.neg(h))), even)]
    if o in ('idiv', 'imod'):
        q, r = T.mk('idiv', a, 'I'), T.mk('imod', a, 'I')
        z = T.cI(0)
        return [T.implies(T.gt(a[1], z), T.and_(T.mk('eq', (T.add(T.mk('mul', (a[1], q), 'I') if not T.is_const(a[1]) else T.mul(a[1], q), r), a[0]), 'B'), T.ge(r, z), T.lt(r, a[1])))]
    if o == 'app':
        f = a[0]
        if f in ('cos', 'sin'):
            c, s = T.app('cos', (a[1],)), T.app('sin', (a[1],))
            return [T.mk('eq', (T.add(T.mul(c, c), T.mul(s, s)), T.ONE), 'B')]
        if f == 'acos':
            x = a[1]
            c = T.app('cos', (t,))
            rng = T.and_(T.ge(x, T.const(-1)), T.le(x, T.ONE))
            return [T.implies(rng, T.and_(T.ge(t, T.ZERO), T.le(t, PI), T.eq(c, x), T.ge(T.app('sin', (t,)), T.ZERO)))]
    if t is PI:
        return [T.gt(t, T.const(Fraction(314159, 100000))), T.lt(t, T.const(Fraction(314160, 100000)))]
    return []

# ------------------------------------------------------------------ quantifiers
_hasq = {}
def hasq(t):
    r = _hasq.get(t)
    if r is None:
        r = t.sort == 'B' and (t.op == 'forall' or any(isinstance(a, T.T) and a.sort == 'B' and hasq(a) for a in t.args))
        _hasq[t] = r
    return r

_sk = {}
def skolem(t):
    """constant standing for a counterexample of the quantified formula t"""
    r = _sk.get(t)
    if r is None:
        r = _sk[t] = T.var('sk#%d' % t.id, 'I')
    return r

def inrange(x, n):
    return T.and_(T.ge(x, T.cI(0)), T.lt(x, n))

class Grounder(object):
    """positive foralls -> instances at the given terms; negative foralls -> skolem constants"""
    def __init__(self, limit=600):
        self.cands = {}       # function name, position -> set of ground index terms
        self.extra = []       # index terms tried everywhere
        self.inst = {}        # (forall, term)
        self.limit = limit
        self.count = 0
        self.seen = set()

    def collect(self, t):
        for s in T.subterms(t):
            if s in self.seen: continue
            self.seen.add(s)
            if s.op == 'app':
                for k, a in enumerate(s.args[1:]):
                    if a.sort == 'I' and not boundfree(a):
                        self.cands.setdefault((s.args[0], k), {})[a] = None
            elif s.op == 'var' and s.args[0].startswith('sk#'):
                if s not in self.extra: self.extra.append(s)

    def terms_for(self, fa):
        n, body, v = fa.args
        out = {}
        trig = False
        for s in T.subterms(body):
            if s.op == 'eq' and s.args[0].sort == 'I' and v in T.fv(s):
                # v + c == t is decided by the instance at t - c
                for x, sign in ((T.sub(s.args[0], s.args[1]), 1), (T.sub(s.args[1], s.args[0]), 1)):
                    off = T.sub(x, v)
                    if v in T.fv(off) or any(y.args[0].startswith('$') for y in T.fv(off)): continue
                    out[T.neg(off)] = None
                continue
            if s.op != 'app': continue
            for k, a in enumerate(s.args[1:]):
                if a.sort != 'I' or v not in T.fv(a): continue
                trig = True
                # a = v + c
                off = T.sub(a, v)
                if v in T.fv(off) or any(x.args[0].startswith('$') for x in T.fv(off)): continue
                for g in self.cands.get((s.args[0], k), ()):
                    out[T.sub(g, off)] = None
        if not trig or not out:
            for g in self.extra: out[g] = None
        return list(out)

    def go(self, t, pos):
        if not hasq(t): return t
        o, a = t.op, t.args
        if o == 'not': return T.not_(self.go(a[0], not pos))
        if o == 'and': return T.and_(*[self.go(x, pos) for x in a])
        if o == 'iff':
            x, y = a
            return self.go(T.and_(T.implies(x, y), T.implies(y, x)), pos) if True else None
        if o == 'ite':
            c, x, y = a
            return self.go(T.and_(T.implies(c, x), T.implies(T.not_(c), y)), pos)
        if o == 'forall':
            n, body, v = a
            if not pos:
                k = skolem(t)
                if k not in self.extra: self.extra.append(k)
                return self.go(T.implies(inrange(k, n), T.subst(body, {v: k})), pos)
            out = []
            for g in self.terms_for(t):
                if self.count > self.limit: break
                key = (t, g)
                i = self.inst.get(key)
                if i is None:
                    self.count += 1
                    i = self.inst[key] = T.implies(inrange(g, n), T.subst(body, {v: g}))
                out.append(self.go(i, pos))
            return T.and_(*out)
        return t

_integral = {}
def integral(h):
    r = _integral.get(h)
    if r is None: r = _integral[h] = not hasq(h) and all(s.sort in 'BI' and s.op != 'app' for s in T.subterms(h))
    return r

def boundfree(a):
    return any(x.args[0].startswith('$') for x in T.fv(a))

def ground(forms, rounds=3, limit=600):
    g = Grounder(limit)
    res = [t for t in forms]
    quant = [t for t in res if hasq(t)]
    base = [t for t in res if not hasq(t)]
    for t in res: g.collect(t)
    # skolemise first so that their constants are available
    out = []
    prev = None
    for r in range(rounds):
        out = [g.go(t, True) for t in quant]
        n = len(g.seen)
        for t in out: g.collect(t)
        if len(g.seen) == n and r: break
    return base + out

# ------------------------------------------------------------------ queries
def relevant(hyps, goal):
    """hypotheses connected to the goal through shared symbols"""
    syms = {}
    def sy(t):
        r = syms.get(t)
        if r is None:
            r = set()
            for s in T.subterms(t):
                if s.op == 'var': r.add(s.args[0])
                elif s.op == 'app': r.add('f:' + s.args[0])
            r.discard('pi')
            r = syms[t] = {x for x in r if not x.startswith('$')}
        return r
    want = set(sy(goal))
    left = list(hyps)
    out = []
    ch = True
    while ch:
        ch = False
        rest = []
        for h in left:
            s = sy(h)
            if s & want or not s:
                out.append(h)
                if not s <= want: want |= s; ch = True
            else: rest.append(h)
        left = rest
    order = {h: i for i, h in enumerate(hyps)}
    return sorted(out, key=lambda h: order[h])

def orient(hyps, goal):
    """known entries of selections (hypotheses of the form sel(constant) == term) are substituted everywhere"""
    m = {}
    for h in hyps:
        if h.op != 'eq' or h.args[0].sort == 'B': continue
        for a, b in (h.args, h.args[::-1]):
            if a.op == 'app' and a.args[0].startswith('sel') and not a.args[0].startswith('selinv') and T.is_const(a.args[1]) and b.op in ('var', 'const', 'add') and a not in m and a not in set(T.subterms(b)):
                m[a] = b; break
    if not m: return hyps, goal
    out = []
    for h in hyps:
        x = T.subst(h, m)
        if x is not T.TRUE: out.append(x)
    return out + [h for h in hyps if h.op == 'eq' and (h.args[0] in m or h.args[1] in m)], T.subst(goal, m)

def abstract(forms):
    """replaces declared ghost functions H(i) := polynomial in the data at i by uninterpreted applications (a definitional extension: sound).
    Returns the new forms, or None when nothing was replaced"""
    c = C.get()
    hs = getattr(c, 'heights', None)
    if not hs: return None
    terms = {}
    nodes = {}
    for f in forms:
        for s in T.subterms(f):
            if s.op == 'app' and len(s.args) == 2 and not boundfree(s): terms.setdefault(s.args[0], set()).add(s.args[1])
            elif s.op in ('lt', 'eq') and s.args[0].sort != 'B' and not boundfree(s): nodes[s] = None
    inst = []
    for name, x, tmpl, fns in hs:
        for t in sorted({t for f in fns for t in terms.get(f, ())}, key=lambda t: t.id):
            try: p = T.poly(T.subst(tmpl, {x: t}))
            except T.TooBig: continue
            a = T.app(fns[0], (t,))
            lead = [m for m in p if any(T._atom_by_id[i] is a for i, e in m)]
            if lead: inst.append((min(lead), p, T.app(name, (t,))))
    if not inst: return None
    sub = {}
    for s in nodes:
        if any(q.op in ('ite', 'lt') for q in T.subterms(s) if q is not s): continue
        try: p = T.poly(T.sub(*s.args))
        except T.TooBig: continue
        hit = False
        for lead, q, h in inst:
            k = p.get(lead)
            if k is None: continue
            hit = True
            p = T.p_add(T.p_add(p, q, -k / q[lead]), T._atom(h), k / q[lead])
        if not hit: continue
        r = T.from_poly(p)
        sub[s] = T.lt(r, T.ZERO) if s.op == 'lt' else T.eq(r, T.ZERO)
    if not sub: return None
    return [T.subst(f, sub) for f in forms]

def side_conditions(forms):
    """defining constraints of every purified operator, transitively"""
    out, seen, todo, done = [], set(), list(forms), set()
    while todo:
        f = todo.pop()
        for s in T.subterms(f):
            if s in seen: continue
            seen.add(s)
            if s.op in ('div', 'sqrt', 'sum', 'floor', 'rnd', 'idiv', 'imod', 'app') or s is PI:
                if boundfree(s): continue
                for c in side(s):
                    if c is not T.TRUE and c not in done:
                        done.add(c); out.append(c); todo.append(c)
    # congruence of denominators etc. comes from hash-consing
    return out

class Result(object):
    def __init__(self, status, how='', model=None, reason=''):
        self.status, self.how, self.model, self.reason = status, how, model, reason
    def __repr__(self): return 'Result(%s %s %s)' % (self.status, self.how, self.reason)

def acker(forms):
    """replace applications by constants with congruence constraints (terms -> terms)"""
    apps = {}
    for f in forms:
        for s in T.subterms(f):
            if s.op == 'app' and not boundfree(s): apps[s] = None
    return apps

class Solver(object):
    def __init__(self, quick_rlimit=300000, rlimit=12000000, nl_rlimit=12000000):
        self.quick_rlimit, self.rlimit, self.nl_rlimit = quick_rlimit, rlimit, nl_rlimit
        self.qcache = {}
        self.wall = 12
        self.deadline = None

    # -------------------------------------------------------------- raw check
    def check(self, forms, rlimit, want_model=False, nl=False, timeout=None):
        STATS['queries'] += 1
        t0 = time.time()
        forms = list(forms)
        sc = side_conditions(forms)
        allf = forms + sc
        if nl:
            allf, ok = self.purify_nl(allf)
            if not ok: return 'unknown', None, 'not pure real arithmetic'
            s = z3.Tactic('qfnra-nlsat').solver()
            STATS['nlsat'] += 1
        else:
            s = z3.Solver()
            STATS['z3'] += 1
        s.set('rlimit', rlimit)
        if timeout: s.set('timeout', int(timeout * 1000))
        for f in allf: s.add(tr(f))
        try:
            r = s.check()
        except z3.Z3Exception as e:
            STATS['time'] += time.time() - t0
            return 'unknown', None, str(e)
        STATS['time'] += time.time() - t0
        if r == z3.unsat: return 'unsat', None, ''
        if r == z3.sat:
            return 'sat', (self.extract(s.model(), allf) if want_model else None), ''
        return 'unknown', None, s.reason_unknown()

    def purify_nl(self, forms):
        m = {}
        apps = {}
        for f in forms:
            for s in T.subterms(f):
                if s.op == 'app' and not boundfree(s): apps[s] = None
                if s.op in ('floor', 'rnd', 'idiv', 'imod'): return forms, False
        byf = {}
        for a in apps:
            for x in a.args[1:]:
                if not T.is_const(x) and x.sort == 'I': pass
            byf.setdefault(a.args[0], []).append(a)
            m[a] = T.var('app#%d' % a.id, a.sort)
        cong = []
        for f, l in byf.items():
            for i in range(len(l)):
                for j in range(i):
                    same = T.and_(*[T.eq(x, y) for x, y in zip(l[i].args[1:], l[j].args[1:])])
                    if same is T.FALSE: continue
                    cong.append((same, l[i], l[j]))
        if len(cong) > 200: return forms, False
        out = [T.subst(f, m) for f in forms]
        for same, a, b in cong:
            out.append(T.implies(T.subst(same, m), T.mk('eq', (m[a], m[b]), 'B') if a.sort != 'B' else T.iff(m[a], m[b])))
        for f in out:
            for s in T.subterms(f):
                if s.sort == 'I': return out, False
        self._app_map = m
        return out, True

    def extract(self, model, forms):
        out = {}
        seen = set()
        for f in forms:
            for s in T.subterms(f):
                if s in seen: continue
                seen.add(s)
                if s.op == 'var' and not s.args[0].startswith('$'):
                    out[s] = num_of(model.eval(tr(s), model_completion=True))
                elif s.op == 'app' and not boundfree(s):
                    args = tuple(num_of(model.eval(tr(a), model_completion=True)) for a in s.args[1:])
                    out[s] = (args, num_of(model.eval(tr(s), model_completion=True)))
        inv = getattr(self, '_app_map', None)
        if inv:
            for a, v in inv.items():
                if v in out and a not in out:
                    args = tuple(num_of(model.eval(tr(T.subst(x, inv)), model_completion=True)) for x in a.args[1:])
                    out[a] = (args, out[v])
        return out

    def linear(self, forms):
        t0 = time.time()
        STATS['lin'] = STATS.get('lin', 0) + 1
        r = lin.unsat(forms)
        STATS['time'] += time.time() - t0
        return r

    # -------------------------------------------------------------- cheap entailment
    def quick(self, hyps, t):
        hs = set(hyps)
        if t in hs: return True
        nt = T.not_(t)
        if nt in hs: return False
        if t.op == 'and':
            if any(T.not_(x) in hs for x in t.args): return False
        if t.op == 'not' and t.args[0].op == 'and':
            if any(T.not_(x) in hs for x in t.args[0].args): return True
        rel = relevant(hyps, t)
        key = (tuple(h.id for h in rel), t)
        r = self.qcache.get(key, 0)
        if r != 0: return r
        r = self._quick(rel, t, nt)
        self.qcache[key] = r
        return r

    def _quick(self, rel, t, nt):
        if len(rel) > 400: rel = rel[:400]
        g = ground(rel + [nt], 2, 150)
        if any(f is T.FALSE for f in g): return True
        ga = abstract(g)
        if self.linear(g if ga is None else ga): return True
        g2 = ground(rel + [t], 2, 150)
        if any(f is T.FALSE for f in g2): return False
        g2a = abstract(g2)
        if self.linear(g2 if g2a is None else g2a): return False
        if ga is not None: g = ga
        if g2a is not None: g2 = g2a
        st, _, _ = self.check(g, self.quick_rlimit, timeout=2)
        if st == 'unsat': return True
        st2, _, _ = self.check(g2, self.quick_rlimit, timeout=2)
        if st2 == 'unsat': return False
        return None

    def int_value(self, hyps, d):
        rel = relevant(hyps, T.eq(d, d) if False else T.lt(d, T.add(d, T.cI(0))) if False else T.app('probe', (d,), 'B'))
        g = ground(rel, 2, 150)
        st, m, _ = self.check(g + [T.app('probe', (d,), 'B')], self.quick_rlimit, want_model=True, timeout=2)
        if st != 'sat': return None
        v = None
        for k, x in m.items():
            if k.op == 'app' and k.args[0] == 'probe': v = int(x[0][0])
        if v is None: return None
        return v if self.quick(hyps, T.eq(d, T.cI(v))) is True else None

    def prove_simple(self, hyps, goal):
        return self.prove(hyps, goal, effort=0).status == 'proved'

    # -------------------------------------------------------------- full proof
    def prove(self, hyps, goal, effort=1, want_model=True):
        t0 = time.time()
        hyps, goal = orient(list(hyps), goal)
        r = self._prove(hyps, goal, effort, want_model)
        return r

    def _prove(self, hyps, goal, effort, want_model):
        if goal is T.TRUE: return Result('proved', 'simplifier')
        if goal in set(hyps): return Result('proved', 'hypothesis')
        if effort and goal.op != 'forall' and has_sel(goal):
            g2 = self.ctx_simp(hyps, goal)
            if g2 is not goal:
                r = self._prove(hyps, g2, effort, want_model)
                if r.status == 'proved' and r.how == 'simplifier': r.how = 'normal form'
                return r
        # goal directed splitting
        if goal.op == 'and':
            hows = []
            unknown = None
            for a in goal.args:
                r = self._prove(hyps, a, effort, want_model)
                if r.status == 'refuted': return r
                if r.status != 'proved': unknown = r
                hows.append(r.how)
            return unknown or Result('proved', '+'.join(sorted(set(hows))))
        if goal.op == 'forall':
            n, body, v = goal.args
            k = T.fresh('sk#g', 'I')
            return self._prove(hyps + [T.ge(k, T.cI(0)), T.lt(k, n)], T.subst(body, {v: k}), effort, want_model)
        if goal.op == 'not' and goal.args[0].op == 'and':
            # a disjunction: assume the negation of all but one disjunct
            ds = [T.not_(x) for x in goal.args[0].args]
            tgt = None
            for d in ds:
                if d.op == 'forall': tgt = d
            if tgt is None:
                eqs = [d for d in ds if d.op in ('eq', 'iff')]
                tgt = eqs[-1] if eqs else ds[-1]
            if tgt.op in ('eq', 'iff', 'forall') or (tgt.op == 'and'):
                return self._prove(hyps + [T.not_(d) for d in ds if d is not tgt], tgt, effort, want_model)
        if goal.op == 'iff' and (hasq(goal)):
            a, b = goal.args
            r = self._prove(hyps + [a], b, effort, want_model)
            if r.status != 'proved': return r
            return self._prove(hyps + [b], a, effort, want_model)
        if goal.op == 'ite' and goal.sort == 'B':
            c, a, b = goal.args
            r = self._prove(hyps + [c], a, effort, want_model)
            if r.status != 'proved': return r
            return self._prove(hyps + [T.not_(c)], b, effort, want_model)
        # equality by normal form
        if goal.op == 'eq' and goal.args[0].sort == 'R':
            r = self.prove_eq(hyps, goal.args[0], goal.args[1], effort)
            if r is not None: return r
        return self.refute(hyps, goal, effort, want_model)

    def prove_eq(self, hyps, a, b, effort, depth=0):
        t0 = time.time()
        try:
            d = T.sub(a, b)
            # case split on the conditions of conditional expressions
            conds = find_conds(d)
            if conds and depth < 6:
                c = conds[0]
                k = self.quick(hyps, c)
                r = None
                for val in (True, False):
                    if k is (not val): continue
                    dd = T.subst(d, {c: T.TRUE if val else T.FALSE})
                    h2 = hyps + [c if val else T.not_(c)]
                    if dd is T.ZERO: continue
                    r = self.prove_eq(h2, dd, T.ZERO, effort, depth + 1)
                    if r is None: return None
                return Result('proved', 'normal form')
            need = []
            z = T.is_zero(d, need)
            if not z:
                z = self.reduce_zero(hyps, d, need)
            if not z and depth < 8:
                d2 = self.unfold(hyps, d)
                if d2 is not d: return self.prove_eq(hyps, d2, T.ZERO, effort, depth + 2)
            if not z and depth < 8:
                m = self.merge_apps(hyps, d, effort, depth)
                if m: return self.prove_eq(hyps, T.subst(d, m), T.ZERO, effort, depth + 4)
            if z:
                done = set()
                for kind, t in need:
                    if (kind, t) in done: continue
                    done.add((kind, t))
                    g = T.ne(t, T.ZERO) if kind == 'nz' else T.ge(t, T.ZERO)
                    if kind == 'nn' and T.nonneg(t): continue
                    q = self.quick(hyps, g)
                    if q is not True:
                        q2 = self.refute(hyps, g, effort, False)
                        if q2.status != 'proved': return None
                STATS['nf'] += 1
                return Result('proved', 'normal form')
        finally:
            STATS['time'] += time.time() - t0
        return None

    def merge_apps(self, hyps, d, effort, depth):
        """applications of a function to arguments that are provably equal are identified"""
        apps = {}
        for s in T.subterms(d):
            if s.op == 'app' and s.args[0] == 'cos' and s.args[1].op == 'app' and s.args[1].args[0] == 'acos' and not boundfree(s):
                x = s.args[1].args[1]
                if self.quick(hyps, T.and_(T.ge(x, T.const(-1)), T.le(x, T.ONE))) is True: return {s: x}
        for s in T.subterms(d):
            if s.op == 'app' and s.args[0] in ('acos', 'cos', 'sin', 'pow', 'tan') and not boundfree(s): apps.setdefault(s.args[0], []).append(s)
            elif s.op == 'sqrt' and not boundfree(s): apps.setdefault('sqrt', []).append(s)
        m = {}
        for f, l in apps.items():
            if len(l) < 2 or len(l) > 4: continue
            l.sort(key=lambda s: s.id)
            for i in range(1, len(l)):
                for j in range(i):
                    if l[j] in m: continue
                    xs = list(zip(l[i].args[1:], l[j].args[1:])) if f != 'sqrt' else [(l[i].args[0], l[j].args[0])]
                    if all((r is not None and r.status == 'proved') for r in (self.prove_eq(hyps, x, y, effort, depth + 4) for x, y in xs)):
                        m[l[i]] = l[j]; break
        return m

    def in_range(self, hyps, g, n):
        """0 <= g < n by linear reasoning over the integer hypotheses alone"""
        key = ('range', tuple(h.id for h in hyps if integral(h)), g, n)
        r = self.qcache.get(key)
        if r is None:
            hi = [h for h in hyps if integral(h)]
            r = self.qcache[key] = all(t is T.TRUE or (t is not T.FALSE and self.check(hi + [T.not_(t)], self.quick_rlimit, timeout=2)[0] == 'unsat') for t in (T.ge(g, T.cI(0)), T.lt(g, n)))
        return r

    def unfold(self, hyps, d):
        """defining equations f(t) = e (ground, or for all indices of a range) as substitutions, largest index first"""
        fs = {s.args[0] for s in T.subterms(d) if s.op == 'app' and len(s.args) == 2 and s.args[1].sort == 'I' and not boundfree(s)}
        if not fs: return d
        rules, ground_ = [], {}
        def scan(t, n, v):
            if t.op == 'and':
                for x in t.args: scan(x, n, v)
                return
            if t.op == 'forall' and v is None: return scan(t.args[1], t.args[0], t.args[2])
            if t.op != 'eq' or t.args[0].sort != 'R': return
            for a, b in (t.args, t.args[::-1]):
                if a.op != 'app' or len(a.args) != 2 or a.args[0] not in fs or a.args[1].sort != 'I': continue
                if v is None:
                    if not boundfree(a) and a not in T.subterms(b): ground_.setdefault(a, b); return
                else:
                    off = T.sub(a.args[1], v)
                    if v in T.fv(off) or boundfree(off) or a in T.subterms(b): continue
                    # recurrences only: every other index of these functions is smaller
                    low = lambda x: (lambda o: T.is_const(o) and T.cval(o) < T.cval(off))(T.sub(x, v))
                    if T.is_const(off) and T.cval(off) > 0 and all(low(x.args[1]) for x in T.subterms(b) if x.op == 'app' and x.args[0] in fs and len(x.args) == 2): rules.append((a.args[0], off, n, v, b)); return
        for h in hyps: scan(h, None, None)
        if not rules and not ground_: return d
        for _ in range(6):
            m = {}
            for s in T.subterms(d):
                if s.op != 'app' or len(s.args) != 2 or s.args[0] not in fs or boundfree(s): continue
                if s in ground_: m[s] = ground_[s]; continue
                for f, off, n, v, b in rules:
                    if f != s.args[0]: continue
                    g = T.sub(s.args[1], off)
                    key = ('unfold', g, n)
                    if self.in_range(hyps, g, n):
                        m[s] = T.subst(b, {v: g}); break
            if not m: break
            d = T.subst(d, m)
            break
        return d

    def reduce_zero(self, hyps, d, need):
        """reduce modulo equational hypotheses (multivariate division, no completion)"""
        eqs = []
        flat = []
        for h in hyps:
            if h.op == 'and' and not hasq(h) and len(h.args) <= 40: flat.extend(h.args)
            else: flat.append(h)
        for h in flat:
            if h.op == 'eq' and h.args[0].sort == 'R':
                e = T.sub(h.args[0], h.args[1])
                if find_conds(e): continue
                try:
                    n2 = []
                    p = T.clear_denominators(T.poly(e), n2)
                except T.TooBig: continue
                if p and len(p) <= 40: eqs.append((p, n2))
        if not eqs: return False
        try:
            p = T.clear_denominators(T.poly(d), need)
        except T.TooBig:
            return False
        for order in (1, -1):
            q = divide(p, eqs, order, need)
            if q is not None and not q: return True
        return False

    def simp_div(self, hyps, t):
        """cancel divisions by terms known to be nonzero under the hypotheses (an equivalent term under them)"""
        def nz(x): return self.quick(hyps, T.ne(x, T.ZERO)) is True
        def factors(x): return list(x.args) if x.op == 'mul' else [x]
        for _ in range(40):
            ds = [s for s in T.subterms(t) if s.op == 'div' and not boundfree(s)]
            hit = None
            for s in sorted(ds, key=lambda s: s.id):
                a, b = s.args
                if b.op == 'div' and nz(b.args[0]) and nz(b.args[1]): hit = (s, T.div(T.mul(a, b.args[1]), b.args[0]))
                elif a.op == 'div' and nz(a.args[1]) and nz(b): hit = (s, T.div(a.args[0], T.mul(a.args[1], b)))
                else:
                    fa, fb = factors(a), factors(b)
                    com = [x for x in fb if x in fa and not T.is_const(x)]
                    if com and nz(b):
                        for x in com: fa.remove(x); fb.remove(x)
                        n, d = T.mul(*fa) if len(fa) > 1 else (fa[0] if fa else T.ONE), T.mul(*fb) if len(fb) > 1 else (fb[0] if fb else T.ONE)
                        hit = (s, n if d is T.ONE else T.div(n, d))
                if hit and hit[1] is not s: break
                hit = None
            if not hit: break
            t = T.subst(t, {hit[0]: hit[1]})
        # a common nonzero factor of both sides of a comparison
        if t.op == 'not' and t.args[0].op == 'lt': return T.not_(self.common(hyps, t.args[0]))
        if t.op in ('lt', 'eq') and t.args[0].sort == 'R': return self.common(hyps, t)
        return t

    def common(self, hyps, t):
        a, b = t.args
        fac = lambda x: [] if x is T.ZERO else (list(x.args) if x.op == 'mul' else [x])
        fa, fb = fac(a), fac(b)
        for x in list(fa):
            if T.is_const(x) or x not in fb: continue
            if self.quick(hyps, T.gt(x, T.ZERO)) is True: fa.remove(x); fb.remove(x)
        if len(fa) == len(fac(a)): return t
        j = lambda l: T.ONE if not l else (l[0] if len(l) == 1 else T.mul(*l))
        return T.lt(j(fa), j(fb)) if t.op == 'lt' else T.eq(j(fa), j(fb))

    def monotone(self, hyps, t):
        """rounding is monotone: instances for the rounded terms of t"""
        rs = sorted({s for s in T.subterms(t) if s.op in ('rnd', 'floor') and not boundfree(s)}, key=lambda s: s.id)
        out = []
        if not 1 < len(rs) < 6: return out
        for x in rs:
            for y in rs:
                if x is y or x.op != y.op: continue
                a, b = x.args[0], y.args[0]
                if a.op == 'div' and b.op == 'div' and a.args[1] is b.args[1] and self.quick(hyps, T.gt(a.args[1], T.ZERO)) is True: a, b = a.args[0], b.args[0]
                if self.quick(hyps, T.le(a, b)) is True: out.append(T.le(x, y))
        return out

    def ctx_simp(self, hyps, goal):
        """selections of known positions and conditionals with known conditions are evaluated under the hypotheses"""
        done = set()
        for _ in range(30):
            hit = None
            for s in sorted({s for s in T.subterms(goal) if s.op == 'app' and not boundfree(s)}, key=lambda s: s.id):
                if s in done or not s.args[0].startswith('sel') or len(s.args) != 2: continue
                x = s.args[1]
                if x.op == 'app' and x.args[0].startswith('selinv'):
                    done.add(s)
                    if self.quick(hyps, T.eq(s, x.args[1])) is True: hit = (s, x.args[1]); break
            if hit is None:
                for s in sorted({s.args[0] for s in T.subterms(goal) if s.op == 'ite' and not boundfree(s.args[0])}, key=lambda s: s.id):
                    if s in done: continue
                    done.add(s)
                    k = self.quick(hyps, s)
                    if k is not None: hit = (s, T.TRUE if k else T.FALSE); break
            if hit is None: break
            goal = T.subst(goal, {hit[0]: hit[1]})
        return goal

    def known_subst(self, hyps, goal):
        """hypotheses (and the atoms they settle) occurring inside the goal are replaced by their truth value"""
        m = {}
        for h in hyps:
            if h.op == 'const' or hasq(h): continue
            if h.op == 'not': m[h.args[0]] = T.FALSE
            elif h.op == 'and':
                for x in h.args:
                    if x.op == 'not': m[x.args[0]] = T.FALSE
                    else: m[x] = T.TRUE
            else: m[h] = T.TRUE
        occ = set(T.subterms(goal))
        m = {k: v for k, v in m.items() if k in occ and k is not T.TRUE and k is not T.FALSE}
        return T.subst(goal, m) if m else goal

    def refute(self, hyps, goal, effort, want_model):
        g2 = self.known_subst(hyps, goal)
        if g2 is not goal:
            r = self._prove(hyps, g2, effort, want_model)
            if r.status == 'proved' and r.how == 'simplifier': r.how = 'hypothesis'
            return r
        if effort and any(s.op in ('rnd', 'floor') for s in T.subterms(goal)):
            g2 = self.simp_div(hyps, goal) if any(s.op == 'div' for s in T.subterms(goal)) else goal
            if g2 is not goal:
                r = self._prove(hyps, g2, effort, want_model)
                if r.status == 'proved' and r.how == 'simplifier': r.how = 'normal form'
                return r
            hyps = hyps + self.monotone(hyps, goal)
        return self.refute1(hyps, goal, effort, want_model)

    def refute1(self, hyps, goal, effort, want_model):
        """hyps and not goal unsatisfiable?  First with the hypotheses connected to the goal, then with all of them."""
        ng = T.not_(goal)
        rel = relevant(hyps, ng)
        r = self._refute(rel, ng, effort, want_model)
        if r.status != 'proved' and effort and len(rel) < len(set(hyps)):
            rs = set(rel)
            rest = [h for h in dict.fromkeys(hyps) if h not in rs]
            # the other hypotheses share no symbol with these: only their own consistency matters
            r2 = self._refute(rest, T.TRUE, effort, want_model)
            if r2.status == 'proved': return r2
            if r.model is not None and r2.model: r.model = {**r2.model, **r.model}
            if r2.status == 'unknown' and r.status == 'refuted': r.reason = 'partial'
            if r2.reason == 'partial' and r.reason == 'complete': r.reason = 'partial'
        return r

    def _refute(self, rel, ng, effort, want_model):
        limit = 200 if effort == 0 else 800
        forms = ground(rel + [ng], 3, limit)
        if any(f is T.FALSE for f in forms): return Result('proved', 'simplifier')
        forms = [f for f in forms if f is not T.TRUE]
        if propositional(forms): return Result('proved', 'z3')
        fa = abstract(forms)
        if fa is not None:
            if self.linear(fa): return Result('proved', 'z3')
            if self.check(fa, self.rlimit, timeout=self.wall if effort else 5)[0] == 'unsat': return Result('proved', 'z3')
        elif self.linear(forms): return Result('proved', 'z3')
        quantified = any(hasq(h) for h in rel + [ng])
        rl = self.quick_rlimit if effort == 0 else self.rlimit
        st, m, why = self.check(forms, rl, want_model=want_model, timeout=self.wall if effort else 5)
        if st == 'unsat': return Result('proved', 'z3')
        if st == 'unknown':
            st2, m2, why2 = self.check(forms, self.nl_rlimit if effort else self.quick_rlimit, want_model=want_model, nl=True, timeout=self.wall if effort else 5)
            if st2 == 'unsat': return Result('proved', 'z3-nlsat')
            if st2 == 'sat': st, m = 'sat', m2
            else: why = '%s; nlsat: %s' % (why, why2)
        if st == 'sat':
            return Result('refuted', 'z3', m, 'partial' if quantified or has_opaque(forms) else 'complete')
        return Result('unknown', '', None, why)

    def model(self, hyps, extra=()):
        """a model of the hypotheses (a representative input of a path)"""
        forms = [f for f in ground(list(hyps) + list(extra), 2, 300) if f is not T.TRUE]
        if any(f is T.FALSE for f in forms): return None
        st, m, _ = self.check(forms, self.quick_rlimit * 4, want_model=True, timeout=1)
        if st == 'sat': return m
        if st == 'unknown':
            st, m, _ = self.check(forms, self.quick_rlimit * 4, want_model=True, nl=True, timeout=1)
            if st == 'sat': return m
        return None

def propositional(forms):
    """unsatisfiable already when every arithmetic atom is a free truth value?"""
    t0 = time.time()
    ats = {}
    def pv(t):
        r = ats.get(t)
        if r is not None: return r
        o, a = t.op, t.args
        if o == 'const': r = z3.BoolVal(bool(a[0]))
        elif o == 'not': r = z3.Not(pv(a[0]))
        elif o == 'and': r = z3.And([pv(x) for x in a])
        elif o == 'iff': r = pv(a[0]) == pv(a[1])
        elif o == 'ite': r = z3.If(pv(a[0]), pv(a[1]), pv(a[2]))
        else: r = z3.Bool('p#%d' % t.id)
        ats[t] = r
        return r
    s = z3.Solver()
    s.set('rlimit', 200000)
    for f in forms: s.add(pv(f))
    r = s.check() == z3.unsat
    STATS['time'] += time.time() - t0
    return r

_hs = {}
def has_sel(t):
    r = _hs.get(t)
    if r is None: r = _hs[t] = any(s.op == 'app' and s.args[0].startswith('selinv') and not boundfree(s) for s in T.subterms(t))
    return r

def has_opaque(forms):
    for f in forms:
        for s in T.subterms(f):
            if s.op == 'sum' or (s.op == 'app' and s.args[0] in ('cos', 'sin', 'acos', 'pow', 'tan', 'atan2')): return True
    return False

_fc = {}
def find_conds(t):
    """outermost boolean conditions occurring inside the arithmetic term t (not under binders)"""
    r = _fc.get(t)
    if r is not None: return r
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x in seen: continue
        seen.add(x)
        if x.op in ('sum', 'forall'): continue
        if x.op == 'ite' and x.sort != 'B' and not boundfree(x.args[0]):
            c = x.args[0]
            while c.op == 'not': c = c.args[0]
            if c.op == 'and':
                c = c.args[0]
                while c.op == 'not': c = c.args[0]
            if c not in out: out.append(c)
        for a in x.args:
            if isinstance(a, T.T): stack.append(a)
    # prefer conditions that themselves contain no conditional
    out.sort(key=lambda c: (sum(1 for s in T.subterms(c) if s.op == 'ite'), c.id))
    _fc[t] = out
    return out

def divide(p, eqs, order, need, steps=400):
    rules = []
    for e, n2 in eqs:
        lm = max(e, key=lambda m: mono_key(m, order))
        if not lm: return None
        rules.append((dict(lm), e[lm], e, n2))
    p = dict(p)
    rem = {}
    for _ in range(steps):
        if not p: return rem
        m = max(p, key=lambda m: mono_key(m, order))
        c = p[m]
        dm = dict(m)
        hit = False
        for lm, lc, e, n2 in rules:
            if all(dm.get(i, 0) >= k for i, k in lm.items()) and all(k > 0 for k in lm.values()):
                q = {i: k - lm.get(i, 0) for i, k in dm.items()}
                q = tuple(sorted((i, k) for i, k in q.items() if k))
                p = T.p_add(p, T.p_mul({q: c / lc}, e), -1)
                need.extend(n2)
                hit = True
                break
        if not hit:
            rem[m] = p.pop(m)
            if len(rem) > 0: return rem
        if len(p) > 4000: return None
    return None

def mono_key(m, order):
    return (sum(k for i, k in m), tuple(sorted(((i * order, k) for i, k in m), reverse=True)))

def num_of(v):
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None
