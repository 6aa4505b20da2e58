"""Linear stage: comparisons are brought to polynomial form (denominators of known sign cleared), every monomial becomes an opaque
real, and z3 decides the resulting formula of linear arithmetic.  Only 'unsat' is used."""
from fractions import Fraction
import z3
from . import terms as T

def lits(hyps):
    for h in hyps:
        if h.op == 'and':
            for x in lits(h.args): yield x
        else: yield h

def norm_poly(p):
    """scale by a positive constant so that the leading coefficient is +-1"""
    if not p: return ()
    lead = max(p)
    k = abs(p[lead])
    return tuple(sorted((m, c / k) for m, c in p.items()))

class Lin(object):
    def __init__(self, hyps):
        self.pos, self.nz = set(), set()
        self.cache = {}
        self.side = []
        self.seen = set()
        self._ps = {}
        for h in lits(hyps):
            try:
                if h.op == 'lt' and h.args[0].sort == 'R':
                    p = T.poly(T.sub(h.args[1], h.args[0]))
                    self.pos.add(norm_poly(p))
                elif h.op == 'not' and h.args[0].op == 'eq' and h.args[0].args[0].sort == 'R':
                    p = T.poly(T.sub(*h.args[0].args))
                    self.nz.add(norm_poly(p)); self.nz.add(norm_poly(T.p_scale(p, -1)))
            except T.TooBig: pass

    def positive(self, t):
        r = self._ps.get(t)
        if r is None:
            self._ps[t] = False
            r = self._ps[t] = self._positive(t)
        return r
    def _positive(self, t):
        if T.is_const(t): return T.cval(t) > 0
        try: p = norm_poly(T.poly(t))
        except T.TooBig: return False
        if p in self.pos: return True
        if p in self.nz and T.nonneg(t): return True
        q = T.poly(t)
        if q:
            common = dict(min(q))
            for m in q:
                d = dict(m)
                common = {i: min(e, d.get(i, 0)) if e > 0 else max(e, d.get(i, 0)) for i, e in common.items() if d.get(i, 0) * e > 0}
            if common and all((e % 2 == 0 and self.nonzero(T._atom_by_id[i])) or self.positive(T._atom_by_id[i]) for i, e in common.items()):
                k = tuple(sorted((i, -e) for i, e in common.items()))
                if self.positive(T.from_poly({T.m_mul(m, k): c for m, c in q.items()})): return True
        if t.op == 'sqrt': return self.positive(t.args[0])
        if t.op == 'mul': return all(self.positive(a) for a in t.args)
        if t.op == 'div': return self.positive(t.args[0]) and self.positive(t.args[1])
        if t.op == 'add' and all(T.nonneg(a) for a in t.args): return any(self.positive(a) for a in t.args)
        if t.op == 'toR': return self.positive(t.args[0])
        return False
    def nonzero(self, t):
        if self.positive(t): return True
        try: return norm_poly(T.poly(t)) in self.nz
        except T.TooBig: return False

    # ---- arithmetic
    def atom(self, t):
        r = self.cache.get(('a', t))
        if r is not None: return r
        o = t.op
        if o == 'ite': r = z3.If(self.form(t.args[0]), self.arith(t.args[1]), self.arith(t.args[2]))
        elif o == 'toR': r = self.arith(t.args[0])
        elif o == 'app' and t.sort != 'B' :
            f = z3.Function('L%s/%s' % (t.args[0], ''.join(x.sort for x in t.args[1:])), *([z3.BoolSort() if x.sort == 'B' else z3.RealSort() for x in t.args[1:]] + [z3.RealSort()]))
            r = f(*[self.form(x) if x.sort == 'B' else self.arith(x) for x in t.args[1:]])
        else: r = z3.Real('L#%d' % t.id)
        self.cache[('a', t)] = r
        if T.nonneg(t) and o not in ('toR',): self.side.append(r >= 0)
        if o == 'floor':
            x = self.arith(t.args[0]); self.side.append(z3.And(r <= x, x < r + 1))
        if t.sort == 'I' and o != 'ite': pass
        return r
    def mono(self, m):
        r = self.cache.get(('m', m))
        if r is not None: return r
        if len(m) == 1 and m[0][1] == 1: r = self.atom(T._atom_by_id[m[0][0]])
        else:
            r = z3.Real('M#%s' % '_'.join('%d^%d' % x for x in m))
            if all(e % 2 == 0 or T.nonneg(T._atom_by_id[i]) for i, e in m): self.side.append(r >= 0)
            if all(self.positive(T._atom_by_id[i]) for i, e in m): self.side.append(r > 0)
        self.cache[('m', m)] = r
        return r
    def poly(self, p):
        out = []
        for m, c in p.items():
            q = z3.RealVal('%d/%d' % (c.numerator, c.denominator))
            out.append(q if not m else (q * self.mono(m) if c != 1 else self.mono(m)))
        return z3.Sum(out) if len(out) > 1 else (out[0] if out else z3.RealVal(0))
    def arith(self, t):
        return self.poly(T.poly(t))
    def clear(self, p):
        """multiply by denominators known positive"""
        for _ in range(60):
            lo = {}
            for m in p:
                for i, e in m:
                    if e < 0: lo[i] = min(lo.get(i, 0), e)
            todo = [i for i in lo if self.positive(T._atom_by_id[i])]
            if not todo:
                ev = [i for i in lo if self.nonzero(T._atom_by_id[i])]
                if not ev: return p
                i = max(ev, key=lambda j: T.adepth(T._atom_by_id[j])); k = -lo[i] + (lo[i] % 2)
            else:
                i = max(todo, key=lambda j: T.adepth(T._atom_by_id[j])); k = -lo[i]
            a = T._atom_by_id[i]
            compound = a.op in ('add', 'mul', 'div')
            r = {}
            for m, c in p.items():
                d = dict(m); e = d.pop(i, 0) + k
                base = {tuple(sorted(d.items())): c}
                if e < 0: return p
                if compound:
                    ap = T.poly(a)
                    for _k in range(e): base = T.p_mul(base, ap)
                elif a.op == 'sqrt' and e >= 2 and (T.nonneg(a.args[0]) or self.positive(a)):
                    for _k in range(e // 2): base = T.p_mul(base, T.poly(a.args[0]))
                    if e % 2: base = T.p_mul(base, {((i, 1),): Fraction(1)})
                elif e: base = T.p_mul(base, {((i, e),): Fraction(1)})
                r = T.p_add(r, base)
            p = r
        return p
    def cmp(self, a, b, op):
        p = T.poly(T.sub(a, b))
        f = (lambda p: self.poly(p) == 0) if op == 'eq' else (lambda p: self.poly(p) < 0)
        r = f(p)
        if any(e < 0 for m in p for i, e in m):
            q = self.clear(p)
            if q is not p: self.side.append(r == f(q))
        return r
    # ---- formulas
    def form(self, t):
        r = self.cache.get(('f', t))
        if r is not None: return r
        o, a = t.op, t.args
        if o == 'const': r = z3.BoolVal(bool(a[0]))
        elif o == 'not': r = z3.Not(self.form(a[0]))
        elif o == 'and': r = z3.And([self.form(x) for x in a])
        elif o == 'iff': r = self.form(a[0]) == self.form(a[1])
        elif o == 'ite': r = z3.If(self.form(a[0]), self.form(a[1]), self.form(a[2]))
        elif o in ('lt', 'eq') and a[0].sort != 'B':
            if o == 'lt' and a[0].sort == 'I': r = self.arith(T.toR(a[0])) + 1 <= self.arith(T.toR(a[1]))
            else: r = self.cmp(T.toR(a[0]), T.toR(a[1]), o)
        elif o == 'eq': r = self.form(a[0]) == self.form(a[1])
        else: r = z3.Bool('B#%d' % t.id)
        self.cache[('f', t)] = r
        return r

def unsat(forms, rlimit=2000000, timeout=3000):
    try:
        l = Lin(forms)
        fs = [l.form(f) for f in forms]
    except T.TooBig:
        return False
    s = z3.SolverFor('QF_UFLRA')
    s.set('rlimit', rlimit); s.set('timeout', timeout)
    for f in fs + l.side: s.add(f)
    try: return s.check() == z3.unsat
    except z3.Z3Exception: return False
