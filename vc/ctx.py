"""Path context of a symbolic execution: path condition, facts (callee postconditions, ghost definitions), binders."""
from . import terms as T

class Unsupported(BaseException):
    """the code uses something outside the verifier's reach (never an alarm)"""

class Budget(Unsupported):
    pass

class Infeasible(BaseException):
    """the assumptions of this path are contradictory"""

_integral = {}
def integral(t):
    """a quantifier-free statement about integers only"""
    r = _integral.get(t)
    if r is None: r = _integral[t] = all(s.sort in 'IB' and s.op not in ('forall', 'exists') for s in T.subterms(t))
    return r

class Ctx(object):
    def __init__(self, decisions, solver):
        self.decisions = list(decisions)   # [(chosen, remaining alternatives)]
        self.pos = 0
        self.pc = []          # branch conditions taken
        self.facts = []       # assumed: preconditions, contracts of callees, ghost definitions
        self.local = []       # ranges of the bound variables in scope
        self.binder = 0
        self.solver = solver
        self.assumed = []     # labels of the trusted contracts used
        self.writes = []      # (buffer) writes to inputs
        self.forks = 0
        self.ranges = {}      # bound/skolem variable -> upper bound
        self.in_code = False
        self.ghost_sel = {}
        self.memo = {}

    def hyps(self):
        return self.facts + self.pc + self.local

    def add_fact(self, t):
        if t is T.TRUE: return
        if t.op == 'and':
            for a in t.args: self.add_fact(a)
            return
        self.facts.append(t)

    def known(self, t):
        """True / False when the hypotheses settle t cheaply, else None"""
        if t is T.TRUE: return True
        if t is T.FALSE: return False
        hs = self.hyps()
        if len(hs) > 40 and integral(t):
            k = self.solver.quick([h for h in hs if integral(h)], t)
            if k is not None: return k
        return self.solver.quick(hs, t)

    def decide(self, t):
        """branch on the boolean term t"""
        k = self.known(t)
        if k is not None: return k
        if self.binder:
            raise Unsupported('branch under a quantifier: %s' % T.show(t)[:200])
        v = self.choose(2) == 0
        self.pc.append(t if v else T.not_(t))
        return v

    def known_int(self, d):
        """the constant value of an integer term when a hypothesis gives it"""
        for h in self.hyps():
            if h.op == 'eq':
                a, b = h.args
                if a is d and T.is_const(b): return int(T.cval(b))
                if b is d and T.is_const(a): return int(T.cval(a))
        return self.solver.int_value(self.hyps(), d)

    def choose(self, n):
        if n == 1: return 0
        if self.pos < len(self.decisions):
            v = self.decisions[self.pos][0]
        else:
            self.forks += 1
            if len(self.decisions) > 200: raise Budget('too many branches on one path')
            self.decisions.append((0, n))
            v = 0
        self.pos += 1
        return v

    def next_decisions(self):
        d = self.decisions[:self.pos]
        while d and d[-1][0] + 1 >= d[-1][1]: d.pop()
        if not d: return None
        d[-1] = (d[-1][0] + 1, d[-1][1])
        return d

    def assume_label(self, s):
        if s not in self.assumed: self.assumed.append(s)

cur = None
def get():
    return cur
def set_(c):
    global cur
    cur = c
