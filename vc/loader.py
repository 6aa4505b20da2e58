"""Imports the unmodified source of /repo/blmath for symbolic execution.

The text is parsed from the working tree on every run; the only transformations (mechanical, applied to every module):
  1. every float literal is read as the exact rational it is written as;
  2. single-generator comprehensions without a filter are evaluated through a hook (so that they may range over a sequence of symbolic length);
  3. text formatted from symbolic numbers ('...' % x) becomes an opaque string, so that error messages do not stop the proof;
  4. every for loop is preceded by a hook that, for a sequence of symbolic length, replaces the loop by its invariant.
Nothing is dropped: names, control flow, calls, exceptions run as written by CPython."""
import ast, os, sys, types, builtins as B
from . import terms as T
from . import ctx as C
from . import sym as S
from . import npshim, shims
from .sym import SNum, SArr, V, SymList, mknum
from .ctx import Unsupported
from fractions import Fraction

REPO = os.environ.get('VERIF_REPO', '/repo')
mods = {}

class Poison(object):
    """value of a variable a loop without an invariant for it may have changed"""
    def __getattr__(self, n):
        raise Unsupported('variable modified by a loop is not covered by its invariant')
    def _u(self, *a): raise Unsupported('variable modified by a loop is not covered by its invariant')
    __add__ = __call__ = __getitem__ = __bool__ = __len__ = __iter__ = _u

class PathEnd(BaseException):
    """end of a proof path inside a loop body (the invariant has been re-established)"""

LOOPS = {}     # set by the running contract: qualified function name -> list of loop specs

class Tr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.nloop = {}
        self.uid = 0
    def _fn(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node
    visit_FunctionDef = visit_ClassDef = _fn
    def visit_Constant(self, node):
        if isinstance(node.value, float):
            src = repr(node.value)
            return ast.copy_location(ast.Call(ast.Name('__vc_f__', ast.Load()), [ast.Constant(src)], []), node)
        return node
    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        vals = [v.value for v in node.values if isinstance(v, ast.FormattedValue)]
        lam = ast.Lambda(ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), node)
        return ast.copy_location(ast.Call(ast.Name('__vc_join__', ast.Load()), [lam] + vals, []), node)
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(ast.Call(ast.Name('__vc_fmt__', ast.Load()), [node.left, node.right], []), node)
        return node
    def _comp(self, node, hook):
        self.generic_visit(node)
        if len(node.generators) != 1: return node
        g = node.generators[0]
        if g.ifs or g.is_async: return node
        if isinstance(g.target, ast.Name): args, star = [g.target.id], False
        elif isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts): args, star = [e.id for e in g.target.elts], True
        else: return node
        lam = ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(a) for a in args], kwonlyargs=[], kw_defaults=[], defaults=[]), node.elt)
        return ast.copy_location(ast.Call(ast.Name(hook, ast.Load()), [lam, g.iter, ast.Constant(star)], []), node)
    def visit_ListComp(self, node): return self._comp(node, '__vc_comp__')
    def visit_GeneratorExp(self, node): return self._comp(node, '__vc_gen__')
    def visit_For(self, node):
        qual = '.'.join([self.mod] + self.stack)
        k = self.nloop.get(qual, 0)
        self.nloop[qual] = k + 1
        self.uid += 1
        u = self.uid
        self.generic_visit(node)
        if not self.stack: return node
        has_ctl = any(isinstance(x, (ast.Break, ast.Return, ast.Yield, ast.YieldFrom)) for b in node.body for x in ast.walk(b))
        assigned, mutated = [], []
        for b in node.body + [node.target]:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id not in assigned: assigned.append(x.id)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'extend', 'add', 'update', 'pop', 'remove', 'insert', 'fill', 'sort', 'setflags', 'clear'):
                    r = root(x.func.value)
                    if r and r not in mutated: mutated.append(r)
                if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    r = root(x)
                    if r and r not in mutated: mutated.append(r)
                if isinstance(x, ast.AugAssign):
                    r = root(x.target)
                    if r and r not in mutated: mutated.append(r)
        targets = [x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)]
        vars_ = [v for v in assigned + [m for m in mutated if m not in assigned] if v not in targets]
        it, lp = '__vc_it%d__' % u, '__vc_lp%d__' % u
        def name(n, c=None): return ast.Name(n, c or ast.Load())
        def mk(s): return ast.parse(s).body
        pre = [ast.Assign([name(it, ast.Store())], node.iter)]
        node2 = ast.For(node.target, name(it), node.body, node.orelse)
        getv = ', '.join('%r: (lambda: %s)' % (v, v) for v in vars_)
        sym = []
        sym += mk('%s = __vc_loop__(%s, %r, %d, %r, %r, {%s})' % (lp, it, qual, k, has_ctl or bool(node.orelse), mutated, getv))
        for v in vars_: sym += mk('%s = %s.havoc(%r)' % (v, lp, v))
        import copy as cp
        body = [ast.Assign([cp.deepcopy(node.target)], ast.parse('%s.elem()' % lp, mode='eval').body)]
        inner = ast.For(ast.Name('__vc_once__', ast.Store()), ast.parse('(0,)', mode='eval').body, cp.deepcopy(node.body), [])
        body.append(inner)
        body += mk('%s.preserve({%s})' % (lp, getv))
        sym.append(ast.If(ast.parse('%s.stepping()' % lp, mode='eval').body, body, []))
        test = ast.parse('__vc_issym__(%s)' % it, mode='eval').body
        out = pre + [ast.If(test, sym, [node2])]
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out

def root(x):
    while isinstance(x, (ast.Attribute, ast.Subscript, ast.Call)):
        x = x.value if not isinstance(x, ast.Call) else x.func
    return x.id if isinstance(x, ast.Name) and x.id not in ('np', 'math') else None

def vc_f(s):
    x = float(s)
    if x != x or x in (float('inf'), float('-inf')): return x
    return SNum(V(T.const(Fraction(s))), 'f')

class Text(str):
    """a string made from symbolic numbers: only its being a string is known"""
    def _u(self, *a, **k): raise Unsupported('content of a text formatted from symbolic numbers')
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __hash__ = __len__ = __getitem__ = __iter__ = __contains__ = _u
    split = find = index = replace = startswith = endswith = encode = upper = lower = strip = _u
def symbolic_text(x):
    if isinstance(x, (SNum, S.SBool, SArr, SymList, Text)): return True
    if isinstance(x, (tuple, list)): return any(symbolic_text(e) for e in x)
    if isinstance(x, dict): return any(symbolic_text(e) for e in x.values())
    return False
def vc_fmt(f, a):
    if symbolic_text(a): return Text('<text>')
    r = f % a
    return r
def vc_join(f, *parts):
    return Text('<text>') if symbolic_text(parts) else f()

def vc_comp(f, it, star):
    g = (lambda x: f(*unpack(x))) if star else f
    if isinstance(it, SymList) and isinstance(S.dim(it.n), int): it = [it.elem(T.cI(i)) for i in range(S.dim(it.n))]
    if shims._seq(it):
        l = shims.as_symlist(it)
        memo = {}
        def elem(i):
            r = memo.get(i)
            if r is None: r = memo[i] = g(l.elem(i))
            return r
        return SymList(l.n, elem)
    return [g(x) for x in it]
def unpack(x):
    return tuple(x)
def vc_gen(f, it, star):
    # generator expressions: only lazily consumed by all / any / sum / join / min / max in this code base
    r = vc_comp(f, it, star) if shims._seq(it) else None
    if r is not None: return r
    g = (lambda x: f(*x)) if star else f
    return (g(x) for x in it)
def vc_issym(it):
    return shims._seq(it)

class Loop(object):
    def __init__(self, it, qual, k, ctl, mutated, vars_):
        c = C.get()
        spec = (c.loops.get(qual) or {}).get(k) if getattr(c, 'loops', None) else None
        if spec is None: raise Unsupported('loop %d of %s over a sequence of symbolic length has no invariant' % (k, qual))
        if ctl: raise Unsupported('control flow leaving a loop with an invariant')
        self.seq = shims.as_symlist(it)
        self.spec, self.qual, self.k = spec, qual, k
        self.n = self.seq.n
        self.vars = vars_
        for m in mutated:
            if m in vars_ and m not in spec.vars: raise Unsupported('loop mutates %s, which its invariant does not mention' % m)
        for v in spec.vars:
            if v not in vars_: raise Unsupported('the invariant mentions %s, which the loop does not change' % v)
        vals = {v: vars_[v]() for v in spec.vars}
        c.engine.prove('loop %s#%d: invariant holds initially' % (short(qual), k), spec.inv(T.cI(0), self.n, vals), loop=True)
        self.step = c.choose(2) == 0
        c.binder_guard = None
        if self.step:
            self.i = T.var('loop!%s' % short(qual), 'I')
            c.add_fact(T.ge(self.i, T.cI(0))); c.add_fact(T.lt(self.i, self.n))
        else: self.i = self.n
        self.state = spec.havoc(self.i, self.n)
        c.add_fact(S.lift(spec.inv(self.i, self.n, self.state))[0].v)
    def havoc(self, v):
        return self.state[v] if v in self.state else Poison()
    def stepping(self): return self.step
    def elem(self): return self.seq.elem(self.i)
    def preserve(self, vars_):
        c = C.get()
        vals = {v: vars_[v]() for v in self.spec.vars}
        c.engine.prove('loop %s#%d: invariant is preserved' % (short(self.qual), self.k), self.spec.inv(T.add(self.i, T.cI(1)), self.n, vals), loop=True)
        raise PathEnd()

def short(q): return q.split('.', 1)[-1] if q.startswith('blmath.') else q

SHIMS = {'numpy': npshim.np, 'numpy.linalg': npshim.linalg, 'math': shims.math, 'six': shims.six, 'six.moves': shims.six_moves, 'functools': shims.functools,
         'cached_property': shims.cached_property_mod, 'simplejson': shims.simplejson, 'scipy': shims.scipy, 'scipy.linalg': shims.scipy_linalg, 'scipy.sparse': shims.scipy_sparse, 'scipy.spatial': shims.scipy_spatial, 'chumpy': shims.chumpy, 'chumpy.utils': shims.chumpy_utils, 'lace': shims.lace, 'lace.topology': shims.lace_topology}
REAL = ('warnings', 'copy', 'itertools', 'operator', 'collections', 'numbers', 'decimal', 'os', 'sys', 're', 'argparse', 'string', 'types', 'abc', 'contextlib', 'fractions', '__future__', 'enum', 'typing')
EXTRA = {}
def shim(name):
    m = SHIMS.get(name)
    if m is None: m = EXTRA.get(name)
    return m

def importer(name, globals=None, locals=None, fromlist=(), level=0):
    if level:
        pkg = globals['__package__'].split('.')
        base = pkg[:len(pkg) - (level - 1)]
        name = '.'.join(base + ([name] if name else []))
    top = name.split('.')[0]
    if top == 'blmath':
        m = load(name)
        if fromlist:
            for f in fromlist:
                if not hasattr(m, f):
                    try: load(name + '.' + f)
                    except ModuleNotFoundError: pass
            return m
        return mods['blmath']
    m = shim(name)
    if m is not None:
        if fromlist:
            for f in fromlist:
                sub = shim(name + '.' + f)
                if sub is not None: setattr(m, f, sub)
            return m
        parts = name.split('.')
        for i in range(1, len(parts)):
            setattr(shim('.'.join(parts[:i])), parts[i], shim('.'.join(parts[:i + 1])))
        return shim(top)
    if top in REAL:
        return B.__import__(name, globals, locals, fromlist, 0)
    if top in ('lace', 'bodylabs'): raise ModuleNotFoundError("No module named '%s'" % name)
    raise Unsupported('import of %s' % name)

def make_builtins():
    d = dict(B.__dict__)
    d.update(shims.OVERRIDES)
    d['__import__'] = importer
    return d
BUILTINS = make_builtins()

def path_of(name):
    p = os.path.join(REPO, *name.split('.'))
    if os.path.isdir(p):
        return os.path.join(p, '__init__.py'), True
    if os.path.exists(p + '.py'): return p + '.py', False
    raise ModuleNotFoundError("No module named '%s'" % name)

def load(name):
    if name in mods: return mods[name]
    parent = None
    if '.' in name:
        parent = load(name.rsplit('.', 1)[0])
        if name in mods: return mods[name]
    path, pkg = path_of(name)
    m = types.ModuleType(name)
    m.__file__ = path
    m.__package__ = name if pkg else name.rsplit('.', 1)[0]
    if pkg: m.__path__ = [os.path.dirname(path)]
    m.__dict__['__builtins__'] = BUILTINS
    m.__dict__.update(__vc_f__=vc_f, __vc_fmt__=vc_fmt, __vc_join__=vc_join, __vc_comp__=vc_comp, __vc_gen__=vc_gen, __vc_loop__=Loop, __vc_issym__=vc_issym)
    src = open(path).read() if os.path.exists(path) else ''
    tree = Tr(name).visit(ast.parse(src, path))
    ast.fix_missing_locations(tree)
    mods[name] = m
    try:
        exec(compile(tree, path, 'exec'), m.__dict__)
    except BaseException:
        del mods[name]
        raise
    if parent is not None: setattr(parent, name.rsplit('.', 1)[1], m)
    return m

def reset():
    mods.clear()
