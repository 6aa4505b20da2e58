"""Contract registry (shared by the symbolic and the concrete mode)."""
import importlib, os, sys
CONTRACTS = []
class Contract(object):
    def __init__(self, prop, name, fn, targets, **kw):
        self.prop, self.name, self.fn, self.targets = prop, name, fn, targets
        self.loops = kw.pop('loops', None)          # function -> {index: LoopSpec}
        self.bounded = kw.pop('bounded', None)      # text: the bound under which the proof holds (never counted as unbounded proof)
        self.concrete_only = kw.pop('concrete_only', None)   # reason why no deductive proof is attempted
        self.fallback = kw.pop('fallback', ())      # values for symbolic sizes when the unbounded proof is out of reach
        self.samples = kw.pop('samples', 60)
        self.budget = kw.pop('budget', 60)
        self.frame = kw.pop('frame', True)
        self.needs = kw.pop('needs', ())
        assert not kw, kw
    @property
    def id(self): return '%s/%s' % (self.prop, self.name)
    def doc(self): return (self.fn.__doc__ or '').strip()

def contract(prop, name, targets, **kw):
    def deco(f):
        CONTRACTS.append(Contract(prop, name, f, [targets] if isinstance(targets, str) else list(targets), **kw))
        return f
    return deco

class LoopSpec(object):
    """invariant of a loop over a sequence of symbolic length; vars are the variables it describes"""
    def __init__(self, vars, havoc, inv):
        self.vars, self.havoc, self.inv = vars, havoc, inv

def load_all():
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts')
    root = os.path.dirname(d)
    if root not in sys.path: sys.path.insert(0, root)
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f[0] != '_': importlib.import_module('contracts.' + f[:-3])
    return CONTRACTS
