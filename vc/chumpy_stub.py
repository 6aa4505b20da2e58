"""Stand-in for the part of chumpy the library uses (see stubs.py); the same text serves the symbolic and the concrete mode."""
import types

def make_chumpy(npmod):
    """minimal stand-in for chumpy used in both modes: Ch objects hold named terms / dependents as plain attributes,
    `.r` evaluates compute_r, dr_wrt calls compute_dr_wrt"""
    class Ch(object):
        terms = []
        dterms = []
        def __init__(self, *args, **kw):
            if args:
                if type(self) is Ch:
                    self.x = npmod.array(args[0]) if not isinstance(args[0], Ch) else args[0].r
                    return
                for k, v in zip(list(type(self).dterms) + list(type(self).terms), args): setattr(self, k, v)
            for k, v in kw.items(): setattr(self, k, v)
        @property
        def r(self):
            if type(self) is Ch: return self.x
            return self.compute_r()
        def dr_wrt(self, wrt):
            if self is wrt: return None
            return self.compute_dr_wrt(wrt)
        @property
        def shape(self): return self.r.shape
        @property
        def size(self): return self.r.size
        @property
        def ndim(self): return self.r.ndim
        def flatten(self): return self.r.flatten()
        def ravel(self): return self.r.ravel()
        def reshape(self, *s): return self.r.reshape(*s)
        @property
        def T(self): return self.r.T
        def __array__(self, *a, **k): return self.r
        def __array_sym__(self): return self.r
        def __getitem__(self, k): return self.r[k]
        def __len__(self): return len(self.r)
        def __sub__(self, o): return self.r - (o.r if isinstance(o, Ch) else o)
        def __add__(self, o): return self.r + (o.r if isinstance(o, Ch) else o)
        def __mul__(self, o): return self.r * (o.r if isinstance(o, Ch) else o)
        def on_changed(self, which): pass
        def add_dterm(self, name, v): setattr(self, name, v)
    def depends_on(*a):
        def deco(f): return property(f)
        return deco
    m = types.ModuleType('chumpy')
    m.Ch = Ch
    m.depends_on = depends_on
    m.array = lambda x: Ch(x)
    u = types.ModuleType('chumpy.utils')
    u.row = lambda A: A.reshape((1, -1))
    u.col = lambda A: A.reshape((-1, 1))
    m.utils = u
    return m, u
