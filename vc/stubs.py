"""Packages the library imports that do not work as they are in this environment (chumpy) or are not installed (lace), for the concrete mode:
chumpy is the real package given the names it misses (the stand-in of chumpy_stub.py only where even that fails), lace is a stand-in."""
import sys, types
_done = []
def make(npmod):
    from vc import chumpy_stub
    return chumpy_stub.make_chumpy(npmod)
def quads_to_tris(np):
    def f(quads):
        # lace.topology.quads_to_tris: each quad (a, b, c, d) -> (a, b, c), (a, c, d)
        t = []
        for q in quads:
            t.append([q[0], q[1], q[2]])
            t.append([q[0], q[2], q[3]])
        return np.array(t)
    return f
class Alias(types.ModuleType):
    """numpy with the names that chumpy 0.70 expects and that are gone from numpy; seen by chumpy's own modules only"""
    OLD = dict(bool=bool, int=int, float=float, complex=complex, object=object, str=str, unicode=str)
    def __init__(self, np):
        types.ModuleType.__init__(self, 'numpy')
        self.__dict__['_np'] = np
    def __getattr__(self, k):
        if k in Alias.OLD and not hasattr(self._np, k): return Alias.OLD[k]
        return getattr(self._np, k)

def real_chumpy(np):
    """the real package: it only needs names that are gone from numpy and inspect while it is imported, and from numpy afterwards"""
    import inspect, warnings
    added = [k for k in Alias.OLD if k not in np.__dict__]
    spec = not hasattr(inspect, 'getargspec')
    try:
        for k in added: setattr(np, k, Alias.OLD[k])
        if spec: inspect.getargspec = inspect.getfullargspec
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            import chumpy, chumpy.utils
    finally:
        for k in added: delattr(np, k)
        if spec: del inspect.getargspec
    proxy = Alias(np)
    for name, m in list(sys.modules.items()):
        if name == 'chumpy' or name.startswith('chumpy.'):
            for k, v in list(vars(m).items()):
                if v is np: setattr(m, k, proxy)
                elif spec and v is inspect: setattr(m, k, types.SimpleNamespace(**dict(vars(inspect), getargspec=inspect.getfullargspec)))
    return chumpy, chumpy.utils

def install(np):
    if _done: return _done
    try:
        m, u = real_chumpy(np)
    except Exception:
        for k in [k for k in sys.modules if k == 'chumpy' or k.startswith('chumpy.')]: del sys.modules[k]
        m, u = make(np)
        sys.modules['chumpy'], sys.modules['chumpy.utils'] = m, u
    try:
        import lace.topology
    except Exception:
        l, t = types.ModuleType('lace'), types.ModuleType('lace.topology')
        l.__path__ = []
        t.quads_to_tris = quads_to_tris(np)
        l.topology = t
        sys.modules['lace'], sys.modules['lace.topology'] = l, t
    _done.extend([m, u])
    return _done
