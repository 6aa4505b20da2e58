"""P01 units, P02 values, P03 rounding."""
from fractions import Fraction as Q
from vc.registry import contract
U = 'blmath.units.'
VA = 'blmath.value.Value'

# the standard sizes, independent of the code (angles: degrees per unit, None = 180 / pi)
SIZES = {
    'length': {'m': 1, 'meter': 1, 'meters': 1, 'mm': Q(1, 1000), 'millimeter': Q(1, 1000), 'millimeters': Q(1, 1000), 'cm': Q(1, 100), 'centimeter': Q(1, 100), 'centimeters': Q(1, 100),
               'in': Q(254, 10000), 'inch': Q(254, 10000), 'inches': Q(254, 10000), 'ft': Q(3048, 10000), 'foot': Q(3048, 10000), 'feet': Q(3048, 10000),
               'fathoms': 6 * Q(3048, 10000), 'cubits': 18 * Q(254, 10000)},
    'weight': {'kg': 1, 'kilograms': 1, 'g': Q(1, 1000), 'grams': Q(1, 1000), 'lbs': 1 / Q(220462, 100000), 'pounds': 1 / Q(220462, 100000), 'lb': 1 / Q(220462, 100000), 'stone': 1 / Q(157473, 1000000)},
    'angle': {'deg': 1, 'degrees': 1, 'rad': None, 'radians': None},
    'time': {'sec': 1, 'second': 1, 'seconds': 1, 'min': 60, 'minute': 60, 'minutes': 60, 'hr': 3600, 'hour': 3600, 'hours': 3600, 'day': 86400, 'days': 86400,
             'yr': 86400 * Q(365242, 1000), 'year': 86400 * Q(365242, 1000), 'years': 86400 * Q(365242, 1000)},
    'time_rate': {'hours_per_week': 1},
}
CLASS = {u: k for k, d in SIZES.items() for u in d}
ALL = list(CLASS)
DEFAULTS = {'metric': {'length': 'cm', 'weight': 'kg', 'angle': 'deg', 'time': 'yr', 'time_rate': 'hours_per_week'},
            'united_states': {'length': 'in', 'weight': 'lb', 'angle': 'deg', 'time': 'yr', 'time_rate': 'hours_per_week'}}

def size(c, u):
    s = SIZES[CLASS[u]][u]
    return c.q(s) if s is not None else 180 / c.pi
def ratio(c, a, b):
    return size(c, a) / size(c, b)
def same_ratio(c, r, a, b):
    """relative comparison, meaningful for tiny and huge factors"""
    return c.eq(r * (size(c, b) / size(c, a)), 1)
def pairs(c, within=True):
    return [(a, b) for a in ALL for b in ALL if (CLASS[a] == CLASS[b]) == within]

@contract('P01', 'factors', [U + 'factor', U + 'Units.factor'], samples=2)
def factors(c):
    """for every ordered pair of units of one class the factor is the ratio of the standard sizes (hence inverse and composition laws)"""
    f = {}
    for a, b in pairs(c):
        r = c.call(U + 'factor', a, b)
        c.prove('factor returns a number', not c.raised(r), note='%s %s %r' % (a, b, r))
        if c.raised(r): continue
        f[a, b] = r
        c.prove('the factor is the ratio of the standard sizes', same_ratio(c, r, a, b), note='%s %s %r' % (a, b, r))
        r2 = c.call(U + 'factor', a, b, CLASS[a])
        c.prove('requiring the class the units have changes nothing', not c.raised(r2) and c.eq(r2, r), note='%s %s %r' % (a, b, r2))
    for a, b in pairs(c):
        if (a, b) in f and (b, a) in f: c.prove('a conversion and its inverse cancel', c.eq(f[a, b] * f[b, a], 1), note='%s %s' % (a, b))

@contract('P01', 'composition', [U + 'factor', U + 'convert'], samples=80)
def composition(c):
    """converting through a third unit changes nothing"""
    k = c.choice('class', list(SIZES))
    us = list(SIZES[k])
    x = c.real('x')
    if c.symbolic: trip = [(a, b, d) for a in us for b in us for d in us]
    else: trip = [(c.rng.choice(us), c.rng.choice(us), c.rng.choice(us)) for _ in range(20)]
    F = {(a, b): c.call(U + 'factor', a, b) for a in us for b in us}
    for a, b, d in trip:
        if any(c.raised(F[p]) for p in ((a, b), (b, d), (a, d))):
            c.prove('factor returns a number', False, note='%s %s %s' % (a, b, d)); continue
        c.prove('conversions compose', c.eq(F[a, b] * F[b, d] * (size(c, d) / size(c, a)), F[a, d] * (size(c, d) / size(c, a))), note='%s %s %s' % (a, b, d))

@contract('P01', 'convert', [U + 'convert', U + 'Units.convert', U + 'convert_list', U + 'Units.convert_list'], samples=150)
def convert(c):
    """converting multiplies by the factor and reports the target unit"""
    a = c.choice('from', ALL)
    b = c.choice('to', list(SIZES[CLASS[a]]))
    x = c.real('x')
    req = c.choice('class required', [None, CLASS[a]])
    r = c.value('convert', U + 'convert', x, a, b) if req is None else c.value('convert', U + 'convert', x, a, b, units_class=req)
    c.prove('two results', isinstance(r, tuple) and len(r) == 2)
    c.prove('the number is multiplied by the ratio of the sizes', c.eq(r[0] * (size(c, b) / size(c, a)), x))
    c.prove('the unit is the one asked for', r[1] == b)
    c.prove('a missing number stays missing', c.value('convert', U + 'convert', None, a, b) == (None, None))

@contract('P01', 'convert_list', [U + 'convert_list', U + 'Units.convert_list'], samples=100)
def convert_list(c):
    """element by element, for lists of any length"""
    a = c.choice('from', ALL)
    us = list(SIZES[CLASS[a]])
    b = c.choice('to', us)
    n = c.int('n', lo=0)
    xs = c.reals('xs', n)
    r = c.value('convert_list', U + 'convert_list', xs, a, b)
    c.prove('one result per element', c.eq(c.len(r), n))
    c.prove('every element is converted', c.forall(n, lambda i: c.eq(r[i] * (size(c, b) / size(c, a)), xs[i])))

@contract('P01', 'class_refusal', [U + 'factor', U + 'convert', U + 'convert_list'], samples=2)
def class_refusal(c):
    """units of different classes never convert"""
    x = c.real('x')
    for a, b in pairs(c, False):
        r = c.call(U + 'factor', a, b)
        c.prove('factor across classes is refused', c.raised(r), note='%s %s %r' % (a, b, r))
    for a, b in [(a, b) for a in ('cm', 'ft', 'kg', 'stone', 'deg', 'rad', 'min', 'yr', 'hours_per_week') for b in ALL if CLASS[a] != CLASS[b]]:
        r = c.call(U + 'convert', x, a, b)
        c.prove('convert across classes is refused', c.raised(r), note='%s %s %r' % (a, b, r))
        r = c.call(U + 'convert', None, a, b)
        c.prove('convert of a missing number across classes is refused', c.raised(r), note='%s %s %r' % (a, b, r))
        r = c.call(U + 'convert_list', [x, x], a, b)
        c.prove('convert_list across classes is refused', c.raised(r), note='%s %s %r' % (a, b, r))

@contract('P01', 'required_class', [U + 'factor', U + 'convert'], samples=2)
def required_class(c):
    """a required class the units do not have is refused"""
    x = c.real('x')
    for a in ALL:
        for k in SIZES:
            if k == CLASS[a]: continue
            for b in (a, list(SIZES[CLASS[a]])[0], list(SIZES[CLASS[a]])[-1]):
                r = c.call(U + 'factor', a, b, k)
                c.prove('a class the units do not have is refused', c.raised(r), note='%s %s %s %r' % (a, b, k, r))
                r = c.call(U + 'convert', x, a, b, units_class=k)
                c.prove('convert requiring another class is refused', c.raised(r), note='%s %s %s %r' % (a, b, k, r))

@contract('P01', 'no_units', [U + 'factor', U + 'convert', U + 'Units.factor', U + 'Units.convert'])
def no_units(c):
    """between no units at all nothing changes; between no unit and a unit there is no conversion"""
    x = c.real('x')
    none = c.choice('none', [None, ''])
    other = c.choice('other', [None, ''])
    c.prove('the factor is one', c.eq(c.value('factor', U + 'factor', none, other), 1))
    r = c.value('convert', U + 'convert', x, none, other)
    c.prove('the number stays', c.eq(r[0], x))
    a = c.choice('unit', ALL)
    c.raises('factor from no unit', U + 'factor', none, a)
    c.raises('factor to no unit', U + 'factor', a, none)

@contract('P01', 'unknown_units', [U + 'factor', U + 'convert'])
def unknown_units(c):
    bad = c.choice('bad', ['parsec', 'CM', 'cm ', 'kilo', 'x'])
    x = c.real('x')
    for a in ('cm', 'kg', 'deg', 'sec', bad):
        c.raises('factor with an unknown unit', U + 'factor', a, bad)
        c.raises('factor from an unknown unit', U + 'factor', bad, a)
        c.raises('convert with an unknown unit', U + 'convert', x, a, bad)

@contract('P01', 'system_defaults', [U + 'convert_to_system_default', U + 'convert_to_default', U + 'default_units', U + 'units_class'], samples=2)
def system_defaults(c):
    """the unit system's default unit of the class, and the number expressed in it"""
    x = c.real('x')
    for s in DEFAULTS:
        for a in ALL:
            d = DEFAULTS[s][CLASS[a]]
            r = c.call(U + 'convert_to_system_default', x, a, s)
            ok = not c.raised(r) and isinstance(r, tuple) and len(r) == 2
            c.prove('converting to a system default returns a number and a unit', ok, note='%s %s %r' % (s, a, r))
            if not ok: continue
            c.prove("the unit is the system's default", r[1] == d, note='%s %s %r' % (s, a, r))
            c.prove('the number is expressed in it', c.eq(r[0] * (size(c, d) / size(c, a)), x), note='%s %s %r' % (s, a, r))
            if s == 'metric':
                r = c.call(U + 'convert_to_system_default', x, a)
                c.prove('the default system is metric', not c.raised(r) and r[1] == d, note='%s %r' % (a, r))
    for a in ALL:
        r = c.call(U + 'units_class', a)
        c.prove('the class of a unit', r == CLASS[a], note='%s %r' % (a, r))

@contract('P01', 'custom_defaults', [U + 'convert_to_default', U + 'default_units'])
def custom_defaults(c):
    """explicit defaults; overriding defaults does not leak into later calls"""
    x = c.real('x')
    a = c.choice('unit', ['ft', 'kg', 'rad', 'hr', 'mm', 'stone'])
    d = {k: c.choice('default ' + k, list(v)[:1] + list(v)[-1:]) for k, v in SIZES.items()} if not c.symbolic else {k: list(v)[-1] for k, v in SIZES.items()}
    r = c.value('convert_to_default', U + 'convert_to_default', x, a, d)
    c.prove('the unit is the given default', r[1] == d[CLASS[a]])
    c.prove('the number is expressed in it', c.eq(r[0] * (size(c, d[CLASS[a]]) / size(c, a)), x))
    s = c.choice('system', ['metric', 'united_states'])
    e = c.value('default_units', U + 'default_units', s, {'length': 'ft'})
    c.prove('an exception overrides the default', e['length'] == 'ft' and all(e[k] == DEFAULTS[s][k] for k in DEFAULTS[s] if k != 'length'))
    f = c.value('default_units', U + 'default_units', s)
    c.prove('the defaults are unchanged afterwards', f == DEFAULTS[s])

# ------------------------------------------------------------------ P02
import operator as op
CLS1 = ['mm', 'cm', 'm', 'in', 'ft', 'fathoms', 'cubits']
def mk(c, name, us=None):
    u = c.choice(name + ' unit', us or ALL)
    x = c.real(name)
    return c.value('constructor', VA, x, u), x, u
def isval(c, r): return type(r).__name__ == 'Value'
def is_(c, r, num, unit):
    """r is the quantity num unit"""
    return c.and_(isval(c, r), r.units == unit, c.eq(r.value, num)) if isval(c, r) else False
def unchanged(c, v, x, u): return c.and_(c.eq(v.value, x), v.units == u)

@contract('P02', 'add_sub', [VA + '.__add__', VA + '.__sub__', VA + '._comparable', VA + '.convert'], samples=200)
def add_sub(c):
    """the right operand is expressed in the left operand's unit"""
    a, x, u = mk(c, 'a')
    b, y, w = mk(c, 'b', list(SIZES[CLASS[u]]))
    k = ratio(c, w, u)
    r = c.value('addition', op.add, a, b)
    c.prove('the sum', is_(c, r, x + y * k, u))
    r = c.value('subtraction', op.sub, a, b)
    c.prove('the difference', is_(c, r, x - y * k, u))
    c.prove('the operands are unchanged', c.and_(unchanged(c, a, x, u), unchanged(c, b, y, w)))

@contract('P02', 'compare', [VA + '.__eq__', VA + '.__ne__', VA + '.__lt__', VA + '.__gt__', VA + '.__le__', VA + '.__ge__', VA + '._comparable'], samples=200)
def compare(c):
    """all six comparisons, also against a bare number"""
    a, x, u = mk(c, 'a')
    if c.boolean('bare'):
        b = y = c.real('b'); k = c.q(1)
        if not c.symbolic and c.rng.random() < .3: b = y = x
    else:
        b, y, w = mk(c, 'b', list(SIZES[CLASS[u]])); k = ratio(c, w, u)
    z = y * k
    for o, f in ((op.lt, c.lt), (op.gt, c.gt), (op.le, c.le), (op.ge, c.ge)):
        r = c.value('comparison', o, a, b)
        c.prove('comparison %s' % o.__name__, c.iff(r, f(x, z)))
        c.prove('a comparison returns a truth value', isinstance(r, bool) or c.symbolic)
    e = (c.eq(x, z) if c.symbolic else (x == z if k == 1 else c.eq(x, z)))
    c.prove('equality', c.iff(c.value('comparison', op.eq, a, b), e))
    c.prove('inequality', c.iff(c.value('comparison', op.ne, a, b), c.not_(e)))

@contract('P02', 'reflected', [VA + '.__radd__', VA + '.__rsub__', VA + '.__rmul__', VA + '.__add__', VA + '.__sub__'], samples=150)
def reflected(c):
    """bare numbers on either side are in the quantity's own unit"""
    a, x, u = mk(c, 'a')
    y = c.real('y')
    c.prove('quantity + number', is_(c, c.value('addition', op.add, a, y), x + y, u))
    c.prove('number + quantity', is_(c, c.value('addition', op.add, y, a), x + y, u))
    c.prove('quantity - number', is_(c, c.value('subtraction', op.sub, a, y), x - y, u))
    c.prove('number - quantity', is_(c, c.value('subtraction', op.sub, y, a), y - x, u))
    c.prove('quantity * number', is_(c, c.value('scaling', op.mul, a, y), x * y, u))
    c.prove('number * quantity', is_(c, c.value('scaling', op.mul, y, a), x * y, u))
    c.prove('the operand is unchanged', unchanged(c, a, x, u))

@contract('P02', 'scaling', [VA + '.__mul__', VA + '.__truediv__', VA + '.__floordiv__', VA + '.__neg__', VA + '.__abs__', VA + '.__pos__', VA + '.__div__'], samples=150)
def scaling(c):
    """scaling, negating and taking the absolute value keep the unit"""
    a, x, u = mk(c, 'a')
    y = c.real('y')
    c.assume(c.ne(y, 0)); c.well(lambda: c.gt(c.abs(y), 1e-3))
    c.prove('quantity / number', is_(c, c.value('division', op.truediv, a, y), x / y, u))
    r = c.value('floor division', op.floordiv, a, y)
    if c.symbolic or abs(x / y - round(x / y)) > 1e-6: c.prove('quantity // number', is_(c, r, c.floor(x / y), u))
    c.prove('- quantity', is_(c, c.value('negation', op.neg, a), -x, u))
    c.prove('+ quantity', is_(c, c.value('plus', op.pos, a), x, u))
    c.prove('abs(quantity)', is_(c, c.value('absolute value', abs, a), c.abs(x), u))
    c.prove('the operand is unchanged', unchanged(c, a, x, u))

@contract('P02', 'ratios', [VA + '.__truediv__', VA + '.__floordiv__'], samples=200)
def ratios(c):
    """the ratio is unitless and does not depend on the units used"""
    a, x, u = mk(c, 'a')
    b, y, w = mk(c, 'b', list(SIZES[CLASS[u]]))
    c.assume(c.ne(y, 0)); c.well(lambda: c.gt(c.abs(y), 1e-2))
    k = ratio(c, w, u)
    r = c.value('ratio', op.truediv, a, b)
    c.prove('the ratio is unitless', isval(c, r) and r.units is None)
    c.prove('the ratio is that of the magnitudes in a common unit', c.eq(r.value * (y * k), x))
    f = c.value('floor ratio', op.floordiv, a, b)
    c.prove('the floor ratio is unitless', isval(c, f) and f.units is None)
    t = x / (y * k)
    if c.symbolic or abs(t - round(t)) > 1e-6 * max(1, abs(t)): c.prove('the floor ratio', c.eq(f.value, c.floor(t)))
    c.prove('the operands are unchanged', c.and_(unchanged(c, a, x, u), unchanged(c, b, y, w)))

@contract('P02', 'mixed_classes', [VA + '.__add__', VA + '.__sub__', VA + '.__lt__', VA + '.__truediv__', VA + '.__floordiv__', VA + '._comparable'], samples=60)
def mixed_classes(c):
    """mixing unit classes is an error for every operator"""
    reps = ['cm', 'ft', 'kg', 'lb', 'deg', 'rad', 'min', 'yr', 'hours_per_week']
    a, x, u = mk(c, 'a', reps)
    b, y, w = mk(c, 'b', [r for r in reps if CLASS[r] != CLASS[u]])
    for o in (op.add, op.sub, op.lt, op.gt, op.le, op.ge, op.eq, op.ne, op.truediv, op.floordiv):
        r = c.call(o, a, b)
        c.prove('%s across classes is refused' % o.__name__, c.raised(r), note=repr(r))
    for w2 in ALL:
        if CLASS[w2] != CLASS[u]:
            c.prove('conversion to another class is refused', c.raised(c.call(a.convert, w2)))
    c.prove('the operands are unchanged', c.and_(unchanged(c, a, x, u), unchanged(c, b, y, w)))

@contract('P02', 'unsupported_algebra', [VA + '.__mul__', VA + '.__rtruediv__', VA + '.__rfloordiv__', VA + '.__pow__', VA + '.__mod__', VA + '.__init__'], samples=60)
def unsupported_algebra(c):
    """products of quantities, number / quantity, powers; unknown units; missing numbers"""
    reps = ['cm', 'ft', 'kg', 'deg', 'yr']
    a, x, u = mk(c, 'a', reps)
    b, y, w = mk(c, 'b', reps)
    c.raises('quantity * quantity', op.mul, a, b)
    c.raises('number / quantity', op.truediv, y, a)
    c.raises('number // quantity', op.floordiv, y, a)
    c.raises('quantity ** number', op.pow, a, 2)
    c.raises('quantity % quantity', op.mod, a, b)
    c.raises('an unknown unit', VA, x, c.choice('bad', ['parsec', '', 'CM', 'cms']))
    c.raises('a missing number', VA, None, u)
    c.prove('the operands are unchanged', c.and_(unchanged(c, a, x, u), unchanged(c, b, y, w)))

@contract('P02', 'conversion', [VA + '.convert', VA + '.__getattr__', VA + '.convert_to_system_default', VA + '.__float__', VA + '.__getitem__'], samples=150)
def conversion(c):
    """expressing a quantity in another unit"""
    a, x, u = mk(c, 'a')
    w = c.choice('to', list(SIZES[CLASS[u]]))
    r = c.value('convert', a.convert, w)
    c.prove('the converted quantity', is_(c, r, x * ratio(c, u, w), w))
    g = c.get(a, w)
    c.prove('the same by attribute', is_(c, g, x * ratio(c, u, w), w) if not c.raised(g) else False)
    s = c.choice('system', ['metric', 'united_states'])
    d = DEFAULTS[s][CLASS[u]]
    c.prove("the system's default", is_(c, c.value('convert_to_system_default', a.convert_to_system_default, s), x * ratio(c, u, d), d))
    c.prove('the number itself', c.and_(c.eq(c.value('indexing', op.getitem, a, 0), x), c.value('indexing', op.getitem, a, 1) == u))
    c.prove('the operand is unchanged', unchanged(c, a, x, u))

@contract('P02', 'lists', [VA + '.__mul__', VA + '.__add__', VA + '.__sub__', VA + '.__rsub__'], samples=100)
def lists(c):
    """lists are treated element by element"""
    a, x, u = mk(c, 'a', ['cm', 'ft', 'kg', 'yr'])
    n = c.int('n', lo=0, typical=[0, 1, 2, 3])
    xs = c.reals('xs', n)
    for name, o, f in (('sum', op.add, lambda p: x + p), ('difference', op.sub, lambda p: x - p), ('product', op.mul, lambda p: x * p)):
        r = c.value(name, o, a, xs)
        c.prove('%s with a list' % name, c.and_(c.eq(c.len(r), n), c.forall(n, lambda i: c.and_(r[i].units == u, c.eq(r[i].value, f(xs[i]))))))
    for name, m, f in (('list + quantity', a.__radd__, lambda p: p + x), ('list - quantity', a.__rsub__, lambda p: p - x), ('list * quantity', a.__rmul__, lambda p: p * x)):
        r = c.value(name, m, xs)
        c.prove('%s' % name, c.and_(c.eq(c.len(r), n), c.forall(n, lambda i: c.and_(r[i].units == u, c.eq(r[i].value, f(xs[i]))))))
    if not c.symbolic:
        r = c.value('list - quantity', lambda: xs - a)
        c.prove('list - quantity', c.and_(c.eq(c.len(r), n), c.forall(n, lambda i: c.and_(r[i].units == u, c.eq(r[i].value, xs[i] - x)))))


# ------------------------------------------------------------------ P03
R = 'blmath.numerics.rounding.'
@contract('P03', 'round_to', R + 'round_to', samples=150)
def round_to(c):
    """a multiple of the increment within half an increment"""
    x = c.real('x')
    d = c.real('d', pos=True)
    if not c.symbolic: d = c.rng.choice([d, 0.5, 0.25, 0.1, 2.0, 1.0, 0.01, 3.0]); c.inputs['d'] = d
    c.well(lambda: c.gt(d, 1e-3))
    r = c.value('round_to', R + 'round_to', x, d)
    q = r / d
    c.prove('a multiple of the increment', c.is_int(q))
    c.prove('within half an increment', c.and_(c.le(r - x, d / 2), c.le(x - r, d / 2)))

@contract('P03', 'round_to_laws', R + 'round_to', samples=150)
def round_to_laws(c):
    """grid points are fixed; monotone; idempotent"""
    d = c.real('d', pos=True)
    if not c.symbolic: d = c.rng.choice([d, 0.5, 0.25, 0.1, 2.0, 1.0, 0.01, 3.0]); c.inputs['d'] = d
    c.well(lambda: c.gt(d, 1e-3))
    k = c.int('k', lo=-1000000) if c.symbolic else c.rng.randint(-50, 50)
    c.prove('grid points are unchanged', c.eq(c.value('round_to', R + 'round_to', k * d, d), k * d))
    x = c.real('x'); e = c.real('e', lo=0)
    r, s = c.value('round_to', R + 'round_to', x, d), c.value('round_to', R + 'round_to', x + e, d)
    c.prove('monotone', c.le(r, s))
    c.prove('idempotent', c.eq(c.value('round_to', R + 'round_to', r, d), r))

@contract('P03', 'rounded_list', R + 'rounded_list', samples=100)
def rounded_list(c):
    """every number rounded to the requested decimals"""
    n = c.int('n', lo=0)
    xs = c.reals('xs', n)
    p = c.choice('p', [0, 1, 2, 3, None])
    r = c.value('rounded_list', R + 'rounded_list', xs) if p is None else c.value('rounded_list', R + 'rounded_list', xs, p)
    u = 10 ** (p or 0)
    c.prove('as many numbers', c.eq(c.len(r), n))
    c.prove('every number is within half a unit of the last decimal', c.forall(n, lambda i: c.and_(c.le((r[i] - xs[i]) * u, c.q(1, 2)), c.le((xs[i] - r[i]) * u, c.q(1, 2)))))
    c.prove('every number has the requested decimals', c.forall(n, lambda i: c.is_int(r[i] * u)))

@contract('P03', 'rounded_list_missing', R + 'rounded_list', samples=100, bounded='lists of at most 3 entries')
def rounded_list_missing(c):
    """missing entries stay missing, in order"""
    n = c.choice('n', [0, 1, 2, 3])
    xs = [None if c.boolean('missing%d' % i) else c.real('x%d' % i) for i in range(n)]
    p = c.choice('p', [0, 2])
    r = c.value('rounded_list', R + 'rounded_list', xs, p)
    c.prove('as many entries', isinstance(r, list) and len(r) == n)
    for i in range(n):
        if xs[i] is None: c.prove('missing entries stay missing', r[i] is None)
        else: c.prove('numbers are rounded', c.and_(r[i] is not None, c.le(c.abs(r[i] - xs[i]) * 10 ** p, c.q(1, 2)), c.is_int(r[i] * 10 ** p)))

INC = {'cm': Q(1, 2), 'in': Q(1, 4), 'kg': Q(1, 2), 'lb': 1, 'yr': 1}
def pretty_ok(c, r, x, u, prec):
    c.prove('four results', isinstance(r, tuple) and len(r) == 4)
    for j, s in ((0, 'metric'), (2, 'united_states')):
        d = DEFAULTS[s][CLASS[u]]
        inc = c.q(INC.get(d, Q(1, 10))) if prec is None else c.q(Q(1, 10 ** prec))
        v = x * ratio(c, u, d)
        c.prove('labelled with the default %s unit' % s, r[j + 1] == d)
        c.prove('the %s number is a multiple of the increment' % s, c.is_int(r[j] / inc))
        c.prove('the %s number is within half an increment' % s, c.and_(c.le(r[j] - v, inc / 2), c.le(v - r[j], inc / 2)))

@contract('P03', 'prettify', [U + 'prettify', U + 'Units.prettify', R + 'round_to'], samples=200)
def prettify(c):
    u = c.choice('unit', ALL)
    x = c.real('x')
    prec = c.choice('precision', [None, 0, 1, 2])
    r = c.value('prettify', U + 'prettify', x, u) if prec is None else c.value('prettify', U + 'prettify', x, u, precision=prec)
    pretty_ok(c, r, x, u, prec)

@contract('P03', 'value_round', [VA + '.round', VA + '.__round__', VA + '.__int__'], samples=100)
def value_round(c):
    """a quantity rounds its own number, in its own unit"""
    a, x, u = mk(c, 'a')
    d = c.real('d', pos=True)
    if not c.symbolic: d = c.rng.choice([d, 0.5, 0.25, 2.0]); c.inputs['d'] = d
    c.well(lambda: c.gt(d, 1e-3))
    r = c.value('round', a.round, d)
    c.prove('a multiple of the increment', c.is_int(r / d))
    c.prove('within half an increment', c.and_(c.le(r - x, d / 2), c.le(x - r, d / 2)))
    p = c.choice('p', [0, 1, 2])
    r = c.value('round to decimals', round, a, p)
    c.prove('the unit is kept', c.and_(isval(c, r), r.units == u))
    c.prove('within half a unit of the last decimal', c.and_(c.le((r.value - x) * 10 ** p, c.q(1, 2)), c.le((x - r.value) * 10 ** p, c.q(1, 2)), c.is_int(r.value * 10 ** p)))
    c.prove('the operand is unchanged', unchanged(c, a, x, u))

@contract('P03', 'prettified_value', [VA + '.prettified', U + 'prettify'], samples=100)
def prettified_value(c):
    a, x, u = mk(c, 'a')
    r = c.get(a, 'prettified')
    c.prove('prettified: returns normally', not c.raised(r), note=repr(r))
    if c.raised(r): c.stop()
    pretty_ok(c, r, x, u, None)
