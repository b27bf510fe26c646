"""Expressions of one variable with symbolic constants, and their arithmetic on values computed independently."""
import math
from sppl.transforms import Exp, Exponential, Id, Log, Logarithm, Sqrt
X = Id('X')

def root(ctx, y, n):
    if ctx.symbolic:
        from engine import shims
        return shims.root_of(y, n)
    return float(y) ** (1.0 / n)
def power(ctx, base, y):
    """base ** y for a positive base; base None is e"""
    if ctx.symbolic:
        from engine import shims
        import sympy
        return shims.trans_exp(y, shims._sp.E if base is None else base)
    try: return (math.e if base is None else float(base)) ** float(y)
    except OverflowError: ctx.assume(False)      # beyond floating point
def logb(ctx, base, y):
    if ctx.symbolic:
        from engine import shims
        return shims.trans_log(y, shims._sp.E if base is None else base)
    return math.log(float(y)) / (1.0 if base is None else math.log(float(base)))
def E_():
    import sympy
    return sympy.exp(1)

# name: (constants(ctx, n) -> dict, expression(E, k), value(ctx, y, k), domain(ctx, y, k))
def nz(ctx, n):
    c = ctx.real(n + 'c'); ctx.assume(ctx.Not(c == 0)); return dict(c=c)
def any_(ctx, n): return dict(c=ctx.real(n + 'c'))
def pos(ctx, n): return dict(c=ctx.real(n + 'c', gt=0))
def base(ctx, n):
    c = ctx.real(n + 'b', gt=0); ctx.assume(ctx.Not(c == 1)); return dict(c=c)
def none(ctx, n): return {}
def ab(ctx, n):
    a, b = ctx.real(n + 'a'), ctx.real(n + 'b'); ctx.assume(ctx.Not(a == 0)); return dict(a=a, b=b)
T = lambda ctx, y, k: True
def rat(p, q):
    import sympy
    return sympy.Rational(p, q)
FORMS = {
    'x': (none, lambda E, k: E, lambda ctx, y, k: y, T),
    'neg': (none, lambda E, k: -E, lambda ctx, y, k: -y, T),
    'abs': (none, lambda E, k: abs(E), lambda ctx, y, k: abs(y), T),
    '+c': (any_, lambda E, k: E + k['c'], lambda ctx, y, k: y + k['c'], T),
    'c+': (any_, lambda E, k: k['c'] + E, lambda ctx, y, k: y + k['c'], T),
    '-c': (any_, lambda E, k: E - k['c'], lambda ctx, y, k: y - k['c'], T),
    'c-': (any_, lambda E, k: k['c'] - E, lambda ctx, y, k: k['c'] - y, T),
    '*c': (any_, lambda E, k: E * k['c'], lambda ctx, y, k: y * k['c'], T),
    'c*': (any_, lambda E, k: k['c'] * E, lambda ctx, y, k: y * k['c'], T),
    '/c': (nz, lambda E, k: E / k['c'], lambda ctx, y, k: y / k['c'], T),
    'c/': (nz, lambda E, k: k['c'] / E, lambda ctx, y, k: k['c'] / y, lambda ctx, y, k: ctx.Not(y == 0)),
    '1/': (none, lambda E, k: 1 / E, lambda ctx, y, k: 1 / y, lambda ctx, y, k: ctx.Not(y == 0)),
    '**1': (none, lambda E, k: E ** 1, lambda ctx, y, k: y, T),
    '**2': (none, lambda E, k: E ** 2, lambda ctx, y, k: y * y, T),
    '**3': (none, lambda E, k: E ** 3, lambda ctx, y, k: y * y * y, T),
    '**4': (none, lambda E, k: E ** 4, lambda ctx, y, k: y * y * y * y, T),
    '**-1': (none, lambda E, k: E ** -1, lambda ctx, y, k: 1 / y, lambda ctx, y, k: ctx.Not(y == 0)),
    '**-2': (none, lambda E, k: E ** -2, lambda ctx, y, k: 1 / (y * y), lambda ctx, y, k: ctx.Not(y == 0)),
    '**-3': (none, lambda E, k: E ** -3, lambda ctx, y, k: 1 / (y * y * y), lambda ctx, y, k: ctx.Not(y == 0)),
    'sqrt': (none, lambda E, k: Sqrt(E), lambda ctx, y, k: root(ctx, y, 2), lambda ctx, y, k: y >= 0),
    '**(1,2)': (none, lambda E, k: E ** (1, 2), lambda ctx, y, k: root(ctx, y, 2), lambda ctx, y, k: y >= 0),
    '**(1,3)': (none, lambda E, k: E ** (1, 3), lambda ctx, y, k: root(ctx, y, 3), lambda ctx, y, k: y >= 0),
    '**1/3': (none, lambda E, k: E ** rat(1, 3), lambda ctx, y, k: root(ctx, y, 3), lambda ctx, y, k: y >= 0),
    '**(-1,2)': (none, lambda E, k: E ** (-1, 2), lambda ctx, y, k: 1 / root(ctx, y, 2), lambda ctx, y, k: y > 0),
    '**(4,2)': (none, lambda E, k: E ** (4, 2), lambda ctx, y, k: y * y, T),
    'exp': (none, lambda E, k: Exp(E), lambda ctx, y, k: power(ctx, None, y), T),
    '2**': (none, lambda E, k: 2 ** E, lambda ctx, y, k: power(ctx, 2, y), T),
    '.5**': (none, lambda E, k: .5 ** E, lambda ctx, y, k: power(ctx, 0.5, y), T),
    '1**': (none, lambda E, k: 1 ** E, lambda ctx, y, k: y * 0 + 1, T),
    'b**': (base, lambda E, k: k['c'] ** E, lambda ctx, y, k: power(ctx, k['c'], y), T),
    'log': (none, lambda E, k: Log(E), lambda ctx, y, k: logb(ctx, None, y), lambda ctx, y, k: y > 0),
    'log2': (none, lambda E, k: Logarithm(E, 2), lambda ctx, y, k: logb(ctx, 2, y), lambda ctx, y, k: y > 0),
    'lin': (ab, lambda E, k: k['a'] * E + k['b'], lambda ctx, y, k: k['a'] * y + k['b'], T),
    'lin-': (ab, lambda E, k: k['b'] - E * k['a'], lambda ctx, y, k: k['b'] - k['a'] * y, T),
}

class Ex:
    def __init__(self, obj, value, domain): self.obj, self.value, self.domain = obj, value, domain

def chain(ctx, names, n='k', constants=None):
    """names applied inside out: ['sqrt', 'neg'] is -(sqrt(X))"""
    obj = X; steps = []
    for i, nm in enumerate(names):
        mk, ex, val, dom = FORMS[nm]
        k = (constants or {}).get(i) or mk(ctx, '%s%d' % (n, i))
        obj = ex(obj, k)
        steps.append((val, dom, k))
    def value(x):
        for val, dom, k in steps: x = val(ctx, x, k)
        return x
    def domain(x):
        """Branches on the domain layer by layer; returns whether x is in it."""
        for i, (val, dom, k) in enumerate(steps):
            if names[i] in ('log', 'log2'): ctx.assume(ctx.Not(x == 0))      # unspecified
            if not bool(dom(ctx, x, k)): return False
            x = val(ctx, x, k)
        return True
    r = Ex(obj, value, domain)
    r.steps, r.names = steps, list(names)
    return r
