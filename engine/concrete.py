"""Concrete context: replays a model of the symbolic run against the unmodified code."""
import math
from fractions import Fraction

class Violated(Exception):
    pass

class Skip(Exception):
    """The model does not satisfy an assumption concretely (rounding); not a reproduction."""

def number(s):
    f = Fraction(s)
    if f.denominator == 1: return int(f)
    x = float(f)
    return x

class ConcreteCtx:
    symbolic = False
    def __init__(self, model):
        self.m = model
        self.failed = []
        self.registry = {}
        self.nchecks = 0
        self.merge_depth = 0
        self.exports = []
    # inputs
    def real(self, name, **b):
        x = number(self.m['vars'].get(name, '0'))
        self._b(x, b); return x
    def int(self, name, **b):
        x = int(Fraction(self.m['vars'].get(name, '0')))
        self._b(x, b); return x
    def _b(self, x, b):
        if 'lo' in b: self.assume(x >= b['lo'])
        if 'hi' in b: self.assume(x <= b['hi'])
        if 'gt' in b: self.assume(x > b['gt'])
        if 'lt' in b: self.assume(x < b['lt'])
    def bool(self, name): return bool(self.m['bools'].get(name, False))
    def pick(self, name, values): return list(values)[self.m['picks'].get(name, 0)]
    def const(self, x): 
        f = Fraction(x)
        return int(f) if f.denominator == 1 else float(f)
    num = const
    def frac(self, x): return x
    def assume(self, f):
        if not f: raise Skip()
    def hint(self, f): pass
    # properties
    def check(self, f, msg='', info=None):
        self.nchecks += 1
        if not f:
            self.failed.append(msg)
            raise Violated(msg)
        return True
    def eq(self, a, b):
        if isinstance(a, str) or isinstance(b, str): return a == b
        a, b = float(a), float(b)
        if math.isinf(a) or math.isinf(b): return a == b
        return abs(a - b) <= 1e-7 + 1e-6 * max(abs(a), abs(b))
    def And(self, *fs): return all(bool(f) for f in fs)
    def Or(self, *fs): return any(bool(f) for f in fs)
    def Not(self, f): return not f
    def Iff(self, a, b): return bool(a) == bool(b)
    def Implies(self, a, b): return (not a) or bool(b)
    def truth(self, fn): return bool(fn())
    def value(self, fn): return fn()
    def exp(self, lp):
        return math.exp(float(lp))
    def log(self, p):
        return math.log(p) if p > 0 else -math.inf
    def ev(self, x): return x
