"""Stand-ins for the random source: every outcome it may produce, either as inputs (Rng) or enumerated with its exact probability (Tape)."""
import itertools
import numpy as _np

def _arr(xs):
    xs = list(xs)
    if any(type(x).__module__.startswith('engine') for x in xs): return vec(xs)
    return _np.array(xs)
def vec(xs):
    from engine import shims
    return shims.SymVec(xs)

class Source:
    """The methods of numpy's RandomState in terms of pick (one of n outcomes with given or equal probabilities) and unit (a number in (0, 1))."""
    def one(self, items, p):
        items = list(items)
        return items[self.pick(len(items), None if p is None else list(p))]
    def choice(self, a, size=None, replace=True, p=None):
        items = list(range(a)) if isinstance(a, int) else list(a)
        n = 1 if size is None else size[0] if isinstance(size, tuple) else size
        if not replace:
            assert p is None
            items = self._perm(items)[:n]
            return items[0] if size is None else _arr(items)
        xs = [self.one(items, p) for _ in range(n)]
        return xs[0] if size is None else _arr(xs)
    def _perm(self, xs):
        xs, out = list(xs), []
        while xs: out.append(xs.pop(self.pick(len(xs), None) if len(xs) > 1 else 0))
        return out
    def permutation(self, x):
        p = self._perm(range(x) if isinstance(x, int) else x)
        return _np.array(p) if isinstance(x, int) else p
    def shuffle(self, x):
        p = self._perm(list(x))
        for i, v in enumerate(p): x[i] = v
    def uniform(self, low=0.0, high=1.0, size=None):
        n = 1 if size is None else size[0] if isinstance(size, tuple) else size
        us = [low + (high - low) * self.unit() for _ in range(n)]
        if size is None: return us[0]
        return vec(us) if self.ctx.symbolic else _np.array(us)
    def random_sample(self, size=None): return self.uniform(size=size)
    def rand(self, n=None): return self.uniform(size=n)
    random = random_sample
    def randint(self, low, high=None, size=None):
        if high is None: low, high = 0, low
        return self.choice(list(range(low, high)), size=size)
    def multinomial(self, n, pvals, size=None):
        assert size is None
        pv = list(pvals)
        out = [0] * len(pv)
        for _ in range(n): out[self.pick(len(pv), pv)] += 1
        return _np.array(out)

class Rng(Source):
    """Outcomes are inputs of the case."""
    def __init__(self, ctx, name='r'): self.ctx, self.name, self.k, self.units = ctx, name, 0, []
    def pick(self, n, p):
        self.k += 1
        i = self.ctx.pick('%s%d' % (self.name, self.k), list(range(n)))
        if p is not None: self.ctx.assume(p[i] > 0)
        return i
    def unit(self):
        self.k += 1
        u = self.ctx.real('%su%d' % (self.name, self.k), gt=0, lt=1)
        self.units.append(u)
        return u

class Tape(Source):
    """Outcomes read from a tape; enumerate() runs a function on every tape and gives its value and the probability of the tape."""
    def __init__(self, ctx): self.ctx, self.tape, self.pos, self.p = ctx, [], 0, None
    def pick(self, n, p):
        if self.pos == len(self.tape): self.tape.append([0, n])
        i = self.tape[self.pos][0]
        assert self.tape[self.pos][1] == n, 'the random source was read differently on the same outcomes'
        self.pos += 1
        self.p = self.p * (p[i] if p is not None else self.ctx.const(1) / n)
        return i
    def enumerate(self, f):
        self.tape = []
        while True:
            self.pos, self.p = 0, self.ctx.const(1)
            v = f(self)
            yield v, self.p
            while self.tape and self.tape[-1][0] == self.tape[-1][1] - 1: self.tape.pop()
            if not self.tape: return
            self.tape[-1][0] += 1

class Recorder:
    """Records the draws of a law."""
    def __init__(self, d):
        self.draws, rvs = [], d.rvs
        def wrapped(size=None, random_state=None):
            xs = rvs(size=size, random_state=random_state)
            self.draws.extend(list(xs) if size is not None else [xs])
            return xs
        d.rvs = wrapped
