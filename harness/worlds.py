"""Distributions with unspecified (symbolic) law, joint models over them, events, and the measure oracle.

A continuous law is an arbitrary non-decreasing continuous cdf: a table of values at the points asked for,
kept consistent with monotonicity.  An integer law is an arbitrary non-decreasing cdf on the integers.
In a replay the table of the model is turned into a scipy distribution.
"""
import itertools, math, os
from fractions import Fraction
INF = float('inf')
CONCRETE = bool(os.environ.get('VF_CONCRETE'))

class NS:
    def __init__(self, **k): self.__dict__.update(k)

# ------------------------------------------------------------------ symbolic laws

def _isinf(x): return isinstance(x, float) and math.isinf(x)

class SymLaw:
    """Frozen-distribution stand-in; `integer` selects an integer-valued law."""
    def __init__(self, ctx, name, lo=None, hi=None, integer=False, strict=False, args=(), kwds=None, family=None):
        from engine import sx
        self.sx = sx
        self.ctx = ctx
        self.name, self.integer, self.strict = name, integer, strict
        self.dist = NS(name=family or name, a=-INF if lo is None else lo, b=INF if hi is None else hi)
        self.args, self.kwds = args, dict(kwds or {})
        self.lo, self.hi = lo, hi
        c = ctx.const
        self.pts = []                  # increasing (x, F)
        self.left = (lo - 1 if integer else lo) if lo is not None else -INF
        self.right = hi if hi is not None else INF
        self.dens = []
        ctx.exports.append(self.export)
        self.rv_n = 0
    def export(self, ev):
        s = lambda v: str(ev(v))
        return ('tab:' + self.name, dict(lo=None if self.lo is None else s(self.lo), hi=None if self.hi is None else s(self.hi),
                pts=[(s(x), s(F)) for x, F in self.pts], dens=[(s(x), s(d)) for x, d in self.dens]))
    # the distribution function at a finite point
    def F(self, x):
        sx, ctx = self.sx, self.ctx
        w = sx.wrap(x)
        if not isinstance(w, sx.SymReal): return ctx.const(1 if w > 0 else 0)
        if self.integer: w = sx.sym_floor(w)
        if not _isinf(self.left) and w <= self.left: return ctx.const(0)
        if not _isinf(self.right) and w >= self.right: return ctx.const(1)
        i = 0
        for i, (y, Fy) in enumerate(self.pts):
            if sx.same_value(y, w): return Fy
        i = 0
        while i < len(self.pts):
            y, Fy = self.pts[i]
            if w == y: return Fy
            if w < y: break
            i += 1
        if ctx.merge_depth: raise sx.Unsupported('new point of a distribution function inside merge')
        f = ctx.fresh('F')
        lo = self.pts[i - 1][1] if i else ctx.const(0)
        hi = self.pts[i][1] if i < len(self.pts) else ctx.const(1)
        if self.strict:
            ctx.axiom(f > lo); ctx.axiom(f < hi)
        else:
            ctx.axiom(f >= lo); ctx.axiom(f <= hi)
        ctx.axiom(f >= 0); ctx.axiom(f <= 1)
        self.pts.insert(i, (w, f))
        n = len(self.pts)
        ctx.simplex('law:' + self.name, [g for _, g in self.pts], [[0] * j + [1] * (n - j) for j in range(n + 1)], self.strict)
        return f
    def density(self, x):
        sx, ctx = self.sx, self.ctx
        w = sx.wrap(x)
        if self.integer:
            if not isinstance(w, sx.SymReal): return ctx.const(0)
            if not (sx.sym_floor(w) == w): return ctx.const(0)
            return self.F(w) - self.F(w - 1)
        if not isinstance(w, sx.SymReal): return ctx.const(0)
        if not _isinf(self.left) and w < self.left: return ctx.const(0)
        if not _isinf(self.right) and w > self.right: return ctx.const(0)
        for y, d in self.dens:
            if w == y: return d
        d = ctx.fresh('d')
        ctx.axiom(d > 0 if self.strict else d >= 0)
        self.dens.append((w, d))
        return d
    # scipy-like interface
    def _map(self, f, x):
        from engine import shims
        if isinstance(x, (shims.SymVec, list, tuple)): return shims.SymVec([f(y) for y in x])
        return f(x)
    def cdf(self, x): return self._map(self.F, x)
    def logcdf(self, x): return self._map(lambda y: self._log(self.F(y)), x)
    def sf(self, x): return self._map(lambda y: 1 - self.F(y), x)
    def logsf(self, x): return self._map(lambda y: self._log(1 - self.F(y)), x)
    def _log(self, v): return self.sx.SymLog(self.sx.wrap(v))
    def pdf(self, x): return self._map(self.density, x)
    def logpdf(self, x): return self._map(lambda y: self._log(self.density(y)), x)
    pmf, logpmf = pdf, logpdf
    def support(self):
        return (-INF if self.lo is None else self.lo, INF if self.hi is None else self.hi)
    def _ppf(self, u):
        """Generalised inverse: the least x with F(x) >= u, for 0 < u < 1."""
        sx, ctx = self.sx, self.ctx
        x = ctx.fresh('q', 'Int' if self.integer else 'Real')
        for y, Fy in self.pts:
            ge, lt = sx.as_formula(Fy >= u), sx.as_formula(x <= y)
            ctx.axiom(sx.f_or(sx.f_not(ge), lt)); ctx.axiom(sx.f_or(ge, sx.f_not(lt)))
            if not self.integer: ctx.axiom(sx.f_or(sx.f_not(sx.as_formula(Fy > u)), sx.as_formula(x < y)))     # no jumps
        if not _isinf(self.left): ctx.axiom(x > self.left)
        if not _isinf(self.right): ctx.axiom(x <= self.right)
        return x
    def ppf(self, u): return self._map(self._ppf, u)
    def rvs(self, size=None, random_state=None):
        from engine import shims
        n = 1 if size is None else size
        out = []
        for _ in range(n):
            x = self.draw(random_state)
            out.append(x)
        return shims.SymVec(out) if size is not None else out[0]
    def draw(self, prng=None):
        sx, ctx = self.sx, self.ctx
        self.rv_n += 1
        nm = 'rv_%s_%d' % (self.name, self.rv_n)
        x = (ctx.int if self.integer else ctx.real)(nm)
        if self.lo is not None: ctx.assume(x >= self.lo)
        if self.hi is not None: ctx.assume(x <= self.hi)
        return x

# ------------------------------------------------------------------ concrete laws (replay)

def _num(s):
    if s is None: return None
    f = Fraction(s)
    return int(f) if f.denominator == 1 else float(f)

def concrete_law(ctx, name, lo, hi, integer, args, kwds, family=None):
    import numpy as np, scipy.stats as st
    tab = ctx.m.get('tab:' + name, dict(pts=[], dens=[]))
    pts = sorted((float(Fraction(x)), float(Fraction(F))) for x, F in tab['pts'])
    dens = [(float(Fraction(x)), float(Fraction(d))) for x, d in tab['dens']]
    xs = [p[0] for p in pts]; Fs = [p[1] for p in pts]
    left = -INF if lo is None else float(lo) - (1 if integer else 0)
    right = INF if hi is None else float(hi)
    def F1(x):
        if integer: x = math.floor(x) if not math.isinf(x) else x
        if x <= left: return 0.0
        if x >= right: return 1.0
        for a, b in pts:
            if abs(a - x) < 1e-9: return b
        L = max([(a, b) for a, b in pts if a < x] + [(left, 0.0)], key=lambda t: t[0])
        R = min([(a, b) for a, b in pts if a > x] + [(right, 1.0)], key=lambda t: t[0])
        if math.isinf(L[0]) and math.isinf(R[0]): return 0.5 + math.atan(x) / math.pi
        if math.isinf(L[0]): return R[1] / (1.0 + (R[0] - x))
        if math.isinf(R[0]): return 1 - (1 - L[1]) / (1.0 + (x - L[0]))
        return L[1] + (R[1] - L[1]) * (x - L[0]) / (R[0] - L[0])
    def ppf1(u):
        if u <= 0: return left + (1 if integer else 0)
        if u >= 1 and not math.isinf(right): return right
        l, r = -1e6, 1e6
        if not math.isinf(left): l = left
        if not math.isinf(right): r = right
        if integer:
            l, r = int(l), int(r)
            while r - l > 1:
                m = (l + r) // 2
                if F1(m) >= u - 1e-12: r = m
                else: l = m
            return r
        for _ in range(200):
            m = (l + r) / 2
            if F1(m) >= u: r = m
            else: l = m
        return r
    def d1(x):
        if integer:
            if math.isinf(x) or x != math.floor(x): return 0.0
            return max(0.0, F1(x) - F1(x - 1))
        if x < left or x > right: return 0.0
        for a, b in dens:
            if abs(a - x) < 1e-9: return b
        h = 1e-6
        return max(0.0, (F1(x + h) - F1(x - h)) / (2 * h))
    v = lambda f: (lambda self, x, *a: np.array([f(t) for t in np.atleast_1d(np.asarray(x, dtype=float)).ravel()]))
    draws = []
    def rvs(self, *a, **k):
        size = k.get('size', 1)
        n = int(np.prod(size)) if size not in (None, ()) else 1
        out = []
        for _ in range(n):
            c[0] += 1
            out.append(_num(ctx.m['vars'].get('rv_%s_%d' % (name, c[0]), '0')))
        return np.array(out)
    c = [0]
    base = st.rv_discrete if integer else st.rv_continuous
    d = {'_cdf': v(F1), '_ppf': v(ppf1), '_rvs': lambda self, *a, **k: rvs(self, *a, **k)}
    d['_pmf' if integer else '_pdf'] = v(d1)
    if not integer:
        d['_logpdf'] = lambda self, x, *a: np.log(np.maximum(self._pdf(x), 0))
    else:
        d['_logpmf'] = lambda self, x, *a: np.log(np.maximum(self._pmf(x), 0))
    cls = type('Tab_' + name, (base,), d)
    kw = dict(a=-INF if lo is None else lo, b=INF if hi is None else hi, name=family or name)
    fr = cls(**kw)()
    fr.rvs = lambda size=None, random_state=None: rvs(None, size=1 if size is None else size)
    fr.args, fr.kwds = args, dict(kwds or {})
    # frozen methods pass args/kwds on; the table ignores them
    for m in ('cdf', 'logcdf', 'sf', 'logsf', 'ppf', 'pdf', 'logpdf', 'pmf', 'logpmf'):
        if hasattr(fr.dist, m):
            setattr(fr, m, (lambda g: lambda x: g(x))(getattr(fr.dist, m)))
    fr.F = F1
    fr.density = d1
    fr.integer = integer
    return fr

def law(ctx, name, lo=None, hi=None, integer=False, strict=False, args=(), kwds=None, family=None):
    if ctx.symbolic: return SymLaw(ctx, name, lo, hi, integer, strict, args, kwds, family)
    return concrete_law(ctx, name, lo, hi, integer, args, kwds, family)

# ------------------------------------------------------------------ models

class Leaf:
    """kind: cont, contb (bounded), disc, discb, atom, nom"""
    def __init__(self, kind, var): self.kind, self.var = kind, var

def L(kind, var): return ('leaf', kind, var)
def prod(*cs): return ('prod',) + cs
def mix(*cs): return ('sum',) + cs

class Model:
    """A joint model: the SPE built with the real constructors, and its law for the oracle."""
    def __init__(self, ctx, spec, tag='M', strict=False, outcomes=('a', 'b'), zero_ok=False, share=None):
        self.ctx, self.tag, self.strict, self.outcomes, self.zero_ok = ctx, tag, strict, outcomes, zero_ok
        self.root = self._build(spec, tag)
        self.spe = self.root['spe']
    def _build(self, spec, tag):
        from sppl.spe import ProductSPE, SumSPE
        ctx = self.ctx
        k = spec[0]
        if k == 'leaf': return make_leaf(ctx, spec[1], spec[2], tag, self.strict, self.outcomes, self.zero_ok)
        cs = [self._build(s, '%s%d' % (tag, i)) for i, s in enumerate(spec[1:])]
        if k == 'prod':
            return dict(k='prod', cs=cs, spe=ProductSPE([c['spe'] for c in cs]))
        ws = weights(ctx, 'w' + tag, len(cs))
        return dict(k='sum', cs=cs, ws=ws, spe=SumSPE([c['spe'] for c in cs], [ctx.log(w) for w in ws]))
    def vars(self, n=None):
        n = n or self.root
        if n['k'] == 'leaf': return [n['var']]
        out = []
        for c in n['cs']:
            for v in self.vars(c):
                if v not in out: out.append(v)
        return out
    def mass(self, cells, n=None):
        """Measure of a product of cells {var: cell}."""
        n = n or self.root
        if n['k'] == 'leaf':
            c = cells.get(n['var'])
            return self.ctx.const(1) if c is None else n['mass'](c)
        if n['k'] == 'prod':
            r = self.ctx.const(1)
            for c in n['cs']: r = r * self.mass(cells, c)
            return r
        r = self.ctx.const(0)
        for w, c in zip(n['ws'], n['cs']): r = r + w * self.mass(cells, c)
        return r
    def P(self, ev, space):
        """Probability of an event given the cell space {var: [cells]}."""
        vs = [v for v in self.vars() if v in ev_vars(ev)]
        tot = self.ctx.const(0)
        for combo in itertools.product(*[space[v] for v in vs]):
            cells = dict(zip(vs, combo))
            if holds(ev, cells): tot = tot + self.mass(cells)
        return tot

def weights(ctx, name, n, gt0=True):
    ws = [ctx.real('%s_%d' % (name, i), gt=0, lt=1) for i in range(n - 1)]
    if n == 1: return [ctx.const(1)]
    last = ctx.const(1)
    for w in ws: last = last - w
    if n > 2: ctx.assume(last > 0)
    simplex(ctx, name, ws, True)
    return ws + [last]

def simplex(ctx, name, ws, strict):
    if ctx.symbolic:
        n = len(ws)
        ctx.simplex(name, ws, [[0] * n] + [[int(i == j) for i in range(n)] for j in range(n)], strict)

def make_leaf(ctx, kind, var, tag, strict=False, outcomes=('a', 'b'), zero_ok=False, lawname=None):
    from sppl.spe import ContinuousLeaf, DiscreteLeaf, AtomicLeaf, NominalLeaf
    from sppl.sets import Interval, Range
    from sppl.transforms import Id
    sym = Id(var)
    nm = lawname or ('L' + tag)
    if kind in ('cont', 'contb'):
        lo = hi = None
        if kind == 'contb':
            lo, hi = ctx.real('lo' + tag), ctx.real('hi' + tag)
            ctx.assume(lo < hi)
        d = law(ctx, nm, lo, hi, False, strict)
        sup = Interval(-INF if lo is None else lo, INF if hi is None else hi)
        return dict(k='leaf', kind=kind, var=var, law=d, lo=lo, hi=hi, spe=ContinuousLeaf(sym, d, sup), mass=lambda c: mass_cont(ctx, d, c))
    if kind in ('disc', 'discb'):
        lo = hi = None
        if kind == 'discb':
            lo, hi = ctx.int('lo' + tag), ctx.int('hi' + tag)
            ctx.assume(lo <= hi)
        d = law(ctx, nm, lo, hi, True, strict)
        sup = Interval(-INF, INF) if lo is None else Range(lo, hi)
        return dict(k='leaf', kind=kind, var=var, law=d, lo=lo, hi=hi, spe=DiscreteLeaf(sym, d, sup), mass=lambda c: mass_int(ctx, d, c))
    if kind == 'atom':
        v = ctx.real('at' + tag)
        return dict(k='leaf', kind=kind, var=var, value=v, spe=AtomicLeaf(sym, v), mass=lambda c: ctx.const(1) if in_cell(v, c) else ctx.const(0))
    if kind == 'nom':
        ps = nominal_weights(ctx, 'p' + tag, len(outcomes), zero_ok)
        d = dict(zip(outcomes, ps))
        return dict(k='leaf', kind=kind, var=var, dist=d, spe=NominalLeaf(sym, d),
                    mass=lambda c: ctx.frac(d[c[1]]) if c[0] == 's' and c[1] in d else ctx.const(0))
    raise ValueError(kind)

def nominal_weights(ctx, name, n, zero_ok=False):
    ps = []
    for i in range(n - 1):
        p = ctx.real('%s_%d' % (name, i), **(dict(lo=0) if zero_ok else dict(gt=0)))
        ps.append(p)
    last = ctx.const(1)
    for p in ps: last = last - p
    ctx.assume(last >= 0 if zero_ok else last > 0)
    if n > 1: simplex(ctx, name, ps, not zero_ok)
    return ps + [last]

# ------------------------------------------------------------------ cells

# real cells: ('pt', t) or ('iv', a, b) open interval with a < b (or infinite); nominal: ('s', value)
def cells_real(ts):
    out = []
    prev = -INF
    for t in ts:
        out.append(('iv', prev, t)); out.append(('pt', t))
        prev = t
    out.append(('iv', prev, INF))
    return out
def cells_nom(values): return [('s', v) for v in values]

def in_cell(v, c):
    if c[0] == 's': return False
    if c[0] == 'pt': return bool(v == c[1])
    return bool((_isinf(c[1]) or v > c[1]) and (_isinf(c[2]) or v < c[2]))

def mass_cont(ctx, d, c):
    if c[0] == 's': return ctx.const(0)
    if c[0] == 'pt': return ctx.const(0)
    return d.F(c[2]) - d.F(c[1])

def ceil_(ctx, x):
    if ctx.symbolic:
        from engine import sx
        return -sx.sym_floor(-x)
    return math.ceil(x)

def mass_int(ctx, d, c):
    if c[0] == 's': return ctx.const(0)
    if c[0] == 'pt': return d.density(c[1])
    if _isinf(c[2]): hi = ctx.const(1)
    else: hi = d.F(ceil_(ctx, c[2]) - 1)
    lo = ctx.const(0) if _isinf(c[1]) else d.F(c[1])
    # an open interval may hold no integer; its measure is then zero
    return hi - lo if hi >= lo else ctx.const(0)

# ------------------------------------------------------------------ events
# ('lt', v, t) ('le', v, t) ('gt', v, t) ('ge', v, t) ('iv', v, a, b, lo, ro) ('in', v, [ts]) ('s', v, [strings]) ('ns', v, [strings])
# ('and', e...) ('or', e...) ('not', e) ('xor', e, e)
def ev_vars(e):
    if e[0] in ('and', 'or', 'not', 'xor'):
        out = []
        for x in e[1:]: out += [v for v in ev_vars(x) if v not in out]
        return out
    return [e[1]]

def le_(c, t, orders):
    raise NotImplementedError

def holds(e, cells):
    """Truth on a product of cells.  Cells and thresholds share their end points, so that identity decides."""
    k = e[0]
    if k == 'and': return all(holds(x, cells) for x in e[1:])
    if k == 'or': return any(holds(x, cells) for x in e[1:])
    if k == 'not': return not holds(e[1], cells)
    if k == 'xor': return holds(e[1], cells) != holds(e[2], cells)
    c = cells[e[1]]
    if k == 's': return c[0] == 's' and c[1] in e[2]
    if k == 'ns': return c[0] == 's' and c[1] not in e[2]
    if c[0] == 's': return False
    p = pos(c)
    if k == 'lt': return p < rank(e[2])
    if k == 'le': return p <= rank(e[2])
    if k == 'gt': return p > rank(e[2])
    if k == 'ge': return p >= rank(e[2])
    if k == 'iv':
        a, b = rank(e[2]), rank(e[3])
        return (p > a if e[4] else p >= a) and (p < b if e[5] else p <= b)
    if k == 'in': return any(p == rank(t) for t in e[2])
    raise ValueError(e)

class Th:
    """A threshold with its rank among the (increasing) thresholds of its variable."""
    def __init__(self, x, r): self.x, self.r = x, r

def rank(t):
    if isinstance(t, Th): return t.r
    if t == INF: return 10 ** 6
    return -10 ** 6
def pos(c):
    # cells carry their rank as last element
    return c[-1]

def space_real(ths):
    out = []
    prev, pr = -INF, -1
    for t in ths:
        out.append(('iv', prev, t.x, t.r - 0.5)); out.append(('pt', t.x, t.r))
        prev = t.x; pr = t.r
    out.append(('iv', prev, INF, pr + 0.5))
    return out

def name_floors(ctx, xs):
    if ctx.symbolic:
        from engine import sx
        for x in xs: sx.sym_floor(x)

def thresholds(ctx, name, n, sort='real', floor=False):
    """n increasing thresholds."""
    xs = [ctx.real('%s%d' % (name, i), floor=floor) if sort == 'real' else ctx.int('%s%d' % (name, i)) for i in range(n)]
    for a, b in zip(xs, xs[1:]): ctx.assume(a < b)
    return [Th(x, i) for i, x in enumerate(xs)]

def val(t): return t.x if isinstance(t, Th) else t

def build(e):
    """The sppl event, through the public operators."""
    from sppl.transforms import Id
    from sppl.sets import Interval, FiniteNominal
    k = e[0]
    if k == 'and':
        r = build(e[1])
        for x in e[2:]: r = r & build(x)
        return r
    if k == 'or':
        r = build(e[1])
        for x in e[2:]: r = r | build(x)
        return r
    if k == 'not': return ~build(e[1])
    if k == 'xor': return build(e[1]) ^ build(e[2])
    X = Id(e[1])
    if k == 'lt': return X < val(e[2])
    if k == 'le': return X <= val(e[2])
    if k == 'gt': return X > val(e[2])
    if k == 'ge': return X >= val(e[2])
    if k == 'iv': return X << Interval(val(e[2]), val(e[3]), left_open=e[4], right_open=e[5])
    if k == 'in':
        from engine.api import set_
        return X << set_([val(t) for t in e[2]])
    if k == 's': return X << set(e[2])
    if k == 'ns': return X << FiniteNominal(*e[2], b=True)
    raise ValueError(e)

def show(e):
    if e[0] in ('and', 'or', 'not', 'xor'): return '%s(%s)' % (e[0], ','.join(show(x) for x in e[1:]))
    return '%s_%s%s' % (e[1], e[0], ''.join(str(getattr(t, 'r', t)) for t in e[2:] if not isinstance(t, list)))

def prob(ctx, spe, event, memo=None):
    """Probability of an sppl event, as a number."""
    return ctx.exp(spe.logprob(event, memo) if memo is not None else spe.logprob(event))

def merge_points(ctx, ths):
    """Order arbitrary points by branching; equal points share a rank.  Returns the cells."""
    ordered = []
    for t in ths:
        i = 0
        same = None
        while i < len(ordered):
            if bool(t.x == ordered[i].x): same = ordered[i]; break
            if bool(t.x < ordered[i].x): break
            i += 1
        if same is not None:
            t.x = same.x; t.same = same
        else:
            ordered.insert(i, t); t.same = t
    for i, t in enumerate(ordered): t.r = i
    for t in ths: t.r = t.same.r
    return space_real(ordered)
