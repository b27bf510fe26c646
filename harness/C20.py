"""C20 Declared supports carry all of the probability mass: distributions.py."""
import math, warnings
from fractions import Fraction
from engine.h import case
from harness.worlds import *
from sppl.transforms import Id
import sppl.distributions as D
X = Id('X')

BOUNDS = ('every constructor of a scipy family (95 continuous, 15 discrete), the location and the scale each absent or given, all admissible real or integer values of every shape, location and scale parameter; '
          'tables of up to 4 values, uniform tables, atoms, and weighted choices with symbolic values and weights')
OUTSIDE = 'whether scipy evaluates its distribution functions accurately; non-integer locations of discrete families; tables with non-integer values; floating-point rounding (ranges may be short by 1e-9 of the scale)'
ASSUMPTIONS = ['the standard ranges of the families are those documented by scipy (a replay compares with scipy itself)']
PI = math.pi

# name: (shape parameters, standard range as a function of them); kinds of parameters: + positive, r real, n natural (>= 1), u unit interval, 0 non-negative
I = lambda k: (-INF, INF)
P = lambda k: (0, INF)
U = lambda k: (0, 1)
CONT = dict(
    alpha=('a+', P), anglit=('', lambda k: (-PI / 4, PI / 4)), arcsine=('', U), argus=('chi+', U), beta=('a+ b+', U), betaprime=('a+ b+', P), bradford=('c+', U), burr=('c+ d+', P), burr12=('c+ d+', P),
    cauchy=('', I), chi=('df+', P), chi2=('df+', P), cosine=('', lambda k: (-PI, PI)), crystalball=('beta+ m>', I), dgamma=('a+', I), dweibull=('c+', I), erlang=('a#', P), expon=('', P), exponnorm=('K+', I),
    exponweib=('a+ c+', P), exponpow=('b+', P), f=('dfn+ dfd+', P), fatiguelife=('c+', P), fisk=('c+', P), foldcauchy=('c0', P), foldnorm=('c0', P), genlogistic=('c+', I), gennorm=('beta+', I),
    genpareto=('cr', lambda k: (0, INF) if k['c'] >= 0 else (0, -1 / k['c'])), genexpon=('a+ b+ c+', P),
    genextreme=('cr', lambda k: (-INF, INF) if k['c'] == 0 else (-INF, 1 / k['c']) if k['c'] > 0 else (1 / k['c'], INF)),
    gausshyper=('a+ b+ cr z+', U), gamma=('a+', P), gengamma=('a+ c+', P), genhalflogistic=('c+', lambda k: (0, 1 / k['c'])), geninvgauss=('pr b+', P), gilbrat=('', P), gompertz=('c+', P), gumbel_r=('', I), gumbel_l=('', I),
    halfcauchy=('', P), halflogistic=('', P), halfnorm=('', P), halfgennorm=('beta+', P), hypsecant=('', I), invgamma=('a+', P), invgauss=('mu+', P), invweibull=('c+', P), johnsonsb=('ar b+', U), johnsonsu=('ar b+', I),
    kappa3=('a+', P), ksone=('n#', U), kstwobign=('', P), laplace=('', I), levy=('', P), levy_l=('', lambda k: (-INF, 0)), levy_stable=('alphau betau', I), logistic=('', I), loggamma=('c+', I),
    loglaplace=('c+', P), lognorm=('s+', P), loguniform=('a+ b+', lambda k: (k['a'], k['b'])), lomax=('c+', P), maxwell=('', P), mielke=('k+ s+', P), moyal=('', I), nakagami=('nu+', P), ncx2=('df+ nc+', P), ncf=('dfn+ dfd+ nc+', P),
    nct=('df+ ncr', I), norm=('', I), normal=('', I), norminvgauss=('a+ b+', I), pareto=('b+', lambda k: (1, INF)), pearson3=('skewr', I), powerlaw=('a+', U), powerlognorm=('c+ s+', P), powernorm=('c+', I), rdist=('c+', lambda k: (-1, 1)),
    rayleigh=('', P), rice=('b0', P), recipinvgauss=('mu+', P), semicircular=('', lambda k: (-1, 1)), skewnorm=('ar', I), t=('df+', I), trapz=('cu du', U), triang=('cu', U), truncexpon=('b+', lambda k: (0, k['b'])),
    truncnorm=('ar br', lambda k: (k['a'], k['b'])), tukeylambda=('lamr', lambda k: (-1 / k['lam'], 1 / k['lam']) if k['lam'] > 0 else (-INF, INF)), uniform=('', U), vonmises=('kappa+', lambda k: (-PI, PI)),
    vonmises_line=('kappa+', lambda k: (-PI, PI)), wald=('', P), weibull_min=('c+', P), weibull_max=('c+', lambda k: (-INF, 0)), wrapcauchy=('cu', lambda k: (0, 2 * PI)),
    kappa4=('hr kr', lambda k: (1 / k['k'] if k['k'] < 0 else -INF, 1 / k['k'] if k['k'] > 0 else INF)),
)
ADMIT = {'loguniform': lambda k: k['a'] < k['b'], 'truncnorm': lambda k: k['a'] < k['b'], 'trapz': lambda k: k['c'] <= k['d'], 'norminvgauss': lambda k: k['b'] < k['a'], 'kappa4': lambda k: k['h'] <= 0,
         'hypergeom': lambda k: (k['n'] <= k['M']) & (k['N'] <= k['M']) if not isinstance(k['n'], (int, float)) else k['n'] <= k['M'] and k['N'] <= k['M'], 'randint': lambda k: k['low'] < k['high']}
def hyper(k):
    lo, hi = k['N'] - k['M'] + k['n'], k['n']
    if lo < 0: lo = 0
    if k['N'] < hi: hi = k['N']
    return lo, hi
DISC = dict(
    bernoulli=('pu', lambda k: (0, 1)), betabinom=('n# a+ b+', lambda k: (0, k['n'])), binom=('n# pu', lambda k: (0, k['n'])), boltzmann=('lambda_+ N#', lambda k: (0, k['N'] - 1)), dlaplace=('a+', I), geom=('pu', lambda k: (1, INF)),
    hypergeom=('M# n# N#', hyper), logser=('pu', lambda k: (1, INF)), nbinom=('n# pu', P), planck=('lambda_+', P), poisson=('mu+', P), randint=('lowi highi', lambda k: (k['low'], k['high'] - 1)),
    skellam=('mu1+ mu2+', I), zipf=('a>', lambda k: (1, INF)), yulesimon=('alpha+', lambda k: (1, INF)))
NUMERIC = {'levy_stable', 'norminvgauss', 'geninvgauss', 'gausshyper', 'kappa4', 'ncx2', 'ncf', 'nct', 'ksone', 'kstwobign', 'tukeylambda', 'vonmises', 'kappa3', 'ncx2', 'wrapcauchy', 'exponnorm', 'skewnorm', 'genexpon', 'betabinom', 'skellam'}

def params(ctx, name, spec):
    k = {}
    for w in spec.split():
        n, c = w[:-1], w[-1]
        k[n] = {'+': lambda: ctx.real(n, gt=0), 'r': lambda: ctx.real(n), '0': lambda: ctx.real(n, lo=0), 'u': lambda: ctx.real(n, gt=0, lt=1), '>': lambda: ctx.real(n, gt=1), '#': lambda: ctx.int(n, lo=1), 'i': lambda: ctx.int(n)}[c]()
    if name in ADMIT: ctx.assume(ADMIT[name](k))
    return k

def shift(x, loc, scale): return x if isinstance(x, float) and math.isinf(x) else loc + scale * x

class Swap:
    """Replaces the scipy family of a constructor by a stand-in that records its parameters and has mass exactly on [lo, hi]."""
    def __init__(self, cls, make): self.cls, self.make = cls, make
    def __enter__(self):
        self.had = 'dist' in vars(self.cls); self.old = vars(self.cls).get('dist')
        self.calls = []
        def dist(*a, **kw):
            # a plain function in a class body is called with the instance
            kw = dict(kw); self.calls.append(kw)
            return self.make(kw)
        self.cls.dist = dist
        return self
    def __exit__(self, *a):
        if self.had: self.cls.dist = self.old
        else: del self.cls.dist

def contains(ctx, sup, lo, hi, tol):
    """The range holds every value between lo and hi."""
    from sppl.sets import EmptySet
    if sup is EmptySet: ctx.check(False, 'the range is empty'); return
    def end(v, w, left):
        if isinstance(w, float) and math.isinf(w):
            ctx.check(isinstance(v, float) and math.isinf(v), 'the range is unbounded %s' % ('below' if left else 'above')); return
        if isinstance(v, float) and math.isinf(v): return
        from engine.api import number_of
        v = number_of(ctx, v)
        ctx.check(v <= w + tol if left else v >= w - tol, 'the range starts low enough' if left else 'the range ends high enough')
    end(sup.left, lo, True); end(sup.right, hi, False)

def combos(cont): return ['', 'loc', 'scale', 'loc scale'] if cont else ['', 'loc']
@case('family', params=[dict(d=d, given=g) for t, c in ((CONT, True), (DISC, False)) for d in t for g in combos(c)], cost=1)
def family(ctx, d, given):
    cont = d in CONT
    spec, rng = (CONT if cont else DISC)[d]
    cls = getattr(D, d, None)
    ctx.check(cls is not None, 'constructor ' + d)
    k = params(ctx, d, spec)
    kw = dict(k)
    loc, scale = 0, 1
    if 'loc' in given: kw['loc'] = loc = ctx.real('loc') if cont else ctx.int('loc')
    if 'scale' in given: kw['scale'] = scale = ctx.real('scale', gt=0)
    lo, hi = rng(k)
    lo, hi = shift(lo, loc, scale), shift(hi, loc, scale)
    t = ctx.real('t') if cont else ctx.int('t')
    if ctx.symbolic:
        from sppl.spe import ContinuousLeaf, DiscreteLeaf
        fin = lambda x: None if isinstance(x, float) and math.isinf(x) else x
        L = law(ctx, 'L', fin(lo), fin(hi), not cont, True, kwds=kw, family=d)
        cell = {}
        sw = Swap(cls, lambda a: L)
        import types
        old = vars(cls).get('dist'); calls = []
        class Family:
            name = d
            def __call__(self, *a, **p): calls.append((a, p)); return L
        cls.dist = Family()
        try: spe = cls(**kw)(X)
        finally:
            if old is not None: cls.dist = old
            else: del cls.dist
        ctx.check(isinstance(spe, ContinuousLeaf if cont else DiscreteLeaf), 'kind of variable')
        ctx.check(len(calls) == 1 and not calls[0][0] and set(calls[0][1]) == set(kw), 'all parameters reach the family')
        for n in kw: ctx.check(ctx.eq(calls[0][1][n], kw[n]), 'parameter ' + n)
        contains(ctx, spe.support, lo, hi, scale * 1e-9)
        # an event and its complement; the range may be short by rounding only
        if not contains_consts(d):
            ctx.check(ctx.eq(prob(ctx, spe, X <= t), L.F(t)), 'probability of an event')
            ctx.check(ctx.eq(prob(ctx, spe, X <= t) + prob(ctx, spe, X > t), 1), 'an event and its complement add up')
    else:
        spe = cls(**kw)(X)
        slo, shi = spe.dist.support()
        tol = 1e-9 * (1 + abs(scale) + (abs(slo) if not math.isinf(slo) else 0) + (abs(shi) if not math.isinf(shi) else 0))
        # the smaller of the table's range and scipy's
        flo, fhi = float(max(lo, slo)), float(min(hi, shi))
        ctx.check(float(spe.support.left) <= flo + tol, 'the range starts low enough')
        ctx.check(float(spe.support.right) >= fhi - tol, 'the range ends high enough')
        ctx.check(set(spe.dist.kwds) == set(kw) and all(abs(float(spe.dist.kwds[n]) - float(kw[n])) <= 1e-9 * (1 + abs(float(kw[n]))) for n in kw), 'all parameters reach the family')
        if d not in NUMERIC:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                c = float(spe.dist.cdf(float(t)))
                if math.isnan(c) or abs(c + float(spe.dist.sf(float(t))) - 1) > 1e-7 or not 1e-9 < c < 1 - 1e-9: return
                ctx.check(abs(spe.prob(X <= t) - c) < 1e-6, 'probability of an event')
                ctx.check(abs(spe.prob(X <= t) + spe.prob(X > t) - 1) < 1e-6, 'an event and its complement add up')
def contains_consts(d): return d in ('anglit', 'cosine', 'vonmises', 'vonmises_line', 'wrapcauchy')

@case('complete', params=[{}])
def complete(ctx):
    """Every constructor of the module is covered here."""
    from sppl.distributions import RealDistribution
    t = ctx.real('t'); ctx.check(ctx.Or(t <= 0, t > 0), 'reached')
    known = set(CONT) | set(DISC) | {'atomic', 'rv_discrete', 'uniformd', 'discrete', 'RealDistribution', 'ContinuousReal', 'DiscreteReal'}
    ctx.check(all(hasattr(D, n) for n in known), 'all constructors exist')

# -- tables --------------------------------------------------------------------------------
class Table:
    """A law with the given atoms, in the form that rv_discrete(values=...).freeze() has."""
    def __init__(self, ctx, xs, ps):
        from engine import sx
        self.ctx, self.xs, self.ps, self.sx = ctx, xs, ps, sx
        self.dist = NS(name='rv_discrete', xk=xs, pk=ps); self.args, self.kwds = (), {}
    def F(self, x):
        if isinstance(x, float) and math.isinf(x): return self.ctx.const(1 if x > 0 else 0)
        r = self.ctx.const(0)
        for v, p in zip(self.xs, self.ps):
            if bool(v <= x): r = r + p
        return r
    def m(self, x):
        r = self.ctx.const(0)
        for v, p in zip(self.xs, self.ps):
            if bool(v == x): r = r + p
        return r
    def _l(self, f, x):
        from engine import shims
        g = lambda y: self.sx.SymLog(self.sx.wrap(f(y)))
        return shims.SymVec([g(y) for y in x]) if isinstance(x, (shims.SymVec, list, tuple)) else g(x)
    def cdf(self, x): return self.F(x)
    def logcdf(self, x): return self._l(self.F, x)
    def logpmf(self, x): return self._l(self.m, x)

def table_spe(ctx, make):
    """make() under a scipy whose tables may hold symbolic numbers."""
    if not ctx.symbolic: return make()
    import scipy.stats as st
    class Frozen:
        def __init__(self, values=None, **kw): assert not kw, kw; self.values = values
        def freeze(self): return Table(ctx, list(self.values[0]), list(self.values[1]))
    import sppl.distributions as DD
    old = st.rv_discrete
    st.rv_discrete = Frozen
    mod = DD.scipy.stats
    had = mod.rv_discrete if mod is not st else None
    if had is not None: mod.rv_discrete = Frozen
    try: return make()
    finally:
        st.rv_discrete = old
        if had is not None: mod.rv_discrete = had

@case('table', params=[dict(k=k, n=n) for k in ('discrete', 'uniformd', 'rv_discrete') for n in (1, 2, 3, 4) if (k, n) != ('uniformd', 3)], cost=2)
def table(ctx, k, n):
    vs = [ctx.int('v%d' % i, lo=-9, hi=9) for i in range(n)]
    for i in range(n):
        for j in range(i): ctx.assume(ctx.Not(vs[i] == vs[j]))
    ps = weights(ctx, 'p', n) if k != 'uniformd' else [ctx.const(Fraction(1. / n)) if ctx.symbolic else 1. / n] * n
    mk = {'discrete': lambda: D.discrete(dict(zip(vs, ps))) if not ctx.symbolic else D.discrete(list(zip(vs, ps))), 'uniformd': lambda: D.uniformd(values=vs), 'rv_discrete': lambda: D.rv_discrete(values=(vs, ps))}[k]
    spe = table_spe(ctx, lambda: mk()(X))
    t = ctx.int('t', lo=-10, hi=10)
    tot = 0
    for v, p in zip(vs, ps):
        ctx.check(ctx.eq(prob(ctx, spe, X << {v} if not ctx.symbolic else X << __import__('sppl.sets', fromlist=['FiniteReal']).FiniteReal(v)), p), 'probability of a value')
        if bool(v <= t): tot = tot + p
    ctx.check(ctx.eq(prob(ctx, spe, X <= t), tot), 'probability of an initial segment')
    ctx.check(ctx.eq(prob(ctx, spe, X <= t) + prob(ctx, spe, X > t), 1), 'an event and its complement add up')

@case('atomic', params=[{}])
def atomic(ctx):
    v, t = ctx.int('v'), ctx.int('t')
    if ctx.symbolic:
        L = {}
        cls = D.randint; old = cls.dist
        class Family:
            name = 'randint'
            def __call__(self, low, high, loc=0): return law(ctx, 'L', low + loc, high + loc - 1, True, True, family='randint')
        cls.dist = Family()
        had = vars(D.atomic).get('dist')
        try: spe = D.atomic(loc=v)(X)
        finally: cls.dist = old
    else: spe = D.atomic(loc=v)(X)
    ctx.check(ctx.eq(prob(ctx, spe, X <= t), 1 if bool(v <= t) else 0), 'probability of an event')
    ctx.check(ctx.eq(prob(ctx, spe, X > t), 0 if bool(v <= t) else 1), 'probability of its complement')
    from sppl.sets import FiniteReal
    ctx.check(ctx.eq(prob(ctx, spe, X << FiniteReal(v)), 1), 'probability of the value')

@case('choice', params=[dict(n=n) for n in (1, 2, 3)])
def choice(ctx, n):
    ps = nominal_weights(ctx, 'p', n)
    spe = D.choice(dict(zip('abc', ps)))(X)
    for o, p in zip('abc', ps): ctx.check(ctx.eq(prob(ctx, spe, X << {o}), ctx.frac(p)), 'probability of an outcome')
    ctx.check(ctx.eq(prob(ctx, spe, X << set('abc'[:n])), 1), 'all outcomes')
    ctx.check(ctx.eq(prob(ctx, spe, X << {'a'}) + prob(ctx, spe, ~(X << {'a'})), 1), 'an event and its complement add up')
