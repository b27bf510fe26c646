"""C18 Rendering to source text and recompiling preserves the distribution: compilers/spe_to_sppl.py, compilers/sppl_to_python.py."""
import re
from fractions import Fraction
import sympy
from engine.h import case
from engine.api import set_
from harness.joint import *
from harness.C14 import definition, piece
from sppl.sets import Interval, FiniteReal, FiniteNominal, Range
from sppl.spe import AtomicLeaf, ContinuousLeaf, DiscreteLeaf, NominalLeaf, ProductSPE, SumSPE
from sppl.transforms import *

BOUNDS = ('leaves of every kind with symbolic parameters (positional and by keyword), supports, atoms, tables and weights, plain, conditioned on intervals, points and unions, constrained, with derived variables of up to '
          '2 nested operations, events and piecewise definitions; mixtures and products of up to 4 leaves nested to depth 3, plain and conditioned; rendered and compiled once and twice; array elements, outcomes with quotes, branch variables that exist already')
OUTSIDE = 'rounding to a number of decimals (fwidth); distributions that sppl.distributions does not name; names that are no variable names; accuracy of scipy; floating-point rounding'
ASSUMPTIONS = ['the constructors norm, gamma, beta, uniform, poisson, binom, discrete in the text are stand-ins making the leaf of the named law (C20 has the constructors themselves); the normal density is positive',
               'two members of a scipy family are the same law exactly when all their parameters are equal']
CONT = {'norm': None, 'gamma': 'a', 'beta': 'a, b', 'uniform': None}
DISC = {'poisson': 'mu', 'binom': 'n, p'}

class Families:
    """Laws named like distributions of sppl.distributions, which make them while a text runs."""
    def __init__(self, ctx): self.ctx, self.members = ctx, []
    def get(self, name, args=(), kwds=()):
        shapes = (CONT.get(name) or DISC.get(name) or '')
        names = [s for s in shapes.split(', ') if s] + ['loc', 'scale']
        full = dict(zip(names, args)); full.update(dict(kwds))
        assert set(full) <= set(names), full
        for n, k, d in self.members:
            if n == name and set(k) == set(full) and all(bool(k[x] == full[x]) for x in k):
                return self.frozen(d, args, kwds)
        d = law(self.ctx, 'F%d' % len(self.members), None, None, name in DISC, True, args=(), kwds={}, family=name)
        d.dist.shapes = shapes or None
        self.members.append((name, full, d))
        return self.frozen(d, args, kwds)
    def frozen(self, d, args, kwds):
        import copy
        e = copy.copy(d)
        e.args, e.kwds = tuple(args), dict(kwds)
        return e
    def table(self, pairs):
        """A table law, as scipy.stats.rv_discrete freezes one."""
        pairs = sorted(pairs, key=lambda p: p[0])
        return Table(self.ctx, [x for x, p in pairs], [p for x, p in pairs])
    def leaf(self, V, name='norm', args=0, kwds=('loc', 'scale'), support=None, conditioned=None, env=None, tag=''):
        r = self.ctx.real
        d = self.get(name, [r('a%s%s%d' % (V, tag, i)) for i in range(args)], {k: r('k%s%s%s' % (V, tag, k)) for k in kwds})
        cls = DiscreteLeaf if name in DISC else ContinuousLeaf
        return cls(Id(V), d, Interval(-INF, INF) if support is None else support, conditioned, env)
    def __enter__(self):
        from sppl import distributions as D
        F = self
        def stand(name, base, cls):
            class Stand(base):
                def __init__(self, *args, **kw):
                    assert not args, args
                    self.kwargs = kw
                def __call__(self, symbol):
                    d = F.get(name, (), self.kwargs)
                    if name == 'norm' and set(self.kwargs) == {'loc'}: F.ctx.assume(d.density(self.kwargs['loc']) > 0)
                    return cls(symbol, d, Interval(-INF, INF))
            return Stand
        class discrete(D.DiscreteReal):
            def __init__(self, d): self.d = d
            def __call__(self, symbol):
                t = F.table(list(self.d.items()))
                return DiscreteLeaf(symbol, t, Range(t.dist.xk[0], t.dist.xk[-1]))
        new = {n: stand(n, D.ContinuousReal, ContinuousLeaf) for n in CONT}
        new.update({n: stand(n, D.DiscreteReal, DiscreteLeaf) for n in DISC})
        new['discrete'] = discrete
        self.old = {n: getattr(D, n) for n in new}
        for n, c in new.items(): setattr(D, n, c)
        return self
    def __exit__(self, *a):
        from sppl import distributions as D
        for n, c in self.old.items(): setattr(D, n, c)

class Table:
    """rv_discrete with concrete integer values and symbolic probabilities."""
    def __init__(self, ctx, xk, pk):
        self.ctx, self.dist, self.args, self.kwds = ctx, NS(name='Distribution', xk=tuple(xk), pk=tuple(pk), shapes=None), (), {}
        self.integer = True
    def F(self, x):
        t = self.ctx.const(0)
        for v, p in zip(self.dist.xk, self.dist.pk):
            if bool(v <= x): t = t + p
        return t
    def density(self, x):
        t = self.ctx.const(0)
        for v, p in zip(self.dist.xk, self.dist.pk):
            if bool(v == x): t = t + p
        return t
    def _log(self, v): return self.ctx.log(v)
    def cdf(self, x): return self.F(x)
    def logcdf(self, x): return self._log(self.F(x))
    def logsf(self, x): return self._log(1 - self.F(x))
    def pmf(self, x): return self.density(x)
    def logpmf(self, x): return self._log(self.density(x))

def compiled(ctx, spe):
    from sppl.compilers.spe_to_sppl import render_sppl
    from sppl.compilers.sppl_to_python import SPPL_Compiler
    return SPPL_Compiler(render_sppl(spe).getvalue()).execute_module().model

def check(ctx, spe, events, points=(), twice=True):
    new = compiled(ctx, spe)
    old = set(spe.get_symbols())
    def same(m, what):
        vs = set(m.get_symbols())
        ctx.check(old <= vs, 'the variables' + what)
        ctx.check(len(vs - old) == len([v for v in vs if v.token.startswith('branch_var_') and v not in old]), 'no other variables than branches' + what)
        for n, e in events: ctx.check(ctx.eq(prob(ctx, m, e), prob(ctx, spe, e)), 'probability of %s%s' % (n, what))
        for n, p in points: ctx.check(ctx.eq(ctx.exp(m.logpdf(p)), ctx.exp(spe.logpdf(p))), 'density at %s%s' % (n, what))
    same(new, '')
    if twice:
        again = compiled(ctx, new)
        old |= set(new.get_symbols()) - old
        same(again, ', rendered again')

def one(V, t): return [('<=', Id(V) <= t), ('=', Id(V) << set_([t]))]

# -- leaves ----------------------------------------------------------------------------
def sup(ctx, k, sort='real'):
    r = ctx.real if sort == 'real' else ctx.int
    a, b = r('sa'), r('sb')
    ctx.assume(a < b)
    return dict(all=Interval(-INF, INF), closed=Interval(a, b), open=Interval.open(a, b), lopen=Interval.Lopen(a, b), ropen=Interval.Ropen(a, b), below=Interval(-INF, a), above=Interval.open(a, INF))[k]
NAMES = [('norm', 0, ('loc', 'scale')), ('norm', 2, ()), ('gamma', 1, ('scale',)), ('gamma', 0, ('a', 'loc')), ('beta', 2, ()), ('beta', 1, ('b', 'loc', 'scale')), ('beta', 0, ('b', 'a')), ('uniform', 1, ()), ('norm', 0, ())]
DNAMES = [('poisson', 1, ()), ('poisson', 0, ('mu', 'loc')), ('binom', 2, ('loc',)), ('binom', 1, ('p',)), ('binom', 3, ())]
@case('leaf', params=[dict(name=n, args=a, kwds=','.join(k)) for n, a, k in NAMES + DNAMES])
def leaf(ctx, name, args, kwds):
    with Families(ctx) as F:
        t = (ctx.int if name in DISC else ctx.real)('t')
        spe = F.leaf('X', name, args, [k for k in kwds.split(',') if k])
        check(ctx, spe, one('X', t), [('t', {Id('X'): t})])
@case('support', params=[dict(name=n, sup=s) for n in ('norm', 'poisson') for s in ('all', 'closed', 'open', 'lopen', 'ropen', 'below', 'above')], cost=2)
def support(ctx, name, sup):
    """Conditioned leaves with any support."""
    with Families(ctx) as F:
        t = (ctx.int if name in DISC else ctx.real)('t')
        S = globals()['sup'](ctx, sup, 'int' if name in DISC else 'real')
        base = F.leaf('X', name, 1, ())
        if name in DISC and sup not in ('all', 'below', 'above'): ctx.assume(prob(ctx, base, Id('X') << S) > 0)
        spe = type(base)(base.symbol, base.dist, S, sup != 'all')
        check(ctx, spe, one('X', t), [('t', {Id('X'): t})])

@case('conditioned', params=[dict(name=n, how=h) for n in ('norm', 'poisson') for h in ('lt', 'iv', 'union', 'points', 'constrain', 'twice')], cost=3)
def conditioned(ctx, name, how):
    """Leaves conditioned and constrained by the real code."""
    X = Id('X')
    with Families(ctx) as F:
        spe = F.leaf('X', name, 1, ())
        a, b, t = [(ctx.int if name in DISC else ctx.real)(n) for n in 'abt']
        ctx.assume(a < b)
        try:
            if how == 'constrain': spe = spe.constrain({X: a})
            elif how == 'twice': spe = spe.condition(X < b).condition(X > a)
            else: spe = spe.condition({'lt': lambda: X < a, 'iv': lambda: (X > a) & (X <= b), 'union': lambda: (X < a) | (X > b), 'points': lambda: X << set_([a, b])}[how]())
        except (AssertionError, ValueError):
            ctx.check(True, 'ruled out'); return
        check(ctx, spe, one('X', t))

@case('atom', params=[dict(env=e) for e in (0, 1, 2)])
def atom(ctx, env):
    X, Y, Z = Id('X'), Id('Y'), Id('Z')
    v, t, c = ctx.real('v'), ctx.real('t'), ctx.real('c')
    with Families(ctx):
        spe = AtomicLeaf(X, v)
        evs = one('X', t) + [('= v', X << set_([v]))]
        if env > 0: spe = spe.transform(Y, X ** 2 + c); evs += one('Y', t)
        if env > 1: spe = spe.transform(Z, abs(Y)); evs += one('Z', t)
        check(ctx, spe, evs)
EXACT = {'root': sympy.sqrt(2), 'third': sympy.Rational(1, 3), 'pi': sympy.pi, 'int': 3, 'float': .5, 'negative': -sympy.sqrt(3) - 1, 'log': sympy.log(2), 'big': 10 ** 20}
@case('atom exact', params=[dict(k=k) for k in EXACT])
def atom_exact(ctx, k):
    """Atoms at exact numbers stay where they are."""
    X, Y = Id('X'), Id('Y')
    v, t = EXACT[k], ctx.real('t')
    with Families(ctx):
        check(ctx, AtomicLeaf(X, v).transform(Y, 2 * X), [('= v', X << set_([v])), ('Y = 2v', Y << set_([2 * v])), ('<', X < v)] + ([('<= t', X <= t)] if k in ('int', 'third', 'float') else []))

@case('nominal', params=[dict(n=n, cond=c, zero=z) for n in (1, 2, 3, 4) for c in (False, True) for z in (False, True)])
def nominal(ctx, n, cond, zero):
    N = Id('N')
    outs = ["a", "b b", "it's", 'say "x"\\n'][:n]
    spe = make_leaf(ctx, 'nom', 'N', 'n', outcomes=outs, zero_ok=zero)['spe']
    if cond:
        if bool(ctx.exp(spe.logprob(N << set(outs[:2]))) == 0): ctx.check(True, 'impossible'); return
        spe = spe.condition(N << set(outs[:2]))
    with Families(ctx): check(ctx, spe, [(o, N << {o}) for o in outs] + [('other', N << {'zz'}), ('not', N << FiniteNominal(outs[0], b=True))])

@case('table', params=[dict(n=n, cond=c) for n in (1, 2, 3) for c in (None, 'lt', 'in')])
def table(ctx, n, cond):
    X = Id('X')
    with Families(ctx) as F:
        xs = [-2, 1, 4][:n]
        t = F.table(list(zip(xs, weights(ctx, 'p', n))))
        spe = DiscreteLeaf(X, t, Range(xs[0], xs[-1]))
        if cond: spe = spe.condition(X < 2 if cond == 'lt' else X << {-2, 4})
        check(ctx, spe, [('= %d' % x, X << {x}) for x in xs + [0]] + [('<= 1', X <= 1)])

# -- derived variables -------------------------------------------------------------------
FN = ['neg', 'abs', '+c', 'c-', '/c', 'c/', '1/', '**2', '**3', '**-2', 'sqrt', '**(1,3)', '**(-1,2)', 'exp', '2**', '.5**', 'b**', 'log', 'log2', 'lin', 'abs|lin', 'lin|abs', 'sqrt|lin', 'exp|neg', '**2|sqrt', 'sqrt|**2', 'lin|1/', '1/|abs', 'log|**2', 'lin|sqrt']
@case('derived', params=[dict(f=f) for f in FN], cost=2)
def derived(ctx, f):
    X, Y = Id('X'), Id('Y')
    t = ctx.real('t')
    with Families(ctx) as F:
        spe = F.leaf('X', 'norm', 1, ()).transform(Y, definition(ctx, f)(X))
        try: p = prob(ctx, spe, Y <= t)
        except (ValueError, AssertionError): ctx.check(True, 'no such event'); return
        check(ctx, spe, [('X', X <= t), ('derived', Y <= t)], twice=f in ('lin', 'abs', 'sqrt|lin'))
EV = {
    'lt': lambda X, a, b: X < b, 'ge': lambda X, a, b: X >= a, 'iv': lambda X, a, b: (a < X) & (X <= b), 'iv2': lambda X, a, b: X << Interval(a, b, right_open=True), 'in': lambda X, a, b: X << set_([a, b]), 'not in': lambda X, a, b: ~(X << set_([a])),
    'or': lambda X, a, b: (X < a) | (X > b), 'and': lambda X, a, b: (X ** 2 < b) & (X > a), 'of': lambda X, a, b: abs(X) + 1 < b, 'nested': lambda X, a, b: ((X < a) | (X ** 2 > b)) & ~(X << set_([b])),
    'piecewise': lambda X, a, b: (X < a) * (2 * X + b) + (X >= a) * X ** 2, 'piecewise2': lambda X, a, b: ((X < a) | (X > b)) * abs(X) + ((X >= a) & (X <= b)) * (-X), 'poly': lambda X, a, b: a * X + b,
    'exact': lambda X, a, b: sympy.sqrt(2) * X + sympy.Rational(1, 3), 'all': lambda X, a, b: X << Interval(-INF, INF),
}
@case('derived events', params=[dict(k=k) for k in EV], cost=2)
def derived_events(ctx, k):
    """Variables defined as events and piecewise expressions."""
    X, Y = Id('X'), Id('Y')
    a, b, t = ctx.real('a'), ctx.real('b'), ctx.real('t')
    ctx.assume(a < b)
    if k == 'poly': ctx.assume(ctx.Not(a == 0))
    with Families(ctx) as F:
        spe = F.leaf('X', 'norm', 1, ()).transform(Y, EV[k](X, a, b))
        bits = k not in ('piecewise', 'piecewise2', 'poly', 'exact')
        check(ctx, spe, [('X', X <= t)] + ([('Y', Y << {1}), ('not Y', Y << {0})] if bits else [('Y', Y <= t)]), twice=k in ('lt', 'in'))
@case('derived chain', params=[dict(k=k) for k in ('two', 'three', 'conditioned', 'constrained', 'mixture')], cost=3)
def derived_chain(ctx, k):
    X, Y, Z, W = [Id(v) for v in 'XYZW']
    b, c, t, s = [ctx.real(n) for n in 'bcts']
    with Families(ctx) as F:
        spe = F.leaf('X', 'norm', 1, ())
        if k == 'mixture': w = weights(ctx, 'w', 2); spe = SumSPE([spe, F.leaf('X', 'gamma', 1, ('loc',), tag='2')], [ctx.log(x) for x in w])
        spe = spe.transform(Y, 2 * X + b).transform(Z, abs(Y))
        evs = [('X', X <= t), ('Y', Y <= t), ('Z', Z <= t)]
        if k == 'three': spe = spe.transform(W, c - Z); evs.append(('W', W <= t))
        try:
            if k == 'conditioned': spe = spe.condition(Y < s)
            if k == 'constrained': spe = spe.constrain({X: s})
        except (AssertionError, ValueError): ctx.check(True, 'ruled out'); return
        check(ctx, spe, evs + [('both', (X <= t) & (Z <= s))])

# -- mixtures and products ------------------------------------------------------------------
def build_spec(ctx, F, spec, path='M'):
    """joint.STRUCT specs with leaves of the families."""
    if spec[0] == 'leaf':
        k, v = spec[1], spec[2]
        if k == 'nom': return make_leaf(ctx, 'nom', v, path, True)['spe']
        if k == 'atom': return AtomicLeaf(Id(v), ctx.real('at' + path))
        return F.leaf(v, 'poisson' if k == 'disc' else 'norm', 1, (), tag=path)
    cs = [build_spec(ctx, F, s, '%s%d' % (path, i)) for i, s in enumerate(spec[1:])]
    if spec[0] == 'prod': return ProductSPE(cs)
    ws = weights(ctx, 'w' + path, len(cs))
    return SumSPE(cs, [ctx.log(w) for w in ws])
STRUCTS = ['mixX', 'mixXXX', 'mixXatom', 'mixXnom', 'mixY', 'mixN', 'XY', 'XN', 'XA', 'XYNflat', 'mix(XY,XY)', 'mix(XN,NX)', 'mixX*N', 'mixX*mixN', 'mix(XN,mixX*N)', 'mix(XN,XN)*Y', 'Y*mix(XN,XN)', 'mix(mix,XN)', 'mix3']
@case('structure', params=[dict(st=s, cond=c) for s in STRUCTS for c in ('no', 'one', 'or')], cost=4)
def structure(ctx, st, cond):
    spec, vs = STRUCT[st]
    with Families(ctx) as F:
        spe = build_spec(ctx, F, spec)
        kinds = dict(KINDS); kinds.update({v: k for v, k in kinds_of(spec).items() if k != 'atom' or v == 'A'})
        th, space = env(ctx, vs, kinds, n=1)
        last = vs[-1]
        q = [('first', build(lit(vs[0], 0, th))), ('last', build(lit(last, 1, th)))]
        if len(vs) > 1: q += [('and', build(('and', lit(vs[0], 0, th), lit(last, 0, th)))), ('or', build(('or', lit(vs[0], 1, th), lit(last, 0, th))))]
        if st == 'mixXnom': q.append(('name', Id('X') << {'a'}))
        if cond != 'no':
            c = build(lit(vs[0], 0, th)) if cond == 'one' or len(vs) < 2 else build(('or', lit(vs[0], 0, th), lit(last, 0, th)))
            try: spe = spe.condition(c)
            except (AssertionError, ValueError): ctx.check(True, 'ruled out'); return
        check(ctx, spe, q, twice=st in ('mixX', 'mix(XN,NX)', 'mixXXX', 'mix(mix,XN)'))

@case('names', params=[dict(k=k) for k in ('array', 'array-mix', 'branch', 'branch-nested')], cost=2)
def names_(ctx, k):
    """Array elements, and branch variables that exist already."""
    t = ctx.real('t')
    with Families(ctx) as F:
        w = [ctx.log(x) for x in weights(ctx, 'w', 2)]
        if k == 'array':
            spe = ProductSPE([F.leaf('X[2]', 'norm', 1, ()), F.leaf('X[0]', 'norm', 1, (), tag='b'), F.leaf('Y', 'norm', 1, ())])
            q = [('X2', Id('X[2]') <= t), ('X0', Id('X[0]') <= t), ('Y', Id('Y') <= t)]
        elif k == 'array-mix':
            spe = SumSPE([ProductSPE([F.leaf('X[1]', 'norm', 1, (), tag=i), F.leaf('X[0]', 'norm', 1, (), tag='b' + i)]) for i in 'pq'], w)
            q = [('X1', Id('X[1]') <= t), ('X0', (Id('X[0]') <= t) & (Id('X[1]') > t))]
        else:
            B = make_leaf(ctx, 'nom', 'branch_var_0', 'B', True)['spe']
            mixX = SumSPE([F.leaf('X', 'norm', 1, (), tag=i) for i in 'pq'], w)
            spe = ProductSPE([B, mixX])
            if k == 'branch-nested':
                B2 = make_leaf(ctx, 'nom', 'branch_var_0', 'C', True)['spe']
                spe = SumSPE([spe, ProductSPE([F.leaf('X', 'norm', 1, (), tag='r'), B2])], [ctx.log(x) for x in weights(ctx, 'u', 2)])
            q = [('B', Id('branch_var_0') << {'a'}), ('X', Id('X') <= t), ('both', (Id('branch_var_0') << {'a'}) & (Id('X') <= t))]
        check(ctx, spe, q)
