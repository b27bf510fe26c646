"""C17 Serialising to a dictionary and back preserves the distribution: compilers/spe_to_dict.py."""
import json, numbers
from fractions import Fraction
import sympy
from engine.h import case
from engine.api import hash_, set_
from harness.joint import *
import sppl.compilers.spe_to_dict as D
from sppl.spe import AtomicLeaf, ContinuousLeaf, DiscreteLeaf, NominalLeaf, ProductSPE, SumSPE
from sppl.sets import Interval, FiniteReal, FiniteNominal, EmptySet
from sppl.transforms import *
from sppl.transforms import Event
from harness.exprs import FORMS, chain

BOUNDS = ('leaves of every kind with symbolic parameters (positional and by keyword), supports, values and weights, plain, conditioned on intervals, points and unions, constrained, and with derived variables '
          'of up to 2 nested operations or events; mixtures and products of up to 4 leaves nested to depth 3, plain and conditioned; exact constants (integers, rationals, roots, pi, e, logarithms, roots of polynomials) in supports, values and definitions')
OUTSIDE = 'sympy Floats (numerical roots), which are written to 15 digits; accuracy of scipy; floating-point rounding'
ASSUMPTIONS = ['two members of a scipy family are the same law exactly when all their parameters are equal', 'json.dumps/loads preserve plain data, turning tuples into lists']

class Families:
    """Members of scipy families in scipy.stats: equal parameters give the same law."""
    def __init__(self, ctx): self.ctx, self.members = ctx, []
    def __enter__(self):
        import scipy.stats
        for n in ('vfa', 'vfb'): setattr(scipy.stats, n, (lambda n: lambda *a, **k: self.get(n, a, k))(n))
        return self
    def __exit__(self, *a):
        import scipy.stats
        for n in ('vfa', 'vfb'): delattr(scipy.stats, n)
    def get(self, name, args, kwds, integer=False):
        args = tuple(args)
        for n, a, k, d in self.members:
            if n == name and len(a) == len(args) and set(k) == set(kwds) and all(bool(x == y) for x, y in zip(a, args)) and all(bool(k[x] == kwds[x]) for x in k): return d
        d = law(self.ctx, 'F%d' % len(self.members), None, None, integer, True, args=args, kwds=dict(kwds), family=name)
        self.members.append((name, args, dict(kwds), d))
        return d
    def leaf(self, V, kind='cont', name='vfa', tag='', args=1, kwds=2, support=None, conditioned=None, env=None):
        ctx = self.ctx
        d = self.get(name, [ctx.real('a%s%s%d' % (V, tag, i)) for i in range(args)], {k: ctx.real('k%s%s%s' % (V, tag, k)) for k in ('loc', 'scale', 'c')[:kwds]}, kind == 'disc')
        cls = ContinuousLeaf if kind == 'cont' else DiscreteLeaf
        return cls(Id(V), d, Interval(-INF, INF) if support is None else support, conditioned, env)

def plain(ctx, d):
    """What json makes of d; refuses anything that is not plain data."""
    if not ctx.symbolic: return json.loads(json.dumps(d))
    if d is None or isinstance(d, (bool, str)): return d
    if isinstance(d, (list, tuple)): return [plain(ctx, x) for x in d]
    if isinstance(d, dict):
        if not all(type(k) is str for k in d): raise TypeError('keys must be strings')
        return {k: plain(ctx, v) for k, v in d.items()}
    from engine import sx
    if type(d) in (int, float) or isinstance(d, float) or isinstance(d, (sx.SymReal, sx.SymLog)): return d
    raise TypeError('Object of type %s is not JSON serializable' % type(d).__name__)

def there_and_back(ctx, spe): return D.spe_from_dict(plain(ctx, D.spe_to_dict(spe)))

def check(ctx, spe, events, points=()):
    new = there_and_back(ctx, spe)
    ctx.check(ctx.truth(lambda: (new == spe) and (spe == new)), 'the distribution comes back equal')
    ctx.check(ctx.truth(lambda: hash_(new) == hash_(spe)), 'with an equal hash')
    ctx.check(type(new) is type(spe) or isinstance(spe, SumSPE) and isinstance(new, SumSPE), 'of the same class')
    ctx.check(set(new.get_symbols()) == set(spe.get_symbols()), 'over the same variables')
    for n, e in events: ctx.check(ctx.eq(prob(ctx, new, e), prob(ctx, spe, e)), 'probability of %s' % n)
    for n, p in points: ctx.check(ctx.eq(ctx.exp(new.logpdf(p)), ctx.exp(spe.logpdf(p))), 'density at %s' % n)

# -- leaves ----------------------------------------------------------------------------
def sup(ctx, k, sort='real'):
    r = ctx.real if sort == 'real' else ctx.int
    a, b, c = r('sa'), r('sb'), r('sc')
    ctx.assume(a < b); ctx.assume(b < c)
    return dict(all=Interval(-INF, INF), closed=Interval(a, b), open=Interval.open(a, b), lopen=Interval.Lopen(a, b), ropen=Interval.Ropen(a, b), below=Interval(-INF, a), above=Interval.open(a, INF),
                points=FiniteReal(a, b, c), point=FiniteReal(b), union=Interval(a, b) | FiniteReal(c), union2=Interval(-INF, a) | Interval(b, c))[k]

@case('leaf', params=[dict(kind=k, sup=s, n=n, cond=c) for k in ('cont', 'disc') for s in ('all', 'closed', 'open', 'lopen', 'ropen', 'below', 'above') for n in ((0, 0), (2, 1)) for c in (None, True)] +
      [dict(kind='cont', sup='all', n=n, cond=None) for n in ((1, 0), (0, 2), (3, 3))])
def leaf(ctx, kind, sup, n, cond):
    with Families(ctx) as F:
        t = ctx.real('t') if kind == 'cont' else ctx.int('t')
        spe = F.leaf('X', kind, args=n[0], kwds=n[1], support=globals()['sup'](ctx, sup, 'int' if kind == 'disc' else 'real'), conditioned=cond)
        X = Id('X')
        check(ctx, spe, [('<=', X <= t), ('=', X << set_([t]))], [('t', {X: t})] if kind == 'cont' or ctx.symbolic or float(t).is_integer() else [])

@case('conditioned', params=[dict(kind=k, how=h) for k in ('cont', 'disc') for h in ('lt', 'le', 'iv', 'union', 'out', 'points', 'twice')] + [dict(kind=k, how='constrain') for k in ('cont', 'disc')], cost=2)
def conditioned(ctx, kind, how):
    """Leaves conditioned and constrained by the real code."""
    X = Id('X')
    with Families(ctx) as F:
        spe = F.leaf('X', kind)
        a, b, t = [(ctx.real if kind == 'cont' else ctx.int)(n) for n in 'abt']
        ctx.assume(a < b)
        try:
            if how == 'constrain': spe = spe.constrain({X: a})
            elif how == 'twice': spe = spe.condition(X < b).condition(X > a)
            else: spe = spe.condition({'lt': lambda: X < a, 'le': lambda: X <= a, 'iv': lambda: (X > a) & (X <= b), 'union': lambda: (X < a) | (X << set_([b])) | (X > b), 'out': lambda: (X <= a) | (X > b), 'points': lambda: X << set_([a, b])}[how]())
        except (AssertionError, ValueError):
            ctx.check(True, 'ruled out'); return
        check(ctx, spe, [('<=', X <= t), ('=', X << set_([t]))])

@case('atom', params=[dict(env=e) for e in (None, 'one', 'two')])
def atom(ctx, env):
    X, Y, Z = Id('X'), Id('Y'), Id('Z')
    v, t, c = ctx.real('v'), ctx.real('t'), ctx.real('c')
    spe = AtomicLeaf(X, v)
    evs = [('<=', X <= t), ('=', X << set_([t])), ('= v', X << set_([v]))]
    if env: spe = spe.transform(Y, X ** 2 + c); evs.append(('derived', Y <= t))
    if env == 'two': spe = spe.transform(Z, abs(X)); evs.append(('derived', Z <= t))
    check(ctx, spe, evs)

@case('nominal', params=[dict(n=n, cond=c) for n in (1, 2, 3, 4) for c in (False, True)])
def nominal(ctx, n, cond):
    N = Id('N')
    outs = ["a", "b b", "it's", "9"][:n]
    spe = make_leaf(ctx, 'nom', 'N', 'n', outcomes=outs, zero_ok=True)['spe']
    if cond:
        if bool(ctx.exp(spe.logprob(N << set(outs[:2]))) == 0): ctx.check(True, 'impossible'); return
        spe = spe.condition(N << set(outs[:2]))
    check(ctx, spe, [(o, N << {o}) for o in outs] + [('other', N << {'zz'}), ('not', N << FiniteNominal(outs[0], b=True))], [(o, {N: o}) for o in outs])

# -- derived variables -------------------------------------------------------------------
def evs_of(ctx, X, Y, t): return [('X', X <= t), ('derived', Y <= t), ('derived =', Y << set_([t]))]
ONE = [f for f in FORMS if f not in ('const',)]
@case('derived', params=[dict(f=f) for f in ONE], cost=2)
def derived(ctx, f):
    X, Y = Id('X'), Id('Y')
    with Families(ctx) as F:
        e = chain(ctx, [f], 'c')
        try: spe = F.leaf('X', 'cont').transform(Y, e.obj)
        except AssertionError:
            ctx.check(not e.obj.symbols() if hasattr(e.obj, 'symbols') else True, 'not an expression of X'); return
        t = ctx.real('t')
        new = there_and_back(ctx, spe)
        ctx.check(ctx.truth(lambda: new == spe), 'the distribution comes back equal')
        same_expr(ctx, new.env[Y], e, 'the definition')
def same_expr(ctx, obj, e, what):
    x = ctx.real('x')
    if not e.domain(x): return
    ctx.check(ctx.eq(obj.evaluate({Id('X'): x}), e.value(x)), what)

D2 = ['neg', 'abs', '+c', '/c', 'c/', '1/', '**2', '**3', 'sqrt', 'exp', 'b**', 'log', 'lin']
@case('derived2', params=[dict(f=f, g=g, how=h) for i, f in enumerate(D2) for j, g in enumerate(D2) for h in ('nested', 'twice') if (i + j) % 2 == (h == 'twice')], cost=2)
def derived2(ctx, f, g, how):
    """Nested expressions, or a second variable defined from the first."""
    X, Y, Z = Id('X'), Id('Y'), Id('Z')
    with Families(ctx) as F:
        spe = F.leaf('X', 'cont')
        e = chain(ctx, [f, g], 'c')
        if how == 'nested': spe = spe.transform(Y, e.obj); last = Y
        else:
            a, b = chain(ctx, [f], 'c'), FORMS[g]
            spe = spe.transform(Y, a.obj).transform(Z, b[1](Y, e.steps[1][2])); last = Z
            # the constants of the first operation are those of the chain
        new = there_and_back(ctx, spe)
        ctx.check(ctx.truth(lambda: new == spe), 'the distribution comes back equal')
        ctx.check(list(new.env) == list(spe.env), 'definitions are kept in order')
        x = ctx.real('x')
        if how == 'nested': same_expr(ctx, new.env[Y], e, 'the definition')
        else:
            if not e.domain(x): return
            y = new.env[Y].evaluate({X: x})
            ctx.check(ctx.eq(new.env[Z].evaluate({Y: y}), e.value(x)), 'the definitions together')

DEV = {
    'interval': lambda X, a, b: X < a, 'closed': lambda X, a, b: (X >= a) & (X <= b), 'points': lambda X, a, b: X << set_([a, b]), 'not': lambda X, a, b: ~(X << set_([a])), 'or': lambda X, a, b: (X < a) | (X > b),
    'and': lambda X, a, b: (X ** 2 < b) & (X > a), 'piecewise': lambda X, a, b: (X < a) * (2 * X + b) + (X >= a) * (X ** 2), 'event of expression': lambda X, a, b: abs(X) + 1 < b, 'poly': lambda X, a, b: a * X ** 3 + X - b,
    'or and': lambda X, a, b: ((X < a) & (X ** 2 > b)) | (X << set_([b])), 'nominal': lambda X, a, b: X << {'a', 'x'}, 'not nominal': lambda X, a, b: ~(X << {'a', '1'}), 'empty': lambda X, a, b: X << [],
}
@case('derived-event', params=[dict(k=k) for k in DEV], cost=2)
def derived_event(ctx, k):
    """Variables derived as events and piecewise expressions."""
    X, Y = Id('X'), Id('Y')
    with Families(ctx) as F:
        a, b, x = ctx.real('a'), ctx.real('b'), ctx.real('x')
        ctx.assume(a < b); ctx.assume(ctx.Not(a == 0))
        e = DEV[k](X, a, b)
        spe = F.leaf('X', 'cont').transform(Y, e)
        new = there_and_back(ctx, spe)
        ctx.check(ctx.truth(lambda: (new == spe) and hash_(new) == hash_(spe)), 'the distribution comes back equal')
        if k in ('nominal', 'not nominal'): return
        if isinstance(e, Event): ctx.check(ctx.truth(lambda: new.env[Y].evaluate({X: x})) == ctx.truth(lambda: e.evaluate({X: x})), 'the definition')
        else: ctx.check(ctx.eq(new.env[Y].evaluate({X: x}), e.evaluate({X: x})), 'the definition')

# -- models ------------------------------------------------------------------------------
def built(ctx, F, spec, tag='m', probs=False):
    if spec[0] == 'leaf':
        k, V = spec[1], spec[2]
        if k in ('cont', 'disc'): return F.leaf(V, k, tag=tag)
        return make_leaf(ctx, k, V, tag, True)['spe']
    cs = [built(ctx, F, c, '%s%d' % (tag, i)) for i, c in enumerate(spec[1:])]
    if spec[0] == 'prod': return ProductSPE(cs)
    ws = weights(ctx, 'w' + tag, len(cs))
    return SumSPE(cs, [ctx.log(w) for w in ws])

MODELS = [s for s in STRUCT if s not in ('mixY', 'YN')]
@case('model', params=[dict(st=s) for s in MODELS], cost=4)
def model(ctx, st):
    spec, vs = STRUCT[st]
    with Families(ctx) as F:
        spe = built(ctx, F, spec)
        kinds = dict(KINDS)
        th, space = env(ctx, vs, kinds, n=1)
        evs = [(v, build(lit(v, 0, th))) for v in vs]
        if len(vs) > 1: evs += [('and', build(('and', lit(vs[0], 1, th), lit(vs[1], 0, th)))), ('or', build(('or', lit(vs[0], 0, th), lit(vs[1], 0, th))))]
        check(ctx, spe, evs)

@case('posterior', params=[dict(st=s, e=e) for s, e in (('mixX', 'one'), ('XN', 'and'), ('XN', 'or'), ('mix(XN,XN)*Y', 'or'), ('mix(XN,NX)', 'and'), ('mix(XN,NX)', 'or2'), ('mixX*mixN', 'xor'), ('XYN', 'or3'), ('mixXatom', 'hole'), ('XA', 'or'))], cost=6)
def posterior(ctx, st, e):
    """Conditioned models."""
    spec, vs = STRUCT[st]
    with Families(ctx) as F:
        spe = built(ctx, F, spec)
        th, space = env(ctx, vs, dict(KINDS), n=2)
        try: spe = spe.condition(build(shapes(vs, th)[e]))
        except (AssertionError, ValueError): ctx.check(True, 'impossible'); return
        check(ctx, spe, [(v, build(lit(v, 0, th))) for v in vs] + ([('and', build(('and', lit(vs[0], 1, th), lit(vs[1], 0, th))))] if len(vs) > 1 else []))

@case('model-derived', params=[dict(k=k) for k in ('sum', 'product', 'nested', 'posterior')], cost=4)
def model_derived(ctx, k):
    """Derived variables inside models."""
    X, Y, N = Id('X'), Id('Y'), Id('N')
    with Families(ctx) as F:
        c, t = ctx.real('c', gt=0), ctx.real('t')
        spec = {'sum': mix(lf('X'), lf('X')), 'product': prod(lf('X'), lf('N')), 'nested': mix(prod(lf('X'), lf('N')), prod(lf('X'), lf('N'))), 'posterior': mix(prod(lf('X'), lf('N')), prod(lf('X'), lf('N')))}[k]
        spe = built(ctx, F, spec).transform(Y, 2 * X + c)
        if k == 'posterior': spe = spe.condition((Y < t) | (N << {'a'}))
        evs = [('Y', Y <= t), ('X', X <= t)] + ([('N and Y', (N << {'a'}) & (Y > t))] if k != 'sum' else [])
        check(ctx, spe, evs)

# -- exact constants -----------------------------------------------------------------------
S = sympy
CONST = {'0': 0, '3': 3, '-2': -2, '0.5': .5, '0.1': .1, '-1e-300': -1e-300, '1e22': 1e22, '1/3': S.Rational(1, 3), '-7/3': S.Rational(-7, 3), 'half': S.S.Half, 'Fraction': Fraction(2, 7), 'Integer': S.Integer(5), 'sqrt2': S.sqrt(2), '-sqrt(2)/3': -S.sqrt(2) / 3,
         '1/2+sqrt5/2': (1 + S.sqrt(5)) / 2, '2**(1/3)': S.Integer(2) ** S.Rational(1, 3), '2**(-2/3)': S.Integer(2) ** S.Rational(-2, 3), 'pi': S.pi, '-pi/4': -S.pi / 4, 'e': S.E, 'exp(3)': S.exp(3), 'exp(-1/2)': S.exp(S.Rational(-1, 2)), 'log3': S.log(3), 'log2/log3': S.log(2) / S.log(3), '1/log2': 1 / S.log(2),
         'root': S.CRootOf(S.Symbol('x') ** 5 - 3 * S.Symbol('x') + 1, 0), 'sqrt(1+sqrt2)': S.sqrt(1 + S.sqrt(2)), 'big': 10 ** 30, 'bigfrac': S.Rational(10 ** 20 + 1, 3), 'pi**2': S.pi ** 2, '1.5*pi': 1.5 * S.pi}
def inside(ctx, c): return float(c)
PLACES = ['support', 'atom', 'point', 'event', 'coefficient', 'threshold']
@case('constant', params=[dict(c=c, at=p) for c in CONST for p in PLACES], cost=1)
def constant(ctx, c, at):
    """Exact constants wherever numbers are kept."""
    X, Y = Id('X'), Id('Y')
    k = CONST[c]
    with Families(ctx) as F:
        if at == 'atom': spe = AtomicLeaf(X, k)
        elif at == 'support': spe = F.leaf('X', 'cont', support=Interval.Lopen(-INF, k) if True else None, conditioned=True)
        elif at == 'point': spe = F.leaf('X', 'cont').constrain({X: k})
        elif at == 'event': spe = F.leaf('X', 'cont').condition((X < k) | (X > k))
        elif at == 'coefficient':
            if k == 0 or c == '-1e-300': ctx.check(True, 'not a coefficient'); return
            spe = F.leaf('X', 'cont').transform(Y, k * X + 1)
        else: spe = F.leaf('X', 'cont').transform(Y, X <= k)
        new = there_and_back(ctx, spe)
        ctx.check(ctx.truth(lambda: (new == spe) and (spe == new)), 'the distribution comes back equal')
        ctx.check(ctx.truth(lambda: hash_(new) == hash_(spe)), 'with an equal hash')
        if at in ('atom', 'point'): ctx.check(ctx.eq(prob(ctx, new, X << FiniteReal(k)), 1), 'probability of the value')
        elif at == 'support': ctx.check(ctx.eq(prob(ctx, new, X << spe.support), 1), 'probability of the range')

@case('table', params=[dict(k=k) for k in ('discrete', 'uniform', 'product', 'conditioned', 'derived')])
def table(ctx, k):
    """Tables of values (concrete: scipy checks the table itself)."""
    from sppl.distributions import discrete, uniformd
    X, Y = Id('X'), Id('Y')
    t = ctx.int('t')
    spe = X >> (uniformd(values=[1, 5, 2]) if k == 'uniform' else discrete({3: .125, 1: .5, 4: .375}))
    if k == 'product': spe = spe & (Y >> discrete({1: .25, 2: .75}))
    if k == 'conditioned': spe = spe.condition(X > 2)
    if k == 'derived': spe = spe.transform(Y, X ** 2 + 1)
    new = there_and_back(ctx, spe)
    ctx.check(ctx.truth(lambda: (new == spe) and hash_(new) == hash_(spe)), 'the distribution comes back equal')
    for v in range(7):
        ctx.check(abs(new.prob(X << {v}) - spe.prob(X << {v})) < 1e-12, 'probability of %d' % v)
        if k == 'product': ctx.check(abs(new.prob(Y <= v) - spe.prob(Y <= v)) < 1e-12, 'probability of %d' % v)
