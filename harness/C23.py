"""C23 Equal expressions, events and distributions are interchangeable: == and hash() of transforms.py, sets.py and spe.py."""
import itertools, sympy
from fractions import Fraction
from engine.h import case
from engine.api import hash_, set_
from harness.exprs import *
from harness.C03 import ev, EVENTS
from harness.C11 import Family, same_everywhere, env, mixture
from harness.joint import *
from sppl.sets import EmptySet, FiniteNominal, FiniteReal, Interval, Union

BOUNDS = ('pairs of expressions of up to 2 nested operations with independent, arbitrary real constants; pairs of events on them with arbitrary thresholds; '
          'conjunctions and disjunctions of up to 3 events in any order; leaves and models of up to 3 components; numbers given as int, float, Fraction, '
          'sympy Integer, Rational and Float; all real values of the variable')
OUTSIDE = 'numbers that differ by rounding; expressions nested deeper than 2; distributions of scipy families written with different argument conventions (norm(0) and norm(loc=0))'
ASSUMPTIONS = ['hash() of a number is the Python numeric hash (equal for equal numbers)', 'two members of a scipy family are the same law exactly when all their parameters are equal']

def same_hash(ctx, a, b): return ctx.truth(lambda: hash_(a) == hash_(b))
def eq_ok(ctx, a, b, what):
    """Whether a == b, after checking that == is symmetric, != its negation, and that equal objects hash alike and find each other in containers."""
    r = bool(a == b)
    ctx.check(bool(b == a) == r, '%s: == is not symmetric' % what)
    ctx.check(bool(a != b) == (not r), '%s: != disagrees with ==' % what)
    if r: ctx.check(same_hash(ctx, a, b), '%s: equal, with different hashes' % what)
    return r
def reflexive(ctx, a, what):
    ctx.check(bool(a == a) and not bool(a != a), '%s: not equal to itself' % what)
    ctx.check(same_hash(ctx, a, a), '%s: hash changes' % what)

def same_function(ctx, e, f, what):
    x = ctx.real('x')
    align_bases(ctx, e, f)
    de, df = e.domain(x), f.domain(x)
    if not (de and df): return                  # X*0 and the like: only values inside both domains are compared
    ctx.check(ctx.eq(e.value(x), f.value(x)), '%s: equal expressions with different values' % what)

def align_bases(ctx, e, f):
    """The powers of equal bases are the same function: name them by one base."""
    bases = [(k, n) for (_, _, k), n in zip(e.steps + f.steps, e.names + f.names) if n == 'b**']
    known = [2, 0.5]
    for k, _ in bases:
        for c in known:
            if k['c'] is c or bool(k['c'] == c): k['c'] = c; break
        else: known.append(k['c'])

NAMES = list(FORMS)
ONE = [p for p in itertools.combinations_with_replacement(NAMES, 2) if p != ('exp', 'b**')]     # no number given equals e
@case('one', params=[dict(f=f, g=g) for f, g in ONE])
def one(ctx, f, g):
    e, d = chain(ctx, [f], 'k'), chain(ctx, [g], 'l')
    if eq_ok(ctx, e.obj, d.obj, 'expressions'): same_function(ctx, e, d, 'expressions')
    if f == g: reflexive(ctx, e.obj, 'expression')

D2 = ['neg', 'abs', '+c', 'c-', '*c', '/c', 'c/', '1/', '**2', '**3', 'sqrt', '**(1,3)', 'exp', 'b**', 'log', 'lin']
TWO = [(f, g) for f in D2 for g in D2]
CROSS = [(('lin', '1/'), ('1/', 'lin')), (('**2', 'lin'), ('lin', '**2')), (('exp', 'log'), ('log', 'exp')), (('abs', '**2'), ('**2', 'abs')), (('sqrt', 'exp'), ('exp', 'sqrt')),
         (('neg', 'abs'), ('abs', 'neg')), (('+c', 'neg'), ('neg', 'c-')), (('*c', '+c'), ('+c', '*c')), (('*c', '/c'), ('/c', '*c')), (('c-', 'c-'), ('neg', 'neg')),
         (('lin', 'lin'), ('lin', 'lin-')), (('**2', '**2'), ('**4', '**1')), (('sqrt', '**(1,3)'), ('**(1,3)', 'sqrt')), (('lin', '**3'), ('**3', 'lin'))]
def built(ctx, t, n, ks): return chain(ctx, t, n, ks)
@case('two', params=[dict(t='|'.join(t)) for t in TWO], cost=2)
def two(ctx, t):
    t = t.split('|')
    e, d = chain(ctx, t, 'k'), chain(ctx, t, 'l')
    if eq_ok(ctx, e.obj, d.obj, 'expressions'): same_function(ctx, e, d, 'expressions')
    reflexive(ctx, e.obj, 'expression')
@case('cross', params=[dict(s='|'.join(s), t='|'.join(t)) for s, t in CROSS], cost=2)
def cross(ctx, s, t):
    e, d = chain(ctx, s.split('|'), 'k'), chain(ctx, t.split('|'), 'l')
    if eq_ok(ctx, e.obj, d.obj, 'expressions'): same_function(ctx, e, d, 'expressions')

# -- written twice with the same constants -----------------------------------------
@case('again', params=[dict(t=t) for t in NAMES] + [dict(t='|'.join(t)) for t in TWO])
def again(ctx, t):
    from sppl.transforms import Id
    t = t.split('|')
    ks = {i: FORMS[n][0](ctx, 'k%d' % i) for i, n in enumerate(t)}
    e, d = chain(ctx, t, 'k', ks), chain(ctx, t, 'k', ks)
    ctx.check(eq_ok(ctx, e.obj, d.obj, 'expression written twice'), 'the same expression written twice is not equal')
    v = ctx.real('t')
    for a, b in ((e.obj < v, d.obj < v), (e.obj << set_([v]), d.obj << set_([v])), (e.obj >= v, d.obj >= v)):
        ctx.check(eq_ok(ctx, a, b, 'event written twice'), 'the same event written twice is not equal')

# -- events ------------------------------------------------------------------------
EV1 = ['lt', 'le', 'gt', 'ge', 'iv', 'in', 'in2', 'ch', 'ne', 'out', 'un', 'fin']
PE = list(itertools.combinations_with_replacement(EV1, 2))
@case('events', params=[dict(k=k, l=l) for k, l in PE], cost=2)
def events(ctx, k, l):
    class Tag:
        def __init__(self, n): self.n = n
        def __getattr__(self, a): return getattr(ctx, a)
        def real(self, s, **kw): return ctx.real(self.n + s, **kw)
        def bool(self, s): return ctx.bool(self.n + s)
    (a, fa, _), (b, fb, _) = ev(Tag('A'), k, X), ev(Tag('B'), l, X)
    if eq_ok(ctx, a, b, 'events'):
        x = ctx.real('x')
        ctx.check(ctx.Iff(fa(x), fb(x)), 'equal events with different truth values')
    reflexive(ctx, a, 'event')

EF = ['x', 'neg', '*c', '/c', '+c', 'c/', 'sqrt', 'b**', '**2', 'abs']
@case('event-expr', params=[dict(f=f, g=g, k=k) for f, g in itertools.combinations_with_replacement(EF, 2) for k in ('lt', 'in')], cost=2)
def event_expr(ctx, f, g, k):
    e, d = chain(ctx, [f], 'k'), chain(ctx, [g], 'l')
    s, t = ctx.real('s'), ctx.real('t')
    a, b = (e.obj < s, d.obj < t) if k == 'lt' else (e.obj << set_([s]), d.obj << set_([t]))
    if eq_ok(ctx, a, b, 'events'):
        x = ctx.real('x')
        align_bases(ctx, e, d)
        if e.domain(x) and d.domain(x):
            u, v = e.value(x), d.value(x)
            ctx.check(ctx.Iff(u < s, v < t) if k == 'lt' else ctx.Iff(ctx.eq(u, s), ctx.eq(v, t)), 'equal events with different truth values')

PERM = list(itertools.permutations(range(3)))
@case('compound', params=[dict(op=o, vs=v) for o in ('and', 'or', 'mixed') for v in ('XX', 'XY')], cost=4)
def compound(ctx, op, vs):
    """Three events joined in two orders with their own thresholds: equal ones are true together."""
    from sppl.transforms import Id
    V = [Id(vs[0]), Id(vs[1]), Id(vs[0])]
    s, t = [ctx.real('s%d' % i) for i in range(3)], [ctx.real('t%d' % i) for i in range(3)]
    p = ctx.pick('order', PERM)
    mk = lambda c, i: (V[i] < c[i]) if i < 2 else (V[i] << set_([c[i]]))
    tr = lambda A, c, i: A[vs[i % 2] if i < 2 else vs[0]] < c[i] if i < 2 else A[vs[0]] == c[i]
    A1 = [mk(s, i) for i in range(3)]; A2 = [mk(t, i) for i in p]
    if op == 'and': a, b = A1[0] & A1[1] & A1[2], A2[0] & A2[1] & A2[2]
    elif op == 'or': a, b = A1[0] | A1[1] | A1[2], A2[0] | A2[1] | A2[2]
    else: a, b = (A1[0] & A1[1]) | A1[2], (A2[0] & A2[1]) | A2[2]
    if eq_ok(ctx, a, b, 'compound events'):
        at = {v: ctx.real('at' + v) for v in set(vs)}
        T1 = [tr(at, s, i) for i in range(3)]; T2 = [tr(at, t, i) for i in p]
        f = {'and': lambda T: ctx.And(*T), 'or': lambda T: ctx.Or(*T), 'mixed': lambda T: ctx.Or(ctx.And(T[0], T[1]), T[2])}[op]
        ctx.check(ctx.Iff(f(T1), f(T2)), 'equal compound events with different truth values')
    reflexive(ctx, a, 'compound event')

@case('and-or')
def and_or(ctx):
    """A conjunction never equals a disjunction, nor an event on one variable the same event on another."""
    from sppl.transforms import Id
    Y = Id('Y')
    s, t = ctx.real('s'), ctx.real('t')
    ctx.check(not eq_ok(ctx, (X < s) & (Y < t), (X < s) | (Y < t), 'and/or'), 'a conjunction equals a disjunction')
    ctx.check(not eq_ok(ctx, X < s, Y < s, 'variables'), 'events on different variables are equal')
    ctx.check(not eq_ok(ctx, X << {'a'}, Y << {'a'}, 'variables'), 'events on different variables are equal')
    n, m = ctx.pick('n', ['X', 'Y', 'x', 'X1']), ctx.pick('m', ['X', 'Y', 'x', 'X1'])
    ctx.check(eq_ok(ctx, Id(n), Id(m), 'names') == (n == m), 'equality of variables')
    for o in (None, 1, 'X', s, (), X < s):
        ctx.check(not bool(X == o) and bool(X != o), 'a variable equals something else')
    for o in (None, 1, 'X', s, X):
        ctx.check(not bool((X < s) == o) and bool((X < s) != o), 'an event equals something else')

NN = [(), ('a',), ('b',), ('a', 'b'), ('b', 'a')]
@case('nominal', cost=2)
def nominal(ctx):
    n, m = ctx.pick('n', NN), ctx.pick('m', NN)
    cn, cm = ctx.bool('cn'), ctx.bool('cm')
    if not n and not cn or not m and not cm: return
    e = lambda v, c: X << FiniteNominal(*v, b=c)
    r = eq_ok(ctx, e(n, cn), e(m, cm), 'nominal events')
    ctx.check(r == (set(n) == set(m) and cn == cm), 'equality of nominal events')

# -- piecewise ---------------------------------------------------------------------
@case('piecewise', params=[dict(n=n) for n in (1, 2)], cost=3)
def piecewise(ctx, n):
    """Pieces lo..hi of two piecewise expressions; equal ones have equal values."""
    def pw(tag):
        a = ctx.real(tag + 'a'); cs = [ctx.real('%sc%d' % (tag, i)) for i in range(3)]
        pieces = [(X < a, X + cs[0], lambda x: x < a, lambda x: x + cs[0]), (X > a, X * X + cs[1], lambda x: x > a, lambda x: x * x + cs[1])]
        if n == 1: pieces = pieces[:1]
        obj = None
        for ev_, ex, _, _ in pieces:
            p = ev_ * ex
            obj = p if obj is None else obj + p
        return obj, pieces
    (o1, p1), (o2, p2) = pw('A'), pw('B')
    reflexive(ctx, o1, 'piecewise expression')
    if eq_ok(ctx, o1, o2, 'piecewise expressions'):
        x = ctx.real('x')
        for (_, _, i1, v1), (_, _, i2, v2) in zip(p1, p2):
            ctx.check(ctx.Iff(i1(x), i2(x)), 'equal piecewise expressions with different pieces')
            ctx.check(ctx.Or(ctx.Not(i1(x)), ctx.eq(v1(x), v2(x))), 'equal piecewise expressions with different values')
    v = ctx.real('t')
    eq_ok(ctx, o1 < v, o2 < v, 'events on piecewise expressions')

# -- leaves and models ---------------------------------------------------------------
@case('leaf-env', params=[dict(kind=k) for k in ('cont', 'disc', 'atom')], cost=2)
def leaf_env(ctx, kind):
    """Derived variables given in another order, or with other constants."""
    from sppl.spe import AtomicLeaf
    from sppl.transforms import Id
    c = [ctx.int('c%d' % i) for i in range(4)]
    V, W = Id('Z0'), Id('Z1')
    e1 = dict([(X, X), (V, X + c[0]), (W, X * 2 + c[1])])
    e2 = dict([(X, X), (W, X * 2 + c[3]), (V, X + c[2])])
    F = Family(ctx, 'X', 'disc' if kind == 'disc' else 'cont', sort='int')
    if kind == 'atom':
        v, w = ctx.int('v'), ctx.int('w')
        a, b = AtomicLeaf(X, v, env=e1), AtomicLeaf(X, w, env=e2)
        same = ctx.And(v == w, c[0] == c[2], c[1] == c[3])
    else:
        p, q = F.param(), F.param()
        a, b = F.leaf(p, env=e1), F.leaf(q, env=e2)
        same = ctx.And(p == q, c[0] == c[2], c[1] == c[3])
    r = eq_ok(ctx, a, b, 'leaves')
    ctx.check(ctx.Iff(r, same), 'equality of leaves')

@case('leaf-support', params=[dict(kind=k) for k in ('cont', 'disc')], cost=3)
def leaf_support(ctx, kind):
    F = Family(ctx, 'X', kind, sort='int')
    p, q = F.param(), F.param()
    num = ctx.int if kind == 'disc' else ctx.real
    a, b, c, d = [num(n) for n in 'abcd']
    ctx.assume(a < b); ctx.assume(c < d)
    l, m = F.leaf(p, support=Interval(a, b)), F.leaf(q, support=Interval(c, d))
    r = eq_ok(ctx, l, m, 'leaves')
    ctx.check(ctx.Iff(r, ctx.And(p == q, a == c, b == d)), 'equality of truncated leaves')

@case('leaf-nominal', cost=2)
def leaf_nominal(ctx):
    from sppl.spe import NominalLeaf
    from sppl.transforms import Id
    ps, qs = nominal_weights(ctx, 'p', 3), nominal_weights(ctx, 'q', 3)
    names = ctx.pick('names', [('a', 'b', 'c'), ('c', 'a', 'b'), ('b', 'a', 'c'), ('a', 'b', 'd')])
    l, m = NominalLeaf(Id('N'), dict(zip('abc', ps))), NominalLeaf(Id('N'), dict(zip(names, qs)))
    r = eq_ok(ctx, l, m, 'nominal leaves')
    dl, dm = dict(zip('abc', ps)), dict(zip(names, qs))
    same = ctx.And(*[ctx.eq(dl[k], dm[k]) for k in dl]) if set(dl) == set(dm) else False
    ctx.check(ctx.Iff(r, same), 'equality of nominal leaves')
    ctx.check(not bool(l == NominalLeaf(Id('M'), dict(zip('abc', ps)))), 'leaves of different variables are equal')

MODELS = {
    'sum': lambda ctx, F, G, w: mixed(ctx, [F(0), F(1)], w), 'prod': lambda ctx, F, G, w: product([F(0), G(0)]), 'prod-swap': lambda ctx, F, G, w: product([G(0), F(0)]),
    'sum-prod': lambda ctx, F, G, w: mixed(ctx, [product([F(0), G(0)]), product([F(1), G(0)])], w), 'leaf': lambda ctx, F, G, w: F(0),
    'sum-swap': lambda ctx, F, G, w: mixed(ctx, [F(1), F(0)], w),
}
def mixed(ctx, cs, w):
    from sppl.spe import SumSPE
    return SumSPE(cs, [ctx.log(w), ctx.log(1 - w)])
def product(cs):
    from sppl.spe import ProductSPE
    return ProductSPE(cs)

@case('models', params=[dict(a=a, b=b) for a, b in itertools.combinations_with_replacement(MODELS, 2)], cost=4)
def models(ctx, a, b):
    """Equal models give equal probabilities."""
    FX, FY = Family(ctx, 'X', sort='int'), Family(ctx, 'Y', tag='y', sort='int')
    ps = {(s, i): FX.param() for s in 'ab' for i in (0, 1)}; qs = {s: FY.param() for s in 'ab'}
    ws = {s: ctx.real('w' + s, gt=0, lt=1) for s in 'ab'}
    mk = lambda s, m: MODELS[m](ctx, lambda i: FX.leaf(ps[s, i]), lambda i: FY.leaf(qs[s]), ws[s])
    A, B = mk('a', a), mk('b', b)
    reflexive(ctx, A, 'model')
    if eq_ok(ctx, A, B, 'models'):
        ctx.check(A.get_symbols() == B.get_symbols(), 'equal models with different variables')
        t = ctx.real('t')
        from sppl.transforms import Id
        for V in sorted(A.get_symbols(), key=str):
            ctx.check(ctx.eq(ctx.exp(A.logprob(V <= t)), ctx.exp(B.logprob(V <= t))), 'equal models with different probabilities')

# -- the same number written in different ways -----------------------------------------
KINDS = ['int', 'float', 'Fraction', 'Integer', 'Rational', 'Float']
VALUES = ['2', '1/2', '-1', '0', '3/4', '-5/2']
def number(kind, v):
    q = Fraction(v)
    if kind == 'int': return int(q) if q.denominator == 1 else None
    if kind == 'Integer': return sympy.Integer(int(q)) if q.denominator == 1 else None
    if kind == 'float': return float(q)
    if kind == 'Fraction': return q
    if kind == 'Rational': return sympy.Rational(q.numerator, q.denominator)
    if kind == 'Float': return sympy.Float(float(q))
KP = [dict(i=i, j=j) for i, j in itertools.combinations(KINDS, 2)]
USE = {
    '<': lambda c, t: X < c, '<=': lambda c, t: X <= c, '>=': lambda c, t: X >= c, 'in': lambda c, t: X << {c}, 'in-t': lambda c, t: X << set_([c, t]),
    '+': lambda c, t: X + c, '*': lambda c, t: X * c, 'lin': lambda c, t: c * X + t, 'c-': lambda c, t: c - X, '/': lambda c, t: X / c, 'c/': lambda c, t: c / X,
    'quad': lambda c, t: X ** 2 + c * X + t, 'b**': lambda c, t: c ** X, 'logb': lambda c, t: Logarithm(X, c), 'chain': lambda c, t: (t < X) <= c,
    'lin<': lambda c, t: (c * X + 1) < t, 'atom': lambda c, t: atom(c), 'and': lambda c, t: (X < c) & (Id('Y') > t), 'interval': lambda c, t: X << Interval(c, t),
}
def atom(c):
    from sppl.spe import AtomicLeaf
    return AtomicLeaf(X, c)
@case('kinds', params=[dict(u=u, i=i, j=j) for u in USE for i, j in itertools.combinations(KINDS, 2) if 'Fraction' not in (i, j) or u not in ('atom', 'in', 'in-t', 'logb', 'interval')])      # sympy and Fraction do not compare
def kinds(ctx, u, i, j):
    """The same number as two types gives interchangeable expressions, events and leaves."""
    t = ctx.real('t')
    n = 0
    for v in VALUES:
        a, b = number(i, v), number(j, v)
        if a is None or b is None: continue
        if u == '/' and v not in ('2', '1/2', '-1'): continue            # exact reciprocals
        if u == 'b**' and Fraction(v) <= 0 or u == 'logb' and Fraction(v) <= 1: continue
        if u in ('chain', 'interval') and not bool(t < a if u == 'chain' else t > a): continue
        L, R = USE[u](a, t), USE[u](b, t)
        ctx.check(eq_ok(ctx, L, R, '%s as %s and %s' % (v, i, j)), 'the same number as %s and %s: not equal' % (i, j)); n += 1
    if not n: ctx.check(True, 'no common value')
