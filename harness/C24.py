"""C24 Ill-formed models are refused and operators build the stated model."""
import itertools
from engine.h import case
from harness.worlds import *

BOUNDS = ('arbitrary real weights (any sign and size); mixtures of up to 3 components built with the operators in every nesting, mixtures and products nested to '
          'depth 3; piecewise expressions of up to 3 pieces with arbitrary bounds; derived variables over mixtures and products of up to 3 variables')
OUTSIDE = 'weights that miss one by less than a relative 2e-5, which the library accepts as rounding; floating-point rounding'
ASSUMPTIONS = ['log/exp exact; numpy.allclose uses its documented tolerance']

REFUSED = (AssertionError, ValueError, TypeError)
def attempt(f):
    try:
        return f()
    except REFUSED:
        return None

def near(ctx, s):
    """Within the tolerance of the library, but not one."""
    d = s - 1
    return ctx.And(ctx.Not(s == 1), d <= 0.00003, d >= -0.00003)

def leafs(ctx, kinds='cc', var='X'):
    out = []
    for i, k in enumerate(kinds):
        out.append(make_leaf(ctx, {'c': 'cont', 'd': 'disc', 'n': 'nom', 'a': 'atom'}[k], var, 'L%d' % i, True))
    return out

def P1(ctx, leaves, ws, t):
    """P(X <= t) in the mixture."""
    r = ctx.const(0)
    for w, l in zip(ws, leaves): r = r + w * l['mass'](('iv', -INF, t))
    return r

def flat(ctx, spe, leaves, ws, t=None, exact=True):
    """The model is the mixture of the leaves with the stated weights."""
    from sppl.spe import SumSPE
    ctx.check(isinstance(spe, SumSPE), 'a mixture is built')
    ctx.check(len(spe.children) == len(leaves) and all(a is b['spe'] for a, b in zip(spe.children, leaves)), 'components in the stated order')
    for got, w in zip(spe.weights, ws): ctx.check(ctx.eq(ctx.exp(got), w), 'stated weight')

# ---------------------------------------------------------------- weights

@case('weight', params=[dict(kind=k, op=o) for k in 'cdna' for o in ('left', 'right')])
def weight(ctx, kind, op):
    from sppl.spe import PartialSumSPE
    w = ctx.real('w')
    (A,) = leafs(ctx, kind)
    r = attempt(lambda: w * A['spe'] if op == 'left' else A['spe'] * w)
    ok = ctx.truth(lambda: ctx.And(w > 0, w < 1))
    ctx.check((r is not None) == bool(ok), 'a weight is accepted exactly when it lies in (0, 1)')
    if r is not None:
        ctx.check(isinstance(r, PartialSumSPE) and list(r.children) == [A['spe']], 'the weighted component')
        ctx.check(ctx.eq(r.weights[0], w), 'its weight')

@case('weight-compound', params=[dict(st=s) for s in ('sum', 'prod', 'exposed')])
def weight_compound(ctx, st):
    from sppl.spe import PartialSumSPE
    w = ctx.real('w')
    spe = Model(ctx, {'sum': mix(L('cont', 'X'), L('cont', 'X')), 'prod': prod(L('cont', 'X'), L('nom', 'N')),
                      'exposed': mix(L('nom', 'X'), L('nom', 'X'))}[st], strict=True).spe
    r = attempt(lambda: w * spe)
    ok = ctx.truth(lambda: ctx.And(w > 0, w < 1))
    ctx.check((r is not None) == bool(ok), 'a weight is accepted exactly when it lies in (0, 1)')

@case('two', params=[dict(kinds=k, op=o) for k in ('cc', 'cd', 'nn', 'ca') for o in ('|', 'rev')])
def two(ctx, kinds, op):
    from sppl.spe import SumSPE, PartialSumSPE
    A, B = leafs(ctx, kinds)
    w, v = ctx.real('w', gt=0, lt=1), ctx.real('v', gt=0, lt=1)
    s = w + v
    ctx.assume(ctx.Not(near(ctx, s)))
    r = attempt(lambda: (w * A['spe']) | (v * B['spe'])) if op == '|' else attempt(lambda: (A['spe'] * w) | (B['spe'] * v))
    if s == 1: flat(ctx, r, [A, B], [w, v])
    elif s > 1: ctx.check(r is None, 'weights above one are refused')
    else:
        ctx.check(isinstance(r, PartialSumSPE), 'incomplete mixture')
        C = make_leaf(ctx, 'cont', 'Z', 'C')
        unusable(ctx, r, C['spe'])

def unusable(ctx, r, other):
    from sppl.transforms import Id
    def refused(f):
        try: f()
        except (TypeError, ValueError, AssertionError, NotImplementedError): return True
        return False
    ctx.check(refused(lambda: r & other), 'an incomplete mixture cannot be multiplied (left)')
    ctx.check(refused(lambda: other & r), 'an incomplete mixture cannot be multiplied (right)')
    ctx.check(refused(lambda: 0.5 * r), 'an incomplete mixture cannot be weighted')
    ctx.check(refused(lambda: r * 0.5), 'an incomplete mixture cannot be weighted (right)')
    ctx.check(refused(lambda: r.prob(Id('X') < 0)), 'an incomplete mixture has no probabilities')

@case('three', params=[dict(kinds=k, op=o) for k in ('ccc', 'cda') for o in ('left', 'right')], cost=2)
def three(ctx, kinds, op):
    from sppl.spe import PartialSumSPE
    A, B, C = leafs(ctx, kinds)
    w, v, u = [ctx.real(n, gt=0, lt=1) for n in 'wvu']
    pair = (w + v) if op == 'left' else (v + u)
    s = w + v + u
    ctx.assume(ctx.Not(near(ctx, s))); ctx.assume(ctx.Not(near(ctx, pair)))
    if op == 'left': r = attempt(lambda: ((w * A['spe']) | (v * B['spe'])) | (u * C['spe']))
    else: r = attempt(lambda: (w * A['spe']) | ((v * B['spe']) | (u * C['spe'])))
    if pair >= 1: ctx.check(r is None, 'weights above one are refused')
    elif s == 1: flat(ctx, r, [A, B, C], [w, v, u])
    elif s > 1: ctx.check(r is None, 'weights above one are refused')
    else: ctx.check(isinstance(r, PartialSumSPE) and len(r.children) == 3, 'incomplete mixture')

@case('complete-or', params=[{}])
def complete_or(ctx):
    """A complete mixture takes no further component."""
    A, B, C = leafs(ctx, 'ccc')
    w, u = ctx.real('w', gt=0, lt=1), ctx.real('u', gt=0, lt=1)
    full = (w * A['spe']) | ((1 - w) * B['spe'])
    flat(ctx, full, [A, B], [w, 1 - w])
    ctx.check(attempt(lambda: full | (u * C['spe'])) is None, 'complete mixture | component')
    ctx.check(attempt(lambda: (u * C['spe']) | full) is None, 'component | complete mixture')
    ctx.check(attempt(lambda: A['spe'] | B['spe']) is None, 'unweighted components')
    ctx.check(attempt(lambda: A['spe'] & 1) is None and attempt(lambda: 1 & A['spe']) is None and attempt(lambda: 'a' * A['spe']) is None, 'operands of other kinds')

# ---------------------------------------------------------------- distributions

@case('dist-weight', params=[dict(kind=k) for k in ('norm', 'choice', 'poisson', 'uniform')])
def dist_weight(ctx, kind):
    import sppl.distributions as D
    d = {'norm': lambda: D.norm(loc=0, scale=1), 'choice': lambda: D.choice({'a': 1}), 'poisson': lambda: D.poisson(mu=2), 'uniform': lambda: D.uniform(loc=0, scale=2)}[kind]()
    w = ctx.real('w')
    r = attempt(lambda: w * d)
    ok = ctx.truth(lambda: ctx.And(w > 0, w < 1))
    ctx.check((r is not None) == bool(ok), 'a weight is accepted exactly when it lies in (0, 1)')

@case('dist-mix', params=[dict(n=n, op=o) for n, o in ((2, 'l'), (3, 'l'), (3, 'r'))], cost=2)
def dist_mix(ctx, n, op):
    import sppl.distributions as D
    from sppl.transforms import Id
    from sppl.spe import SumSPE
    ps = [ctx.real('p%d' % i, gt=0, lt=1) for i in range(n)]
    ds = [D.choice({'a': p, 'b': 1 - p}) for p in ps]
    ws = [ctx.real('w%d' % i, gt=0, lt=1) for i in range(n)]
    s = ctx.const(0)
    for w in ws: s = s + w
    ctx.assume(ctx.Not(near(ctx, s)))
    X = Id('X')
    def make():
        if op == 'l':
            m = ws[0] * ds[0]
            for w, d in zip(ws[1:], ds[1:]): m = m | (w * d)
        else:
            m = ws[-1] * ds[-1]
            for w, d in reversed(list(zip(ws[:-1], ds[:-1]))): m = (w * d) | m
        return X >> m
    r = attempt(make)
    if s == 1:
        ctx.check(isinstance(r, SumSPE) and len(r.children) == n, 'a mixture with every component')
        tot = ctx.const(0)
        for w, p in zip(ws, ps): tot = tot + w * ctx.frac(p)
        ctx.check(ctx.eq(prob(ctx, r, X << {'a'}), tot), 'probability of an outcome')
        for c, g, w, p in zip(r.children, r.weights, ws, ps):
            ctx.check(ctx.eq(ctx.exp(g), w) , 'stated weight')
            ctx.check(ctx.eq(ctx.frac(c.dist['a']), ctx.frac(p)), 'stated component')
    else: ctx.check(r is None, 'weights that do not add up to one are refused')

@case('dist-other', params=[{}])
def dist_other(ctx):
    import sppl.distributions as D
    from sppl.transforms import Id
    w = ctx.real('w', gt=0, lt=1)
    m = w * D.choice({'a': 1})
    for f in (lambda: m | D.choice({'a': 1}), lambda: m | 1, lambda: D.choice({'a': 1}) | m, lambda: Id('X') >> 1, lambda: D.norm(0, 1), lambda: 'a' * D.choice({'a': 1})):
        ctx.check(attempt(f) is None, 'operands of other kinds')

@case('nominal', params=[dict(n=n) for n in (1, 2, 3)])
def nominal(ctx, n):
    import sppl.distributions as D
    from sppl.transforms import Id
    ps = [ctx.real('p%d' % i, lo=0, hi=2) for i in range(n)]
    s = ctx.const(0)
    for p in ps: s = s + p
    ctx.assume(ctx.Not(near(ctx, s)))
    X = Id('X')
    r = attempt(lambda: X >> D.choice(dict(zip('abc', ps))))
    if s == 1:
        for o, p in zip('abc', ps): ctx.check(ctx.eq(prob(ctx, r, X << {o}), ctx.frac(p)), 'probability of an outcome')
    else: ctx.check(r is None, 'weights that do not add up to one are refused')

# ---------------------------------------------------------------- constructors

@case('sum', params=[dict(n=n) for n in (1, 2, 3)])
def sum_(ctx, n):
    from sppl.spe import SumSPE
    ls = leafs(ctx, 'ccc'[:n])
    ws = [ctx.real('w%d' % i, gt=0) for i in range(n)]
    s = ctx.const(0)
    for w in ws: s = s + w
    ctx.assume(ctx.Not(near(ctx, s)))
    r = attempt(lambda: SumSPE([l['spe'] for l in ls], [ctx.log(w) for w in ws]))
    if s == 1: flat(ctx, r, ls, ws)
    else: ctx.check(r is None, 'weights that do not add up to one are refused')
    ctx.check(attempt(lambda: SumSPE([l['spe'] for l in ls], [ctx.log(w) for w in ws] + [-INF])) is None, 'numbers of components and weights differ')

NEST = {'0': ('s', 'A', 'B'), '1': ('s', ('s', 'A', 'B'), 'C'), '2': ('s', 'A', ('s', 'B', 'C')), '3': ('s', ('s', 'A', 'B'), ('s', 'C', 'D')),
        '4': ('s', ('s', ('s', 'A', 'B'), 'C'), 'D'), '5': ('s', 'A', ('s', 'B', ('s', 'C', 'D'))), '6': ('s', ('s', 'A', ('s', 'B', 'C')), 'D')}
@case('nested-sum', params=[dict(n=n, how=h) for n in NEST for h in ('ctor', 'op')], cost=2)
def nested_sum(ctx, n, how):
    """Mixtures of mixtures carry the products of the weights."""
    from sppl.spe import SumSPE
    leaves, stated = [], []
    cnt = itertools.count()
    def mk(x, w):
        if isinstance(x, str):
            l = make_leaf(ctx, 'cont', 'X', x, True)
            leaves.append(l); stated.append(w)
            return l['spe']
        p = ctx.real('w%d' % next(cnt), gt=0, lt=1)
        a = mk(x[1], w * p); b = mk(x[2], w * (1 - p))
        return SumSPE([a, b], [ctx.log(p), ctx.log(1 - p)]) if how == 'ctor' else (p * a) | ((1 - p) * b)
    spe = mk(NEST[n], ctx.const(1))
    flat(ctx, spe, leaves, stated)
    t = ctx.real('t')
    from sppl.transforms import Id
    ctx.check(ctx.eq(prob(ctx, spe, Id('X') <= t), P1(ctx, leaves, stated, t)), 'probability')

PN = {'0': ('p', 'X', 'Y'), '1': ('p', ('p', 'X', 'Y'), 'Z'), '2': ('p', 'X', ('p', 'Y', 'Z')), '3': ('p', ('p', 'X', 'Y'), ('p', 'Z', 'W')), '4': ('p', 'X', ('m', 'Y', 'Y')),
      '5': ('p', ('m', ('p', 'X', 'Y'), ('p', 'Y', 'X')), 'Z'), '6': ('m', ('p', 'X', ('p', 'Y', 'Z')), ('p', ('p', 'Z', 'X'), 'Y'))}
@case('nested-product', params=[dict(n=n, how=h) for n in PN for h in ('ctor', 'op')], cost=2)
def nested_product(ctx, n, how):
    from sppl.spe import ProductSPE, SumSPE
    from sppl.transforms import Id
    cnt = itertools.count()
    th = {v: ctx.real('t' + v) for v in 'XYZW'}
    def mk(x):
        """(spe, oracle probability of every variable being below its threshold, variables)"""
        if isinstance(x, str):
            l = make_leaf(ctx, 'cont', x, '%s%d' % (x, next(cnt)), True)
            return l['spe'], l['mass'](('iv', -INF, th[x])), {x}
        (a, pa, va), (b, pb, vb) = mk(x[1]), mk(x[2])
        if x[0] == 'p': return (ProductSPE([a, b]) if how == 'ctor' else a & b), pa * pb, va | vb
        w = ctx.real('w%d' % next(cnt), gt=0, lt=1)
        return (SumSPE([a, b], [ctx.log(w), ctx.log(1 - w)]) if how == 'ctor' else (w * a) | ((1 - w) * b)), w * pa + (1 - w) * pb, va
    spe, p, vs = mk(PN[n])
    ctx.check(spe.get_symbols() == frozenset(Id(v) for v in vs), 'the variables')
    def noprod(s):
        return not any(isinstance(c, ProductSPE) for c in getattr(s, 'children', ()))
    if isinstance(spe, ProductSPE): ctx.check(noprod(spe), 'products are flattened')
    e = None
    for v in sorted(vs):
        b = Id(v) <= th[v]
        e = b if e is None else e & b
    ctx.check(ctx.eq(prob(ctx, spe, e), p), 'probability')

SYMS = [('X', 'Y'), ('X', 'XY'), ('XY', 'X'), ('XY', 'XZ'), ('X', 'X'), ('XY', 'YX'), ('XYZ', 'XYW'), ('XX', 'X'), ('XY', 'ZW'), ('X', 'Xd'), ('Xd', 'Xd'), ('Xd', 'X')]
@case('variables', params=[dict(a=a, b=b) for a, b in SYMS])
def variables(ctx, a, b):
    """Mixtures need the same variables and products different ones ('d' is a variable derived from X)."""
    from sppl.spe import SumSPE, ProductSPE
    from sppl.transforms import Id
    cnt = itertools.count()
    def mk(vs):
        spe, seen = None, set()
        for v in vs:
            if v in seen: continue
            seen.add(v)
            if v == 'd': continue
            l = make_leaf(ctx, 'cont', v, 'v%d' % next(cnt))['spe']
            if v == 'X' and 'd' in vs: l = l.transform(Id('d'), 2 * Id('X'))
            spe = l if spe is None else spe & l
        return spe, seen
    (A, va), (B, vb) = mk(a), mk(b)
    w = ctx.real('w', gt=0, lt=1)
    same, disj = va == vb, not (va & vb)
    for f in (lambda: SumSPE([A, B], [ctx.log(w), ctx.log(1 - w)]), lambda: (w * A) | ((1 - w) * B), lambda: (0.25 * A) | (0.5 * B)):
        ctx.check((attempt(f) is not None) == same, 'a mixture is accepted exactly when the variables are the same')
    for f in (lambda: ProductSPE([A, B]), lambda: A & B):
        ctx.check((attempt(f) is not None) == disj, 'a product is accepted exactly when the variables are disjoint')

@case('exposed', params=[dict(z=z) for z in (False, True)])
def exposed(ctx, z):
    from sppl.spe import ExposedSumSPE, NominalLeaf, SumSPE
    from sppl.transforms import Id
    A, B = leafs(ctx, 'cc')
    w = ctx.real('w', gt=0, lt=1)
    ch = NominalLeaf(Id('C'), {'0': w, '1': 1 - w})
    spe = ExposedSumSPE({'0': A['spe'], '1': B['spe']}, ch)
    t = ctx.real('t')
    X, C = Id('X'), Id('C')
    ctx.check(spe.get_symbols() == frozenset([X, C]), 'the variables')
    pa, pb = A['mass'](('iv', -INF, t)), B['mass'](('iv', -INF, t))
    wf = ctx.frac(w)
    ctx.check(ctx.eq(prob(ctx, spe, X <= t), wf * pa + (1 - wf) * pb), 'probability')
    ctx.check(ctx.eq(prob(ctx, spe, (X <= t) & (C << {'0'})), wf * pa), 'probability with the choice')
    ctx.check(ctx.eq(prob(ctx, spe, C << {'1'}), 1 - wf), 'probability of the choice')
    if z:
        D = make_leaf(ctx, 'nom', 'C', 'D')['spe'] & make_leaf(ctx, 'cont', 'X', 'E')['spe']
        v = ctx.real('v', gt=0, lt=1)
        m = (v * spe) | ((1 - v) * D)
        ctx.check(isinstance(m, SumSPE) and len(m.children) == 3, 'nested mixture')
        ctx.check(ctx.eq(ctx.exp(m.weights[0]), v * wf), 'nested weight')

# ---------------------------------------------------------------- derived variables

TR = {'leaf': (L('cont', 'X'), 'X'), 'disc': (L('disc', 'X'), 'X'), 'atom': (L('atom', 'X'), 'X'), 'sum': (mix(L('cont', 'X'), L('disc', 'X')), 'X'),
      'prod': (prod(L('cont', 'X'), L('cont', 'Y')), 'XY'), 'prod3': (prod(L('cont', 'X'), L('atom', 'Y'), L('disc', 'Z')), 'XYZ'),
      'mixprod': (mix(prod(L('cont', 'X'), L('cont', 'Y')), prod(L('cont', 'X'), L('cont', 'Y'))), 'XY'),
      'prodmix': (prod(mix(L('cont', 'X'), L('cont', 'X')), L('cont', 'Y')), 'XY')}
@case('derive', params=[dict(st=s) for s in TR])
def derive(ctx, st):
    from sppl.transforms import Id
    spec, vs = TR[st]
    spe = Model(ctx, spec).spe
    a, b = ctx.real('a'), ctx.real('b')
    ctx.assume(ctx.Not(a == 0))
    e = lambda v: a * Id(v) + b
    D = Id('D')
    for v in vs:
        s = attempt(lambda: spe.transform(D, e(v)))
        ctx.check(s is not None and s.get_symbols() == spe.get_symbols() | {D}, 'a new variable over an existing one')
        if s is None: continue
        for u in vs + 'D':
            ctx.check(attempt(lambda: s.transform(D, e(u))) is None, 'a derived variable is not redefined')
            ctx.check(attempt(lambda: s.transform(Id(vs[0]), e(u))) is None, 'a base variable is not redefined')
        s2 = attempt(lambda: s.transform(Id('E'), e('D')))
        ctx.check(s2 is not None and s2.get_symbols() == s.get_symbols() | {Id('E')}, 'a chain of definitions')
    for v in vs:
        for u in vs: ctx.check(attempt(lambda: spe.transform(Id(u), e(v))) is None, 'a variable is not redefined')
    ctx.check(attempt(lambda: spe.transform(D, e('Q'))) is None, 'unknown variable')
    ctx.check(attempt(lambda: spe.transform(D, e('D'))) is None, 'self reference')
    if len(vs) > 1:
        X, Y = Id(vs[0]), Id(vs[1])
        for ex in ((X < a) & (Y < b), (X < a) | (Y < b), (X < a) ^ (Y < b)):
            ctx.check(attempt(lambda: spe.transform(D, ex)) is None, 'a definition over independent parts')
        for f in (lambda: X + Y, lambda: X * Y, lambda: X * (Y < a), lambda: X - Y, lambda: X * (X < a) + Y * (Y > a)):
            ctx.check(attempt(lambda: spe.transform(D, f())) is None, 'an expression of several variables')

@case('derive-nominal', params=[{}])
def derive_nominal(ctx):
    from sppl.transforms import Id
    N, X, D = Id('N'), Id('X'), Id('D')
    M = Model(ctx, prod(L('nom', 'N'), L('cont', 'X')))
    a = ctx.real('a')
    for ex in (2 * N, N ** 2, N < a):
        ctx.check(attempt(lambda: M.spe.transform(D, ex)) is None, 'a numeric expression of a nominal variable')
    ctx.check(attempt(lambda: M.spe.transform(D, 2 * X)) is not None, 'a numeric expression of a numeric variable')

# ---------------------------------------------------------------- pieces

def iv(X, k, a, b):
    from sppl.sets import Interval
    if k == 'lt': return X < a
    if k == 'le': return X <= a
    if k == 'gt': return X > a
    if k == 'ge': return X >= a
    if k == 'cc': return (a <= X) & (X <= b)
    if k == 'oo': return (a < X) & (X < b)
    if k == 'co': return X << Interval.Ropen(a, b)
    if k == 'pt':
        from engine.api import set_
        return X << set_([a])
    if k == 'pts':
        from engine.api import set_
        return X << set_([a, b])
    if k == 'hole': return (X < a) | (X > b)
    raise ValueError(k)
def member(ctx, k, a, b, x):
    if k == 'lt': return x < a
    if k == 'le': return x <= a
    if k == 'gt': return x > a
    if k == 'ge': return x >= a
    if k == 'cc': return ctx.And(x >= a, x <= b)
    if k == 'oo': return ctx.And(x > a, x < b)
    if k == 'co': return ctx.And(x >= a, x < b)
    if k == 'pt': return ctx.eq(x, a)
    if k == 'pts': return ctx.Or(ctx.eq(x, a), ctx.eq(x, b))
    if k == 'hole': return ctx.Or(x < a, x > b)
PK = ['lt', 'le', 'gt', 'ge', 'cc', 'oo', 'co', 'pt', 'pts', 'hole']
def span(k, a, b):
    """(left, closed, right, closed) components, for the overlap oracle."""
    return {'lt': [(None, False, a, False)], 'le': [(None, False, a, True)], 'gt': [(a, False, None, False)], 'ge': [(a, True, None, False)],
            'cc': [(a, True, b, True)], 'oo': [(a, False, b, False)], 'co': [(a, True, b, False)], 'pt': [(a, True, a, True)], 'pts': [(a, True, a, True), (b, True, b, True)],
            'hole': [(None, False, a, False), (b, False, None, False)]}[k]
def below(p, pc, q, qc):
    """A right end p lies below a left end q."""
    if p is None or q is None: return False
    if p < q: return True
    if p > q: return False
    return not (pc and qc)
def overlap(k1, a1, b1, k2, a2, b2):
    for l1, lc1, r1, rc1 in span(k1, a1, b1):
        for l2, lc2, r2, rc2 in span(k2, a2, b2):
            if not below(r1, rc1, l2, lc2) and not below(r2, rc2, l1, lc1): return True
    return False
def bounds(ctx, tag, k):
    a = ctx.real('a' + tag)
    b = ctx.real('b' + tag) if k in ('cc', 'oo', 'co', 'pts', 'hole') else None
    if b is not None: ctx.assume(a < b)
    return a, b

PP = [(p, q) for i, p in enumerate(PK) for q in PK[i:]]
@case('pieces', params=[dict(p=p, q=q) for p, q in PP], thorough=[dict(p=q, q=p) for p, q in PP if p != q])
def pieces(ctx, p, q):
    """Overlapping pieces are refused and others accepted, for all bounds."""
    from sppl.transforms import Id
    X = Id('X')
    (a1, b1), (a2, b2) = bounds(ctx, '1', p), bounds(ctx, '2', q)
    e1, e2 = iv(X, p, a1, b1), iv(X, q, a2, b2)
    r = attempt(lambda: X * e1 + (2 * X) * e2)
    ov = overlap(p, a1, b1, q, a2, b2)
    ctx.check((r is None) == ov, 'pieces are refused exactly when they overlap')
    if r is not None:
        x = ctx.real('x')
        if member(ctx, p, a1, b1, x): ctx.check(ctx.eq(r.evaluate({X: x}), x), 'the first piece')
        elif member(ctx, q, a2, b2, x): ctx.check(ctx.eq(r.evaluate({X: x}), 2 * x), 'the second piece')

@case('pieces3', params=[dict(p=p, q=q, r=r, how=h) for h in ('op', 'ctor') for p, q, r in (('lt', 'co', 'ge'), ('le', 'pt', 'gt'), ('lt', 'pt', 'gt'), ('hole', 'oo', 'pts'), ('cc', 'cc', 'cc'))], cost=2)
def pieces3(ctx, p, q, r, how):
    from sppl.transforms import Id, Piecewise
    X = Id('X')
    ks = [p, q, r]
    bs = [bounds(ctx, str(i), k) for i, k in enumerate(ks)]
    es = [iv(X, k, *b) for k, b in zip(ks, bs)]
    if how == 'op': pw = attempt(lambda: X * es[0] + (2 * X) * es[1] + (X ** 2) * es[2])
    else: pw = attempt(lambda: Piecewise([X, 2 * X, X ** 2], es))
    ov = any(overlap(ks[i], *(bs[i] + (ks[j],) + bs[j])) for i in range(3) for j in range(i))
    ctx.check((pw is None) == ov, 'pieces are refused exactly when they overlap')

@case('pieces-transformed', params=[{}])
def pieces_transformed(ctx):
    from sppl.transforms import Id
    X = Id('X')
    c, b = ctx.real('c', gt=0), ctx.real('b')
    pw = attempt(lambda: X * (X ** 2 < c) + (2 * X) * (X >= b))
    ov = b < 0
    if not ov: ov = b * b < c
    ctx.check((pw is None) == bool(ov), 'pieces are refused exactly when they overlap')

@case('pieces-other', params=[{}])
def pieces_other(ctx):
    from sppl.transforms import Id, Piecewise
    X, Y = Id('X'), Id('Y')
    a = ctx.real('a')
    for f in (lambda: Piecewise([X], [Y < a]), lambda: Piecewise([X, Y], [X < a, Y > a]), lambda: Piecewise([X, X], [X < a]), lambda: Piecewise([X], [X < a, X > a]),
              lambda: Piecewise([X], [(X < a) & (Y < a)]), lambda: Piecewise([X, X], [X < a, (X > a) & (Y < a)]), lambda: Piecewise([1], [X < a]), lambda: Piecewise([X], [True])):
        ctx.check(attempt(f) is None, 'pieces over other variables, of different number or of other kinds')
    ctx.check(attempt(lambda: Piecewise([X, 2 * X], [X < a, X > a])) is not None, 'separate pieces')
