"""C14 Derived variables behave as their defining expression: transform in spe.py, substitute in transforms.py."""
from engine.h import case
from engine.api import set_
from harness.joint import *
from harness.exprs import FORMS, chain
from harness import evs
from sppl.sets import Interval, FiniteReal, EmptySet
from sppl.spe import AtomicLeaf, Memo
from sppl.transforms import Exp, Id, Log, Sqrt

BOUNDS = ('distributions nested to depth 3 over up to 3 base variables with arbitrary laws, weights and thresholds; up to 3 derived variables, defined in turn by linear expressions with arbitrary constants '
          '(against their own oracle) or by other expressions and piecewise definitions (against the event with the definition written out); events of up to 3 literals on base and derived variables; '
          'derived before or after conditioning and constraining; substitution of up to 3 definitions into expressions and events of up to 4 literals, for every assignment')
OUTSIDE = 'definitions that mention several base variables (refused by the library); values at which a definition is undefined; floating-point rounding'
ASSUMPTIONS = ['scipy evaluates cdf/logcdf/pmf/logpmf of the law exactly; logsumexp and exp/log are exact']
X, Y, Z, W = [Id(v) for v in 'XYZW']

# -- linear definitions, against the oracle ----------------------------------------------
class Der:
    """Derived variables: name -> (base variable, slope sign, value of the derived variable at a value of the base)."""
    def __init__(self): self.d = {}
    def let(self, V, B, s, f):
        b0, s0, f0 = self.d.get(B, (B, 1, lambda x: x))
        self.d[V] = (b0, s * s0, lambda x: f(f0(x)))
    def obj(self, e):
        """The sppl event.  ('lt', V, t) with V derived: t names the threshold of the base variable."""
        if e[0] in ('and', 'or', 'not', 'xor'):
            xs = [self.obj(x) for x in e[1:]]
            if e[0] == 'not': return ~xs[0]
            r = xs[0]
            for x in xs[1:]: r = r & x if e[0] == 'and' else r | x if e[0] == 'or' else r ^ x
            return r
        if e[1] not in self.d: return build(e)
        f = self.d[e[1]][2]
        t = lambda y: Th(f(y.x), y.r) if isinstance(y, Th) else y
        return build((e[0], e[1]) + tuple([t(y) for y in x] if isinstance(x, list) else t(x) for x in e[2:]))
    def base(self, e):
        """The same event about the base variables."""
        if e[0] in ('and', 'or', 'not', 'xor'): return (e[0],) + tuple(self.base(x) for x in e[1:])
        if e[1] not in self.d: return e
        b, s, _ = self.d[e[1]]
        op = e[0] if s > 0 else {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}.get(e[0], e[0])
        return (op, b) + e[2:]

def slope(ctx, n, s):
    a = ctx.real(n, gt=0) if s > 0 else ctx.real(n, lt=0)
    return a

DEFS = {                     # name: [(variable, base, sign)]
    'up': [('Z', 'X', 1)], 'down': [('Z', 'X', -1)], 'chain': [('Z', 'X', -1), ('W', 'Z', 1)], 'two': [('Z', 'X', 1), ('W', 'X', -1)],
    'both': [('Z', 'X', -1), ('W', 'Y', 1)], 'long': [('Z', 'X', 1), ('W', 'Z', -1), ('V', 'W', -1)],
}
def define(ctx, spe, D, name):
    for i, (V, B, s) in enumerate(DEFS[name]):
        a, b = slope(ctx, 'a%d' % i, s), ctx.real('b%d' % i)
        D.let(V, B, s, lambda x, a=a, b=b: a * x + b)
        spe = spe.transform(Id(V), a * Id(B) + b)
    return spe

def literals(D, th, V, i):
    b = D.d[V][0] if V in D.d else V
    e = lit(b, i, th)
    def rn(e): return (e[0],) + tuple(rn(x) for x in e[1:]) if e[0] in ('or', 'and', 'not') else (e[0], V) + tuple(e[2:])
    return rn(e)

def events(D, th, vs):
    """Events on the derived variables and the others."""
    l = lambda V, i: literals(D, th, V, i)
    ds = list(D.d)
    d = ds[0]
    out = {'one': l(d, 0), 'gt': l(d, 1), 'hole': l(d, 2), 'pt': l(d, 3), 'not': ('not', l(d, 5)), 'self': ('and', l(d, 4), l(D.d[d][0], 1)), 'old': l('X', 0)}
    if len(ds) > 1:
        out.update({'pair': ('and', l(ds[0], 1), l(ds[1], 0)), 'either': ('or', l(ds[0], 0), l(ds[1], 3)), 'last': l(ds[-1], 2)})
    if len(vs) > 1:
        o = vs[1]
        out.update({'and': ('and', l(d, 1), l(o, 0)), 'or': ('or', l(d, 0), l(o, 0)), 'mixed': ('or', ('and', l(d, 0), l(o, 0)), ('and', l(ds[-1], 1), l(o, 1))), 'notand': ('not', ('and', l(d, 5), l(o, 1))), 'other': l(o, 1)})
    return out

LIN = [('X', 'up'), ('X', 'down'), ('X', 'chain'), ('X', 'long'), ('mixX', 'down'), ('mixX', 'two'), ('mixXatom', 'down'), ('mixXXX', 'chain'), ('XN', 'down'), ('XN', 'two'), ('XY', 'both'), ('XY', 'chain'),
       ('mix(XN,NX)', 'down'), ('mix(XN,NX)', 'chain'), ('mix(XY,XY)', 'both'), ('mixX*N', 'down'), ('mix(XN,mixX*N)', 'two'), ('mix(XN,XN)*Y', 'both'), ('Y*mix(XN,XN)', 'chain'), ('XYNflat', 'both')]
STRUCT.setdefault('X', (lf('X'), 'X'))
NQ = ['one', 'gt', 'hole', 'pt', 'not', 'self', 'old', 'pair', 'either', 'last', 'and', 'or', 'mixed', 'notand', 'other']
def names_of(st, d):
    k = len(STRUCT[st][1]) > 1; two = len(DEFS[d]) > 1
    return [q for q in NQ if (k or q not in ('and', 'or', 'mixed', 'notand', 'other')) and (two or q not in ('pair', 'either', 'last'))]
def setting(ctx, st, d):
    M, th, space, vs = world(ctx, st)
    D = Der()
    return M, th, space, vs, D

@case('linear', params=[dict(st=s, d=d, q=q) for s, d in LIN for q in names_of(s, d)], cost=2)
def linear(ctx, st, d, q):
    M, th, space, vs, D = setting(ctx, st, d)
    spe = define(ctx, M.spe, D, d)
    ctx.check(set(spe.get_symbols()) == {Id(v) for v in list(vs) + list(D.d)}, 'the variables')
    e = events(D, th, vs)[q]
    ctx.check(ctx.eq(prob(ctx, spe, D.obj(e), Memo()), M.P(D.base(e), space)), 'probability')

POST = [('mixX', 'down', 'hole'), ('mixX', 'two', 'either'), ('X', 'chain', 'last'), ('mixXatom', 'down', 'pt'), ('mixXatom', 'down', 'one'), ('XN', 'down', 'and'), ('XN', 'two', 'or'), ('XY', 'both', 'pair'),
        ('mix(XN,NX)', 'chain', 'mixed'), ('mix(XN,NX)', 'down', 'or'), ('mix(XY,XY)', 'both', 'pair'), ('mixX*N', 'down', 'notand'), ('mix(XN,XN)*Y', 'both', 'pair')]
@case('posterior', params=[dict(st=s, d=d, q=q, late=l) for s, d, q in POST for l in (False, True)], cost=5)
def posterior(ctx, st, d, q, late):
    """Condition on derived variables, or derive after conditioning."""
    M, th, space, vs, D = setting(ctx, st, d)
    spe = M.spe
    D2 = Der()
    full = define(ctx, spe, D, d)
    c = events(D, th, vs)[q]
    pc = M.P(D.base(c), space)
    if bool(pc == 0):
        ctx.check(True, 'impossible'); return
    if late: post = define_again(ctx, spe.condition(build(D.base(c))), D, d)
    else: post = full.condition(D.obj(c))
    ctx.check(set(post.get_symbols()) == {Id(v) for v in list(vs) + list(D.d)}, 'the variables')
    E = events(D, th, vs)
    for n in ('one', 'hole', 'old', 'last', 'and', 'other'):
        if n not in E: continue
        ctx.check(ctx.eq(prob(ctx, post, D.obj(E[n])) * pc, M.P(('and', D.base(c), D.base(E[n])), space)), 'posterior of %s' % n)
def define_again(ctx, spe, D, name):
    for i, (V, B, s) in enumerate(DEFS[name]):
        f = DEFS[name]
        b0, _, fv = D.d[V]
        b1, _, fb = D.d.get(B, (B, 1, lambda x: x))
        # slope and offset of V in terms of B, read off the exact linear maps
        z, o = ctx.const(0), ctx.const(1)
        a_, c_ = (fv(o) - fv(z)), fv(z)
        p_, q_ = (fb(o) - fb(z)), fb(z)
        a = a_ / p_; b = c_ - a * q_
        spe = spe.transform(Id(V), a * Id(B) + b)
    return spe

# -- any definition, against the event with the definition written out -------------------------
def piece(k):
    return {'abs': lambda E, c: (E < 0) * (-E) + (E >= 0) * E, 'jump': lambda E, c: (E < c) * (2 * E + 1) + (E >= c) * (E ** 2), 'flat': lambda E, c: (E <= c) * (E + c) + ((c < E) & (E < c + 1)) * (1 / E) + (c + 1 <= E) * (-E)}[k]
UNARY = ['neg', 'abs', '+c', 'c-', '*c', '/c', 'c/', '1/', '**2', '**3', '**-2', 'sqrt', '**(-1,2)', 'exp', '.5**', 'log', 'log2', 'lin']
def definition(ctx, f, n='k'):
    """Expression as a function of its subexpression."""
    if f.startswith('pw '):
        c = ctx.real(n + 'c')
        return lambda E: piece(f[3:])(E, c)
    parts = f.split('|')
    ks = [FORMS[p][0](ctx, '%s%d' % (n, i)) for i, p in enumerate(parts)]
    def go(E):
        for p, k in zip(parts, ks): E = FORMS[p][1](E, k)
        return E
    return go
def query(ctx, k, t, u):
    return {'lt': lambda E: E < t, 'le': lambda E: E <= t, 'gt': lambda E: E > t, 'in': lambda E: E << set_([t]), 'iv': lambda E: E << Interval(t, u), 'ne': lambda E: ~(E << set_([t])), 'out': lambda E: (E < t) | (E > u),
            'un': lambda E: E << (Interval.Ropen(-INF, t) | FiniteReal(u))}[k]
def nums(ctx):
    t, u = ctx.real('t'), ctx.real('u')
    ctx.assume(t < u)
    return t, u
BASES = {'cont': dict(kind='cont'), 'disc': dict(kind='disc'), 'atom': dict(kind='atom')}
@case('written out', params=[dict(f=f, q=q, base='cont') for f in UNARY + ['sqrt|lin', 'abs|lin', '**2|neg', 'lin|exp', 'pw abs'] for q in ('lt', 'in', 'out')] + [dict(f=f, q='lt', base='cont') for f in ('pw jump', 'pw flat')] +
      [dict(f=f, q=q, base=b) for f in ('lin', 'abs', '**2', '1/', 'neg') for q in ('le', 'iv', 'ne', 'un') for b in ('cont', 'atom')] + [dict(f='pw jump', q='ne', base=b) for b in ('cont', 'atom')] +
      [dict(f=f, q=q, base='disc') for f in ('+c', 'neg') for q in ('le', 'ne')] + [dict(f=f, q='le', base='disc') for f in ('abs', '**2', '1/')], thorough=[dict(f=f, q='iv', base='disc') for f in ('+c', 'neg', 'abs')], cost=3)
def written_out(ctx, f, q, base):
    """P(g(Y)) = P(g(f(X))), the posteriors agree, and old queries do not change."""
    leaf = make_leaf(ctx, base, 'X', 'L')['spe']
    F = definition(ctx, f); t, u = nums(ctx)
    Q = query(ctx, q, t, u)
    s = ctx.real('s')
    spe = leaf.transform(Y, F(X))
    same(ctx, spe, leaf, Q(Y), Q(F(X)), [(X <= s, X <= s)])

def refused(f):
    try: return f(), None
    except (AssertionError, ValueError) as e: return None, type(e)
def same(ctx, spe, old, e, e0, more):
    """spe, with derived variables, and old agree about e (of spe) and e0 (of old), and about the pairs of more before and after conditioning."""
    p, r = refused(lambda: prob(ctx, old, e0))
    if r is not None:
        ctx.check(refused(lambda: prob(ctx, spe, e))[1] is r, 'refused in the same way'); return
    ctx.check(ctx.eq(prob(ctx, spe, e), p), 'probability')
    for a, b in more: ctx.check(ctx.eq(prob(ctx, spe, a), prob(ctx, old, b)), 'other queries')
    a, ra = refused(lambda: spe.condition(e))
    b, rb = refused(lambda: old.condition(e0))
    ctx.check(ra == rb, 'conditioning is refused in the same cases')
    if a is None or b is None: return
    ctx.check(set(a.get_symbols()) == set(spe.get_symbols()), 'the variables of the posterior')
    if not hasattr(a, 'children') and not hasattr(b, 'children'): # how a structured posterior is split is free
        ctx.check(ctx.truth(lambda: supports(a) == supports(b)), 'support of the posterior')
    for x, y in [(e, e0)] + list(more): ctx.check(ctx.eq(prob(ctx, a, x), prob(ctx, b, y)), 'posterior')
def supports(spe):
    if hasattr(spe, 'children'): return [supports(c) for c in spe.children]
    return getattr(spe, 'support', None) or getattr(spe, 'value', None)

CH = [('lin', 'abs'), ('abs', 'lin'), ('**2', 'neg'), ('neg', '**2'), ('exp', 'lin'), ('sqrt', 'c-'), ('c/', 'abs'), ('pw jump', 'neg'), ('neg', 'pw jump'), ('pw abs', '+c'), ('1/', '1/'), ('log', '**2'), ('+c', 'pw abs')]
@case('chain', params=[dict(f=f, g=g, q=q) for f, g in CH for q in ('lt', 'ne') if q == 'lt' or 'pw jump' not in (f, g)], thorough=[dict(f=f, g=g, q=q) for f, g in CH for q in ('iv', 'un')], cost=5)
def chains(ctx, f, g, q):
    """Z = g(Y), Y = f(X): events on Z, on Y and on X together."""
    leaf = make_leaf(ctx, 'cont', 'X', 'L')['spe']
    F, G = definition(ctx, f, 'k'), definition(ctx, g, 'l'); t, u = nums(ctx)
    Q = query(ctx, q, t, u)
    s = ctx.real('s')
    spe = leaf.transform(Y, F(X)).transform(Z, G(Y))
    same(ctx, spe, leaf, Q(Z), Q(G(F(X))), [(X <= s, X <= s), ((X <= s) & Q(Z), (X <= s) & Q(G(F(X))))])

JOINT = [('mixX', 'X'), ('XN', 'XN'), ('mix(XN,NX)', 'XN'), ('mixX*N', 'XN'), ('mix(XY,XY)', 'XY')]
@case('joint', params=[dict(st=s, f=f, q=q, c=c) for s, _ in JOINT for f, q in (('abs', 'lt'), ('**2|neg', 'gt'), ('pw jump', 'lt'), ('1/', 'iv')) for c in ('one', 'and', 'or') if s != 'mixX' or c == 'one'], cost=6)
def joint(ctx, st, f, q, c):
    M, th, space, vs = world(ctx, st, n=1)
    F = definition(ctx, f); t, u = nums(ctx)
    Q = query(ctx, q, t, u)
    spe = M.spe.transform(W, F(X))
    o = build(lit(vs[-1], 0, th))
    mk = {'one': lambda V: Q(V), 'and': lambda V: Q(V) & o, 'or': lambda V: Q(V) | o}[c]
    same(ctx, spe, M.spe, mk(W), mk(F(X)), [(o, o)])

# -- other queries ------------------------------------------------------------------------------
@case('density', params=[dict(st=s, d=d) for s, d in (('X', 'down'), ('mixX', 'two'), ('mixXatom', 'down'), ('XN', 'chain'), ('mix(XN,NX)', 'down'))], cost=3)
def density(ctx, st, d):
    """Densities of and constraining the base variables do not notice derived ones; afterwards those have their values."""
    M, th, space, vs, D = setting(ctx, st, d)
    spe = define(ctx, M.spe, D, d)
    x = th['X'][0].x
    p = ctx.exp(M.spe.logpdf({X: x}))
    ctx.check(ctx.eq(ctx.exp(spe.logpdf({X: x})), p), 'density')
    if bool(p == 0): return
    post = spe.constrain({X: x})
    for V in D.d:
        v = D.d[V][2](x)
        ctx.check(ctx.eq(prob(ctx, post, Id(V) << set_([v])), 1), 'the derived variable has the value of its definition')
        ctx.check(ctx.eq(prob(ctx, post, Id(V) < v), 0), 'and no other')
    if len(vs) > 1:
        o = build(lit(vs[1], 0, th))
        ctx.check(ctx.eq(prob(ctx, post, o), prob(ctx, M.spe.constrain({X: x}), o)), 'the others follow')

@case('refusals', params=[dict(k=k) for k in ('again', 'unknown', 'nominal', 'across', 'base', 'again-product', 'again-mixture')])
def refusals(ctx, k):
    """Definitions of names already taken, by unknown names, or that need joint values are refused, never misread."""
    M, th, space, vs = world(ctx, 'mix(XY,XY)' if k == 'again-mixture' else 'XN' if k == 'nominal' else 'XY', n=1)
    c = ctx.real('c')
    spe = M.spe.transform(Z, X + c)
    f = {'again': lambda: spe.transform(Z, X - c), 'unknown': lambda: spe.transform(W, Id('Q') + c), 'nominal': lambda: spe.transform(W, Id('N') + c), 'across': lambda: spe.transform(W, (X < c) & (Y < c)),
         'base': lambda: spe.transform(X, Z + c), 'again-product': lambda: spe.transform(Y, X + c), 'again-mixture': lambda: spe.transform(Y, X + c)}[k]
    try: f(); ok = False
    except (AssertionError, ValueError): ok = True
    ctx.check(ok, 'refused')

# -- substitution and evaluation ----------------------------------------------------------------
SUBS = ['x', 'neg', 'abs', '+c', 'c-', '*c', 'c/', '**2', '**3', 'sqrt', 'exp', 'log', 'lin']
def evaluated(ctx, f, n):
    """(expression, its own value, domain)"""
    return chain(ctx, f.split('|'), n)
def rebase(f, V, e):
    E = V
    for p, (val, dom, k) in zip(e.names, e.steps): E = FORMS[p][1](E, k)
    return E
@case('substitute', params=[dict(f=f, g=g) for f in SUBS for g in ('neg', 'lin', '**2', 'abs', '1/', 'sqrt', 'exp')], cost=1)
def substitute(ctx, f, g):
    """g(Y) with Y = f(X), evaluated."""
    F, G = evaluated(ctx, f, 'k'), evaluated(ctx, g, 'l')
    x = ctx.real('x')
    if not F.domain(x): return
    y = F.value(x)
    if not G.domain(y): return
    e = rebase(g, Y, G)
    env = {Y: F.obj}
    sub = e.substitute(env)
    ctx.check(set(sub.get_symbols()) == {X}, 'only the base variable is left')
    want = G.value(y)
    ctx.check(ctx.eq(sub.evaluate({X: x}), want), 'substituted, then evaluated')
    ctx.check(ctx.eq(e.evaluate({Y: env[Y].evaluate({X: x})}), want), 'evaluated in turn')
    t = ctx.real('t')
    for n, q in (('<', lambda E: E < t), ('in', lambda E: E << set_([t])), ('not in', lambda E: ~(E << set_([t])))):
        w = {'<': lambda: want < t, 'in': lambda: want == t, 'not in': lambda: ctx.Not(want == t)}[n]()
        ctx.check(ctx.Iff(ctx.truth(lambda: q(e).substitute(env).evaluate({X: x})), w), 'event %s' % n)

TREES = ['Y.lt', 'Y.iv', 'Y.in2', 'Y.un', ('and', 'Y.ge', 'X.lt'), ('or', 'Y.lt', 'Z.gt'), ('and', 'Z.in1', 'N.s'), ('or', ('and', 'X.lt', 'Y.gt'), ('and', 'Z.le', 'N.ns')), ('not', ('and', 'Y.lt', 'Z.in1')),
         ('xor', 'Z.lt', 'N.s'), ('and', ('or', 'X.lt', 'Z.gt'), ('or', 'Y.lt', 'N.s'))]
ENVS = {'YX': ['Y'], 'YX,ZX': ['Y', 'Z'], 'YX,ZY': ['Y', 'ZY'], 'pw': ['Ypw', 'Z']}
@case('substitute events', params=[dict(i=i, env=e, order=o) for i in range(len(TREES)) for e in ENVS for o in (0, 1)], cost=2)
def substitute_events(ctx, i, env, order):
    from collections import OrderedDict
    ev = tree(ctx, TREES[i])
    x = ctx.real('x'); A = {'X': x, 'N': ctx.pick('n', ['a', 'c'])}
    a, b, c = ctx.real('da'), ctx.real('db'), ctx.real('dc')
    defs, val = [], dict(A)
    if env == 'pw':
        defs.append((Y, (X < c) * (2 * X + 1) + (X >= c) * (X ** 2))); val['Y'] = 2 * x + 1 if bool(x < c) else x * x
    else:
        ctx.assume(ctx.Not(a == 0))
        defs.append((Y, a * X + b)); val['Y'] = a * x + b
    z = 'Z' in ENVS[env]
    if z: defs.append((Z, abs(X) - c)); val['Z'] = abs(x) - c
    elif 'ZY' in ENVS[env]: defs.append((Z, Y ** 2 + c)); val['Z'] = val['Y'] * val['Y'] + c
    else: val['Z'] = ctx.real('z')
    if order: defs.reverse()
    D = OrderedDict(defs)
    full = {Id(v): w for v, w in val.items()}
    want = ev.mean(val)
    ctx.check(ctx.Iff(ctx.truth(lambda: ev.obj.evaluate(full)), want), 'evaluated')
    s = ev.obj.substitute(D)
    ctx.check(not any(v in D for v in s.get_symbols()), 'no defined variable is left')
    rest = {k: w for k, w in full.items() if k not in D}
    ctx.check(ctx.Iff(ctx.truth(lambda: s.evaluate(rest)), want), 'substituted, then evaluated')

def tree(ctx, t, n='e'):
    """evs.tree over the variables X, Y, Z (numbers) and N."""
    return evs.tree(ctx, t, n)
