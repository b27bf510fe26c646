"""C13 Every sample satisfies the model it was drawn from."""
from engine.h import case
from harness.joint import *
from harness.rng import Rng
from sppl.transforms import Id
from sppl.spe import AtomicLeaf, NominalLeaf, ProductSPE, SumSPE
from harness.exprs import FORMS, chain

BOUNDS = ('batches of up to 3 samples; distributions nested to depth 3 over up to 3 variables with arbitrary laws and weights, conditioned on Boolean combinations of up to 6 literals or constrained to values; '
          'derived variables of up to 2 operations; every outcome of choices, permutations, draws and uniform numbers')
OUTSIDE = 'ends of the unit interval (probability zero); accuracy of scipy ppf and rvs; floating-point rounding'
ASSUMPTIONS = ['rvs draws from the support of the law; ppf is the generalised inverse of cdf; choice only draws outcomes of positive probability']

def truth(e, s):
    """Truth of an event of worlds at a sample."""
    k = e[0]
    if k == 'and': return all(truth(x, s) for x in e[1:])
    if k == 'or': return any(truth(x, s) for x in e[1:])
    if k == 'not': return not truth(e[1], s)
    if k == 'xor': return truth(e[1], s) != truth(e[2], s)
    x = s[Id(e[1])]
    if k == 's': return str(x) in e[2]
    if k == 'ns': return str(x) not in e[2]
    if k == 'in': return any(bool(x == val(t)) for t in e[2])
    t = val(e[2])
    return bool({'lt': lambda: x < t, 'le': lambda: x <= t, 'gt': lambda: x > t, 'ge': lambda: x >= t}[k]())

def away(ctx, s, th):
    """Replays stay away from rounding at thresholds."""
    if ctx.symbolic: return
    for v, ts in th.items():
        for t in ts or []:
            x = s.get(Id(v))
            if isinstance(x, float) and abs(x - t.x) < 1e-9 and x != t.x: ctx.assume(False)
            if isinstance(x, float) and abs(x - t.x) < 1e-9: ctx.assume(False)

def same_keys(ctx, s, vs): ctx.check(sorted(k.token for k in s) == sorted(vs), 'a value for every variable and no other')
def checked(ctx, ss, n, vs, th, ev, what=''):
    ctx.check(len(ss) == n, 'as many samples as asked for')
    for s in ss:
        same_keys(ctx, s, vs)
        away(ctx, s, th)
        if ev is not None: ctx.check(ctx.truth(lambda: truth(ev, s)), 'the sample satisfies the event' + what)
        for v in vs:
            if v in KINDS: ctx.check(isinstance(s[Id(v)], str) == (KINDS[v] == 'nom'), 'values of the right kind')

SH = ['one', 'hole', 'pt', 'not', 'and', 'or', 'or2', 'three', 'notand', 'xor', 'disj', 'ornot']
COND = [(s, e, 2) for s in ('mixX', 'mixXatom', 'mixY', 'mixN', 'XY', 'XN', 'XA') for e in SH[:4] + (SH[4:] if len(STRUCT[s][1]) > 1 else []) if e in names(s)] + \
       [(s, e, 1) for s in ('XYN', 'mix(XN,NX)', 'mixX*N', 'mix(XY,XY)', 'mix(XN,XN)*Y', 'mix(mix,XN)') for e in ('one', 'and', 'or', 'or2', 'notand', 'and3', 'or3') if e in names(s)]
@case('conditioned', params=[dict(st=s, e=e, n=n) for s, e, n in COND], cost=4)
def conditioned(ctx, st, e, n):
    M, th, space, vs = world(ctx, st)
    ev = shapes(vs, th)[e]
    try: spe = M.spe.condition(build(ev))
    except (AssertionError, ValueError): ctx.check(True, 'impossible'); return
    ss = spe.sample(n, prng=Rng(ctx))
    checked(ctx, ss, n, list(vs), th, ev)
    for s in ss:
        for v in vs: pass

@case('twice', params=[dict(st=s, e=e, f=f) for s, e, f in (('XN', 'or', 'and'), ('XY', 'or', 'notand'), ('mixX', 'hole', 'not'), ('XY', 'or2', 'one'), ('mixXatom', 'hole', 'one'))], cost=4)
def twice(ctx, st, e, f):
    M, th, space, vs = world(ctx, st)
    S = shapes(vs, th)
    try: spe = M.spe.condition(build(S[e])).condition(build(S[f]))
    except (AssertionError, ValueError): ctx.check(True, 'impossible'); return
    checked(ctx, spe.sample(1, prng=Rng(ctx)), 1, list(vs), th, ('and', S[e], S[f]))

@case('plain', params=[dict(st=s, n=n) for s in STRUCT if s != 'mixXnom' for n in ((0, 1, 2) if len(STRUCT[s][1]) < 3 else (1,))], cost=2)
def plain(ctx, st, n):
    M, th, space, vs = world(ctx, st)
    checked(ctx, M.spe.sample(n, prng=Rng(ctx)), n, list(vs), th, None)

@case('bounded', params=[dict(k=k, cond=c) for k in ('contb', 'discb') for c in (None, 'le', 'gt')], cost=2)
def bounded(ctx, k, cond):
    """Samples stay in the declared range."""
    l = make_leaf(ctx, k, 'X', 'x', strict=True); X = Id('X')
    spe = l['spe']
    t = (ctx.real if k == 'contb' else ctx.int)('t')
    if cond:
        try: spe = spe.condition(X <= t if cond == 'le' else X > t)
        except (AssertionError, ValueError): ctx.check(True, 'impossible'); return
    for s in spe.sample(2, prng=Rng(ctx)):
        x = s[X]
        if not ctx.symbolic and (abs(x - l['lo']) < 1e-9 or abs(x - l['hi']) < 1e-9 or abs(x - t) < 1e-9) and isinstance(x, float): ctx.assume(False)
        ctx.check(ctx.And(x >= l['lo'], x <= l['hi']), 'in the range')
        if cond: ctx.check(x <= t if cond == 'le' else x > t, 'satisfies the event')
        ctx.check(ctx.truth(lambda: x in spe.support), 'in the support')
        if k == 'discb' and ctx.symbolic:
            from engine import sx
            ctx.check(ctx.eq(sx.sym_floor(sx.wrap(x)), x), 'an integer')

@case('constrained', params=[dict(st=s, v=v) for s, v in (('XN', 'X'), ('XN', 'N'), ('XY', 'Y'), ('mix(XN,NX)', 'X'), ('mix(XN,NX)', 'N'), ('mixXatom', 'X'), ('XA', 'A'), ('mix(XN,XN)*Y', 'N'))], cost=3)
def constrained(ctx, st, v):
    M, th, space, vs = world(ctx, st)
    value = 'a' if v == 'N' else ctx.int('c') if v == 'Y' else ctx.real('c')
    try: spe = M.spe.constrain({Id(v): value})
    except (AssertionError, ValueError): ctx.check(True, 'impossible'); return
    for s in spe.sample(2, prng=Rng(ctx)):
        same_keys(ctx, s, vs)
        ctx.check(ctx.eq(s[Id(v)], value) if v != 'N' else str(s[Id(v)]) == 'a', 'the assigned value')

PART = [('XY', 'X'), ('XY', 'Y'), ('XYN', 'XN'), ('XYN', 'Y'), ('mix(XN,NX)', 'N'), ('mix(XN,NX)', 'X'), ('mix(XN,XN)*Y', 'XY'), ('mix(XN,XN)*Y', 'N'), ('mixX*N', 'X'), ('XYNflat', 'NX'), ('mixX', 'X')]
@case('part', params=[dict(st=s, keep=k, how=h) for s, k in PART for h in ('subset', 'func', 'list')], cost=2)
def part(ctx, st, keep, how):
    """Subsets and functions of the variables, conditioned on them."""
    M, th, space, vs = world(ctx, st)
    ev = lit(keep[0], 0, th)
    spe = M.spe.condition(build(ev))
    R = Rng(ctx)
    ids = [Id(v) for v in keep]
    if how == 'func':
        g = eval('lambda %s: (%s,)' % (', '.join(keep), ', '.join(keep)))
        out = spe.sample_func(g, 2, prng=R)
        ctx.check(all(len(o) == len(keep) for o in out), 'the value of the function')
        ss = [dict(zip(ids, o)) for o in out]
    else: ss = spe.sample_subset(set(ids) if how == 'subset' else ids, 2, prng=R)
    checked(ctx, ss, 2, list(keep), th, ev)

DER = {'lin': lambda X: 2 * X + 1, 'sq': lambda X: X ** 2, 'abs': lambda X: abs(X), 'neg': lambda X: 3 - X, 'cube': lambda X: X ** 3 - X}
VAL = {'lin': lambda x: 2 * x + 1, 'sq': lambda x: x * x, 'abs': lambda x: abs(x), 'neg': lambda x: 3 - x, 'cube': lambda x: x * x * x - x}
@case('derived', params=[dict(k=k, f=f, sh=s) for k in ('cont', 'disc', 'atom') for f in DER for s in ('leaf', 'product', 'mix', 'chain')] , cost=2)
def derived(ctx, k, f, sh):
    """Derived variables have the value of their definition in the same sample."""
    X, Y, Z, W = Id('X'), Id('Y'), Id('Z'), Id('W')
    spe = make_leaf(ctx, k, 'X', 'x', strict=True)['spe']
    if sh == 'product': spe = ProductSPE([make_leaf(ctx, 'nom', 'N', 'n', True)['spe'], spe])
    if sh == 'mix': spe = SumSPE([spe, make_leaf(ctx, k, 'X', 'y', strict=True)['spe']], [ctx.log(w) for w in weights(ctx, 'w', 2)])
    spe = spe.transform(Y, DER[f](X))
    vs = ['X', 'Y'] + (['N'] if sh == 'product' else [])
    if sh == 'chain': spe = spe.transform(Z, 5 - Y).transform(W, X + 1); vs += ['Z', 'W']
    t = ctx.real('t')
    try: spe = spe.condition(X <= t)
    except (AssertionError, ValueError): ctx.check(True, 'impossible'); return
    for part in (False, True):
        if part:
            keep = {Id(v) for v in vs if v != 'X'}
            ss = spe.sample_subset(keep, 2, prng=Rng(ctx, 'q'))
            for s in ss: same_keys(ctx, s, [v for v in vs if v != 'X'])
        else: ss = spe.sample(2, prng=Rng(ctx))
        ctx.check(len(ss) == 2, 'as many samples as asked for')
        for s in ss:
            if not part:
                same_keys(ctx, s, vs)
                ctx.check(ctx.eq(s[Y], VAL[f](s[X])), 'the value of the definition')
            if sh == 'chain':
                ctx.check(ctx.eq(s[Z], 5 - s[Y]), 'the value of the second definition')
                if not part: ctx.check(ctx.eq(s[W], s[X] + 1), 'the value of the third definition')

@case('derived-event', params=[dict(k=k, e=e, sh=s) for k in ('cont', 'disc') for e in ('le', 'gt', 'hole', 'sq') for s in ('leaf', 'product')], cost=3)
def derived_event(ctx, k, e, sh):
    """Conditioning on derived variables."""
    X, Y, N = Id('X'), Id('Y'), Id('N')
    spe = make_leaf(ctx, k, 'X', 'x', strict=True)['spe']
    if sh == 'product': spe = ProductSPE([spe, make_leaf(ctx, 'nom', 'N', 'n', True)['spe']])
    a, b = ctx.int('a'), ctx.int('b'); ctx.assume(a < b)
    f, v = ((X ** 2), lambda x: x * x) if e == 'sq' else (2 * X + 1, lambda x: 2 * x + 1)
    spe = spe.transform(Y, f)
    ev = {'le': Y <= a, 'gt': Y > b, 'hole': (Y < a) | (Y > b), 'sq': Y <= b}[e]
    if sh == 'product': ev = ev | (N << {'a'})
    try: spe = spe.condition(ev)
    except (AssertionError, ValueError): ctx.check(True, 'impossible'); return
    for s in spe.sample(2, prng=Rng(ctx)):
        y = v(s[X])
        ctx.check(ctx.eq(s[Y], y), 'the value of the definition')
        if not ctx.symbolic and isinstance(s[X], float) and (abs(y - a) < 1e-6 or abs(y - b) < 1e-6): ctx.assume(False)
        if sh == 'product' and str(s[N]) == 'a': continue
        ctx.check({'le': y <= a, 'gt': y > b, 'hole': ctx.Or(y < a, y > b), 'sq': y <= b}[e], 'the sample satisfies the event')
