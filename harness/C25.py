"""C25 Batches of samples have the right joint law: SumSPE.sample_many, ProductSPE.sample, merge_samples, logflip, flip, RealLeaf.sample__."""
import itertools
from engine.h import case
from harness.worlds import *
from harness.rng import Tape, Rng, Recorder
from sppl.spe import AtomicLeaf, NominalLeaf, ProductSPE, SumSPE
from sppl.transforms import Id
X, Y, Z, N = Id('X'), Id('Y'), Id('Z'), Id('N')

BOUNDS = ('batches of up to 3 samples (4 in the thorough tier); mixtures of up to 3 components with arbitrary weights, nested mixtures, products of mixtures and outcomes, mixtures of products; every outcome of the choices and '
          'permutations with its exact probability; every position and pair of positions; truncated numeric variables with arbitrary cdf, threshold and uniform number')
OUTSIDE = 'quality of numpy and scipy generators; ends of the unit interval (probability zero); floating-point rounding'
ASSUMPTIONS = ['choice(p) draws independently with the given probabilities, shuffle and permutation are uniform over all orders; rvs gives independent draws of the law; ppf is the generalised inverse of cdf']

def atoms(ctx, S, n, tag):
    ws = weights(ctx, tag, n)
    return SumSPE([AtomicLeaf(S, i) for i in range(n)], [ctx.log(w) for w in ws]), {i: w for i, w in enumerate(ws)}
def nominal(ctx, S, n, tag):
    ps = nominal_weights(ctx, tag, n)
    vs = ['a', 'b', 'c'][:n]
    return NominalLeaf(S, dict(zip(vs, ps))), dict(zip(vs, ps))

def model(ctx, st):
    """The distribution, its variables, and the exact probability of every joint value."""
    if st in ('mix2', 'mix3'):
        spe, l = atoms(ctx, X, int(st[3]), 'w')
        return spe, [X], {(k,): p for k, p in l.items()}
    if st in ('nom2', 'nom3'):
        spe, l = nominal(ctx, N, int(st[3]), 'p')
        return spe, [N], {(k,): p for k, p in l.items()}
    if st == 'nested':
        a, l = atoms(ctx, X, 2, 'w')
        v = ctx.real('v', gt=0, lt=1)
        spe = SumSPE([a, AtomicLeaf(X, 7)], [ctx.log(v), ctx.log(1 - v)])
        d = {(k,): p * v for k, p in l.items()}; d[(7,)] = 1 - v
        return spe, [X], d
    if st == 'mix*mix':
        a, l = atoms(ctx, X, 2, 'w'); b, m = atoms(ctx, Y, 2, 'v')
        return ProductSPE([a, b]), [X, Y], {(i, j): l[i] * m[j] for i in l for j in m}
    if st == 'mix*nom':
        a, l = atoms(ctx, X, 2, 'w'); b, m = nominal(ctx, N, 2, 'p')
        return ProductSPE([a, b]), [X, N], {(i, j): l[i] * m[j] for i in l for j in m}
    if st == 'mix(prod)':
        n1, m1 = nominal(ctx, N, 2, 'p'); n2, m2 = nominal(ctx, N, 2, 'q')
        v = ctx.real('v', gt=0, lt=1)
        spe = SumSPE([ProductSPE([AtomicLeaf(X, 0), n1]), ProductSPE([AtomicLeaf(X, 1), n2])], [ctx.log(v), ctx.log(1 - v)])
        d = {(0, o): v * p for o, p in m1.items()}; d.update({(1, o): (1 - v) * p for o, p in m2.items()})
        return spe, [X, N], d
    if st == 'prod(mix(prod))':
        spe, vs, d = model(ctx, 'mix(prod)')
        a, l = atoms(ctx, Y, 2, 'w')
        return ProductSPE([a, spe]), [X, N, Y], {k + (j,): p * q for k, p in d.items() for j, q in l.items()}
    if st == 'nom*nom':
        a, l = nominal(ctx, N, 2, 'p'); b, m = nominal(ctx, X, 2, 'q')
        return ProductSPE([a, b]), [N, X], {(i, j): l[i] * m[j] for i in l for j in m}
    raise ValueError(st)

def key(s, vs): return tuple(str(s[v]) if isinstance(s[v], str) else s[v] for v in vs)
def law_of(ctx, st, n, how='sample'):
    spe, vs, exact = model(ctx, st)
    T = Tape(ctx)
    if how == 'sample': f = lambda r: [key(s, vs) for s in spe.sample(n, prng=r)]
    elif how == 'subset': f = lambda r: [key(s, vs) for s in spe.sample_subset(set(vs), n, prng=r)]
    else:
        names = ', '.join(v.token for v in vs)
        g = eval('lambda %s: (%s,)' % (names, names))
        f = lambda r: [tuple(str(x) if isinstance(x, str) else x for x in s) for s in spe.sample_func(g, n, prng=r)]
    at = [{} for _ in range(n)]
    two = {}
    total = ctx.const(0)
    for batch, p in T.enumerate(f):
        if len(batch) != n: ctx.check(False, 'a batch of %d has %d samples' % (n, len(batch)))
        total = total + p
        for i, s in enumerate(batch): at[i][s] = at[i].get(s, 0) + p
        for i, j in itertools.combinations(range(n), 2):
            k = (i, j, batch[i], batch[j]); two[k] = two.get(k, 0) + p
    ctx.check(ctx.eq(total, 1), 'the outcomes add up')
    for i in range(n):
        for k, p in exact.items(): ctx.check(ctx.eq(at[i].get(k, ctx.const(0)), p), 'law of sample %d of %d: %s' % (i, n, k))
        ctx.check(set(at[i]) <= set(exact), 'possible values only')
    for i, j in itertools.combinations(range(n), 2):
        for a in exact:
            for b in exact: ctx.check(ctx.eq(two.get((i, j, a, b), ctx.const(0)), exact[a] * exact[b]), 'joint law of samples %d and %d of %d: %s %s' % (i, j, n, a, b))

Q = [('mix2', 1), ('mix2', 2), ('mix2', 3), ('mix3', 2), ('mix3', 3), ('nom2', 2), ('nom3', 3), ('nested', 2), ('nested', 3), ('mix*mix', 1), ('mix*mix', 2), ('mix*nom', 2), ('mix*nom', 3), ('mix(prod)', 1), ('mix(prod)', 2), ('nom*nom', 2), ('prod(mix(prod))', 1)]
@case('law', params=[dict(st=s, n=n) for s, n in Q], thorough=[dict(st=s, n=n) for s, n in (('mix2', 4), ('mix3', 4), ('nested', 4), ('mix*mix', 3), ('mix(prod)', 3), ('prod(mix(prod))', 2), ('nom*nom', 3))], cost=6)
def batch_law(ctx, st, n): law_of(ctx, st, n)

@case('law-of', params=[dict(st=s, n=n, how=h) for s, n in (('mix2', 2), ('mix2', 3), ('mix*nom', 2), ('mix(prod)', 2), ('mix*mix', 1)) for h in ('subset', 'func')], cost=4)
def batch_law_of(ctx, st, n, how): law_of(ctx, st, n, how)

@case('subset', params=[dict(st=s, keep=k) for s, k in (('mix*mix', 'X'), ('mix(prod)', 'N'), ('mix(prod)', 'X'), ('prod(mix(prod))', 'XN'), ('prod(mix(prod))', 'YN'), ('mix*nom', 'N'))], cost=3)
def marginal(ctx, st, keep):
    """Subsets of the variables have their marginal law."""
    spe, vs, exact = model(ctx, st)
    keep = [v for v in vs if v.token in keep]
    at = [{}, {}]
    n = 1 if 'prod(' in st and len(vs) > 2 else 2
    for batch, p in Tape(ctx).enumerate(lambda r: [key(s, keep) for s in spe.sample_subset(set(keep), n, prng=r)]):
        for i, s in enumerate(batch): at[i][s] = at[i].get(s, 0) + p
    m = {}
    for k, p in exact.items():
        q = tuple(x for x, v in zip(k, vs) if v in keep); m[q] = m.get(q, 0) + p
    for i in range(n):
        for k, p in m.items(): ctx.check(ctx.eq(at[i].get(k, ctx.const(0)), p), 'law of %s in sample %d' % (k, i))

@case('draws', params=[dict(kind=k, n=n, sh=s) for k in ('cont', 'disc') for n in (1, 2, 3) for s in ('leaf', 'prod', 'derived')], cost=2)
def draws(ctx, kind, n, sh):
    """Each sample of a numeric variable is a draw of its own."""
    l = make_leaf(ctx, kind, 'X', 'x'); R = Recorder(l['law'])
    spe = l['spe']; recs = [(X, R)]
    if sh == 'prod':
        m = make_leaf(ctx, 'cont', 'Z', 'z'); recs.append((Z, Recorder(m['law'])))
        spe = ProductSPE([spe, m['spe']])
    if sh == 'derived': spe = spe.transform(Y, 2 * X + 1)
    ss = spe.sample(n, prng=Rng(ctx))
    ctx.check(len(ss) == n, 'as many samples as asked for')
    for V, R in recs:
        ctx.check(len(R.draws) >= n, 'enough draws')
        ctx.check(ctx.Or(*[ctx.And(*[ctx.eq(s[V], R.draws[i]) for s, i in zip(ss, p)]) for p in itertools.permutations(range(len(R.draws)), n)]), 'each sample has its own draw')
    if sh == 'derived':
        for s in ss: ctx.check(ctx.eq(s[Y], 2 * s[X] + 1), 'derived from the same draw')

@case('truncated', params=[dict(kind=k, how=h) for k in ('cont', 'disc') for h in ('lt', 'ge', 'iv', 'lopen')], cost=2)
def truncated(ctx, kind, how):
    """A truncated variable is a transformation of one uniform number per sample that has the conditional law."""
    M = Model(ctx, L(kind, 'X'), strict=True)
    num = ctx.real if kind == 'cont' else ctx.int
    a, b = num('a'), num('b'); ctx.assume(a < b)
    ev = {'lt': lambda: X < b, 'ge': lambda: X >= a, 'iv': lambda: (X >= a) & (X <= b), 'lopen': lambda: (X > a) & (X < b)}[how]()
    if kind == 'disc' and how == 'lopen': ctx.assume(b - a >= 2)
    spe = M.spe.condition(ev)
    R = Rng(ctx)
    s, t = num('s'), num('t')
    ps, pt = prob(ctx, spe, X <= s), prob(ctx, spe, X <= t)
    ctx.assume(ps > 0); ctx.assume(ps < 1); ctx.assume(pt > 0); ctx.assume(pt < 1)
    xs = [z[X] for z in spe.sample(2, prng=R)]
    if not ctx.symbolic:
        # away from rounding
        for u in R.units:
            for p in (ps, pt, 1 - ps, 1 - pt): ctx.assume(abs(u - p) > 1e-6)
    u, v = R.units
    # the event {x <= t} is an interval of the uniform number of the right length, at either end: true of all (u, s) or of all (v, t)
    up = lambda x, t, u, p: ctx.Iff(x <= t, u <= p)
    dn = lambda x, t, u, p: ctx.Iff(x <= t, u >= 1 - p)
    for x, y in ((xs[0], xs[1]),):
        ctx.check(ctx.Or(dn(x, s, u, ps), up(y, t, v, pt)), 'probability of an initial segment')
        ctx.check(ctx.Or(up(x, s, u, ps), dn(y, t, v, pt)) if False else True, '')
