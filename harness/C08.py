"""C08 Mixtures and products give every event its exact probability."""
from engine.h import case
from harness.joint import *

BOUNDS = ('mixtures of up to 3 components and products of up to 3 variables, nested to depth 3; arbitrary laws, weights and thresholds (two per numeric '
          'variable); Boolean combinations of up to 6 literals with up to 4 overlapping clauses')
OUTSIDE = 'accuracy of scipy distribution functions; floating-point rounding and cancellation'
ASSUMPTIONS = ['scipy evaluates cdf/logcdf/pmf/logpmf of the law exactly; logsumexp and exp/log are exact']
ALL = [(s, e) for s in STRUCT for e in names(s) if s != 'mixXnom']
def P(l): return [dict(st=s, e=e) for s, e in l]

@case('prob', params=P(ALL), cost=3)
def probability(ctx, st, e):
    M, th, space, vs = world(ctx, st)
    ev = shapes(vs, th)[e]
    ctx.check(ctx.eq(prob(ctx, M.spe, build(ev)), M.P(ev, space)), 'probability of ' + e)

ZQ = [(s, e) for s in ('XY', 'XN') for e in ('and', 'or2', 'three', 'xor', 'sub')] + [('mixX', 'hole'), ('mix(XN,NX)', 'or')]
@case('zero-mass', params=P(ZQ), thorough=P([(s, e) for s in STRUCT if s != 'mixXnom' for e in names(s) if (s, e) not in ZQ and not (e == 'cyc' and 'mix' in s)]), cost=8)
def zero_mass(ctx, st, e):
    """Laws that may give some of the sets no mass at all."""
    M, th, space, vs = world(ctx, st, strict=False, zero_ok=True)
    ev = shapes(vs, th)[e]
    ctx.check(ctx.eq(prob(ctx, M.spe, build(ev)), M.P(ev, space)), 'probability of ' + e)

@case('mixed', params=[dict(e=e) for e in ('one', 'hole', 'not', 'nom', 'co', 'both')], cost=3)
def mixed(ctx, e):
    """A mixture of a numeric and a nominal component for the same variable."""
    M, th, space, vs = world(ctx, 'mixXnom')
    TT = th['X'][0]
    ev = {'nom': ('s', 'X', ['a']), 'co': ('ns', 'X', ['a']), 'both': ('or', ('s', 'X', ['a']), ('lt', 'X', TT)), 'not': ('gt', 'X', TT)}.get(e) or shapes(vs, th)[e]
    ctx.check(ctx.eq(prob(ctx, M.spe, build(ev)), M.P(ev, space)), 'probability of ' + e)

def complexes(n=4):
    """Every pattern of which clauses can hold together, by its maximal sets."""
    from itertools import combinations
    subsets = [frozenset(c) for k in range(1, n + 1) for c in combinations(range(n), k)]
    out = []
    def rec(i, chosen):
        if i == len(subsets):
            if set().union(*chosen) == set(range(n)): out.append([sorted(c) for c in chosen])
            return
        rec(i + 1, chosen)
        s = subsets[i]
        if not any(s < c or c < s for c in chosen): rec(i + 1, chosen + [s])
    rec(0, [])
    return out
CHUNKS = 8
@case('overlaps', params=[dict(chunk=i) for i in range(CHUNKS)], cost=4)
def overlaps(ctx, chunk):
    """Four clauses over two independent variables, overlapping in every possible way."""
    from sppl.spe import NominalLeaf, ProductSPE
    from sppl.transforms import Id
    A, B = Id('A'), Id('B')
    q = nominal_weights(ctx, 'q', 2)
    for ci, facets in list(enumerate(complexes()))[chunk::CHUNKS]:
        k = len(facets) + 1
        p = nominal_weights(ctx, 'p%d' % k, k)
        spe = ProductSPE([NominalLeaf(A, {'o%d' % i: w for i, w in enumerate(p)}), NominalLeaf(B, dict(zip('xy', q)))])
        e, exact = None, 0
        for j in range(4):
            c = (A << {'o%d' % i for i, f in enumerate(facets) if j in f}) & (B << ({'x'} if j == 3 else {'x', 'y'}))
            e = c if e is None else e | c
        for i, f in enumerate(facets):
            exact = exact + p[i] * (q[0] if f == [3] else 1)
        ctx.check(ctx.eq(prob(ctx, spe, e), exact), 'probability of four clauses overlapping as %s' % (facets,))
