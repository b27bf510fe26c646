"""C09 Conditioning a joint distribution is Bayes rule."""
from engine.h import case
from harness.joint import *

BOUNDS = ('mixtures of up to 3 components and products of up to 3 variables, nested to depth 3; arbitrary laws, weights and thresholds (two per numeric '
          'variable, shared by the conditioning and the queried event); Boolean combinations of up to 6 literals with up to 3 overlapping clauses; '
          'up to two successive conditionings')
OUTSIDE = 'accuracy of scipy distribution functions; floating-point rounding and cancellation'
ASSUMPTIONS = ['scipy evaluates cdf/logcdf/pmf/logpmf of the law exactly; logsumexp and exp/log are exact']

def attempt(f):
    try:
        return f()
    except (AssertionError, ValueError):
        return None

def queries(vs, th, S, names):
    return [(n, S[n]) for n in names]

def bayes(ctx, M, spe, A, bs, space, given=None):
    g = A if given is None else ('and', given, A)
    z = M.P(g, space)
    if not (z > 0):
        ctx.check(attempt(lambda: spe.condition(build(A))) is None, 'conditioning on an event of probability zero is refused')
        return None
    post = spe.condition(build(A))
    ctx.check(ctx.eq(prob(ctx, post, build(A)), 1), 'posterior probability of the condition is one')
    for n, b in bs:
        ctx.check(ctx.eq(prob(ctx, post, build(b)) * z, M.P(('and', g, b), space)), 'posterior probability of ' + n)
    return post

def B(vs): return ['one'] if len(vs) == 1 else ['pt', 'and', 'or2'] if len(vs) == 2 else ['pt', 'and3', 'or2']

ALL = [(s, e) for s in STRUCT for e in names(s) if s != 'mixXnom']
def P(l): return [dict(st=s, e=e) for s, e in l]

@case('bayes', params=P(ALL), cost=5)
def bayes_(ctx, st, e):
    M, th, space, vs = world(ctx, st)
    S = shapes(vs, th)
    bayes(ctx, M, M.spe, S[e], [(n, S[n]) for n in B(vs)], space)

ZQ = [(s, e) for s in ('XN',) for e in ('and', 'or', 'or2', 'xor', 'three')] + [('mixX', 'hole'), ('mix(XN,NX)', 'one'), ('mixX*N', 'hole')]
@case('zero-mass', params=P(ZQ), thorough=P([(s, e) for s in ('XY', 'XN', 'mixX*N', 'mix(XN,NX)', 'XYN') for e in names(s) if (s, e) not in ZQ and e != 'cyc']), cost=9)
def zero_mass(ctx, st, e):
    M, th, space, vs = world(ctx, st, strict=False, zero_ok=True)
    S = shapes(vs, th)
    bayes(ctx, M, M.spe, S[e], [(n, S[n]) for n in (['and'] if len(vs) > 1 else ['one'])], space)

TW = [('XN', 'or', 'and'), ('XN', 'or2', 'notand'), ('XN', 'xor', 'one'), ('mix(XN,NX)', 'one', 'or'), ('mixX*N', 'or', 'xor'), ('mixX', 'hole', 'one'), ('XY', 'or', 'or2'),
      ('XYN', 'skip', 'or2'), ('mix3', 'or', 'hole')]
@case('twice', params=[dict(st=s, a=a, b=b) for s, a, b in TW],
      thorough=[dict(st=s, a=a, b=b) for s in STRUCT if len(STRUCT[s][1]) > 1 for a in ('or', 'or2', 'notand', 'hole', 'xor', 'three') for b in ('one', 'xor', 'or2', 'notor', 'three2', 'pt') if (s, a, b) not in TW], cost=9)
def twice(ctx, st, a, b):
    M, th, space, vs = world(ctx, st)
    S = shapes(vs, th)
    post = bayes(ctx, M, M.spe, S[a], [], space)
    bayes(ctx, M, post, S[b], [(n, S[n]) for n in B(vs)], space, given=S[a])

@case('ruled-out', params=[dict(n=n) for n in (2, 3)], thorough=[dict(n=4)], cost=9)
def ruled_out(ctx, n):
    """Mixtures in which any of the components may be unable to produce the event."""
    M = Model(ctx, mix(*[prod(lf('X'), lf('N')) for _ in range(n)]), strict=True, zero_ok=True)
    th, space = env(ctx, 'XN', n=1)
    bayes(ctx, M, M.spe, ('s', 'N', ['a']), [('X', ('le', 'X', th['X'][0]))], space)
