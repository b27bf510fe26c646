"""C07 Conditioning one variable follows the definition of conditional probability."""
from engine.h import case
from harness.worlds import *

BOUNDS = ('one variable; arbitrary (symbolic) continuous / integer law, atomic value, nominal weights over 3 outcomes; conditioning events with up '
          'to two arbitrary real thresholds, queried events with one or two further thresholds in every relative order; up to two conditionings')
OUTSIDE = 'accuracy of scipy distribution functions; floating-point rounding; transformed events (C03)'
ASSUMPTIONS = ['a continuous law is any non-decreasing continuous cdf with limits 0 and 1; an integer law any non-decreasing cdf on the integers; '
               'scipy evaluates cdf/logcdf/pmf/logpmf of the law exactly']

def evs(V, t0, t1):
    return {
        'lt': ('lt', V, t0), 'le': ('le', V, t0), 'gt': ('gt', V, t0), 'ge': ('ge', V, t0),
        'oo': ('iv', V, t0, t1, True, True), 'oc': ('iv', V, t0, t1, True, False),
        'co': ('iv', V, t0, t1, False, True), 'cc': ('iv', V, t0, t1, False, False),
        'eq': ('in', V, [t0]), 'in2': ('in', V, [t0, t1]), 'ne': ('not', ('in', V, [t0])), 'nin2': ('not', ('in', V, [t0, t1])),
        'hole': ('or', ('lt', V, t0), ('gt', V, t1)), 'holec': ('or', ('le', V, t0), ('ge', V, t1)),
        'iv+pt': ('or', ('lt', V, t0), ('in', V, [t1])),
        'none': ('and', ('lt', V, t0), ('gt', V, t1)), 'all': ('or', ('le', V, t1), ('ge', V, t0)),
    }
A2 = [k for k in evs('X', Th(0, 0), Th(1, 1))]
ONE = ('lt', 'le', 'gt', 'ge', 'eq', 'ne')      # events naming t0 only

def attempt(f):
    """The result, or None when refused with an error."""
    try:
        return f()
    except (AssertionError, ValueError):
        return None

def rule(ctx, M, spe, a, bs, space, given=None):
    """post-probabilities of each b given a (and given), on the distribution spe = M | given."""
    g = a if given is None else ('and', given, a)
    z = M.P(g, space)
    if not (z > 0):
        ctx.check(attempt(lambda: spe.condition(build(a))) is None, 'conditioning on an event of probability zero is refused')
        return None
    post = spe.condition(build(a))
    for n, b in bs:
        ctx.check(ctx.eq(prob(ctx, post, build(b)) * z, M.P(('and', g, b), space)), 'posterior probability of ' + n)
    return post

def one(ctx, kind, a, nb=1, bnd=False, bs=None):
    M = Model(ctx, L(kind, 'X'))
    disc = kind.startswith('disc')
    ta = thresholds(ctx, 'a', 1 if a in ONE else 2, floor=disc)
    tb = thresholds(ctx, 'b', nb, floor=disc)
    space = {'X': merge_points(ctx, ta + tb)}
    A = evs('X', ta[0], ta[-1])[a]
    B = evs('X', tb[0], tb[-1])
    names = bs or (('lt', 'ge', 'eq', 'ne') if nb == 1 else ('oo', 'cc', 'in2'))
    rule(ctx, M, M.spe, A, [(n, B[n]) for n in names], space)

@case('leaf', params=[dict(kind=k, a=a) for k in ('cont', 'disc', 'atom') for a in A2],
      thorough=[dict(kind=k, a=a) for k in ('contb', 'discb') for a in A2], cost=4)
def leaf(ctx, kind, a):
    one(ctx, kind, a, bs=('le',) if kind == 'disc' and a == 'nin2' else ('le', 'eq') if kind == 'disc' and a in ('hole', 'holec') else None)

@case('leaf-full', params=[], thorough=[dict(kind='disc', a=a) for a in ('nin2', 'hole', 'holec')], cost=50)
def leaf_full(ctx, kind, a):
    one(ctx, kind, a)

@case('leaf2', params=[dict(kind=k, a=a) for k in ('cont',) for a in ('cc', 'hole', 'ge')] + [dict(kind='disc', a='le')],
      thorough=[dict(kind=k, a=a) for k in ('cont', 'disc') for a in A2 if not (k == 'cont' and a in ('cc', 'hole', 'ge')) and (k, a) != ('disc', 'le')], cost=9)
def leaf2(ctx, kind, a):
    one(ctx, kind, a, nb=2)

@case('bounded', params=[dict(kind=k, a=a) for k in ('contb', 'discb') for a in ('lt', 'ge', 'ne', 'cc')], cost=6)
def bounded(ctx, kind, a):
    one(ctx, kind, a, bs=('lt',) if (kind, a) == ('discb', 'cc') else ('lt', 'eq'))

@case('twice', params=[dict(kind=k, a=a, b=b) for k in ('cont', 'disc') for a, b in (('ge', 'lt'), ('oc', 'ge'), ('hole', 'ge'), ('ne', 'le'), ('in2', 'ge'), ('lt', 'ne')) if (k, a) != ('cont', 'in2')],
      thorough=[dict(kind=k, a=a, b=b) for k in ('cont', 'disc') for a in ('gt', 'cc', 'nin2', 'holec') for b in ('lt', 'ge', 'ne', 'eq')], cost=8)
def twice(ctx, kind, a, b):
    M = Model(ctx, L(kind, 'X'))
    disc = kind == 'disc'
    sort = 'int' if disc else 'real'
    ta = thresholds(ctx, 'a', 1 if a in ONE else 2, sort=sort)
    tb = thresholds(ctx, 'b', 1, floor=disc)
    tc = thresholds(ctx, 'c', 1, sort=sort)
    space = {'X': merge_points(ctx, ta + tb + tc)}
    A = evs('X', ta[0], ta[-1])[a]
    B = evs('X', tb[0], tb[-1])[b]
    z = M.P(A, space)
    ctx.assume(z > 0)
    post = M.spe.condition(build(A))
    C = evs('X', tc[0], tc[0])
    rule(ctx, M, post, B, [('le', C['le'])], space, given=A)

NOM = {
    'a': ('s', 'N', ['a']), 'ab': ('s', 'N', ['a', 'b']), 'az': ('s', 'N', ['a', 'z']), 'z': ('s', 'N', ['z']), 'na': ('not', ('s', 'N', ['a'])),
    'nz': ('not', ('s', 'N', ['z'])), 'co': ('ns', 'N', ['b', 'z']), 'none': ('and', ('s', 'N', ['a']), ('s', 'N', ['b'])),
    'abc': ('s', 'N', ['a', 'b', 'c']), 'bc': ('s', 'N', ['b', 'c']),
}
@case('nominal', params=[dict(a=a, b=b, z=z) for a in NOM for b, z in (('ab', False), ('na', True))])
def nominal(ctx, a, b, z):
    M = Model(ctx, L('nom', 'N'), outcomes=('a', 'b', 'c'), zero_ok=z)
    space = {'N': cells_nom(['a', 'b', 'c', 'z'])}
    post = rule(ctx, M, M.spe, NOM[a], [(b, NOM[b]), ('bc', NOM['bc']), ('itself', NOM[a])], space)
    if post is not None:
        rule(ctx, M, post, NOM[b], [('bc', NOM['bc'])], space, given=NOM[a])

@case('mixed-kinds', params=[dict(kind=k, e=e) for k in ('cont', 'disc', 'nom', 'atom') for e in ('s', 'ns', 'num', 'or')])
def mixed_kinds(ctx, kind, e):
    M = Model(ctx, L(kind, 'X'))
    t0, = thresholds(ctx, 't', 1, floor=kind.startswith('disc'))
    space = {'X': cells_nom(['a', 'b']) if kind == 'nom' else space_real([t0])}
    ev = {'s': ('s', 'X', ['a']), 'ns': ('ns', 'X', ['a']), 'num': ('ge', 'X', t0), 'or': ('or', ('s', 'X', ['a']), ('ge', 'X', t0))}[e]
    rule(ctx, M, M.spe, ev, [(e, ev)], space)
