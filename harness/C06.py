"""C06 The probability of an event on one variable is its measure."""
from engine.h import case
from harness.worlds import *

BOUNDS = ('one variable; arbitrary (symbolic) continuous / integer law, atomic value, nominal weights over 3 outcomes; events with up to two '
          'arbitrary real thresholds and one Boolean connective of three literals; plain and conditioned leaves')
OUTSIDE = 'accuracy of scipy distribution functions; floating-point rounding; transformed events (C03)'
ASSUMPTIONS = ['a continuous law is any non-decreasing continuous cdf with limits 0 and 1; an integer law any non-decreasing cdf on the integers; '
               'scipy evaluates cdf/logcdf/pmf/logpmf of the law exactly']

def evs(t0, t1):
    V = 'X'
    return {
        'lt': ('lt', V, t0), 'le': ('le', V, t0), 'gt': ('gt', V, t0), 'ge': ('ge', V, t0),
        'oo': ('iv', V, t0, t1, True, True), 'oc': ('iv', V, t0, t1, True, False),
        'co': ('iv', V, t0, t1, False, True), 'cc': ('iv', V, t0, t1, False, False),
        'eq': ('in', V, [t0]), 'in2': ('in', V, [t0, t1]), 'ne': ('not', ('in', V, [t0])), 'nin2': ('not', ('in', V, [t0, t1])),
        'hole': ('or', ('lt', V, t0), ('gt', V, t1)), 'holec': ('not', ('iv', V, t0, t1, True, True)),
        'iv+pt': ('or', ('in', V, [t0]), ('gt', V, t1)), 'and': ('and', ('ge', V, t0), ('lt', V, t1)),
        'none': ('and', ('lt', V, t0), ('gt', V, t1)), 'all': ('or', ('le', V, t1), ('ge', V, t0)),
        'xor': ('xor', ('le', V, t1), ('lt', V, t0)), 'ivpt': ('and', ('ge', V, t0), ('not', ('in', V, [t1]))),
    }
NAMES = list(evs(Th(0, 0), Th(1, 1)))

@case('plain', params=[dict(kind=k, e=e) for k in ('cont', 'disc', 'atom') for e in NAMES])
def plain(ctx, kind, e):
    M = Model(ctx, L(kind, 'X'))
    t0, t1 = thresholds(ctx, 't', 2, floor=kind.startswith('disc'))
    space = {'X': space_real([t0, t1])}
    ev = evs(t0, t1)[e]
    ctx.check(ctx.eq(prob(ctx, M.spe, build(ev)), M.P(ev, space)), 'probability of ' + e)

@case('bounded', params=[dict(kind=k, e=e) for k in ('contb', 'discb') for e in ('lt', 'ge', 'oc', 'co', 'in2', 'ne', 'hole')],
      thorough=[dict(kind=k, e=e) for k in ('contb', 'discb') for e in NAMES if e not in ('lt', 'ge', 'oc', 'co', 'in2', 'ne', 'hole')], cost=3)
def bounded(ctx, kind, e):
    M = Model(ctx, L(kind, 'X'))
    t0, t1 = thresholds(ctx, 't', 2, floor=kind.startswith('disc'))
    space = {'X': space_real([t0, t1])}
    ev = evs(t0, t1)[e]
    ctx.check(ctx.eq(prob(ctx, M.spe, build(ev)), M.P(ev, space)), 'probability of ' + e)

@case('conditioned', params=[dict(kind=k, e=e) for k in ('cont', 'disc') for e in ('lt', 'ge', 'oo', 'cc', 'in2', 'ne', 'hole')],
      thorough=[dict(kind=k, e=e) for k in ('cont', 'disc') for e in NAMES if e not in ('lt', 'ge', 'oo', 'cc', 'in2', 'ne', 'hole')], cost=4)
def conditioned(ctx, kind, e):
    """A leaf conditioned on a closed interval, the form produced by conditioning."""
    from sppl.spe import ContinuousLeaf, DiscreteLeaf
    from sppl.sets import Interval, Range
    M = Model(ctx, L(kind, 'X'))
    n = M.root
    lo, hi = (ctx.int if kind == 'disc' else ctx.real)('a'), (ctx.int if kind == 'disc' else ctx.real)('b')
    ctx.assume(lo < hi)
    t0, t1 = thresholds(ctx, 't', 2, floor=kind.startswith('disc'))
    A, B = Th(lo, 0), Th(hi, 0)
    space = {'X': merge_points(ctx, [A, B, t0, t1])}
    sup = ('iv', 'X', A, B, False, False)
    z = M.P(sup, space)
    ctx.assume(z > 0)
    leaf = (DiscreteLeaf if kind == 'disc' else ContinuousLeaf)(M.spe.symbol, n['law'], Range(lo, hi) if kind == 'disc' else Interval(lo, hi), True)
    ev = evs(t0, t1)[e]
    ctx.check(ctx.eq(prob(ctx, leaf, build(ev)) * z, M.P(('and', ev, sup), space)), 'probability of ' + e + ' on a conditioned leaf')

NOM = {
    'a': ('s', 'N', ['a']), 'ab': ('s', 'N', ['a', 'b']), 'az': ('s', 'N', ['a', 'z']), 'z': ('s', 'N', ['z']), 'na': ('not', ('s', 'N', ['a'])),
    'nz': ('not', ('s', 'N', ['z'])), 'co': ('ns', 'N', ['b', 'z']), 'or': ('or', ('s', 'N', ['a']), ('ns', 'N', ['a', 'b'])),
    'and': ('and', ('s', 'N', ['a', 'b']), ('ns', 'N', ['a'])), 'none': ('and', ('s', 'N', ['a']), ('s', 'N', ['b'])),
    'abc': ('s', 'N', ['a', 'b', 'c']), 'xor': ('xor', ('s', 'N', ['a', 'b']), ('s', 'N', ['b', 'c'])),
}
@case('nominal', params=[dict(e=e, z=z) for e in NOM for z in (False, True)])
def nominal(ctx, e, z):
    M = Model(ctx, L('nom', 'N'), outcomes=('a', 'b', 'c'), zero_ok=z)
    space = {'N': cells_nom(['a', 'b', 'c'])}
    ctx.check(ctx.eq(prob(ctx, M.spe, build(NOM[e])), M.P(NOM[e], space)), 'nominal probability of ' + e)

@case('mixed-kinds', params=[dict(kind=k, e=e) for k in ('cont', 'disc', 'nom', 'atom') for e in ('s', 'ns', 'num', 'or')])
def mixed_kinds(ctx, kind, e):
    """Events naming values of the other kind have the measure of the values of the variable's own kind."""
    M = Model(ctx, L(kind, 'X'))
    t0, = thresholds(ctx, 't', 1, floor=kind.startswith('disc'))
    space = {'X': cells_nom(['a', 'b']) if kind == 'nom' else space_real([t0])}
    ev = {'s': ('s', 'X', ['a']), 'ns': ('ns', 'X', ['a']), 'num': ('in', 'X', [t0]), 'or': ('or', ('s', 'X', ['a']), ('in', 'X', [t0]))}[e]
    ctx.check(ctx.eq(prob(ctx, M.spe, build(ev)), M.P(ev, space)), 'probability of ' + e)
