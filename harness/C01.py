"""Set operations are pointwise: /repo/src/sets.py executed on sets with symbolic bounds."""
from engine.h import case
from harness.setlib import *

BOUNDS = ('all real bounds and members; operands: one atomic set (empty, 1-3 points, interval with any openness and '
          'finite or infinite ends, whole line, nominal over {a,b,c} finite or co-finite) or unions of up to 3 atomic sets')
OUTSIDE = 'unions of more than 3 atomic parts per operand; complement of mixed numeric/nominal unions (by convention per type)'
ASSUMPTIONS = []

def run_ops(ctx, A, B, ops, strs):
    x = ctx.real('x')
    for op in ops:
        if op == 'and':
            R = A.obj & B.obj
            want = ctx.And(member(ctx, A.parts, x), member(ctx, B.parts, x))
            swant = lambda s: smember(A.parts, s) and smember(B.parts, s)
        elif op == 'or':
            R = A.obj | B.obj
            want = ctx.Or(member(ctx, A.parts, x), member(ctx, B.parts, x))
            swant = lambda s: smember(A.parts, s) or smember(B.parts, s)
        elif op == 'not':
            R = ~A.obj
            want = ctx.Not(member(ctx, A.parts, x))
            swant = lambda s: not smember(A.parts, s)
        elif op == 'notnot':
            R = ~(~A.obj)
            want = member(ctx, A.parts, x)
            swant = lambda s: smember(A.parts, s)
        check_members(ctx, R, x, want, swant, op, strs)

def check_members(ctx, R, x, want, swant, op, strs):
    # a number is governed by the numeric part, a string by the nominal part
    num, nom = split(R)
    if strs != 'only':
        ctx.check(ctx.Iff(ctx.truth(lambda: x in num), want), '%s: wrong numeric members' % op)
    if strs:
        for s in strings():
            ctx.check((s in nom) == bool(swant(s)), '%s: wrong nominal members' % op)

def split(R):
    if isinstance(R, FiniteNominal): return EmptySet, R
    if isinstance(R, Union) and R.nominals is not EmptySet:
        rest = [v for v in R.values if not isinstance(v, FiniteNominal)]
        return (Alt(rest), R.nominals)
    return R, EmptySet

class Alt:
    def __init__(self, xs): self.xs = xs
    def __contains__(self, x): return any(x in y for y in self.xs)

NUM = ['empty', 'reals', 'p1', 'p2', 'iv', 'lt', 'gt']
PAIRS = [(a, b) for a in NUM for b in NUM]

@case('atom-binary', params=[dict(a=a, b=b) for a, b in PAIRS], cost=2)
def atom_binary(ctx, a, b):
    A, B = mk(ctx, a, 'A'), mk(ctx, b, 'B')
    run_ops(ctx, A, B, ['and', 'or'], False)

@case('complement', params=[dict(k=k) for k in ['reals', 'p1', 'p2', 'p3', 'iv', 'lt', 'gt']])
def complement(ctx, k):
    A = mk(ctx, k, 'A')
    run_ops(ctx, A, None, ['not', 'notnot'], False)

@case('complement-nominal', params=[dict(k=k) for k in ['nom', 'strs']])
def complement_nominal(ctx, k):
    A = mk(ctx, k, 'A')
    # ~EmptySet is the real line by the library's convention
    run_ops(ctx, A, None, ['not'] + (['notnot'] if k == 'nom' else []), 'only')

@case('nominal-binary', params=[dict(a=a, b=b) for a in ['nom', 'strs', 'empty'] for b in ['nom', 'strs']])
def nominal_binary(ctx, a, b):
    run_ops(ctx, mk(ctx, a, 'A'), mk(ctx, b, 'B'), ['and', 'or'], 'only')

@case('mixed-binary', params=[dict(a=a, b=b) for a, b in
      [('nom', 'p1'), ('nom', 'iv'), ('strs', 'iv'), ('p2', 'nom'), ('lt', 'nom')]])
def mixed_binary(ctx, a, b):
    run_ops(ctx, mk(ctx, a, 'A'), mk(ctx, b, 'B'), ['and', 'or'], True)

@case('mixed-union', params=[dict(A=A, B=B) for A, B in
      [(('nom', 'p1'), ('nom',)), (('nom', 'oc'), ('nom', 'cc')), (('nom', 'p1', 'oo'), ('p1',)),
       (('p1', 'nom'), ('nom', 'p1')), (('nom', 'oo'), ('gt',)), (('strs', 'reals'), ('nom', 'p1')),
       (('strs', 'reals'), ('nom', 'oc')), (('nom', 'co'), ('empty',))]])
def mixed_union(ctx, A, B):
    run_ops(ctx, build(ctx, A, 'A'), build(ctx, B, 'B'), ['and', 'or'], True)

UN = [(('p1', 'iv'), ('p1',)), (('p1', 'iv'), ('iv',)), (('iv', 'iv'), ('p1',)), (('lt', 'gt'), ('p1',)), (('lt', 'gt'), ('iv',)),
      (('p1', 'iv'), ('lt',)), (('iv', 'iv'), ('gt',)), (('p2', 'oo'), ('p1',)), (('iv', 'iv'), ('reals',)), (('p1', 'iv'), ('empty',)),
      (('oo', 'co'), ('oc',)), (('oc', 'oc'), ('oc',)), (('oo', 'oo'), ('p2',)), (('p1', 'oo'), ('p1', 'oo')), (('p1', 'cc'), ('p1', 'co')),
      (('lt', 'gt'), ('p1', 'oo')), (('p2', 'cc'), ('oo',)), (('lt', 'p1'), ('gt', 'p1'))]
UN_T = [(('iv', 'iv'), ('iv',)), (('oo', 'oo', 'oo'), ('p1',)), (('p1', 'oo', 'oo'), ('oo',)), (('p1', 'iv'), ('p1', 'iv')),
        (('oo', 'oc'), ('oo', 'co')), (('cc', 'cc'), ('oo', 'p1')), (('lt', 'oo', 'gt'), ('cc',)), (('p2', 'iv'), ('p1',)),
        (('oc', 'oc', 'oc'), ('oc',)), (('p1', 'lt', 'gt'), ('p1', 'oo')), (('p3', 'oo'), ('cc',))]
@case('union-binary', params=[dict(A=A, B=B) for A, B in UN], thorough=[dict(A=A, B=B) for A, B in UN_T], cost=5)
def union_binary(ctx, A, B):
    run_ops(ctx, build(ctx, A, 'A'), build(ctx, B, 'B'), ['and', 'or'], False)

@case('union-swapped', params=[dict(A=A, B=B) for A, B in UN[:8]], cost=4)
def union_swapped(ctx, A, B):
    run_ops(ctx, build(ctx, B, 'B'), build(ctx, A, 'A'), ['and', 'or'], False)

UC = [('p1', 'iv'), ('iv', 'iv'), ('p2', 'oo'), ('p1', 'lt'), ('lt', 'gt'), ('p1', 'lt', 'gt'), ('oo', 'cc', 'p1'), ('p1', 'reals')]
@case('union-complement', params=[dict(A=A) for A in UC], thorough=[dict(A=A) for A in [('iv', 'iv', 'p1'), ('oo', 'oc', 'co'), ('p2', 'cc', 'oo')]], cost=4)
def union_complement(ctx, A):
    run_ops(ctx, build(ctx, A, 'A'), None, ['not'], False)

@case('union-complement-twice', params=[dict(A=A) for A in [('p1', 'oo'), ('oc', 'co'), ('lt', 'gt')]], cost=4)
def union_complement_twice(ctx, A):
    run_ops(ctx, build(ctx, A, 'A'), None, ['notnot'], False)

@case('make-n', params=[dict(ks=('p1', 'oo', 'cc')), dict(ks=('oo', 'oo', 'p1')), dict(ks=('lt', 'p1', 'gt'))], cost=5)
def make_n(ctx, ks):
    from sppl.sets import make_union, make_intersection
    ss = [mk(ctx, k, 'S%d' % i) for i, k in enumerate(ks)]
    x = ctx.real('x')
    U = make_union(*[s.obj for s in ss])
    ctx.check(ctx.Iff(ctx.truth(lambda: x in U), ctx.Or(*[member(ctx, s.parts, x) for s in ss])), 'make_union')
    I = make_intersection(*[s.obj for s in ss])
    ctx.check(ctx.Iff(ctx.truth(lambda: x in I), ctx.And(*[member(ctx, s.parts, x) for s in ss])), 'make_intersection')

@case('union-intervals', params=[dict(ks=('oo', 'oc')), dict(ks=('cc', 'oo', 'p1')), dict(ks=('lt', 'iv'))], thorough=[dict(ks=('oo', 'co', 'cc', 'p1'))], cost=4)
def union_intervals_(ctx, ks):
    from sppl.sets import union_intervals, union_intervals_finite
    ss = [mk(ctx, k, 'S%d' % i) for i, k in enumerate(ks)]
    ivs = [s for s in ss if isinstance(s.obj, Interval)]
    fin = [s for s in ss if isinstance(s.obj, FiniteReal)]
    x = ctx.real('x')
    if fin:
        blocks = union_intervals_finite([s.obj for s in ivs], fin[0].obj)
    else:
        blocks = union_intervals([s.obj for s in ivs])
    ctx.check(ctx.Iff(ctx.Or(*[ctx.truth(lambda b=b: x in b) for b in blocks]), ctx.Or(*[member(ctx, s.parts, x) for s in ss])), 'union_intervals')

@case('range', params=[{}])
def range_(ctx):
    from sppl.sets import Range
    a, b = ctx.int('a'), ctx.int('b')
    ctx.assume(a <= b)
    k = ctx.int('k')
    R = Range(a, b)
    ctx.check(ctx.Iff(ctx.truth(lambda: k in R), ctx.And(k >= a, k <= b)), 'integers of Range(a, b)')
