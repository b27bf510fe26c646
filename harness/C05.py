"""C05 Normalising an event and splitting it into disjoint clauses is lossless: dnf.py over transforms.py and sets.py."""
from engine.h import case
from harness.evs import *
from harness.C04 import is_dnf, groups3, groups4
from sppl.dnf import dnf_factor, dnf_normalize, dnf_to_disjoint_union

BOUNDS = ('events of up to 4 literals (comparisons, intervals, finite sets, complements, sets of strings) on up to 3 of X, Y, N, 2X+1, |X| in the groupings '
          'listed; all real thresholds in every order and all real assignments')
OUTSIDE = 'events with more than 4 literals or more than 4 clauses after distribution'

def witnesses(ctx, e):
    """Finitely many assignments such that a satisfiable event is satisfied by one of them: every cell cut out by the thresholds."""
    import itertools
    space = []
    for v in e.vs:
        if v == 'N': space.append([('N', s) for s in ('a', 'b', 'c', 'z')]); continue
        ts = e.pts.get(v, [])
        c = list(ts)
        for i, s in enumerate(ts):
            for t in ts[:i]: c.append((s + t) / ctx.const(2))
            c += [s + 1, s - 1]
        space.append([(v, x) for x in (c or [ctx.const(0)])])
    return [dict(p) for p in itertools.product(*space)]

def clauses(d): return list(d.subexprs) if isinstance(d, EventOr) else [d]
def literals(c): return list(c.subexprs) if isinstance(c, EventAnd) else [c]

def decide(ctx, t, extra):
    e = tree(ctx, t)
    A = assignment(ctx, e.vs)
    want = e.mean(A)
    n = dnf_normalize(e.obj)
    if n is None:
        ctx.check(ctx.Not(want), 'nothing returned for a satisfiable event'); return
    ctx.check(ctx.Or(*[e.mean(w) for w in witnesses(ctx, e)]), 'an unsatisfiable event was not reported')
    ctx.check(is_dnf(n), 'disjunctive normal form')
    ctx.check(all(isinstance(l.subexpr, Id) for c in clauses(n) for l in literals(c)), 'stated on the variables')
    ctx.check(ctx.Iff(truth(ctx, n, A), want), 'truth value of the normalised event')
    if extra == 'normal': return
    u = dnf_to_disjoint_union(n)
    ctx.check(is_dnf(u), 'disjunctive normal form of the disjoint union')
    cs = [truth(ctx, c, A) for c in clauses(u)]
    ctx.check(ctx.Iff(ctx.Or(*cs), want), 'truth value of the disjoint union')
    for i, c in enumerate(cs):
        for d in cs[:i]: ctx.check(ctx.Not(ctx.And(c, d)), 'clauses of the disjoint union overlap')
    factor(ctx, u, e, A)

def factor(ctx, n, e, A):
    look = {Id(v): i % 2 for i, v in enumerate(sorted(e.vs))}
    for lookup in (None, look):
        fs = dnf_factor(n, lookup) if lookup is not None else dnf_factor(n)
        ctx.check(len(fs) == len(clauses(n)), 'number of factored clauses')
        for c, f in zip(clauses(n), fs):
            vals = []
            for k, ev in f.items():
                ctx.check(all((s if lookup is None else lookup[s]) == k for s in ev.get_symbols()), 'a factor has a foreign variable')
                vals.append(truth(ctx, ev, A))
            ctx.check(ctx.Iff(ctx.And(*vals), truth(ctx, c, A)), 'truth value of a factored clause')

def reg(name, trees, thorough=(), extra='full', cost=3):
    def mk(t):
        def f(ctx): decide(ctx, t, extra)
        return f
    for t in trees: case('%s[%s]' % (name, label(t)), cost=cost)(mk(t))
    for t in thorough: case('%s[%s]' % (name, label(t)), params=[], thorough=[{}], cost=cost)(mk(t))

reg('literal', ['X.lt', 'X.iv', 'X.in2', 'X.ne', 'X.un', 'N.s', 'N.ns', 'N.all', 'T.lt', 'T.iv', 'T.in1', 'A.gt', 'A.iv', 'T.ne', 'A.in1', 'X.mix'])
PAIRS = [('X.lt', 'X.gt'), ('X.iv', 'X.in1'), ('X.ne', 'X.ne'), ('X.lt', 'T.gt'), ('A.iv', 'X.lt'), ('N.s', 'N.ns'), ('N.s', 'N.s'), ('X.lt', 'Y.gt'), ('X.in1', 'N.s'), ('X.ne', 'N.ns'), ('A.gt', 'Y.le')]
reg('pair', [(o, a, b) for a, b in PAIRS for o in ('and', 'or', 'xor')])
reg('not-pair', [('not', (o, a, b)) for a, b in PAIRS for o in ('and', 'or')])
L3 = [('X.lt', 'Y.ge', 'X.in1'), ('X.ne', 'Y.lt', 'N.s'), ('X.gt', 'N.ns', 'N.s'), ('X.lt', 'X.gt', 'Y.le')]
reg('three', [g for l in L3 for g in groups3(*l, ('and', 'or'))], [('not', g) for l in L3 for g in groups3(*l, ('and', 'or'))], cost=5)
L4 = [('X.lt', 'Y.ge', 'X.gt', 'Y.lt'), ('X.lt', 'N.s', 'X.ge', 'N.ns')]
reg('four', [('or', ('and', a, b), ('and', c, d)) for a, b, c, d in L4] + [('and', ('or', a, b), ('or', c, d)) for a, b, c, d in L4] + [('or', a, b, ('and', c, d)) for a, b, c, d in L4],
    [g for l in L4 for g in groups4(*l)], cost=12)
# three overlapping clauses over three variables
reg('clauses', [('or', 'X.lt', 'Y.lt', 'N.s'), ('or', ('and', 'X.lt', 'Y.lt'), ('and', 'Y.ge', 'N.s')), ('or', ('and', 'X.lt', 'Y.lt'), ('and', 'Y.ge', 'N.s'), 'X.gt')], cost=12)
# what unsatisfiable events look like
UNSAT = [('and', 'X.lt', 'X.gt'), ('and', 'X.in1', 'X.in1'), ('and', 'N.s', 'N.s'), ('and', ('and', 'X.lt', 'Y.lt'), 'X.gt'), ('or', ('and', 'X.lt', 'X.gt'), ('and', 'X.in1', 'X.in1')),
         ('and', ('or', 'X.lt', 'X.gt'), 'X.in1'), ('and', 'T.lt', 'T.gt'), ('and', 'A.lt', 'X.gt'), ('or', ('and', 'N.s', 'N.ns'), ('and', 'X.lt', 'X.gt')), ('and', 'A.lt', 'A.lt'),
         ('not', ('or', 'N.all', 'N.s')), ('and', 'X.lt', 'N.s', 'N.ns')]
reg('unsat', UNSAT, cost=4)
