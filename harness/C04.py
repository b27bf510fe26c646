"""C04 Event connectives and DNF mean what they say: transforms.py operators on events, to_dnf, evaluate."""
from engine.h import case
from harness.evs import *
from engine.api import hash_

BOUNDS = ('up to 4 literals per event (6 where each is about a variable of its own), joined by &, |, ^ and ~ in every grouping listed; literals: comparisons, chained comparisons, intervals, '
          'finite sets, unions, complements, sets of strings, on X, Y, N, 2X+1 and |X|; all real thresholds and all real assignments')
OUTSIDE = 'events with more literals; assignments giving a numeric variable a string or outside the domain of an expression'

NUM = ['X.lt', 'X.ge', 'X.iv', 'X.in1', 'X.in2', 'X.ne', 'X.chl', 'X.chr', 'X.un']
NOM = ['N.s', 'N.ns', 'N.all', 'N.eq']
OTHER = ['T.lt', 'T.iv', 'T.in1', 'A.gt', 'A.iv']
OPS = ['and', 'or', 'xor']

def decide(ctx, t):
    e = tree(ctx, t)
    A = assignment(ctx, e.vs)
    want = e.mean(A)
    ctx.check(ctx.Iff(truth(ctx, e.obj, A), want), 'truth value')
    d = e.obj.to_dnf()
    ctx.check(is_dnf(d), 'disjunctive normal form')
    ctx.check(ctx.Iff(truth(ctx, d, A), want), 'truth value of the disjunctive normal form')

def is_dnf(d):
    if isinstance(d, EventBasic): return True
    if isinstance(d, EventAnd): return all(isinstance(x, EventBasic) for x in d.subexprs)
    if isinstance(d, EventOr): return all(isinstance(x, EventBasic) or isinstance(x, EventAnd) and is_dnf(x) for x in d.subexprs)
    return False

def T(l): return [dict(t=t) for t in l]
def reg(name, trees, thorough=(), cost=2):
    def mk(t):
        def f(ctx): decide(ctx, t)
        return f
    for t in trees: case('%s[%s]' % (name, label(t)), cost=cost)(mk(t))
    for t in thorough: case('%s[%s]' % (name, label(t)), params=[], thorough=[{}], cost=cost)(mk(t))

reg('literal', NUM + NOM + OTHER + ['X.le', 'X.gt'])
reg('not', [('not', l) for l in NUM + NOM + OTHER] + [('not', ('not', l)) for l in NUM + NOM])
SAME = [('X.lt', 'X.lt'), ('X.lt', 'X.ge'), ('X.iv', 'X.iv'), ('X.iv', 'X.in2'), ('X.in1', 'X.in1'), ('X.in2', 'X.in1'), ('X.lt', 'X.ne'), ('X.ne', 'X.ne'), ('X.gt', 'X.un'),
        ('X.iv', 'X.chl'), ('X.chr', 'X.in1'), ('N.s', 'N.s'), ('N.s', 'N.ns'), ('N.ns', 'N.ns'), ('N.all', 'N.s'), ('N.eq', 'N.all'), ('T.lt', 'T.iv'), ('T.in1', 'T.iv'), ('A.gt', 'A.iv')]
DIFF = [('X.lt', 'Y.ge'), ('X.iv', 'N.s'), ('X.in1', 'T.lt'), ('A.iv', 'X.ge'), ('N.ns', 'Y.in2'), ('X.ne', 'Y.ne'), ('X.un', 'Y.lt')]
reg('pair', [(o, a, b) for a, b in SAME + DIFF for o in OPS] )
reg('not-pair', [('not', (o, a, b)) for a, b in SAME + DIFF for o in OPS])
L3 = [('X.lt', 'X.ge', 'X.iv'), ('X.lt', 'Y.ge', 'X.in1'), ('X.ne', 'Y.lt', 'N.s'), ('N.s', 'N.ns', 'N.s'), ('X.iv', 'N.s', 'N.ns')]
def groups3(a, b, c, ops):
    return [(o, (p, a, b), c) for o in ops for p in ops] + [(o, a, (p, b, c)) for o in ops for p in ops]
reg('three', [g for l in L3 for g in groups3(*l, ('and', 'or'))], [g for l in L3 for g in groups3(*l, OPS) if 'xor' in (g[0], g[1][0], g[2][0])], cost=4)
reg('not-three', [('not', g) for l in L3[1:] for g in groups3(*l, ('and', 'or'))], [('not', g) for l in L3[:1] for g in groups3(*l, OPS)], cost=4)
L4 = [('X.lt', 'Y.ge', 'X.iv', 'Y.in1'), ('X.lt', 'N.s', 'X.ge', 'N.ns')]
def groups4(a, b, c, d):
    o = ('and', 'or')
    return [(p, (q, a, b), (r, c, d)) for p in o for q in o for r in o] + [(p, (q, (r, a, b), c), d) for p in o for q in o for r in o]
reg('four', [g for g in groups4(*L4[0])] + [('not', g) for g in groups4(*L4[1])[:8]], [('not', g) for g in groups4(*L4[0])] + groups4(*L4[1]) + [('not', g) for g in groups4(*L4[1])[8:]], cost=8)
reg('four-xor', [('xor', ('and', 'X.lt', 'Y.ge'), ('or', 'X.iv', 'Y.in1'))], [('xor', g, 'N.s') for g in groups3(*L3[1], ('and', 'or'))], cost=8)

# more variables: every literal is about a variable of its own
W = ['P.lt', 'Q.ge', 'R.le', 'X.gt', 'Y.lt', 'Z.ge', 'U.lt']
def wide(n): return [('or',) + tuple(W[:n]), ('and',) + tuple(W[:n])]
P2 = lambda o: [(o, W[0], W[1]), (o, W[2], W[3]), (o, W[4], W[5])]
reg('wide', wide(5) + wide(6) + [('not', t) for t in wide(5) + wide(6)] + [('or',) + tuple(P2('and')), ('not', ('or',) + tuple(P2('and'))), ('not', ('and',) + tuple(P2('or')))]
    + [('or', W[0], ('or', W[1], W[2]), ('or', ('or', W[3], W[4]), W[5])), ('not', ('and', W[0], ('and', W[1], W[2]), ('and', ('and', W[3], W[4]), W[5]))), ('xor', ('or',) + tuple(W[:3]), W[3])],
    wide(7) + [('not', t) for t in wide(7)] + [('and',) + tuple(P2('or'))], cost=6)
