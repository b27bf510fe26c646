"""Events with symbolic bounds together with an independent meaning: a function from an assignment to a formula."""
from sppl.sets import EmptySet, FiniteNominal, FiniteReal, Interval
from sppl.transforms import (EventAnd, EventBasic, EventFiniteNominal, EventFiniteReal, EventInterval, EventOr, Id, Sqrt)
inf = float('inf')

class Ev:
    def __init__(self, obj, mean, vs, pts=None):
        self.obj, self.mean, self.vs, self.pts = obj, mean, tuple(vs), dict(pts or {})   # pts: thresholds on each plain variable

def cmp(op, x, t):
    return {'lt': lambda: x < t, 'le': lambda: x <= t, 'gt': lambda: x > t, 'ge': lambda: x >= t}[op]()

def lit(ctx, kind, n):
    """kind = VAR.op, VAR in X, Y (numbers), N (strings), T (= 2X+1), A (= |X|)"""
    v, op = kind.split('.')
    num = lambda s: ctx.real(n + s)
    base = {'T': 'X', 'A': 'X'}.get(v, v)
    E = {'T': lambda: 2 * Id('X') + 1, 'A': lambda: abs(Id('X'))}.get(v, lambda: Id(v))()
    g = {'T': lambda x: 2 * x + 1, 'A': lambda x: abs(x)}.get(v, lambda x: x)
    back = {'T': lambda t: [(t - 1) / ctx.const(2)], 'A': lambda t: [t, -t]}.get(v, lambda t: [t])
    if v == 'N':
        if op == 's': names = ctx.pick(n + 'S', [('a',), ('a', 'b'), ('b', 'c')]); co = False; obj = E << set(names)
        elif op == 'ns': names = ctx.pick(n + 'S', [('a',), ('a', 'b')]); co = True; obj = E << FiniteNominal(*names, b=True)
        elif op == 'all': names, co = (), True; obj = E << FiniteNominal(b=True)
        elif op == 'eq': names, co = ('a',), False; obj = E << ['a']
        return Ev(obj, lambda A: (A['N'] in names) != co, 'N')
    if op in ('lt', 'le', 'gt', 'ge'):
        t = num('t')
        return Ev(cmp(op, E, t), lambda A: cmp(op, g(A[base]), t), base, {base: back(t)})
    if op == 'iv':
        a, b = num('a'), num('b'); lo, ro = ctx.bool(n + 'lo'), ctx.bool(n + 'ro')
        ctx.assume(a < b)
        return Ev(E << Interval(a, b, left_open=lo, right_open=ro), lambda A: ctx.And(g(A[base]) > a if lo else g(A[base]) >= a, g(A[base]) < b if ro else g(A[base]) <= b),
                  base, {base: back(a) + back(b)})
    if op in ('chl', 'chr'):
        a, b = num('a'), num('b'); lo, ro = ctx.bool(n + 'lo'), ctx.bool(n + 'ro')
        if op == 'chl':
            e = E < b if ro else E <= b
            e = a < e if lo else a <= e
        else:
            e = a < E if lo else a <= E
            e = e < b if ro else e <= b
        return Ev(e, lambda A: ctx.And(g(A[base]) > a if lo else g(A[base]) >= a, g(A[base]) < b if ro else g(A[base]) <= b), base, {base: back(a) + back(b)})
    if op in ('in1', 'in2', 'ne'):
        from engine.api import set_
        ts = [num('p%d' % i) for i in range(2 if op == 'in2' else 1)]
        obj = E << set_(ts)
        f = lambda A: ctx.Or(*[g(A[base]) == t for t in ts])
        if op == 'ne': return Ev(~obj, lambda A: ctx.Not(f(A)), base, {base: back(ts[0])})
        return Ev(obj, f, base, {base: [u for t in ts for u in back(t)]})
    if op == 'mix':                              # a set of numbers and strings
        t = num('p')
        return Ev(E << [t, 'a'], lambda A: A[base] == 'a' if isinstance(A[base], str) else A[base] == t, base, {base: [t]})
    if op == 'un':                               # a union of sets
        a, b = num('a'), num('b'); ctx.assume(a < b)
        S = Interval.Ropen(-inf, a) | FiniteReal(b)
        return Ev(E << S, lambda A: ctx.Or(g(A[base]) < a, g(A[base]) == b), base, {base: back(a) + back(b)})
    raise KeyError(kind)

def merge_pts(p, q):
    out = {k: list(v) for k, v in p.items()}
    for k, v in q.items(): out[k] = out.get(k, []) + list(v)
    return out

def comb(ctx, op, a, b):
    vs = a.vs + tuple(v for v in b.vs if v not in a.vs); pts = merge_pts(a.pts, b.pts)
    if op == 'and': return Ev(a.obj & b.obj, lambda A: ctx.And(a.mean(A), b.mean(A)), vs, pts)
    if op == 'or': return Ev(a.obj | b.obj, lambda A: ctx.Or(a.mean(A), b.mean(A)), vs, pts)
    if op == 'xor': return Ev(a.obj ^ b.obj, lambda A: ctx.Not(ctx.Iff(a.mean(A), b.mean(A))), vs, pts)
    raise KeyError(op)

def neg(ctx, a): return Ev(~a.obj, lambda A: ctx.Not(a.mean(A)), a.vs, a.pts)

def tree(ctx, t, n='e'):
    """('and'|'or'|'xor', t, t...) | ('not', t) | 'VAR.op'"""
    if isinstance(t, str): return lit(ctx, t, n)
    if t[0] == 'not': return neg(ctx, tree(ctx, t[1], n + '0'))
    r = tree(ctx, t[1], n + '0')
    for i, s in enumerate(t[2:]): r = comb(ctx, t[0], r, tree(ctx, s, '%s%d' % (n, i + 1)))
    return r

def label(t):
    if isinstance(t, str): return t
    return '%s(%s)' % (t[0], ' '.join(label(s) for s in t[1:]))

def assignment(ctx, vs, strings=('a', 'b', 'z')):
    out = {}
    for v in vs:
        out[v] = ctx.pick('at_' + v, list(strings)) if v == 'N' else ctx.real('at_' + v)
    return out

def truth(ctx, event, A):
    A_ = {Id(k): x for k, x in A.items()}
    return ctx.truth(lambda: event.evaluate(A_))
