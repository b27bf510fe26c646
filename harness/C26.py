"""C26 Readable renderings show the actual structure: render.py."""
from engine.h import case
from harness.joint import *
from sppl.spe import AtomicLeaf, ContinuousLeaf, DiscreteLeaf, NominalLeaf, ProductSPE, SumSPE
from sppl.transforms import Id
import sppl.render as R

BOUNDS = 'distributions nested to depth 3 of up to 6 leaves of every kind with arbitrary weights, parameters, values, ranges and up to 2 derived variables; plain and conditioned'
OUTSIDE = 'layout produced by tools that display the lists; floating-point rounding'
ASSUMPTIONS = []

def is_(ctx, a, b, what): ctx.check(ctx.truth(lambda: a == b), what)
def concise(ctx, spe, r):
    if isinstance(spe, (SumSPE, ProductSPE)):
        ctx.check(r[0] == '%s(%d)' % ('+' if isinstance(spe, SumSPE) else '*', len(spe.children)), 'operator and number of children')
        ctx.check(len(r[1]) == len(spe.children), 'all children')
        for c, x in zip(spe.children, r[1]): concise(ctx, c, x)
        return
    ctx.check([k for k, v in r] == [k.token for k in spe.env], 'the variables of a leaf')
    ctx.check([v for k, v in r] == [str(v) for v in spe.env.values()], 'their definitions')

def field(ctx, r, name):
    m = [v for k, v in r[1] if k == name]
    ctx.check(len(m) == 1, 'one entry for ' + name)
    return m[0]
def full(ctx, spe, r):
    F = lambda n: field(ctx, r, n)
    if isinstance(spe, (SumSPE, ProductSPE)):
        ctx.check(r[0] == ('SumSPE' if isinstance(spe, SumSPE) else 'ProductSPE'), 'kind of node')
        ctx.check(sorted(s.token for s in F('symbols')) == sorted(s.token for s in spe.get_symbols()), 'symbols')
        ctx.check(F('n_children') == len(spe.children) and len(F('children')) == len(spe.children), 'number of children')
        if isinstance(spe, SumSPE):
            ws = F('weights')
            ctx.check(len(ws) == len(spe.children), 'a weight for every child')
            for w, l in zip(ws, spe.weights): ctx.check(ctx.eq(w, ctx.exp(l)), 'weights as probabilities')
        for c, x in zip(spe.children, F('children')): full(ctx, c, x)
        return
    ctx.check(F('symbol') == spe.symbol, 'the variable')
    is_(ctx, dict(F('env')), dict(spe.env), 'derived variables')
    if isinstance(spe, NominalLeaf):
        ctx.check(r[0] == 'NominalLeaf', 'kind of leaf')
        d = F('dist')
        ctx.check(set(d) == {str(k) for k in spe.dist}, 'all outcomes')
        for k, w in spe.dist.items(): ctx.check(ctx.eq(d[str(k)], ctx.frac(w)), 'probability of an outcome')
    elif isinstance(spe, AtomicLeaf):
        ctx.check(r[0] == 'AtomicLeaf', 'kind of leaf'); ctx.check(ctx.eq(F('value'), spe.value), 'the value')
    else:
        ctx.check(r[0] in (('DiscreteLeaf',) if isinstance(spe, DiscreteLeaf) else ('ContinuousLeaf', 'RealLeaf')), 'kind of leaf')
        name, args, kwds = F('dist')
        ctx.check(name == spe.dist.dist.name, 'family')
        ctx.check(len(args) == len(spe.dist.args) and set(kwds) == set(spe.dist.kwds), 'parameters')
        for a, b in zip(args, spe.dist.args): ctx.check(ctx.eq(a, b), 'parameter')
        for k in kwds: ctx.check(ctx.eq(kwds[k], spe.dist.kwds[k]), 'parameter ' + k)
        is_(ctx, F('support'), spe.support, 'range'); ctx.check(bool(F('conditioned')) == bool(spe.conditioned), 'conditioned')
def both(ctx, spe):
    full(ctx, spe, R.render_nested_lists(spe)); concise(ctx, spe, R.render_nested_lists_concise(spe))

@case('model', params=[dict(st=s, how=h) for s in STRUCT for h in ('plain', 'cond')], cost=2)
def model(ctx, st, how):
    M, th, space, vs = world(ctx, st)
    spe = M.spe
    if how == 'cond':
        ev = lit(vs[0], 0, th) if len(vs) == 1 else ('or', lit(vs[0], 0, th), lit(vs[1], 0, th))
        try: spe = spe.condition(build(ev))
        except (AssertionError, ValueError): ctx.check(True, 'impossible'); return
    both(ctx, spe)

@case('leaf', params=[dict(k=k, d=d, cond=c) for k in ('cont', 'disc', 'contb', 'discb', 'atom', 'nom') for d in (0, 1, 2) for c in (False, True) if not (k == 'nom' and d)])
def leaf(ctx, k, d, cond):
    X, Y, Z = Id('X'), Id('Y'), Id('Z')
    if k in ('atom', 'nom'): spe = make_leaf(ctx, k, 'X', 'x')['spe']
    else:
        num = ctx.real if k.startswith('cont') else ctx.int
        lo, hi = num('lo'), num('hi'); ctx.assume(lo < hi)
        f = law(ctx, 'L', None, None, not k.startswith('cont'), True, args=(ctx.real('p'),), kwds={'scale': ctx.real('q'), 'loc': ctx.real('r')}, family='fam')
        from sppl.sets import Interval
        spe = (ContinuousLeaf if k.startswith('cont') else DiscreteLeaf)(X, f, Interval(lo, hi) if k.endswith('b') else Interval(-INF, INF), True if k.endswith('b') else None)
    if d: spe = spe.transform(Y, X ** 2 + ctx.real('c'))
    if d > 1: spe = spe.transform(Z, abs(Y))
    if cond and k != 'nom':
        try: spe = spe.condition(X <= (ctx.int if k.startswith('disc') else ctx.real)('t'))
        except (AssertionError, ValueError): ctx.check(True, 'impossible'); return
    both(ctx, spe)
