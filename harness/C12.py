"""C12 Answers do not depend on the query history."""
from engine.h import case
from harness.joint import *

BOUNDS = ('distributions nested to depth 3 over up to 3 variables; histories of up to 5 queries (probability, conditioning, density, constraining) that share a cache, '
          'with independent symbolic thresholds and assigned values that may coincide or differ; conditioned results queried through the same cache')
OUTSIDE = 'caches shared by unrelated distributions whose object identities coincide after garbage collection; accuracy of scipy; floating-point rounding'
ASSUMPTIONS = ['scipy evaluates cdf/logcdf/pdf/logpdf/pmf/logpmf of the law exactly; hash() follows the Python numeric hash']

def attempt(f):
    try:
        return ('ok', f())
    except (AssertionError, ValueError):
        return ('refused', None)

def lits(ctx, vs, kinds):
    """Two sets of events over independent thresholds s and t (in any relation)."""
    out = []
    for tag in ('s', 't'):
        th = {}
        for v in vs:
            if kinds[v] == 'nom': th[v] = None
            else: th[v] = [Th((ctx.int if kinds[v].startswith('disc') else ctx.real)(tag + v), 0)]
        S = shapes1(vs, th, tag)
        out.append((th, S))
    return out

def shapes1(vs, th, tag):
    def lt(v, i):
        t = th[v]
        if t is None:
            s = ('s', v, ['a']), ('s', v, ['b'])
            return s[(i + (tag == 't')) % 2]
        return [('le', v, t[0]), ('gt', v, t[0]), ('lt', v, t[0])][i % 3]
    x = vs[0]
    out = {'x': lt(x, 0), 'nx': lt(x, 1), 'xs': lt(x, 2)}
    if len(vs) > 1:
        y = vs[1]
        out.update({'y': lt(y, 0), 'and': ('and', lt(x, 0), lt(y, 0)), 'or': ('or', lt(x, 0), lt(y, 0)), 'or2': ('or', ('and', lt(x, 0), lt(y, 0)), ('and', lt(x, 1), lt(y, 1)))})
    return out

def worldx(ctx, st):
    spec, vs = STRUCT[st]
    M = Model(ctx, spec, strict=True)
    kinds = dict(KINDS); kinds.update({v: k for v, k in kinds_of(spec).items() if k != 'atom' or v == 'A'})
    return M, vs, kinds

def snapshot(spe):
    from sppl.spe import LeafSPE
    if isinstance(spe, LeafSPE): return (id(spe), spe.support, tuple(spe.env.items()))
    return (id(spe), tuple(snapshot(c) for c in spe.children), getattr(spe, 'weights', None))

def run(ctx, st, history, mode='memo'):
    from sppl.spe import Memo
    M, vs, kinds = worldx(ctx, st)
    (ths, S), (tht, T) = lits(ctx, vs, kinds)
    memo = Memo() if mode == 'memo' else False
    spe = M.spe
    before = snapshot(spe)
    asg = {}
    for tag in ('s', 't'):
        a = {}
        for v in vs: a[v] = ('a' if tag == 's' else 'b') if kinds[v] == 'nom' else (ctx.int if kinds[v].startswith('disc') else ctx.real)('v' + tag + v)
        asg[tag] = a
    from sppl.transforms import Id
    def assignment(tag, names): return {Id(v): asg[tag][v] for v in names}
    for i, q in enumerate(history):
        op, tag, e = q[0], q[1], q[2]
        ev = (S if tag == 's' else T)
        probe = [build(S['nx']), build(T['xs'])]
        if op == 'p':
            a, b = prob(ctx, spe, build(ev[e]), memo), prob(ctx, spe, build(ev[e]))
            ctx.check(ctx.eq(a, b), 'query %d: probability' % i)
        elif op == 'c':
            a, b = attempt(lambda: spe.condition(build(ev[e]), memo)), attempt(lambda: spe.condition(build(ev[e])))
            ctx.check(a[0] == b[0], 'query %d: conditioning refused or not' % i)
            if a[0] == 'ok':
                for pe in probe:
                    ctx.check(ctx.eq(prob(ctx, a[1], pe, memo), prob(ctx, b[1], pe)), 'query %d: probability after conditioning' % i)
                    ctx.check(ctx.eq(prob(ctx, a[1], pe), prob(ctx, b[1], pe)), 'query %d: probability after conditioning' % i)
        else:
            names = [vs[0]] if e == 'x' else list(vs)
            if mode == 'memo':
                d, d0 = ctx.exp(spe.logpdf(assignment(tag, names), memo)), ctx.exp(spe.logpdf(assignment(tag, names)))
                ctx.check(ctx.eq(d, d0), 'query %d: density' % i)
                if op == 'k':
                    a, b = attempt(lambda: spe.constrain(assignment(tag, names), memo)), attempt(lambda: spe.constrain(assignment(tag, names)))
                    ctx.check(a[0] == b[0], 'query %d: constraining refused or not' % i)
                    if a[0] == 'ok':
                        ctx.check(ctx.eq(prob(ctx, a[1], probe[0], memo), prob(ctx, b[1], probe[0])), 'query %d: probability after constraining' % i)
            else:
                d, d0 = ctx.exp(spe.logpdf(assignment(tag, names), memo)), ctx.exp(spe.logpdf(assignment(tag, names)))
                ctx.check(ctx.eq(d, d0), 'query %d: density' % i)
    after = snapshot(spe)
    ctx.check(same(before, after), 'the distribution is unchanged')

def same(a, b):
    if isinstance(a, tuple): return isinstance(b, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is b or bool(a == b)

H1 = {
    'pp': [('p', 's', 'x'), ('p', 't', 'x'), ('p', 's', 'nx')],
    'strict': [('p', 's', 'x'), ('p', 't', 'xs')],
    'pc': [('p', 's', 'x'), ('c', 't', 'x')],
    'cc': [('c', 's', 'x'), ('c', 't', 'x')],
    'cp': [('c', 's', 'nx'), ('p', 't', 'nx')],
    'dd': [('d', 's', 'x'), ('d', 't', 'x')],
    'kk': [('k', 's', 'x'), ('k', 't', 'x')],
}
H2 = {
    'or-and': [('p', 's', 'or'), ('p', 't', 'and'), ('p', 's', 'y')],
    'or2-or': [('p', 's', 'or2'), ('p', 't', 'or')],
    'c-or2': [('c', 's', 'or2'), ('p', 't', 'x')],
    'c-and-c': [('c', 's', 'and'), ('c', 't', 'x')],
    'xy': [('p', 's', 'x'), ('p', 's', 'y'), ('p', 't', 'x'), ('p', 't', 'y')],
    'dk': [('d', 's', 'xy'), ('k', 't', 'x'), ('p', 's', 'and')],
    'kd': [('k', 's', 'x'), ('d', 't', 'x')],
}
Q = [(s, h) for s in ('XN', 'mixX*N', 'mix(XN,NX)') for h in list(H1) + list(H2)] + [(s, h) for s in ('mixX', 'mixN', 'mixY') for h in H1] \
    + [(s, h) for s in ('YN', 'XY', 'mix(XN,XN)*Y', 'XYN') for h in ('pp', 'xy', 'c-or2', 'dk')]
ALLQ = [(s, h) for s in STRUCT if s not in ('mixXnom', 'mixXatom') for h in (list(H1) + (list(H2) if len(STRUCT[s][1]) > 1 else []))]

@case('cache', params=[dict(st=s, h=h) for s, h in Q], thorough=[dict(st=s, h=h) for s, h in ALLQ if (s, h) not in Q], cost=4)
def cache(ctx, st, h):
    run(ctx, st, (H1.get(h) or H2[h]))

@case('no-cache', params=[dict(st=s, h=h) for s in ('XN', 'mixX', 'mixX*N', 'mix(XN,NX)') for h in ('pp', 'cc', 'dd', 'c-or2') if not (s == 'mixX' and h == 'c-or2')], cost=3)
def no_cache(ctx, st, h):
    """Caching switched off (memo=False)."""
    run(ctx, st, (H1.get(h) or H2[h]), mode='off')

@case('leaf', params=[dict(kind=k, h=h) for k in ('cont', 'disc', 'nom', 'atom') for h in ('pp', 'pc', 'cc', 'strict')], cost=2)
def leaf(ctx, kind, h):
    from sppl.spe import Memo
    M = Model(ctx, L(kind, 'X'), strict=True)
    memo = Memo()
    if kind == 'nom': evs = {'s': ('s', 'X', ['a']), 't': ('ns', 'X', ['b'])}
    else:
        s, t = [(ctx.int if kind == 'disc' else ctx.real)(n) for n in 'st']
    for op, tag, e in H1[h]:
        if kind == 'nom': ev = evs[tag] if e == 'x' else ('not', evs[tag])
        else: ev = ({'x': 'le', 'nx': 'gt', 'xs': 'lt'}[e], 'X', Th(s if tag == 's' else t, 0))
        if op == 'p': ctx.check(ctx.eq(prob(ctx, M.spe, build(ev), memo), prob(ctx, M.spe, build(ev))), 'probability')
        else:
            a, b = attempt(lambda: M.spe.condition(build(ev), memo)), attempt(lambda: M.spe.condition(build(ev)))
            ctx.check(a[0] == b[0], 'conditioning refused or not')
            if a[0] == 'ok':
                pe = build(('le', 'X', Th(s, 0))) if kind != 'nom' else build(evs['s'])
                ctx.check(ctx.eq(prob(ctx, a[1], pe, memo), prob(ctx, b[1], pe)), 'probability after conditioning')
