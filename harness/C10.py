"""C10 Densities and constraining to values are consistent."""
from engine.h import case
from harness.joint import *

BOUNDS = ('mixtures of up to 3 components and products of up to 3 variables, nested to depth 3, plain, conditioned on an event, or already constrained; '
          'arbitrary laws, densities, weights, thresholds and assigned values; assignments of every subset of the base variables')
OUTSIDE = 'assignments to derived variables (refused by the library); accuracy of scipy density functions; floating-point rounding'
ASSUMPTIONS = ['scipy evaluates cdf/logcdf/pdf/logpdf/pmf/logpmf of the law exactly; a density is any non-negative function']

def attempt(f):
    try:
        return f()
    except (AssertionError, ValueError):
        return None

def dens(ctx, n, asg, cells, pos):
    """(number of continuous coordinates, density of the assignment and the cells) of a node; pos: cell of each assigned value."""
    one, zero = ctx.const(1), ctx.const(0)
    if n['k'] == 'leaf':
        v = n['var']
        if v not in asg: return (0, one if cells.get(v) is None else n['mass'](cells[v]))
        x = asg[v]
        inside = cells.get(v) is None or cells[v] == pos[v]
        k = n['kind']
        if k == 'nom': d, p = 0, (ctx.frac(n['dist'][x]) if x in n['dist'] else zero)
        elif isinstance(x, str): d, p = 0, zero
        elif k == 'atom': d, p = 0, (one if x == n['value'] else zero)
        elif k.startswith('disc'): d, p = 0, n['law'].density(x)
        else: d, p = 1, n['law'].density(x)
        return (d, p if inside else zero)
    cs = [dens(ctx, c, asg, cells, pos) for c in n['cs']]
    if n['k'] == 'prod':
        r = one
        for d, p in cs: r = r * p
        return (sum(d for d, p in cs), r)
    base = [dens(ctx, c, asg, {}, pos) for c in n['cs']]
    alive = [i for i, (d, p) in enumerate(base) if bool(p > 0)]
    if not alive: return (0, zero)
    m = min(base[i][0] for i in alive)
    r = zero
    for i in alive:
        if base[i][0] == m: r = r + n['ws'][i] * cs[i][1]
    return (m, r)

def dens_event(ctx, M, asg, ev, space, pos):
    vs = [v for v in M.vars() if v in ev_vars(ev)]
    tot = ctx.const(0)
    for combo in itertools.product(*[space[v] for v in vs]):
        cells = dict(zip(vs, combo))
        if holds(ev, cells): tot = tot + dens(ctx, M.root, asg, cells, pos)[1]
    return tot

def setup(ctx, st, av, strict=True, zero_ok=False):
    """Model, cells, and an assignment of the variables av placed anywhere among the cells."""
    spec, vs = STRUCT[st]
    M = Model(ctx, spec, strict=strict, zero_ok=zero_ok)
    kinds = dict(KINDS); kinds.update({v: k for v, k in kinds_of(spec).items() if k != 'atom' or v == 'A'})
    th, space, asg, pos = {}, {}, {}, {}
    for v in vs:
        if kinds[v] == 'nom':
            th[v] = None
            space[v] = cells_nom(['a', 'b'])
            if v in av:
                asg[v] = ctx.pick('v' + v, ['a', 'b', 'z'])
                pos[v] = ('s', asg[v])
            continue
        sort = 'int' if kinds[v].startswith('disc') else 'real'
        n = 1 if v in av else 2
        th[v] = thresholds(ctx, 't' + v, n, sort=sort)
        ts = list(th[v])
        if v in av:
            x = (ctx.int if sort == 'int' else ctx.real)('v' + v)
            t = Th(x, 0)
            ts.append(t)
            asg[v] = x
        space[v] = merge_points(ctx, ts)
        if v in av: pos[v] = next(c for c in space[v] if c[0] == 'pt' and c[-1] == t.r)
    return M, th, space, vs, asg, pos

def ids(asg):
    from sppl.transforms import Id
    return {Id(k): v for k, v in asg.items()}

def density(ctx, spe, asg): return ctx.exp(spe.logpdf(ids(asg)))

SUBS = {'X': [('X',)], 'Y': [('Y',)], 'N': [('N',)], 'XN': [('X',), ('N',), ('X', 'N')], 'XY': [('X', 'Y'), ('Y',)], 'YN': [('Y',), ('Y', 'N')], 'XA': [('A',), ('X', 'A')],
        'XYN': [('X',), ('X', 'Y', 'N'), ('Y', 'N')], 'XNY': [('X', 'Y'), ('N',), ('N', 'Y')], 'YXN': [('Y', 'N'), ('X',)]}
ALL = [(s, a) for s in STRUCT if s != 'mixXnom' for a in SUBS[STRUCT[s][1]]]
def PP(l): return [dict(st=s, av=''.join(a)) for s, a in l]
def Bn(vs, wide=False): return ['one'] if len(vs) == 1 else ['one', 'or2', 'notand'] if len(vs) == 2 else (['one', 'or2'] if wide else ['one', 'or2', 'cyc'])

@case('density', params=PP(ALL), cost=4)
def density_(ctx, st, av):
    M, th, space, vs, asg, pos = setup(ctx, st, av)
    d, p = dens(ctx, M.root, asg, {}, pos)
    ctx.check(ctx.eq(density(ctx, M.spe, asg), p), 'density of the assignment')

@case('constrain', params=PP(ALL), cost=5)
def constrain(ctx, st, av):
    M, th, space, vs, asg, pos = setup(ctx, st, av)
    d, p = dens(ctx, M.root, asg, {}, pos)
    if not (p > 0):
        ctx.check(attempt(lambda: M.spe.constrain(ids(asg))) is None, 'constraining to values of density zero is refused')
        return
    post = M.spe.constrain(ids(asg))
    S = shapes(vs, th)
    for n in Bn(vs, 'mix' in st):
        ctx.check(ctx.eq(prob(ctx, post, build(S[n])) * p, dens_event(ctx, M, asg, S[n], space, pos)), 'probability of %s after constraining' % n)
    ctx.check(ctx.eq(density(ctx, post, asg), 1), 'the assigned values have probability one after constraining')
    again = post.constrain(ids(asg))
    ctx.check(ctx.eq(prob(ctx, again, build(S['one'])) * p, dens_event(ctx, M, asg, S['one'], space, pos)), 'constraining again to the same values changes nothing')

@case('zero-density', params=PP([('mixX', ('X',)), ('XN', ('X', 'N')), ('mix(XN,NX)', ('X',)), ('mix(XN,NX)', ('N',)), ('mixX*N', ('X', 'N')), ('mixXatom', ('X',)), ('XY', ('X', 'Y'))]), cost=6)
def zero_density(ctx, st, av):
    """Laws, densities and weights of outcomes that may vanish."""
    M, th, space, vs, asg, pos = setup(ctx, st, av, strict=False, zero_ok=True)
    d, p = dens(ctx, M.root, asg, {}, pos)
    ctx.check(ctx.eq(density(ctx, M.spe, asg), p), 'density of the assignment')
    if not (p > 0):
        ctx.check(attempt(lambda: M.spe.constrain(ids(asg))) is None, 'constraining to values of density zero is refused')
        return
    post = M.spe.constrain(ids(asg))
    S = shapes(vs, th)
    ctx.check(ctx.eq(prob(ctx, post, build(S['one'])) * p, dens_event(ctx, M, asg, S['one'], space, pos)), 'probability after constraining')

COND = [('mixX', 'hole', ('X',)), ('XN', 'or2', ('X',)), ('XN', 'xor', ('N',)), ('XN', 'or', ('X', 'N')), ('mixX*N', 'hole', ('X', 'N')), ('XY', 'or2', ('X', 'Y')), ('mixN', 'one', ('N',)),
        ('mixY', 'one', ('Y',)), ('mix(XN,NX)', 'one', ('X',)), ('XYN', 'skip', ('X', 'N'))]
@case('conditioned', params=[dict(st=s, e=e, av=''.join(a)) for s, e, a in COND],
      thorough=[dict(st=s, e=e, av=''.join(a)) for s in ('XN', 'mixX*N', 'mix(XN,NX)', 'XY') for e in ('and', 'or', 'or2', 'notand', 'hole', 'xor') for a in SUBS[STRUCT[s][1]] if (s, e, a) not in COND], cost=8)
def conditioned(ctx, st, e, av):
    """After conditioning on A, densities are those of the distribution restricted to A, over P(A)."""
    M, th, space, vs, asg, pos = setup(ctx, st, av)
    th = {v: (t if t is None or len(t) == 2 else [t[0], t[0]]) for v, t in th.items()}
    A = shapes(vs, th)[e]
    z = M.P(A, space)
    ctx.assume(z > 0)
    post = M.spe.condition(build(A))
    # restricted density: all cells of the other variables allowed by A
    rest = [v for v in vs if v not in asg]
    joint = dens_event(ctx, M, asg, A, space, pos)
    ctx.check(ctx.eq(density(ctx, post, asg) * z, joint), 'density after conditioning on ' + e)

@case('wrong-kind', params=[dict(kind=k, val=w) for k in ('cont', 'disc', 'nom', 'atom') for w in ('str', 'num')])
def wrong_kind(ctx, kind, val):
    """A value of the other kind has density zero; integer-valued variables give non-integers density zero."""
    M = Model(ctx, L(kind, 'X'))
    x = 'z' if val == 'str' else ctx.real('v', floor=kind == 'disc')
    p = dens(ctx, M.root, {'X': x}, {}, {'X': None})[1]
    ctx.check(ctx.eq(density(ctx, M.spe, {'X': x}), p), 'density')
    if not (p > 0):
        ctx.check(attempt(lambda: M.spe.constrain(ids({'X': x}))) is None, 'constraining to a value of density zero is refused')

@case('derived', params=[dict(kind=k, deep=d) for k in ('cont', 'disc', 'mix', 'prod') for d in (False, True)])
def derived(ctx, kind, deep):
    """Constraining fixes the variables computed from the assigned one."""
    from sppl.transforms import Id
    spec = {'cont': L('cont', 'X'), 'disc': L('disc', 'X'), 'mix': mix(L('cont', 'X'), L('cont', 'X')), 'prod': prod(L('cont', 'X'), L('nom', 'N'))}[kind]
    M = Model(ctx, spec, strict=True)
    spe = M.spe.transform(Id('Z'), 2 * Id('X') + 1)
    if deep: spe = spe.transform(Id('W'), 3 - Id('Z'))
    x = ctx.int('v') if kind == 'disc' else ctx.real('v')
    t = ctx.real('t')
    if kind == 'disc': ctx.assume(M.root['law'].density(x) > 0)
    post = spe.constrain(ids({'X': x}))
    ctx.check(post.get_symbols() == spe.get_symbols(), 'the variables are kept')
    want = ctx.const(1) if bool(2 * x + 1 < t) else ctx.const(0)
    ctx.check(ctx.eq(prob(ctx, post, Id('Z') < t), want), 'derived variable is fixed')
    if deep:
        want = ctx.const(1) if bool(3 - (2 * x + 1) < t) else ctx.const(0)
        ctx.check(ctx.eq(prob(ctx, post, Id('W') < t), want), 'derived variable is fixed')

@case('ruled-out', params=[dict(n=n) for n in (2, 3)], thorough=[dict(n=4)], cost=9)
def ruled_out(ctx, n):
    """Mixtures in which any of the components may give the value density zero."""
    M = Model(ctx, mix(*[prod(lf('X'), lf('N')) for _ in range(n)]), strict=True, zero_ok=True)
    th, space = env(ctx, 'XN', n=1)
    asg, pos = {'N': 'a'}, {'N': ('s', 'a')}
    d, p = dens(ctx, M.root, asg, {}, pos)
    ctx.check(ctx.eq(density(ctx, M.spe, asg), p), 'density of the assignment')
    if not (p > 0):
        ctx.check(attempt(lambda: M.spe.constrain(ids(asg))) is None, 'constraining to values of density zero is refused')
        return
    post = M.spe.constrain(ids(asg))
    e = ('le', 'X', th['X'][0])
    ctx.check(ctx.eq(prob(ctx, post, build(e)) * p, dens_event(ctx, M, asg, e, space, pos)), 'probability after constraining')
