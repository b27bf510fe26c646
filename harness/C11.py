"""C11 Simplifying or sharing structure never changes the distribution."""
from engine.h import case
from harness.joint import *

BOUNDS = ('mixtures of up to 4 leaves or products of up to 3 factors, with components taken from parametric families whose (symbolic) parameters, supports, '
          'values, tables, weights and defining expressions may coincide or differ in every pattern; arbitrary mixture weights')
OUTSIDE = 'accuracy of scipy distribution functions; floating-point rounding'
ASSUMPTIONS = ['two members of a scipy family are the same law exactly when all their parameters are equal', 'hash() follows the Python numeric hash (hash(-1) == hash(-2))']

class Family:
    """Leaves of one family: equal parameters give the same law."""
    def __init__(self, ctx, var, kind='cont', tag='', sort='real'):
        self.ctx, self.var, self.kind, self.tag, self.sort, self.members, self.n = ctx, var, kind, tag, sort, [], 0
    def param(self):
        self.n += 1
        return (self.ctx.int if self.sort == 'int' else self.ctx.real)('p%s%s%d' % (self.tag, self.var, self.n))
    def leaf(self, p=None, q=None, support=None, env=None, name='fam'):
        from sppl.spe import ContinuousLeaf, DiscreteLeaf, AtomicLeaf
        from sppl.sets import Interval, Range
        from sppl.transforms import Id
        ctx = self.ctx
        p = self.param() if p is None else p
        for q0, d in self.members:
            if bool(q0 == p):
                kw = dict(d.kwds)
                d2 = share(ctx, d, dict(loc=p))
                break
        else:
            d2 = law(ctx, 'L%s%s%d' % (self.tag, self.var, len(self.members)), None, None, self.kind == 'disc', True, kwds=dict(loc=p), family=name)
            self.members.append((p, d2))
        cls = DiscreteLeaf if self.kind == 'disc' else ContinuousLeaf
        if support is None: return cls(Id(self.var), d2, Interval(-INF, INF), None, env)
        return cls(Id(self.var), d2, support, True, env)

def share(ctx, d, kwds):
    """Another frozen object of the same law (different identity)."""
    import copy
    e = copy.copy(d)
    e.kwds = kwds
    return e

def same_everywhere(ctx, a, b, evs, what):
    for n, e in evs:
        ctx.check(ctx.eq(prob(ctx, a, build(e)), prob(ctx, b, build(e))), 'probability of %s %s' % (n, what))

def mixture(ctx, children, tag='w'):
    from sppl.spe import SumSPE
    ws = weights(ctx, tag, len(children))
    return SumSPE(children, [ctx.log(w) for w in ws])

def xs(ctx, kind, n=1, V='X'):
    t = thresholds(ctx, 't' + V, n, sort='int' if kind == 'disc' else 'real')
    return t

def sort_of(d): return 'int' if d == 'disc' else 'real'

@case('leaves', params=[dict(kind=k, n=n) for k in ('cont', 'disc') for n in (2, 3)] + [dict(kind='cont', n=4)], thorough=[dict(kind='disc', n=4)], cost=3)
def leaves(ctx, kind, n):
    from sppl.spe import spe_simplify_sum
    F = Family(ctx, 'X', kind, sort='int')
    S = mixture(ctx, [F.leaf() for _ in range(n)])
    t, = xs(ctx, kind)
    same_everywhere(ctx, S, spe_simplify_sum(S), [('le', ('le', 'X', t)), ('pt', ('in', 'X', [t]))], 'after simplifying')

@case('conditioned-leaves', params=[dict(kind=k) for k in ('cont', 'disc')], cost=3)
def conditioned_leaves(ctx, kind):
    from sppl.spe import spe_simplify_sum
    from sppl.sets import Interval, Range
    F = Family(ctx, 'X', kind)
    a, b = [(ctx.int if kind == 'disc' else ctx.real)(n) for n in 'ab']
    ctx.assume(a < b)
    c = (ctx.int if kind == 'disc' else ctx.real)('c')
    ctx.assume(a < c)
    t, = xs(ctx, kind)
    p = F.param()
    ls = [F.leaf(p), F.leaf(p, support=Interval(a, b)), F.leaf(p, support=Interval(a, c)), F.leaf(p, support=Interval(a, b, right_open=True))]
    S = mixture(ctx, ls)
    same_everywhere(ctx, S, spe_simplify_sum(S), [('le', ('le', 'X', t))], 'after simplifying')

@case('atoms')
def atoms(ctx):
    from sppl.spe import spe_simplify_sum, AtomicLeaf
    from sppl.transforms import Id
    S = mixture(ctx, [AtomicLeaf(Id('X'), ctx.int('v%d' % i)) for i in range(3)])
    t, = xs(ctx, 'disc')
    same_everywhere(ctx, S, spe_simplify_sum(S), [('le', ('le', 'X', t)), ('pt', ('in', 'X', [t]))], 'after simplifying')

@case('nominals', params=[dict(order=o) for o in ('same', 'swapped', 'other')])
def nominals(ctx, order):
    from sppl.spe import spe_simplify_sum, NominalLeaf
    from sppl.transforms import Id
    ls = []
    for i in range(3):
        p, q = nominal_weights(ctx, 'n%d' % i, 2)
        names = ('a', 'b') if order == 'same' or i == 0 else ('b', 'a') if order == 'swapped' else ('a', 'c')
        ls.append(NominalLeaf(Id('N'), dict(zip(names, (p, q)))))
    S = mixture(ctx, ls)
    same_everywhere(ctx, S, spe_simplify_sum(S), [('a', ('s', 'N', ['a'])), ('b', ('s', 'N', ['b']))], 'after simplifying')

def env(X, *exprs):
    from collections import OrderedDict
    from sppl.transforms import Id
    d = OrderedDict([(X, X)])
    for i, e in enumerate(exprs): d[Id('Z%d' % i)] = e
    return d

@case('derived', params=[dict(kind=k) for k in ('cont', 'atom')], cost=2)
def derived(ctx, kind):
    """Components that differ in the expressions of their derived variables only."""
    from sppl.spe import spe_simplify_sum, AtomicLeaf
    from sppl.transforms import Id
    X, Z = Id('X'), Id('Z0')
    c0, c1 = ctx.int('c0'), ctx.int('c1')
    if kind == 'atom':
        v = ctx.int('v')
        ls = [AtomicLeaf(X, v, env=env(X, X + c0)), AtomicLeaf(X, v, env=env(X, X + c1))]
    else:
        F = Family(ctx, 'X')
        p = F.param()
        ls = [F.leaf(p, env=env(X, X + c0)), F.leaf(p, env=env(X, X + c1))]
    S = mixture(ctx, ls)
    T = spe_simplify_sum(S)
    t = ctx.int('t')
    a, b = prob(ctx, S, Z <= t), prob(ctx, T, Z <= t)
    ctx.check(ctx.eq(a, b), 'probability of a derived event after simplifying')

def tables(ctx, n, xs_=(0, 1, 2)):
    """Finite integer tables through the public constructors."""
    from sppl.distributions import discrete
    from sppl.transforms import Id
    return []

PROD = {
    'share-X': lambda f: [('X0', 'N0'), ('X0', 'N1')],
    'share-N': lambda f: [('X0', 'N0'), ('X1', 'N0')],
    'share-all': lambda f: [('X0', 'N0'), ('X0', 'N0')],
    'none': lambda f: [('X0', 'N0'), ('X1', 'N1')],
    'reordered': lambda f: [('X0', 'N0'), ('N1', 'X0')],
    'three': lambda f: [('X0', 'N0'), ('X0', 'N1'), ('X1', 'N0')],
    'three-chain': lambda f: [('X0', 'N0'), ('X1', 'N0'), ('X1', 'N1')],
    'three-same-N': lambda f: [('X0', 'N0'), ('X1', 'N0'), ('X2', 'N0')],
    'xyn': lambda f: [('X0', 'Y0', 'N0'), ('X0', 'Y1', 'N0')],
    'xyn2': lambda f: [('X0', 'Y0', 'N0'), ('X0', 'Y1', 'N1')],
    'xyn3': lambda f: [('X0', 'Y0', 'N0'), ('Y0', 'N0', 'X1'), ('N0', 'X0', 'Y1')],
    'mixed-group': lambda f: [('X0', 'Y0', 'N0'), ('X0', 'YN')],
    'nested': lambda f: [('MX', 'N0'), ('MX', 'N1')],
    'nested2': lambda f: [('MX', 'N0'), ('X0', 'N0')],
}
class Parts:
    """Factors by name; equal names give equal but distinct objects."""
    def __init__(self, ctx):
        self.ctx = ctx
        self.F = {}
        self.X = Family(ctx, 'X'); self.Y = Family(ctx, 'Y', 'disc')
        self.par, self.nom = {}, {}
    def get(self, name):
        from sppl.spe import NominalLeaf, SumSPE, ProductSPE
        from sppl.transforms import Id
        if name == 'MX':
            if 'MX' not in self.F: self.F['MX'] = mixture(self.ctx, [self.get('X7'), self.get('X8')], 'wm')
            m = self.F['MX']
            return SumSPE(list(m.children), list(m.weights))
        if name == 'YN': return mixture(self.ctx, [ProductSPE([self.get('Y5'), self.get('N5')]), ProductSPE([self.get('Y6'), self.get('N6')])], 'wyn')
        if name[0] == 'N':
            if name not in self.nom: self.nom[name] = nominal_weights(self.ctx, 'q' + name, 2)
            return NominalLeaf(Id('N'), dict(zip('ab', self.nom[name])))
        f = self.X if name[0] == 'X' else self.Y
        if name not in self.par: self.par[name] = f.param()
        return f.leaf(self.par[name])

def pevents(ctx, vs):
    th = {'N': None}
    if 'X' in vs: th['X'] = thresholds(ctx, 'tX', 1)
    if 'Y' in vs: th['Y'] = thresholds(ctx, 'tY', 1, sort='int')
    S = shapes(vs, th)
    return [(n, S[n]) for n in (['and', 'one', 'other', 'or'] if len(vs) == 2 else ['and3', 'skip'])]

@case('products', params=[dict(p=p) for p in PROD], cost=4)
def products(ctx, p):
    from sppl.spe import spe_simplify_sum, ProductSPE
    parts = Parts(ctx)
    comps = PROD[p](None)
    S = mixture(ctx, [ProductSPE([parts.get(n) for n in c]) for c in comps])
    vs = ['X', 'N'] if not any('Y' in n for n in comps[0]) else ['X', 'Y', 'N']
    evs = pevents(ctx, vs)
    T = spe_simplify_sum(S)
    ctx.check(T.get_symbols() == S.get_symbols(), 'same variables')
    same_everywhere(ctx, S, T, evs, 'after simplifying')

@case('shared', params=[dict(p=p) for p in PROD if p != 'mixed-group'], thorough=[dict(p='mixed-group')], cost=4)
def shared(ctx, p):
    """Merging duplicate subexpressions."""
    from sppl.spe import spe_cache_duplicate_subtrees, ProductSPE, SumSPE
    comps = PROD[p](None)
    def model():
        parts = Parts(ctx)
        return parts, [ProductSPE([parts.get(n) for n in c]) for c in comps]
    parts = Parts(ctx)
    children = [ProductSPE([parts.get(n) for n in c]) for c in comps]
    ws = weights(ctx, 'w', len(children))
    S = SumSPE(children, [ctx.log(w) for w in ws])
    vs = ['X', 'N'] if not any('Y' in n for n in comps[0]) else ['X', 'Y', 'N']
    evs = pevents(ctx, vs)
    before = [prob(ctx, S, build(e)) for n, e in evs]
    T = spe_cache_duplicate_subtrees(S, {})
    for (n, e), b in zip(evs, before):
        ctx.check(ctx.eq(prob(ctx, T, build(e)), b), 'probability of %s after merging duplicates' % n)

@case('leaf-and-product', params=[dict(first=f) for f in ('leaf', 'product')])
def leaf_and_product(ctx, first):
    """One component computes Z from X, the other draws it independently."""
    from sppl.spe import spe_simplify_sum, ProductSPE
    from sppl.transforms import Id
    X, Z = Id('X'), Id('Z0')
    F, G = Family(ctx, 'X'), Family(ctx, 'Z0')
    a = F.leaf(env=env(X, X + 1))
    b = ProductSPE([F.leaf(), G.leaf()])
    S = mixture(ctx, [a, b] if first == 'leaf' else [b, a])
    T = spe_simplify_sum(S)
    t = ctx.real('t')
    ctx.check(ctx.eq(prob(ctx, S, Z <= t), prob(ctx, T, Z <= t)), 'probability after simplifying')

@case('tables', params=[dict(con=c, sup=s) for c in ('discrete', 'uniformd', 'rv_discrete') for s in ('same', 'other')])
def tables_(ctx, con, sup):
    """Tables of an integer-valued variable, through the public constructors."""
    from sppl import distributions as D
    from sppl.spe import spe_simplify_sum
    from sppl.transforms import Id
    vals = [(0, 1, 3), (0, 2, 3) if sup == 'other' else (0, 1, 3)]
    ls, ps = [], []
    for i in range(2):
        if con == 'uniformd':
            ls.append(D.uniformd(values=vals[i])(Id('X'))); ps.append([ctx.const(1) / 3] * 3)
            continue
        p = ctx.pick('p%d' % i, [(.25, .25, .5), (.5, .25, .25)])
        ls.append((D.discrete(dict(zip(vals[i], p))) if con == 'discrete' else D.rv_discrete(values=(vals[i], p)))(Id('X')))
    S = mixture(ctx, ls)
    T = spe_simplify_sum(S)
    for e in (Id('X') <= 0, Id('X') <= 1, Id('X') <= 2):
        ctx.check(abs(prob(ctx, S, e) - prob(ctx, T, e)) < ctx.const(1) / 10 ** 9, 'probability after simplifying')
