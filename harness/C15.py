"""C15 Running a model command sequence computes the program's distribution: compilers/ast_to_spe.py on the real inference code."""
import os
from engine.h import case
from harness.progs import *
from harness.joint import lit, shapes

BOUNDS = ('programs of up to 6 commands nested to depth 3: sampling (real, integer and nominal variables with arbitrary laws, and mixtures), derived variables, up to two conditionings, '
          'constraining, up to 4 branches with any (overlapping, compound, impossible) conditions over up to two thresholds per variable, switch over names, numbers, '
          'intervals and unions, loops of up to 3 rounds; simplification on and off')
OUTSIDE = 'programs that leave cases uncovered with a probability below 1e-4; accuracy of scipy; floating-point rounding'
ASSUMPTIONS = ['scipy evaluates cdf/logcdf/pmf/logpmf of the law exactly; logsumexp and exp/log are exact']

def refused(f):
    try: f()
    except (AssertionError, ValueError): return True
    return False

def check(ctx, P, prog, queries, simplify=True):
    old = os.environ.pop('SPPL_NO_SIMPLIFY', None)
    if not simplify: os.environ['SPPL_NO_SIMPLIFY'] = '1'
    try:
        cmd = P.command(prog)
        states = P.run(prog)
        if states is None:
            # an impossible condition, or cases that are not covered
            ctx.check(refused(lambda: cmd.interpret()), 'an impossible or uncovered program is refused')
            return
        spe = cmd.interpret()
    finally:
        os.environ.pop('SPPL_NO_SIMPLIFY', None)
        if old is not None: os.environ['SPPL_NO_SIMPLIFY'] = old
    for n, q in queries:
        ctx.check(ctx.eq(prob(ctx, spe, P.obj(q)), P.P(q, states)), 'probability of %s' % n)

def qs(P, vs):
    """Events about every variable and pair."""
    out = []
    for v in vs: out.append((v, lit(v, 0, P.th)))
    for i, v in enumerate(vs):
        for w in vs[:i]: out.append(('%s and %s' % (w, v), ('and', lit(w, 0, P.th), lit(v, 1, P.th))))
    if len(vs) > 1: out.append(('%s or %s' % (vs[0], vs[-1]), ('or', lit(vs[0], 3, P.th), lit(vs[-1], 0, P.th))))
    return out

K = {'X': 'cont', 'Y': 'cont', 'I': 'disc', 'N': 'nom', 'M': 'nom', 'W': 'cont'}
def lts(P, v):
    t = P.th[v]
    return t if t is None else (t[0], t[-1])

# conditions on the variables sampled first
def C(P):
    (s, t) = lts(P, 'X')
    d = {'X<s': ('lt', 'X', s), 'X<=s': ('le', 'X', s), 'X<t': ('lt', 'X', t), 'X>s': ('gt', 'X', s), 'X>=t': ('ge', 'X', t), 'X>=s': ('ge', 'X', s), 'pt': ('in', 'X', [s]), 'out': ('or', ('lt', 'X', s), ('gt', 'X', t)),
         'in': ('and', ('gt', 'X', s), ('le', 'X', t)), 'no': ('and', ('lt', 'X', s), ('gt', 'X', t)), 'all': ('or', ('le', 'X', s), ('gt', 'X', s)), 'not': ('not', ('in', 'X', [s])), 'else': True}
    if 'N' in P.th:
        d.update({'a': ('s', 'N', ['a']), 'b': ('s', 'N', ['b']), 'not a': ('ns', 'N', ['a']), 'X<s and a': ('and', ('lt', 'X', s), ('s', 'N', ['a'])), 'X<s or a': ('or', ('lt', 'X', s), ('s', 'N', ['a'])),
                  'xor': ('xor', ('lt', 'X', t), ('s', 'N', ['a'])), 'or2': ('or', ('and', ('lt', 'X', s), ('s', 'N', ['a'])), ('and', ('gt', 'X', t), ('s', 'N', ['b']))),
                  'not(X<s and a)': ('not', ('and', ('lt', 'X', s), ('s', 'N', ['a']))), 'z': ('s', 'N', ['z']), 'ab': ('s', 'N', ['a', 'b'])})
    if 'I' in P.th:
        i, = P.th['I'][:1]
        d.update({'I<=i': ('le', 'I', i), 'I==i': ('in', 'I', [i]), 'X<s and I<=i': ('and', ('lt', 'X', s), ('le', 'I', i)), 'X<s or I>i': ('or', ('lt', 'X', s), ('gt', 'I', i))})
    return d

IF_X = [('X<s', 'else'), ('X<=s', 'X>s'), ('X<s', 'X<t', 'else'), ('X<t', 'X<s', 'else'), ('X<t', 'X>s', 'else'), ('pt', 'else'), ('out', 'else'), ('not', 'else'), ('not', 'pt'), ('in', 'X<s', 'else'),
        ('no', 'else'), ('all', 'else'), ('X<s', 'no', 'else'), ('X<s', 'X<s', 'else'), ('X<s', 'X<t', 'X>=t'), ('X<s', 'X<t', 'X>s', 'else'), ('X<s', 'out', 'X>=t', 'else'), ('X<s', 'X>=s', 'else'),
        ('pt', 'X<s', 'in', 'else'), ('all', 'X<s'), ('X<t', 'out', 'not')]
IF_XN = [('a', 'else'), ('a', 'b'), ('not a', 'a'), ('ab', 'else'), ('z', 'else'), ('a', 'z', 'else'), ('X<s and a', 'else'), ('X<s or a', 'else'), ('xor', 'else'), ('or2', 'else'), ('X<s', 'a', 'else'),
         ('a', 'X<s', 'else'), ('X<s and a', 'X<t', 'else'), ('X<s or a', 'X<s and a', 'else'), ('X<s', 'X<s and a', 'a', 'else'), ('not(X<s and a)', 'else'), ('not(X<s and a)', 'X<s and a'),
         ('xor', 'a', 'else'), ('X<s and a', 'or2', 'else'), ('a', 'xor', 'X<s', 'else')]
IF_XI = [('I<=i', 'else'), ('X<s and I<=i', 'else'), ('X<s or I>i', 'else'), ('I==i', 'X<s', 'else'), ('X<s', 'I<=i', 'else')]
UNCOVERED = [('X<s', 'X>s'), ('X<s', 'X>=t'), ('X<s',), ('pt', 'in')]
def setting(ctx, first, strict=True, zero_ok=False):
    P = Prog(ctx, list(first) + ['Y'], K, n={'X': 2, 'Y': 1, 'I': 1, 'W': 1}, strict=strict, zero_ok=zero_ok)
    return P, [('sample', v, K[v]) for v in first]

@case('if', params=[dict(first=f, cs='|'.join(c)) for f, l in (('X', IF_X), ('XN', IF_XN), ('XI', IF_XI)) for c in l], cost=5)
def if_(ctx, first, cs):
    """A variable is sampled in the branch taken."""
    P, pre = setting(ctx, first)
    cond = C(P)
    cs = cs.split('|')
    prog = pre + [('if',) + tuple((cond[c], [('sample', 'Y', 'cont')]) for c in cs)]
    if 'XI' == first or len(first) > 1: q = [('Y', lit('Y', 0, P.th)), ('X and Y', ('and', lit('X', 0, P.th), lit('Y', 1, P.th))), ('%s or Y' % first[1], ('or', lit(first[1], 0, P.th), lit('Y', 0, P.th)))]
    else: q = qs(P, ['X', 'Y'])
    check(ctx, P, prog, q)

@case('if-plain', params=[dict(first=f, cs='|'.join(c)) for f, c in (('X', IF_X[2]), ('XN', IF_XN[6]), ('XN', IF_XN[9]), ('XN', IF_XN[13]))], cost=5)
def if_plain(ctx, first, cs):
    """Without simplification."""
    P, pre = setting(ctx, first)
    cond = C(P)
    prog = pre + [('if',) + tuple((cond[c], [('sample', 'Y', 'cont')]) for c in cs.split('|'))]
    check(ctx, P, prog, qs(P, list(first) + ['Y'])[-3:], simplify=False)

@case('uncovered', params=[dict(cs='|'.join(c)) for c in UNCOVERED], cost=3)
def uncovered(ctx, cs):
    P, pre = setting(ctx, 'X')
    cond = C(P)
    cs = cs.split('|')
    prog = pre + [('if',) + tuple((cond[c], [('sample', 'Y', 'cont')]) for c in cs)]
    states = P.run(pre)
    gap = P.total([(m, c) for m, c in states if not any(P.holds(cond[k], c) for k in cs)])
    ctx.assume(ctx.Or(gap == 0, gap > ctx.const(1) / 10 ** 4))
    check(ctx, P, prog, qs(P, ['X', 'Y']))

BODIES = {
    'same': lambda P, i: [('shared', 'Y', 'cont', 'sh')],
    'one-same': lambda P, i: [('shared', 'Y', 'cont', 'sh' if i != 1 else 'sh1')],
    'mix': lambda P, i: [('sample', 'Y', 'mix')],
    'two': lambda P, i: [('sample', 'Y', 'cont'), ('sample', 'M', 'nom')],
    'two-swapped': lambda P, i: [('sample', 'Y', 'cont'), ('sample', 'M', 'nom')][::1 if i % 2 else -1],
    'skip': lambda P, i: [('skip',)],
    'cond': lambda P, i: [('sample', 'Y', 'cont'), ('cond', ('lt' if i % 2 else 'ge', 'Y', P.th['Y'][0]))],
    'cond-or-skip': lambda P, i: [('shared', 'Y', 'cont', 'sh')] + ([('cond', ('lt', 'Y', P.th['Y'][0]))] if i == 0 else []),
    'cond-X': lambda P, i: [('sample', 'Y', 'cont'), ('cond', ('or', ('lt', 'Y', P.th['Y'][0]), ('le', 'X', P.th['X'][0])))],
    'nested': lambda P, i: [('sample', 'Y', 'cont'), ('if', (('lt', 'Y', P.th['Y'][0]), [('sample', 'M', 'nom')]), (True, [('sample', 'M', 'nom')]))],
    'nested-X': lambda P, i: [('if', (('lt', 'X', P.th['X'][1]), [('sample', 'Y', 'cont')]), (('gt', 'X', P.th['X'][0]), [('sample', 'Y', 'cont')]), (True, [('sample', 'Y', 'cont')]))],
    'let': lambda P, i: [('sample', 'Y', 'cont'), ('let', 'V', 'Y', 2, 1)],
    'let-cond': lambda P, i: [('sample', 'Y', 'cont'), ('let', 'V', 'Y', 2, 1), ('cond', ('lt', 'V', P.th['Y'][0]))],
    'seq': lambda P, i: [('seq', [('sample', 'Y', 'cont'), ('seq', [('sample', 'M', 'nom')])])],
}
@case('branch', params=[dict(body=b, first=f, cs=c) for b in BODIES for f, c in (('X', 'X<s|X<t|else'), ('XN', 'X<s and a|else'), ('X', 'X<s|X>=s'))], cost=7)
def branch(ctx, body, first, cs):
    """What the branches do."""
    P = Prog(ctx, list(first) + ['Y', 'M'], K, n={'X': 2, 'Y': 1}, strict=True)
    cond = C(P)
    prog = [('sample', v, K[v]) for v in first] + [('if',) + tuple((cond[c], BODIES[body](P, i)) for i, c in enumerate(cs.split('|')))]
    vs = list(first) + (['Y'] if body != 'skip' else []) + (['M'] if body in ('two', 'two-swapped', 'nested', 'seq') else [])
    q = [(v, lit(v, 0, P.th)) for v in vs] + [('X and last', ('and', lit('X', 0, P.th), lit(vs[-1], 1, P.th)))]
    if len(vs) > 2: q.append(('or', ('or', lit(vs[1], 0, P.th), lit(vs[-1], 0, P.th))))
    if body.startswith('let'): q += [('V', ('le', 'V', P.th['Y'][0])), ('X and V', ('and', lit('X', 0, P.th), ('gt', 'V', P.th['Y'][0])))]
    check(ctx, P, prog, q)

# -- switch ------------------------------------------------------------------------------
def names_set(*ns): return ('s', 'N', list(ns))
def SW(P):
    from sppl.sets import FiniteNominal, FiniteReal, Interval
    inf = INF
    out = {
        'names': ('N', [(lambda: 'a', names_set('a')), (lambda: 'b', names_set('b'))]),
        'names+z': ('N', [(lambda: 'z', names_set('z')), (lambda: 'b', names_set('b')), (lambda: 'a', names_set('a'))]),
        'repeat': ('N', [(lambda: 'a', names_set('a')), (lambda: FiniteNominal('a', 'b'), names_set('a', 'b')), (lambda: 'b', names_set('b'))]),
        'coset': ('N', [(lambda: 'a', names_set('a')), (lambda: FiniteNominal('a', b=True), ('ns', 'N', ['a']))]),
        'coset-overlap': ('N', [(lambda: FiniteNominal('z', b=True), ('ns', 'N', ['z'])), (lambda: 'a', names_set('a'))]),
        'uncovered': ('N', [(lambda: 'a', names_set('a'))]),
    }
    if P.th.get('X'):
        s, t = P.th['X'][0], P.th['X'][-1]
        out.update({
            'halves': ('X', [(lambda: Interval.Ropen(-inf, s.x), ('lt', 'X', s)), (lambda: Interval(s.x, inf), ('ge', 'X', s))]),
            'overlap': ('X', [(lambda: Interval.Lopen(-inf, t.x), ('le', 'X', t)), (lambda: Interval(s.x, inf), ('ge', 'X', s))]),
            'point': ('X', [(lambda: Interval(-inf, t.x), ('le', 'X', t)), (lambda: s.x, ('in', 'X', [s])), (lambda: Interval(s.x, inf), ('ge', 'X', s))]),
            'union': ('X', [(lambda: Interval.Ropen(-inf, s.x) | Interval.open(t.x, inf), ('or', ('lt', 'X', s), ('gt', 'X', t))), (lambda: Interval(-inf, inf), ('or', ('le', 'X', s), ('gt', 'X', s)))]),
        })
    return out
@case('switch', params=[dict(first=f, k=k, how=h, body=b) for f, ks in (('N', ['names', 'names+z', 'repeat', 'coset', 'coset-overlap', 'uncovered']), ('X', ['halves', 'overlap', 'point', 'union']), ('XN', ['names', 'repeat', 'overlap']))
                        for k in ks for h in ('list', 'enum') for b in ('own', 'one-same')], cost=4)
def switch(ctx, first, k, how, body):
    P = Prog(ctx, list(first) + ['Y'], K, n={'X': 2, 'Y': 1}, strict=True, zero_ok=(first == 'N'))
    V, vals = SW(P)[k]
    f = (lambda i: [('sample', 'Y', 'cont')]) if body == 'own' else (lambda i: BODIES['one-same'](P, i))
    prog = [('sample', v, K[v]) for v in first] + [('switch', V, how, vals, f)]
    if k == 'uncovered':
        gap = P.total([(m, c) for m, c in P.run(prog[:-1]) if not any(P.holds(e, c) for _, e in vals)])
        ctx.assume(ctx.Or(gap == 0, gap > ctx.const(1) / 10 ** 4))
    if first == 'N': near_one(ctx, P, prog)
    check(ctx, P, prog, qs(P, list(first) + ['Y']))
def near_one(ctx, P, prog): pass

@case('switch-number', params=[dict(how=h, k=k) for h in ('list', 'enum') for k in ('atoms', 'range', 'coarse')], cost=3)
def switch_number(ctx, how, k):
    """A variable with finitely many numeric values."""
    from sppl.spe import AtomicLeaf, SumSPE
    from sppl.sets import FiniteReal
    from sppl.transforms import Id
    from sppl.compilers import ast_to_spe as A
    I, Y = Id('I'), Id('Y')
    vs = [0, 1, 2] if k == 'range' else [ctx.int('v%d' % i) for i in range(3)]
    if k != 'range':
        for i in range(3):
            for j in range(i): ctx.assume(ctx.Not(vs[i] == vs[j]))
    ws = weights(ctx, 'w', 3)
    S = SumSPE([AtomicLeaf(I, v) for v in vs], [ctx.log(w) for w in ws])
    leaves = [make_leaf(ctx, 'cont', 'Y', 'y%d' % i, True) for i in range(3)]
    values = range(3) if k == 'range' else list(vs) if k == 'atoms' else [vs[0], FiniteReal(vs[0], vs[1]), FiniteReal(*vs)]
    at = lambda v: next(i for i, u in enumerate(values) if u is v or isinstance(u, int) and isinstance(v, int) and u == v)
    body = lambda i: A.Sample(Y, lambda s: leaves[i]['spe'])
    sw = A.Switch(I, enumerate(values), lambda i, v: body(i)) if how == 'enum' else A.Switch(I, values, lambda v: body(at(v)))
    spe = A.Sequence(A.Sample(I, lambda s: S), sw).interpret()
    t = ctx.real('t')
    tot = ctx.const(0)
    for i in range(3):
        p = leaves[i]['law'].F(t)
        tot = tot + ws[i] * p
        ctx.check(ctx.eq(prob(ctx, spe, (Y <= t) & (I << {vs[i]} if isinstance(vs[i], int) else I << set_([vs[i]]))), ws[i] * p), 'probability of a case')
    ctx.check(ctx.eq(prob(ctx, spe, Y <= t), tot), 'probability over the cases')
from engine.api import set_

# -- sequences, loops, conditioning ---------------------------------------------------------
SEQ = {
    'one': lambda P: [('sample', 'X', 'cont')],
    'three': lambda P: [('sample', 'X', 'cont'), ('sample', 'N', 'nom'), ('sample', 'Y', 'mix')],
    'seq': lambda P: [('seq', [('sample', 'X', 'cont'), ('skip',)]), ('seq', [('sample', 'N', 'nom'), ('seq', [('sample', 'Y', 'cont')])])],
    'cond': lambda P: [('sample', 'X', 'cont'), ('sample', 'N', 'nom'), ('cond', C(P)['or2']), ('sample', 'Y', 'cont')],
    'cond2': lambda P: [('sample', 'X', 'cont'), ('sample', 'N', 'nom'), ('sample', 'Y', 'cont'), ('cond', C(P)['X<s or a']), ('cond', ('or', ('gt', 'Y', P.th['Y'][0]), C(P)['not a']))],
    'cond-then-if': lambda P: [('sample', 'X', 'cont'), ('sample', 'N', 'nom'), ('cond', C(P)['X<s or a']), ('if', (C(P)['X<t'], [('sample', 'Y', 'cont')]), (C(P)['a'], [('sample', 'Y', 'cont')]), (True, [('sample', 'Y', 'cont')]))],
    'if-then-cond': lambda P: [('sample', 'X', 'cont'), ('sample', 'N', 'nom'), ('if', (C(P)['X<s and a'], [('sample', 'Y', 'cont')]), (True, [('sample', 'Y', 'cont')])), ('cond', ('or', C(P)['b'], ('lt', 'Y', P.th['Y'][0])))],
    'if-if': lambda P: [('sample', 'X', 'cont'), ('if', (C(P)['X<s'], [('sample', 'N', 'nom')]), (True, [('sample', 'N', 'nom')])), ('if', (C(P)['a'], [('sample', 'Y', 'cont')]), (C(P)['X<t'], [('sample', 'Y', 'cont')]), (True, [('sample', 'Y', 'cont')]))],
    'let-if': lambda P: [('sample', 'X', 'cont'), ('let', 'Z', 'X', 3, -1), ('sample', 'N', 'nom'), ('if', (('lt', 'Z', P.th['X'][0]), [('sample', 'Y', 'cont')]), (('le', 'X', P.th['X'][1]), [('sample', 'Y', 'cont')]), (True, [('sample', 'Y', 'cont')]))],
    'impossible': lambda P: [('sample', 'X', 'cont'), ('cond', C(P)['no'])],
    'impossible-later': lambda P: [('sample', 'X', 'cont'), ('cond', C(P)['X<s']), ('sample', 'N', 'nom'), ('cond', C(P)['X>=t'])],
    'for': lambda P: [('for', 0, 3, lambda i: [('sample', 'XNY'[i], K['XNY'[i]])])],
    'for1': lambda P: [('sample', 'X', 'cont'), ('for', 1, 3, lambda i: [('sample', 'XNY'[i], K['XNY'[i]])])],
    'for0': lambda P: [('sample', 'X', 'cont'), ('for', 2, 2, lambda i: [('sample', 'Y', 'cont')]), ('sample', 'N', 'nom')],
    'for-if': lambda P: [('sample', 'X', 'cont'), ('for', 0, 2, lambda i: [('if', ((('lt', 'X', P.th['X'][0]) if i == 0 else ('s', 'N', ['a'])), [('sample', 'NY'[i], K['NY'[i]])]), (True, [('sample', 'NY'[i], K['NY'[i]])]))])],
    'for-cond': lambda P: [('sample', 'X', 'cont'), ('sample', 'N', 'nom'), ('for', 0, 2, lambda i: [('cond', C(P)['X<s or a'] if i else C(P)['xor'])])],
    'for-for': lambda P: [('for', 0, 2, lambda i: [('for', 0, 1 + i, lambda j: [('sample', ['X', 'N', 'Y'][i + j], K[['X', 'N', 'Y'][i + j]])])])],
    'constrain-name': lambda P: [('sample', 'X', 'cont'), ('if', (C(P)['X<s'], [('sample', 'N', 'nom')]), (True, [('sample', 'N', 'nom')])), ('constrain', 'N', 'a', 'nom')],
    'switch-then-if': lambda P: [('sample', 'N', 'nom'), ('switch', 'N', 'list', SW(P)['names'][1], lambda i: [('sample', 'X', 'cont')]), ('if', (('lt', 'X', P.th['X'][0]), [('sample', 'Y', 'cont')]), (True, [('sample', 'Y', 'cont')]))],
    'no-else-last': lambda P: [('sample', 'X', 'cont'), ('sample', 'N', 'nom'), ('if', (C(P)['a'], [('sample', 'Y', 'cont')]), (C(P)['b'], [('sample', 'Y', 'cont')]), (C(P)['X<s'], [('sample', 'Y', 'cont')]))],
}
@case('program', params=[dict(k=k) for k in SEQ], cost=6)
def program(ctx, k):
    P = Prog(ctx, ['X', 'N', 'Y'], K, n={'X': 2, 'Y': 1}, strict=True)
    prog = SEQ[k](P)
    states = P.run(prog)
    vs = [v for v in 'XNY' if states is None or v in states[0][1]]
    q = qs(P, vs) if states is not None else []
    if k == 'let-if': q += [('Z and Y', ('and', ('gt', 'Z', P.th['X'][0]), lit('Y', 0, P.th)))]
    check(ctx, P, prog, q)

@case('zero-weights', params=[dict(cs=c) for c in ('a|else', 'a|b', 'b|a', 'z|else', 'X<s or a|else', 'X<s and a|b|else')], cost=6)
def zero_weights(ctx, cs):
    """Branches whose probability may be zero."""
    P = Prog(ctx, ['X', 'N', 'Y'], K, n={'X': 2, 'Y': 1}, strict=True, zero_ok=True)
    cond = C(P)
    prog = [('sample', 'X', 'cont'), ('sample', 'N', 'nom')] + [('if',) + tuple((cond[c], [('sample', 'Y', 'cont')]) for c in cs.split('|'))]
    check(ctx, P, prog, [('Y', lit('Y', 0, P.th)), ('N and Y', ('and', ('s', 'N', ['a']), lit('Y', 1, P.th)))])

@case('bounded', params=[dict(cs=c) for c in ('X<s|else', 'X<s|X<t|else', 'out|else')], cost=6)
def bounded(ctx, cs):
    """A variable of bounded range, with thresholds anywhere."""
    P = Prog(ctx, ['X', 'Y'], dict(K), n={'X': 2, 'Y': 1}, strict=True)
    cond = C(P)
    prog = [('sample', 'X', 'contb')] + [('if',) + tuple((cond[c], [('sample', 'Y', 'cont')]) for c in cs.split('|'))]
    check(ctx, P, prog, qs(P, ['X', 'Y']))

# -- constrain ---------------------------------------------------------------------------
@case('constrain', params=[dict(k=k) for k in ('before', 'after', 'mixture')], cost=3)
def constrain(ctx, k):
    from sppl.compilers import ast_to_spe as A
    from sppl.transforms import Id
    X, N = Id('X'), Id('N')
    v, t = ctx.real('v'), ctx.real('t')
    n1, n2 = [make_leaf(ctx, 'nom', 'N', 'n%d' % i, True) for i in (1, 2)]
    x1, x2 = [make_leaf(ctx, 'cont', 'X', 'x%d' % i, True) for i in (1, 2)]
    S = lambda V, l: A.Sample(V, lambda s: l['spe'])
    p = lambda l: ctx.frac(l['dist']['a'])
    if k == 'after':
        spe = A.Sequence(S(X, x1), A.IfElse(X < t, S(N, n1), True, S(N, n2)), A.Constrain({X: v})).interpret()
        want = p(n1) if bool(v < t) else p(n2)
    elif k == 'before':
        spe = A.Sequence(S(X, x1), A.Constrain({X: v}), A.IfElse(X < t, S(N, n1), True, S(N, n2))).interpret()
        want = p(n1) if bool(v < t) else p(n2)
    else:
        spe = A.Sequence(S(N, n1), A.IfElse(N << {'a'}, S(X, x1), True, S(X, x2)), A.Constrain({X: v})).interpret()
        d1, d2 = x1['law'].density(v), x2['law'].density(v)
        want = p(n1) * d1 / (p(n1) * d1 + (1 - p(n1)) * d2)
    ctx.check(ctx.eq(prob(ctx, spe, N << {'a'}), want), 'probability after constraining')
    ctx.check(ctx.eq(prob(ctx, spe, X << set_([v])), 1), 'the constrained value')
    ctx.check(ctx.eq(prob(ctx, spe, X <= t), ctx.const(1) if bool(v <= t) else ctx.const(0)), 'the constrained value')
