"""C16 Compiling source text preserves the program: compilers/sppl_to_python.py, run by compilers/ast_to_spe.py on the real inference code."""
from engine.h import case
from harness.srcs import *
from harness.joint import lit
from harness.C15 import C, K, IF_X, IF_XN, IF_XI, UNCOVERED, BODIES, SEQ, refused, qs

BOUNDS = ('source texts of up to 12 lines: every assignment form, ==, !=, in, not in, connectives &, |, ~, ^, and, or, not, chained comparisons, if/elif/else and conditional expressions of up to 4 branches, '
          'nested blocks to depth 3, switch (plain, enumerate, over sets), loops of up to 3 rounds and nested, arrays of up to 4 elements with computed indexes, constants, imports, condition and constrain; '
          'all numeric constants of the text, weights and laws symbolic')
OUTSIDE = 'source texts beyond the listed forms; the distribution constructors (C20); accuracy of scipy; floating-point rounding'
ASSUMPTIONS = ['norm and poisson in the text are stand-ins making a variable with an arbitrary law', 'scipy evaluates cdf/logcdf/pmf/logpmf of the law exactly; logsumexp and exp/log are exact']

def check(ctx, P, text, values, prog, queries, model='model', after=None, unify=True):
    states = P.run(prog)
    if states is None:
        ctx.check(refused(lambda: run_text(P, text, values, model)), 'an impossible or uncovered program is refused')
        return
    ns = run_text(P, text, values, model)
    spe = getattr(ns, model)
    for n, q in queries:
        ctx.check(ctx.eq(prob(ctx, spe, P.obj(q)), P.P(q, states)), 'probability of %s' % n)
    if after: after(ns, spe)

# -- branches: every shape of condition, every spelling ----------------------------------
STYLES = [('==', '&'), ('in', '&'), ('==', 'and'), ('in', '~')]
def setting(ctx, first, eq, conn, n=None):
    P = Prog(ctx, list(first) + ['Y', 'M'], K, n=n or {'X': 2, 'Y': 1, 'I': 1}, strict=True)
    return P, Src(P, eq, conn, '=' if eq == 'in' else '~='), [('sample', v, K[v]) for v in first]

IFS = [('X', c) for c in IF_X[:1] + IF_X[2:4] + IF_X[5:9] + IF_X[15:16]] + [('XN', c) for c in IF_XN if len(c) < 4] + [('XI', c) for c in IF_XI[:4]] + [('X', UNCOVERED[0])]
@case('if', params=[dict(first=f, cs='|'.join(c), eq=e, conn=o) for f, c in IFS for e, o in STYLES], cost=4)
def if_(ctx, first, cs, eq, conn):
    P, S, pre = setting(ctx, first, eq, conn)
    cond = C(P)
    prog = pre + [('if',) + tuple((cond[c], [('sample', 'Y', 'cont')]) for c in cs.split('|'))]
    text = S.text(prog)
    if 'XI' == first or len(first) > 1: q = [('Y', lit('Y', 0, P.th)), ('X and Y', ('and', lit('X', 0, P.th), lit('Y', 1, P.th))), ('%s or Y' % first[1], ('or', lit(first[1], 0, P.th), lit('Y', 0, P.th)))]
    else: q = qs(P, ['X', 'Y'])
    check(ctx, P, text, S.values, prog, q)

@case('ifexp', params=[dict(first=f, cs='|'.join(c), eq=e, conn=o) for f, c in (('X', IF_X[0]), ('X', IF_X[2]), ('X', IF_X[3]), ('XN', IF_XN[6]), ('XN', IF_XN[10]), ('XN', IF_XN[13]), ('X', IF_X[15]), ('XN', ('xor', 'a', 'else'))) for e, o in STYLES], cost=4)
def ifexp(ctx, first, cs, eq, conn):
    """Y ~= A if c1 else B if c2 else C"""
    P, S, pre = setting(ctx, first, eq, conn)
    cond, cs = C(P), cs.split('|')
    prog = pre + [('if',) + tuple((cond[c], [('shared', 'Y', 'cont', 'y%d' % i)]) for i, c in enumerate(cs))]
    lines = S.lines(pre)
    e = S.dist('Y', 'cont', 'y%d' % (len(cs) - 1))
    for i in range(len(cs) - 2, -1, -1): e = '%s if (%s) else %s' % (S.dist('Y', 'cont', 'y%d' % i), S.ev(cond[cs[i]]), e)
    text = '\n'.join(['from vf_given import ' + ', '.join(S.values) if S.values else ''] + lines + ['Y ~= (%s)' % e])
    check(ctx, P, text, S.values, prog, qs(P, list(first) + ['Y'])[-4:])

@case('ifexp-nested', cost=4)
def ifexp_nested(ctx):
    """A conditional expression inside the first branch of another."""
    P, S, pre = setting(ctx, 'XN', '==', '&')
    s, t = P.th['X']
    prog = pre + [('if', (('lt', 'X', s), [('if', (('s', 'N', ['a']), [('shared', 'Y', 'cont', 'y0')]), (True, [('shared', 'Y', 'cont', 'y1')]))]), (True, [('shared', 'Y', 'cont', 'y2')]))]
    text = 'import vf_given as G\n' + '\n'.join(S.lines(pre)) + "\nY ~= (norm(tag='y0') if N == 'a' else norm(tag='y1')) if X < G.s else norm(tag='y2')\n"
    check(ctx, P, text.replace('~= choice', '~= choice'), dict(S.values, s=s.x), prog, qs(P, 'XNY')[-4:]) if not S.values else check(ctx, P, 'from vf_given import ' + ', '.join(S.values) + '\n' + text, dict(S.values, s=s.x), prog, qs(P, 'XNY')[-4:])

@case('branch', params=[dict(body=b, first=f, cs=c, eq=e, conn=o) for b in BODIES if b not in ('skip', 'cond-or-skip') for f, c in (('X', 'X<s|X<t|else'), ('XN', 'X<s and a|else')) for e, o in (STYLES[0], STYLES[2])], cost=6)
def branch(ctx, body, first, cs, eq, conn):
    """What the blocks do."""
    P, S, pre = setting(ctx, first, eq, conn)
    cond = C(P)
    prog = pre + [('if',) + tuple((cond[c], BODIES[body](P, i)) for i, c in enumerate(cs.split('|')))]
    vs = list(first) + ['Y'] + (['M'] if body in ('two', 'two-swapped', 'nested', 'seq') else [])
    q = [(v, lit(v, 0, P.th)) for v in vs] + [('X and last', ('and', lit('X', 0, P.th), lit(vs[-1], 1, P.th)))]
    if len(vs) > 2: q.append(('or', ('or', lit(vs[1], 0, P.th), lit(vs[-1], 0, P.th))))
    if body.startswith('let'): q += [('V', ('le', 'V', P.th['Y'][0])), ('X and V', ('and', lit('X', 0, P.th), ('gt', 'V', P.th['Y'][0])))]
    check(ctx, P, S.text(prog), S.values, prog, q)

@case('program', params=[dict(k=k, eq=e, conn=o) for k in SEQ if not k.startswith('for') and not k.startswith('switch') and k not in ('seq', 'one') for e, o in (STYLES[0], STYLES[2])], cost=6)
def program(ctx, k, eq, conn):
    """Sequences of statements."""
    P, S, _ = setting(ctx, 'XN', eq, conn)
    prog = SEQ[k](P)
    text = S.text(prog)
    states = P.run(prog)
    vs = [v for v in 'XNY' if states is None or v in states[0][1]]
    q = qs(P, vs) if states is not None else []
    if k == 'let-if': q += [('Z and Y', ('and', ('gt', 'Z', P.th['X'][0]), lit('Y', 0, P.th)))]
    check(ctx, P, text, S.values, prog, q)

# -- conditions in every spelling --------------------------------------------------------
CONDS = [ # text with {V} and thresholds s < t, meaning over X, N
    ('X < s and N == "a"', lambda s, t: ('and', ('lt', 'X', s), ('s', 'N', ['a']))),
    ('N == "a" and X < s', lambda s, t: ('and', ('lt', 'X', s), ('s', 'N', ['a']))),
    ('X < s or N == "a"', lambda s, t: ('or', ('lt', 'X', s), ('s', 'N', ['a']))),
    ('X > s and X < t and N != "a"', lambda s, t: ('and', ('gt', 'X', s), ('lt', 'X', t), ('s', 'N', ['b']))),
    ('X < s or X > t or N == "a"', lambda s, t: ('or', ('lt', 'X', s), ('gt', 'X', t), ('s', 'N', ['a']))),
    ('X < s or X > t and N == "a"', lambda s, t: ('or', ('lt', 'X', s), ('and', ('gt', 'X', t), ('s', 'N', ['a'])))),
    ('(X < s or N == "a") and X < t', lambda s, t: ('and', ('or', ('lt', 'X', s), ('s', 'N', ['a'])), ('lt', 'X', t))),
    ('not X < s', lambda s, t: ('ge', 'X', s)),
    ('not (X < s or N == "a")', lambda s, t: ('and', ('ge', 'X', s), ('s', 'N', ['b']))),
    ('not X > s and N == "a"', lambda s, t: ('and', ('le', 'X', s), ('s', 'N', ['a']))),
    ('s < X < t', lambda s, t: ('and', ('gt', 'X', s), ('lt', 'X', t))),
    ('s <= X < t', lambda s, t: ('and', ('ge', 'X', s), ('lt', 'X', t))),
    ('s < X <= t', lambda s, t: ('and', ('gt', 'X', s), ('le', 'X', t))),
    ('t >= X > s', lambda s, t: ('and', ('gt', 'X', s), ('le', 'X', t))),
    ('not s < X < t', lambda s, t: ('or', ('le', 'X', s), ('ge', 'X', t))),
    ('s <= X <= t or N == "a"', lambda s, t: ('or', ('and', ('ge', 'X', s), ('le', 'X', t)), ('s', 'N', ['a']))),
    ('(s < X) < t', lambda s, t: ('and', ('gt', 'X', s), ('lt', 'X', t))),
    ('(s <= X) <= t', lambda s, t: ('and', ('ge', 'X', s), ('le', 'X', t))),
    ('(X < s) & (N == "a")', lambda s, t: ('and', ('lt', 'X', s), ('s', 'N', ['a']))),
    ('(X < s) | (N != "b") & (X < t)', lambda s, t: ('or', ('lt', 'X', s), ('and', ('s', 'N', ['a']), ('lt', 'X', t)))),
    ('~(X < s) & ~(N == "a")', lambda s, t: ('and', ('ge', 'X', s), ('s', 'N', ['b']))),
    ('~((X < s) & (N not in {"a", "z"}))', lambda s, t: ('not', ('and', ('lt', 'X', s), ('s', 'N', ['b'])))),
    ('(X < t) ^ (N in {"a", "z"})', lambda s, t: ('xor', ('lt', 'X', t), ('s', 'N', ['a']))),
    ('X == s', lambda s, t: ('in', 'X', [s])),
    ('X != s', lambda s, t: ('not', ('in', 'X', [s]))),
    ('X in {s, t}', lambda s, t: ('in', 'X', [s, t])),
    ('X not in {s, t}', lambda s, t: ('not', ('in', 'X', [s, t]))),
    ('X not in {s, t} and N == "a"', lambda s, t: ('and', ('not', ('in', 'X', [s, t])), ('s', 'N', ['a']))),
    ('X in Interval(s, t)', lambda s, t: ('and', ('ge', 'X', s), ('le', 'X', t))),
    ('X not in Interval.open(s, t)', lambda s, t: ('or', ('le', 'X', s), ('ge', 'X', t))),
    ('(X in Interval.Ropen(s, t)) & (N in {"b"})', lambda s, t: ('and', ('ge', 'X', s), ('lt', 'X', t), ('s', 'N', ['b']))),
    ('X - s < t - s', lambda s, t: ('lt', 'X', t)),
    ('2*X + 1 <= 2*s + 1', lambda s, t: ('le', 'X', s)),
    ('-X < -s', lambda s, t: ('gt', 'X', s)),
    ('s < X and X < t and 1 < 2', lambda s, t: ('and', ('gt', 'X', s), ('lt', 'X', t))),
    ('not (not (X < s))', lambda s, t: ('lt', 'X', s)),
    ('not not X < s', lambda s, t: ('lt', 'X', s)),
]
HEAD = "from vf_given import s, t, p, q\nfrom sppl.sets import Interval\nX ~= norm(tag='X')\nN ~= choice({'a': p, 'b': q})\n"
@case('condition', params=[dict(c=c, how=h) for c, _ in CONDS for h in ('condition', 'if', 'elif', 'ifexp')], cost=5)
def condition(ctx, c, how):
    P = Prog(ctx, ['X', 'N', 'Y'], K, n={'X': 2, 'Y': 1}, strict=True)
    s, t = P.th['X']
    ev = dict(CONDS)[c](s, t)
    d = P.leaf('N', 'nom', 'N')['dist']
    values = dict(s=s.x, t=t.x, p=d['a'], q=d['b'])
    pre = [('shared', 'X', 'cont', 'X'), ('shared', 'N', 'nom', 'N')]
    q = qs(P, ['X', 'N'] if how == 'condition' else ['X', 'N', 'Y'])
    y = lambda i: [('shared', 'Y', 'cont', 'y%d' % i)]
    if how == 'condition':
        check(ctx, P, HEAD + 'condition(%s)\n' % c, values, pre + [('cond', ev)], q)
    elif how == 'if':
        check(ctx, P, HEAD + "if %s:\n    Y ~= norm(tag='y0')\nelse:\n    Y ~= norm(tag='y1')\n" % c, values, pre + [('if', (ev, y(0)), (True, y(1)))], q[2:5] + q[-1:])
    elif how == 'elif':
        check(ctx, P, HEAD + "if N == 'b':\n    Y ~= norm(tag='y0')\nelif %s:\n    Y ~= norm(tag='y1')\nelse:\n    Y ~= norm(tag='y2')\n" % c, values, pre + [('if', (('s', 'N', ['b']), y(0)), (ev, y(1)), (True, y(2)))], q[2:5] + q[-1:])
    else:
        check(ctx, P, HEAD + "Y ~= norm(tag='y0') if %s else norm(tag='y1')\n" % c, values, pre + [('if', (ev, y(0)), (True, y(1)))], q[2:5] + q[-1:])

# -- whole texts -------------------------------------------------------------------------
def smp(v, k=None, kind=None): return ('shared', v, kind or K.get(v, 'cont'), v if k is None else k)
TEXTS = {}
def text(name, vs, src, values=lambda P: {}, model='model', n=1, kinds={}):
    def deco(f):
        TEXTS[name] = (vs, src, values, f, model, n, kinds)
        return f
    return deco
A3 = ['A[0]', 'A[1]', 'A[2]']

@text('loop', A3, "A = array(3)\nfor i in range(3):\n    A[i] ~= norm(tag=i)\n")
def _(P): return [smp(a, i) for i, a in enumerate(A3)]
@text('loop-from', A3, "A = array(3)\nA[0] ~= norm(tag=0)\nfor i in range(1, 3):\n    A[i] ~= norm(tag=i)\n")
def _(P): return [smp(a, i) for i, a in enumerate(A3)]
@text('loop-expressions', A3, "A = array(2*1 + 1)\nn = 3\nA[0] ~= norm(tag=0)\nfor i in range(n-2, n):\n    A[i] ~= norm(tag=10*i + 1)\n")
def _(P): return [smp('A[0]', 0), smp('A[1]', 11), smp('A[2]', 21)]
@text('loop-shift', A3, "n = 2\nA = array(n+1)\nA[n] ~= norm(tag=5)\nfor k in range(n):\n    A[n-1-k] ~= norm(tag=k)\n")
def _(P): return [smp('A[2]', 5), smp('A[1]', 0), smp('A[0]', 1)]
@text('loop-nested', ['A[0]', 'A[1]', 'A[2]', 'A[3]'], "A = array(4)\nfor i in range(2):\n    for j in range(2):\n        A[2*i + j] ~= norm(tag=(i, j))\n")
def _(P): return [smp('A[%d]' % (2 * i + j), (i, j)) for i in range(2) for j in range(2)]
@text('loop-triangle', A3, "A = array(3)\nfor i in range(2):\n    for j in range(i, 2):\n        A[i + j] ~= norm(tag=(i, j))\n")
def _(P): return [smp('A[0]', (0, 0)), smp('A[1]', (0, 1)), smp('A[2]', (1, 1))]
@text('loop-order', ['A[0]', 'A[1]', 'X'], "from vf_given import s\nA = array(2)\nX ~= norm(tag='X')\nfor i in range(2):\n    A[i] ~= norm(tag=i)\n    condition(A[i] > X - X + s if False else A[i] > s)\n" .replace('A[i] > X - X + s if False else ', ''), lambda P: dict(s=P.th['X'][0].x), n={'A[0]': 1, 'A[1]': 1, 'X': 1})
def _(P):
    P.th['A[0]'] = P.th['A[1]'] = P.th['X']; P.space['A[0]'] = P.space['A[1]'] = P.space['X']
    t = P.th['X'][0]
    return [smp('X'), smp('A[0]', 0), ('cond', ('gt', 'A[0]', t)), smp('A[1]', 1), ('cond', ('gt', 'A[1]', t))]
@text('loop-if', ['X', 'A[0]', 'A[1]'], "from vf_given import s\nA = array(2)\nX ~= norm(tag='X')\nfor i in range(2):\n    if X < s + i*0:\n        A[i] ~= norm(tag=i)\n    else:\n        A[i] ~= norm(tag=-1 - i)\n", lambda P: dict(s=P.th['X'][0].x))
def _(P):
    t = P.th['X'][0]
    return [smp('X')] + [('if', (('lt', 'X', t), [smp('A[%d]' % i, i)]), (True, [smp('A[%d]' % i, -1 - i)])) for i in range(2)]
@text('markov', ['Z[0]', 'Z[1]', 'Z[2]'], "from vf_given import p, q\nZ = array(3)\nZ[0] ~= choice({'a': p, 'b': q})\nfor i in range(1, 3):\n    if Z[i-1] == 'a':\n        Z[i] ~= choice({'a': p, 'b': q})\n    else:\n        Z[i] ~= choice({'a': q, 'b': p})\n",
      lambda P: dict(zip('pq', [P.leaf('z0', 'nom', 'Z[0]')['dist'][x] for x in 'ab'])), kinds={'Z[%d]' % i: 'nom' for i in range(3)})
def _(P):
    d = P.leaf('z0', 'nom', 'Z[0]')['dist']
    fr = P.ctx.frac
    same = lambda c: fr(d[c[1]]) if c[0] == 's' and c[1] in d else P.ctx.const(0)
    P.leaves['same'] = dict(mass=same)
    P.leaves['flip'] = dict(mass=lambda c: same(('s', {'a': 'b', 'b': 'a'}[c[1]])))
    return [smp('Z[0]', 'same', 'nom')] + [('if', (('s', 'Z[%d]' % (i - 1), ['a']), [smp('Z[%d]' % i, 'same', 'nom')]), (True, [smp('Z[%d]' % i, 'flip', 'nom')])) for i in (1, 2)]
@text('switch', ['N', 'Y'], "from vf_given import p, q\nN ~= choice({'a': p, 'b': q})\nswitch (N) cases (v in ['a', 'b']):\n    Y ~= norm(tag=v)\n", lambda P: names(P))
def _(P): return [smp('N'), ('if', (('s', 'N', ['a']), [smp('Y', 'a')]), (True, [smp('Y', 'b')]))]
@text('switch-one-line', ['N', 'Y'], "from vf_given import p, q\nN ~= choice({'a': p, 'b': q})\nswitch (N) cases (v in ['a', 'b']): Y ~= norm(tag=v)\n", lambda P: names(P))
def _(P): return [smp('N'), ('if', (('s', 'N', ['a']), [smp('Y', 'a')]), (True, [smp('Y', 'b')]))]
@text('switch-one-line-dict', ['N', 'M'], "from vf_given import p, q\nN ~= choice({'a': p, 'b': q})\nswitch (N) cases (v in ['a', 'b']): M ~= choice({str(v): 1})\n", lambda P: names(P))
def _(P):
    for x in 'ab': P.leaves['m' + x] = dict(mass=lambda c, x=x: P.ctx.const(1 if c[1] == x else 0))
    return [smp('N'), ('if', (('s', 'N', ['a']), [smp('M', 'ma')]), (True, [smp('M', 'mb')]))]
@text('switch-spaces', ['N', 'Y'], "from vf_given import p, q\nN ~= choice({'a': p, 'b': q})\nswitch(N)cases( v in  ['b', 'a'] ) :\n    Y ~= norm(tag=v)\n", lambda P: names(P))
def _(P): return [smp('N'), ('if', (('s', 'N', ['a']), [smp('Y', 'a')]), (True, [smp('Y', 'b')]))]
@text('switch-enumerate', ['N', 'Y'], "from vf_given import p, q\nN ~= choice({'a': p, 'b': q})\nswitch (N) cases (i, v in enumerate(['b', 'a'])):\n    Y ~= norm(tag=(v, i))\n", lambda P: names(P))
def _(P): return [smp('N'), ('if', (('s', 'N', ['a']), [smp('Y', ('a', 1))]), (True, [smp('Y', ('b', 0))]))]
@text('switch-enumerate-tuple', ['N', 'Y'], "from vf_given import p, q\nN ~= choice({'a': p, 'b': q})\nswitch (N) cases ((i, v) in enumerate(('b', 'a'))):\n    Y ~= norm(tag=(v, i))\n", lambda P: names(P))
def _(P): return [smp('N'), ('if', (('s', 'N', ['a']), [smp('Y', ('a', 1))]), (True, [smp('Y', ('b', 0))]))]
@text('switch-comprehension', ['N', 'Y'], "from vf_given import p, q\nN ~= choice({'a': p, 'b': q})\nswitch (N) cases (v in [x for x in ('a', 'b')]):\n    Y ~= norm(tag=v)\n", lambda P: names(P))
def _(P): return [smp('N'), ('if', (('s', 'N', ['a']), [smp('Y', 'a')]), (True, [smp('Y', 'b')]))]
@text('switch-names', ['N', 'Y'], "from vf_given import p, q\nbins = ['a', 'b']\nN ~= choice({'a': p, 'b': q})\nswitch (N) cases (bin in bins):\n    Y ~= norm(tag=bin)\n", lambda P: names(P))
def _(P): return [smp('N'), ('if', (('s', 'N', ['a']), [smp('Y', 'a')]), (True, [smp('Y', 'b')]))]
@text('switch-sets', ['X', 'Y'], "from vf_given import s, t\nfrom sppl.sets import Interval\ninf = float('inf')\nX ~= norm(tag='X')\nswitch (X) cases (i, v in enumerate([Interval.Ropen(-inf, s), Interval(-inf, t), Interval(s, inf)])):\n    Y ~= norm(tag=i)\n",
      lambda P: dict(s=P.th['X'][0].x, t=P.th['X'][1].x), n={'X': 2, 'Y': 1})
def _(P):
    s, t = P.th['X']
    return [smp('X'), ('if', (('lt', 'X', s), [smp('Y', 0)]), (('le', 'X', t), [smp('Y', 1)]), (True, [smp('Y', 2)]))]
@text('switch-nested', ['N', 'M', 'Y'], "from vf_given import p, q\nN ~= choice({'a': p, 'b': q})\nM ~= choice({'a': p, 'b': q})\nswitch (N) cases (v in ['a', 'b']):\n    switch (M) cases (w in ['a', 'b']):\n        Y ~= norm(tag=v + w)\n", lambda P: names(P))
def _(P):
    P.leaves['M'] = P.leaf('N', 'nom', 'N')
    return [smp('N'), smp('M')] + [('if', (('s', 'N', ['a']), [('if', (('s', 'M', ['a']), [smp('Y', 'aa')]), (True, [smp('Y', 'ab')]))]), (True, [('if', (('s', 'M', ['a']), [smp('Y', 'ba')]), (True, [smp('Y', 'bb')]))]))]
@text('switch-same-name', ['N', 'M', 'X', 'Y'], "from vf_given import p, q\nN ~= choice({'a': p, 'b': q})\nM ~= choice({'a': p, 'b': q})\nswitch (N) cases (v in ['a', 'b']):\n    X ~= norm(tag='X' + v)\n    switch (M) cases (v in ['a', 'b']): Y ~= norm(tag='Y' + v)\n", lambda P: names(P))
def _(P):
    P.leaves['M'] = P.leaf('N', 'nom', 'N')
    inner = ('if', (('s', 'M', ['a']), [smp('Y', 'Ya')]), (True, [smp('Y', 'Yb')]))
    return [smp('N'), smp('M')] + [('if', (('s', 'N', ['a']), [smp('X', 'Xa'), inner]), (True, [smp('X', 'Xb'), inner]))]
@text('switch-array', ['N[0]', 'N[1]', 'A[0]', 'A[1]'], "from vf_given import p, q\nN = array(2)\nA = array(2)\nfor i in range(2):\n    N[i] ~= choice({'a': p, 'b': q})\n    switch (N[i]) cases (v in ['a', 'b']):\n        A[i] ~= norm(tag=(v, i))\n",
      lambda P: dict(zip('pq', [P.leaf('N', 'nom', 'N[0]')['dist'][x] for x in 'ab'])), kinds={'N[0]': 'nom', 'N[1]': 'nom'})
def _(P):
    out = []
    for i in range(2): out += [('shared', 'N[%d]' % i, 'nom', 'N'), ('if', (('s', 'N[%d]' % i, ['a']), [smp('A[%d]' % i, ('a', i))]), (True, [smp('A[%d]' % i, ('b', i))]))]
    return out
@text('if-switch', ['X', 'N', 'Y'], "from vf_given import p, q, s\nX ~= norm(tag='X')\nif X < s:\n    N ~= choice({'a': p, 'b': q})\n    switch (N) cases (v in ['a', 'b']):\n        Y ~= norm(tag=v)\nelse:\n    N ~= choice({'a': q, 'b': p})\n    Y ~= norm(tag='c')\n",
      lambda P: dict(names(P), s=P.th['X'][0].x))
def _(P):
    d = P.leaf('N', 'nom', 'N')
    P.leaves['flip'] = dict(mass=lambda c: d['mass'](('s', {'a': 'b', 'b': 'a'}[c[1]])))
    return [smp('X'), ('if', (('lt', 'X', P.th['X'][0]), [smp('N'), ('if', (('s', 'N', ['a']), [smp('Y', 'a')]), (True, [smp('Y', 'b')]))]), (True, [smp('N', 'flip'), smp('Y', 'c')]))]
@text('mixture', ['X', 'Y'], "from vf_given import v, w, s\nX ~= v*norm(tag=0) | w*norm(tag=1)\nY ~= norm(tag=2)\ncondition((X < s) | (Y < 0 + s))\n".replace('0 + ', ''), lambda P: dict(zip('vw', P.leaf('m', 'mix', 'X')['ws']), s=P.th['X'][0].x))
def _(P):
    P.leaf('m', 'mix', 'X')
    P.th['Y'] = P.th['X']; P.space['Y'] = P.space['X']
    for i in range(2): P.leaves[i] = P.leaves['m_%d' % i]
    t = P.th['X'][0]
    return [smp('X', 'm', 'mix'), smp('Y', 2), ('cond', ('or', ('lt', 'X', t), ('lt', 'Y', t)))]
@text('mixture-of-three', ['X'], "from vf_given import u, v, w\nX ~= (u*norm(tag='a') | v*norm(tag='b') | w*norm(tag='c'))\n", lambda P: three(P))
def _(P):
    ws = three(P)
    P.leaves['m'] = dict(mass=lambda c: sum([ws[k] * P.leaf(x, 'cont', 'X')['mass'](c) for k, x in zip('uvw', 'abc')], P.ctx.const(0)))
    return [smp('X', 'm')]
@text('mixture-in-branch', ['X', 'Y'], "from vf_given import u, v, w, s\nX ~= norm(tag='X')\nif X < s:\n    Y ~= norm(tag='y')\nelse:\n    Y ~= u*norm(tag='a') | v*norm(tag='b') | w*norm(tag='c')\n", lambda P: dict(three(P), s=P.th['X'][0].x))
def _(P):
    ws = three(P)
    P.leaves['m'] = dict(mass=lambda c: sum([ws[k] * P.leaf(x, 'cont', 'Y')['mass'](c) for k, x in zip('uvw', 'abc')], P.ctx.const(0)))
    return [smp('X'), ('if', (('lt', 'X', P.th['X'][0]), [smp('Y', 'y')]), (True, [smp('Y', 'm')]))]
@text('constants', ['X', 'Y'], "import math\nfrom vf_given import s as start\na = start\nb = a + 1\nc = math.floor(2.5)\nlabel = 'x'\ntags = {'k': label, 'm': [7, c]}\nX ~= norm(tag=tags['k'])\nif X < b - 1:\n    Y ~= norm(tag=tags['m'][1])\nelse:\n    Y ~= norm(tag=c + 1)\n", lambda P: dict(s=P.th['X'][0].x))
def _(P): return [smp('X', 'x'), ('if', (('lt', 'X', P.th['X'][0]), [smp('Y', 2)]), (True, [smp('Y', 3)]))]
@text('constants-again', ['X'], "a = 1\nb = a\na = 2\nc = a\na = 1\nX ~= norm(tag=(a, b, c))\n")
def _(P): return [smp('X', (1, 1, 2))]
@text('constants-order', ['X'], "n = 2\nn = n + 1\nn = n * 2\nX ~= norm(tag=n)\n")
def _(P): return [smp('X', 6)]
@text('constants-strings', ['X', 'N'], "from vf_given import p, q\nname = 'a~=b'\nother = \"it's ~= 'x'\"  # ~= \nX ~= norm(tag=(name, other))\nN ~= choice({'a': p, 'b': q})\n", lambda P: names(P))
def _(P): return [smp('X', ('a~' + '=b', "it's ~" + "= 'x'")), smp('N')]
@text('constants-eq', ['X', 'Y'], "n = 2\nm = 3\nX ~= norm(tag='two' if n == 2 else 'other')\nY ~= norm(tag='both' if n == 2 and m in {3, 4} else 'not' if not n == m else 'none')\n")
def _(P): return [smp('X', 'two'), smp('Y', 'both')]
@text('constants-in-loop', ['A[0]', 'A[1]'], "A = array(2)\nfor i in range(2):\n    A[i] ~= norm(tag='first' if i == 0 else 'next')\n")
def _(P): return [smp('A[0]', 'first'), smp('A[1]', 'next')]
@text('imports', ['X', 'Y'], "import vf_given\nimport vf_given as G, math as m\nfrom vf_given import s as S0\nX ~= norm(tag='X')\ncondition((X < vf_given.s) | (X > G.s + m.floor(.5)))\nif X < S0:\n    Y ~= norm(tag=0)\nelse:\n    Y ~= norm(tag=1)\n", lambda P: dict(s=P.th['X'][0].x))
def _(P):
    t = P.th['X'][0]
    return [smp('X'), ('cond', ('or', ('lt', 'X', t), ('gt', 'X', t))), ('if', (('lt', 'X', t), [smp('Y', 0)]), (True, [smp('Y', 1)]))]
@text('transform', ['X', 'Y'], "from vf_given import s, c\nX ~= norm(tag='X')\nZ = 2*X + c\nV = Z - 1\nif V < 2*s + c - 1:\n    Y ~= norm(tag=0)\nelse:\n    Y ~= norm(tag=1)\ncondition(Z > 2*s + c)\n", lambda P: dict(s=P.th['X'][0].x, c=P.ctx.real('c')))
def _(P):
    t = P.th['X'][0]
    return [smp('X'), ('if', (('lt', 'X', t), [smp('Y', 0)]), (True, [smp('Y', 1)])), ('cond', ('gt', 'X', t))]
@text('transform-branch', ['X', 'Y'], "from vf_given import s\nX ~= norm(tag='X')\nif X < s:\n    Z = X\n    Y ~= norm(tag=0)\nelse:\n    Z = 2*s - X\n    Y ~= norm(tag=1)\ncondition(Z < s)\n", lambda P: dict(s=P.th['X'][0].x))
def _(P):
    t = P.th['X'][0]
    return [smp('X'), ('if', (('lt', 'X', t), [smp('Y', 0)]), (True, [smp('Y', 1)])), ('cond', ('not', ('in', 'X', [t])))]
@text('transform-ifexp', ['X', 'Y'], "from vf_given import s\nX ~= norm(tag='X')\nZ = X - s if X < s else s - X\ncondition(Z < 0)\nY ~= norm(tag=1)\n", lambda P: dict(s=P.th['X'][0].x))
def _(P): return [smp('X'), ('cond', ('not', ('in', 'X', [P.th['X'][0]]))), smp('Y', 1)]
@text('transform-event', ['X', 'Y'], "from vf_given import s\nX ~= norm(tag='X')\nB = X < s\nif B == 1:\n    Y ~= norm(tag=0)\nelse:\n    Y ~= norm(tag=1)\n", lambda P: dict(s=P.th['X'][0].x))
def _(P): return [smp('X'), ('if', (('lt', 'X', P.th['X'][0]), [smp('Y', 0)]), (True, [smp('Y', 1)]))]
@text('transform-array', ['A[0]', 'Y'], "from vf_given import s\nA = array(3)\nA[0] ~= norm(tag='X')\nfor i in range(2):\n    A[i+1] = A[i] + 1\nif A[2] < s + 2:\n    Y ~= norm(tag=0)\nelse:\n    Y ~= norm(tag=1)\n", lambda P: dict(s=P.th['A[0]'][0].x))
def _(P): return [smp('A[0]', 'X'), ('if', (('lt', 'A[0]', P.th['A[0]'][0]), [smp('Y', 0)]), (True, [smp('Y', 1)]))]
@text('condition-order', ['X', 'Y'], "from vf_given import s\nX ~= norm(tag='X')\nif X < s:\n    Y ~= norm(tag=0)\n    condition(Y < s)\nelse:\n    Y ~= norm(tag=1)\n", lambda P: dict(s=P.th['X'][0].x))
def _(P):
    P.th['Y'] = P.th['X']; P.space['Y'] = P.space['X']
    t = P.th['X'][0]
    return [smp('X'), ('if', (('lt', 'X', t), [smp('Y', 0), ('cond', ('lt', 'Y', t))]), (True, [smp('Y', 1)]))]
@text('constrain-order', ['N', 'M', 'Y'], "from vf_given import p, q\nN ~= choice({'a': p, 'b': q})\nif N == 'a':\n    M ~= choice({'a': p, 'b': q})\nelse:\n    M ~= choice({'a': q, 'b': p})\nconstrain({M: 'a'})\nif N == 'a':\n    Y ~= norm(tag=0)\nelse:\n    Y ~= norm(tag=1)\n", lambda P: names(P))
def _(P):
    d = P.leaf('N', 'nom', 'N')
    P.leaves['flip'] = dict(mass=lambda c: d['mass'](('s', {'a': 'b', 'b': 'a'}[c[1]])))
    return [smp('N'), ('if', (('s', 'N', ['a']), [smp('M', 'N')]), (True, [smp('M', 'flip')])), ('cond', ('s', 'M', ['a'])), ('if', (('s', 'N', ['a']), [smp('Y', 0)]), (True, [smp('Y', 1)]))]
@text('layout', ['X', 'Y'], "\n\nfrom vf_given import s\n\n# a comment\nX ~= norm(tag='X')   # another\n\n\nif (X\n        < s):\n\n    # inside\n    Y ~= norm(\n        tag=0)\n\nelse:\n    Y = norm(tag=1)\n    \n\n", lambda P: dict(s=P.th['X'][0].x))
def _(P): return [smp('X'), ('if', (('lt', 'X', P.th['X'][0]), [smp('Y', 0)]), (True, [smp('Y', 1)]))]
@text('else-if', ['X', 'Y', 'W'], "from vf_given import s, t\nX ~= norm(tag='X')\nif X < s:\n    Y ~= norm(tag=0)\n    W ~= norm(tag='w')\nelse:\n    if X < t:\n        Y ~= norm(tag=1)\n    else:\n        Y ~= norm(tag=2)\n    W ~= norm(tag='v')\n", lambda P: dict(s=P.th['X'][0].x, t=P.th['X'][1].x), n={'X': 2, 'Y': 1, 'W': 1})
def _(P):
    s, t = P.th['X']
    return [smp('X'), ('if', (('lt', 'X', s), [smp('Y', 0), smp('W', 'w')]), (True, [('if', (('lt', 'X', t), [smp('Y', 1)]), (True, [smp('Y', 2)])), smp('W', 'v')]))]
@text('else-if-only', ['X', 'Y'], "from vf_given import s, t\nX ~= norm(tag='X')\nif X < s:\n    Y ~= norm(tag=0)\nelse:\n    if X < t:\n        Y ~= norm(tag=1)\n    else:\n        Y ~= norm(tag=2)\n", lambda P: dict(s=P.th['X'][0].x, t=P.th['X'][1].x), n={'X': 2, 'Y': 1})
def _(P):
    s, t = P.th['X']
    return [smp('X'), ('if', (('lt', 'X', s), [smp('Y', 0)]), (True, [('if', (('lt', 'X', t), [smp('Y', 1)]), (True, [smp('Y', 2)]))]))]
@text('model-name', ['X', 'model'], "X ~= norm(tag='X')\nmodel ~= norm(tag='m')\n", model='answer')
def _(P): return [smp('X'), smp('model', 'm')]

def names(P): return dict(zip('pq', [P.leaf('N', 'nom', 'N')['dist'][x] for x in 'ab']))
def three(P):
    if not hasattr(P, 'three'): P.three = dict(zip('uvw', weights(P.ctx, 'w3', 3)))
    return P.three

@case('text', params=[dict(k=k) for k in TEXTS], cost=4)
def text_(ctx, k):
    """Written-out texts."""
    vs, src, values, f, model, n, kinds = TEXTS[k]
    kinds = {**{v: K.get(v, 'cont') for v in vs}, **kinds}
    P = Prog(ctx, vs, kinds, n=n if isinstance(n, int) else {**{v: 1 for v in vs}, **n}, strict=True)
    prog = f(P)
    def after(ns, spe):
        from sppl.transforms import Id
        ctx.check(set(v.token for v in spe.get_symbols()) >= set(vs), 'every variable of the text is in the model')
        for v in vs:
            if '[' in v:
                a, i = v[:-1].split('[')
                ctx.check(getattr(ns, a)[int(i)] == Id(v), 'array elements are named in order')
            else:
                if v != 'model' or model != 'model': ctx.check(getattr(ns, v) == Id(v), 'variables are named')
    q = qs(P, vs)
    if len(vs) > 3: q = q[:len(vs)] + q[-3:]
    check(ctx, P, src, values(P), prog, q, model, after)
