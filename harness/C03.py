"""C03 Solving an event returns exactly its solutions: Transform.invert and Event.solve of transforms.py, with poly.py and sets.py."""
from engine.h import case
from harness.exprs import *
from sppl.sets import EmptySet, FiniteNominal, FiniteReal, Interval, Union
inf = float('inf')

BOUNDS = ('expressions of up to 3 nested operations (affine, square, cube, quartic, reciprocal, absolute value, roots, exponentials and logarithms of any '
          'base, general quadratics and cubics, piecewise), all real constants; events <, <=, >, >=, intervals with any end points, one or two values, '
          'complements and unions; all real thresholds, all real points')
OUTSIDE = 'polynomials of degree above 4; points where a logarithm is taken of zero; accuracy of sympy'
ASSUMPTIONS = ['sympy.solveset returns exactly the real solutions of a polynomial inequality', 'sympy.Pow / log are mutually inverse and strictly monotone']

def numbers_of(S):
    """(points, intervals) read from the public parts of a set; strings are ignored."""
    if S is EmptySet: return [], []
    vals = list(S.args) if isinstance(S, Union) else [S]
    pts, ivs = [], []
    for v in vals:
        if isinstance(v, FiniteReal): pts += list(v.values)
        elif isinstance(v, Interval): ivs.append(v)
        elif not isinstance(v, FiniteNominal): raise AssertionError('unexpected part %r' % (v,))
    return pts, ivs

def is_inf(e):
    import math
    try: return isinstance(e, float) and math.isinf(e) or e in (inf, -inf)
    except TypeError: return False
def member(ctx, S, x):
    pts, ivs = numbers_of(S)
    return ctx.Or(*[near(ctx, x, p) for p in pts if not is_inf(p)], *[ctx.And(
        True if is_inf(v.a) else (x > v.a if v.left_open else x >= v.a), True if is_inf(v.b) else (x < v.b if v.right_open else x <= v.b)) for v in ivs])
def near(ctx, x, p): return x == p

def flags(ctx): return ctx.bool('lo'), ctx.bool('ro')
def two(ctx):
    a, b = ctx.real('s'), ctx.real('t'); ctx.assume(a < b)
    return a, b
NT = dict(iv=2, ch=2, in2=2, out=2, un=2, fin=0, reals=0)
NT['and'] = NT['or'] = 2
def ev(ctx, k, E, ts=None, tv=None):
    """(event, truth of the event at a value, thresholds of the values); tv: thresholds the value is compared with, when the value is given shifted"""
    from engine.api import set_
    n = NT.get(k, 1)
    if ts is None:
        ts = [ctx.real('t')] if n == 1 else list(two(ctx)) if k in ('iv', 'ch', 'out', 'un') else [ctx.real('s'), ctx.real('t')]
    tv = tv or ts
    t, a, b = ts[0], ts[0], ts[-1]
    u, c, d = tv[0], tv[0], tv[-1]
    lo, ro = flags(ctx) if k in ('iv', 'out') else (None, None)
    inside = lambda v: ctx.And(v > c if lo else v >= c, v < d if ro else v <= d)
    return {
        'lt': lambda: (E < t, lambda v: v < u), 'le': lambda: (E <= t, lambda v: v <= u), 'gt': lambda: (E > t, lambda v: v > u), 'ge': lambda: (E >= t, lambda v: v >= u),
        'iv': lambda: (E << Interval(a, b, left_open=lo, right_open=ro), inside),
        'out': lambda: (~(E << Interval(a, b, left_open=lo, right_open=ro)), lambda v: ctx.Not(inside(v))),
        'ch': lambda: ((a < E) <= b, lambda v: ctx.And(v > c, v <= d)),
        'in': lambda: (E << set_([t]), lambda v: v == u), 'ne': lambda: (~(E << set_([t])), lambda v: ctx.Not(v == u)),
        'in2': lambda: (E << set_([a, b]), lambda v: ctx.Or(v == c, v == d)),
        'un': lambda: (E << (Interval.Ropen(-inf, a) | FiniteReal(b)), lambda v: ctx.Or(v < c, v == d)),
        'and': lambda: ((E > a) & (E <= b), lambda v: ctx.And(v > c, v <= d)), 'or': lambda: ((E < a) | (E >= b), lambda v: ctx.Or(v < c, v >= d)),
        'fin': lambda: (E < inf, lambda v: True), 'reals': lambda: (E << Interval(-inf, inf), lambda v: True),
    }[k]() + (tv[:n],)
EVENTS = ['lt', 'le', 'gt', 'ge', 'iv', 'ch', 'in', 'in2', 'ne', 'out', 'un', 'and', 'or', 'fin', 'reals']

def snap(x, ps):
    """Replay only: a number within rounding of an end point is that end point."""
    for p in ps:
        if abs(float(x) - float(p)) <= 1e-8 * (1 + abs(float(p))): return p, True
    return x, False

def decide(ctx, e, event, truth, ts):
    S = event.solve()
    x = ctx.real('x')
    if not e.domain(x):
        ctx.check(ctx.Not(member(ctx, S, x)), 'a solution outside the domain'); return
    v = e.value(x)
    if not ctx.symbolic:
        pts, ivs = numbers_of(S)
        v, sv = snap(v, ts)
        x, sx = snap(x, [p for p in pts + [b for i in ivs for b in (i.a, i.b)] if not is_inf(p)])
        if sv != sx: ctx.assume(False)
    ctx.check(ctx.Iff(member(ctx, S, x), truth(v)), 'solution set')

ONE = ['x', 'neg', 'abs', 'lin', 'lin-', 'c/', '1/', '**2', '**3', '**4', '**-1', '**-2', '**-3', 'sqrt', '**(1,3)', '**(-1,2)', 'exp', '2**', '.5**', '1**', 'b**', 'log', 'log2', '0*']
FORMS['0*'] = (none, lambda E, k: 0 * E, lambda ctx, y, k: 0 * y, T)
@case('one', params=[dict(f=f, ev=k) for f in ONE for k in EVENTS], cost=2)
def one(ctx, f, ev):
    e = chain(ctx, [f])
    decide(ctx, e, *globals()['ev'](ctx, ev, e.obj))

M2 = ['abs', 'lin', '1/', '**2', 'sqrt', 'exp', 'log', '.5**', '**-2']
def run2(ctx, f, g, ev):
    e = chain(ctx, [f, g])
    decide(ctx, e, *globals()['ev'](ctx, ev, e.obj))
P2 = [dict(f=f, g=g, ev=k) for f in M2 for g in M2 for k in ('le', 'iv', 'in')]
case('two', params=P2, thorough=[dict(f=f, g=g, ev=k) for f in M2 for g in M2 for k in ('gt', 'ne', 'out', 'un', 'or')], cost=3)(run2)

T3 = ['lin|abs|lin', 'sqrt|lin|abs', 'log|lin|exp', '1/|lin|1/', 'abs|log|abs', 'lin|1/|abs', 'exp|lin|log', 'neg|abs|1/', 'abs|lin|sqrt', 'log|abs|lin', 'lin|exp|lin']
@case('three', params=[dict(t=t, ev=k) for t in T3 for k in ('lt', 'in')], thorough=[dict(t=t, ev=k) for t in T3 for k in ('iv', 'ge', 'out', 'un')], cost=4)
def three(ctx, t, ev):
    e = chain(ctx, t.split('|'))
    decide(ctx, e, *globals()['ev'](ctx, ev, e.obj))

# -- general polynomials, thresholds placed through the chosen roots --------------------
def quad(ctx, nt):
    """a(x-h)^2 + m with thresholds reached at h +- s (or not reached)"""
    a, h, m = ctx.real('a'), ctx.real('h'), ctx.real('m')
    ctx.assume(ctx.Not(a == 0))
    ts = []
    for i in range(nt):
        s = ctx.real('s%d' % i, lo=0)
        if ctx.bool('reach%d' % i):
            ts.append(a * s * s + m); known(ctx, h - s); known(ctx, h + s)
        else:
            ctx.assume(s > 0); ts.append(m - a * s * s)
    if nt == 2 and not ts[0] < ts[1]:
        ts = ts[::-1]
        ctx.assume(ts[0] < ts[1])
    E = a * X ** 2 - 2 * a * h * X + (a * h * h + m) if ctx.bool('form') else a * (X - h) ** 2 + m
    return Ex(E, lambda x: a * (x - h) * (x - h) + m, lambda x: True), ts
def known(ctx, r):
    if ctx.symbolic: ctx.registry.setdefault('known_roots', []).append(r)
def ctx_pos(ctx, y):
    """A factor that is positive: only its sign matters."""
    return ctx.const(1) if ctx.symbolic else y
SHAPES = {'three': (1, 3), 'double': (0, 2), 'double2': (2, 2), 'triple': (0, 0), 'even': (1, 2)}     # gaps between the roots
def cubic(ctx, k):
    a, t = ctx.real('a'), ctx.real('t')
    ctx.assume(ctx.Not(a == 0))
    r = ctx.const(-1) if k not in ('triple', 'one') else ctx.real('r')
    known(ctx, r)
    if k in SHAPES:
        q, p = r + SHAPES[k][0], r + SHAPES[k][1]
        known(ctx, q); known(ctx, p)
        c = [t - a * r * q * p, a * (r * q + q * p + r * p), -a * (r + q + p), a]
        val = lambda x: a * (x - r) * (x - q) * (x - p)
    else:
        h, d = ctx.real('h'), ctx.real('d', gt=0)
        c = [t - a * r * (h * h + d), a * (h * h + d + 2 * h * r), -a * (2 * h + r), a]
        val = lambda x: a * (x - r) * ctx_pos(ctx, (x - h) * (x - h) + d)
    E = c[3] * X ** 3 + c[2] * X ** 2 + c[1] * X + c[0]
    return Ex(E, val, lambda x: True), [t]
@case('quad', params=[dict(ev=k) for k in ('lt', 'le', 'gt', 'ge', 'in', 'ne', 'iv', 'in2', 'out', 'un')], cost=6)
def quadratics(ctx, ev):
    e, ts = quad(ctx, 2 if ev in ('iv', 'in2', 'out', 'un') else 1)
    decide(ctx, e, *globals()['ev'](ctx, ev, e.obj, ts))
@case('cubic', params=[dict(k=k, ev=v) for k in list(SHAPES) + ['one'] for v in ('lt', 'le', 'gt', 'ge', 'in', 'ne')], cost=6)
def cubics(ctx, k, ev):
    e, ts = cubic(ctx, k)
    decide(ctx, e, *globals()['ev'](ctx, ev, e.obj, ts, [ctx.const(0)]))
# fixed coefficients, all thresholds
FIX = {'x2-x': (lambda: X ** 2 - X, lambda x: x * x - x), '1-x2': (lambda: 1 - X ** 2, lambda x: 1 - x * x), 'x4-2x2': (lambda: X ** 4 - 2 * X ** 2, lambda x: x * x * x * x - 2 * x * x),
       '3+x3': (lambda: 3 + X ** 3, lambda x: 3 + x * x * x), '2x-x2': (lambda: 2 * X - X ** 2 + 1, lambda x: 2 * x - x * x + 1)}
@case('fixed', params=[dict(p=p, ev=v) for p in FIX for v in ('lt', 'ge', 'in', 'ne') if not (p == 'x4-2x2')] + [dict(p=p, ev='iv') for p in ('1-x2', '3+x3')], cost=5)
def fixed(ctx, p, ev):
    E, f = FIX[p]
    e = Ex(E(), f, lambda x: True)
    decide(ctx, e, *globals()['ev'](ctx, ev, e.obj))

# -- piecewise -------------------------------------------------------------------
PW = {
    'two': lambda ctx, t, c: ((X ** 2) * (X < t) + (c - X) * (X >= t), lambda x: x * x if x < t else c - x, None),
    'gap': lambda ctx, t, c: (abs(X) * (X < t) + (X + c) * (X > t + 1), lambda x: abs(x) if x < t else x + c, lambda x: ctx.Or(x < t, x > t + 1)),
    'left': lambda ctx, t, c: ((X < t) * (2 * X + 1) + (X >= t) * abs(X - c), lambda x: 2 * x + 1 if x < t else abs(x - c), None),
    'three': lambda ctx, t, c: ((X + c) * (X < t) + (X - c) * ((t <= X) < t + 1) + (c - X) * (t + 1 <= X), lambda x: x + c if x < t else x - c if x < t + 1 else c - x, None),
    'point': lambda ctx, t, c: ((X + c) * (X << {0}) + (X - c) * ~(X << {0}), lambda x: x + c if x == 0 else x - c, None),
    'root': lambda ctx, t, c: (Sqrt(X) * (X < t) + (X + c) * (X >= t), lambda x: root(ctx, x, 2) if x < t else x + c, lambda x: ctx.Or(x >= t, x >= 0)),
    'scaled': lambda ctx, t, c: (2 * ((X + c) * (X < t) + (c - X) * (X >= t)) + 1, lambda x: 2 * (x + c if x < t else c - x) + 1, None),
    'abs': lambda ctx, t, c: (abs((X + c) * (X < t) + (2 * X) * (X >= t)), lambda x: abs(x + c) if x < t else abs(2 * x), None),
}
@case('piecewise', params=[dict(k=k, ev=v) for k in PW for v in ('lt', 'ge', 'in', 'iv')], thorough=[dict(k=k, ev=v) for k in PW for v in ('ne', 'un', 'in2', 'out')], cost=6)
def piecewise(ctx, k, ev):
    t, c = ctx.real('c0'), ctx.real('c1')
    E, val, dom = PW[k](ctx, t, c)
    e = Ex(E, val, (lambda x: bool(dom(x))) if dom else (lambda x: True))
    decide(ctx, e, *globals()['ev'](ctx, ev, e.obj))

# -- several expressions of the variable in one event -------------------------------
@case('compound', params=[dict(k=k) for k in range(6)], cost=5)
def compound(ctx, k):
    s, t = ctx.real('s'), ctx.real('t')
    x = ctx.real('x')
    E, f = [
        (lambda: (abs(X) < s) & (2 * X + 1 > t), lambda: ctx.And(abs(x) < s, 2 * x + 1 > t)),
        (lambda: (abs(X) >= s) | (X << {0}), lambda: ctx.Or(abs(x) >= s, x == 0)),
        (lambda: ~((X < s) & (2 * X > t)), lambda: ctx.Not(ctx.And(x < s, 2 * x > t))),
        (lambda: ((X < s) | (X > t)) & (abs(X) < 3), lambda: ctx.And(ctx.Or(x < s, x > t), abs(x) < 3)),
        (lambda: (X < s) ^ (-X < t), lambda: ctx.Not(ctx.Iff(x < s, -x < t))),
        (lambda: (1 / X < s) & (X > 0), lambda: ctx.And(x > 0, 1 / x < s) if bool(x > 0) else False),
    ][k]
    ctx.check(ctx.Iff(member(ctx, E().solve(), x), f()), 'solution set')

# -- nominal ------------------------------------------------------------------------
N = Id('N')
@case('nominal', params=[dict(k=k) for k in ('s', 'ns', 'and', 'or', 'not', 'mix', 'poly', 'notpoly', 'andempty', 'notempty')])
def nominal(ctx, k):
    A = ctx.pick('A', [('a',), ('a', 'b'), ('c', 'b')]); B = ctx.pick('B', [('a',), ('b', 'c')])
    t = ctx.real('t')
    E, f = {
        's': (lambda: N << set(A), lambda s: s in A), 'ns': (lambda: N << FiniteNominal(*A, b=True), lambda s: s not in A),
        'and': (lambda: (N << set(A)) & ~(N << set(B)), lambda s: s in A and s not in B), 'or': (lambda: (N << set(A)) | (N << set(B)), lambda s: s in A or s in B),
        'not': (lambda: ~(N << set(A)), lambda s: s not in A), 'mix': (lambda: (N << set(A)) | (N < t), lambda s: s in A),
        'poly': (lambda: (2 * N) << set(A), lambda s: False), 'notpoly': (lambda: ~((2 * N) << set(A)), lambda s: True),
        'andempty': (lambda: (N << {'a'}) & (N << {'b'}), lambda s: False), 'notempty': (lambda: ~((N << {'a'}) & (N << {'b'})), lambda s: True),
    }[k]
    S = E().solve()
    vals = [] if S is EmptySet else list(S.args) if isinstance(S, Union) else [S]
    for s in ('a', 'b', 'c', 'z'):
        ctx.check(any(isinstance(v, FiniteNominal) and s in v for v in vals) == f(s), 'strings in the solution set')
    if k not in ('mix',): ctx.check(not any(isinstance(v, (FiniteReal, Interval)) for v in vals), 'numbers in the solution set')
