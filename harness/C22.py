"""C22 Polynomial inequalities are solved exactly on every route: poly.py, timeout.py and the conversion in sets.py."""
import math
from fractions import Fraction
from engine.h import case
from harness.C03 import numbers_of, member, is_inf
from sppl.sets import EmptySet, ExtReals, FiniteReal, Interval, Union
inf = float('inf')

BOUNDS = ('polynomials with up to 4 real roots of any multiplicity (degree up to 6, with or without a factor that has no real root), at any place and with any leading '
          'coefficient; any finite or infinite threshold, both strictnesses; symbolic solver succeeding, giving up (ConditionSet, Intersection) or timing out, or switched off; range of the polynomial known or given up on (TypeError, as for quartics with irrational critical points)')
OUTSIDE = 'accuracy of sympy.nroots (clusters of nearly equal roots); points at infinity for finite thresholds'
ASSUMPTIONS = ['sympy.solveset / nroots return exactly the real solutions / roots with their multiplicities', 'a symbolic solution that takes too long raises TimeoutError inside timeout()']

ROUTES = ('symbolic', 'off', 'timeout', 'condition', 'intersection')
class route:
    def __init__(self, ctx, name): self.ctx, self.name = ctx, name
    def __enter__(self):
        import os, sppl.poly as P
        self.old = os.environ.pop('SPPL_NO_SYMBOLIC', None)
        self.mod, self.fs = P, (P.solve_poly_inequality_symbolically, P.solve_poly_equality_symbolically)
        if self.name == 'off': os.environ['SPPL_NO_SYMBOLIC'] = '1'
        elif self.name == 'norange':
            if self.ctx.symbolic:
                from engine import shims
                shims.HOOKS['function_range'] = self.undecided
            else:
                import sppl.transforms as T
                self.range = T.function_range
                T.function_range = self.undecided
        elif self.name != 'symbolic':
            if self.ctx.symbolic:
                from engine import shims
                shims.HOOKS['solveset'] = self.fail
            else:
                import sympy
                self.orig = sympy.solveset
                sympy.solveset = lambda *a, **k: self.fail(None)
    def undecided(self, *a): raise TypeError('The computation had not completed because of the undecidable set membership is found in every candidates.')
    def fail(self, rel):
        import sympy
        if self.name == 'timeout': raise TimeoutError('Timeout')
        x = sympy.Symbol('X')
        c = sympy.ConditionSet(x, sympy.sin(x) < x - 1, sympy.S.Reals)
        if self.name == 'condition': return c
        return sympy.Intersection(c, sympy.Interval(0, 1), evaluate=False)
    def __exit__(self, *a):
        import os
        os.environ.pop('SPPL_NO_SYMBOLIC', None)
        if self.old is not None: os.environ['SPPL_NO_SYMBOLIC'] = self.old
        if self.ctx.symbolic:
            from engine import shims
            shims.HOOKS.pop('solveset', None)
            shims.HOOKS.pop('function_range', None)
        elif self.name == 'norange':
            import sppl.transforms as T
            T.function_range = self.range
        elif self.name in ('timeout', 'condition', 'intersection'):
            import sympy
            sympy.solveset = self.orig

# roots as (offset from the first, multiplicity); 'free': no real root; 'sq': times x**2 + 1 shifted
SHAPES = {
    'lin': [(0, 1)], 'double': [(0, 2)], 'triple': [(0, 3)], 'quad4': [(0, 4)], 'two': [(0, 1), (2, 1)], '2+1': [(0, 2), (1, 1)], '1+2': [(0, 1), (1, 2)],
    '2+2': [(0, 2), (3, 2)], 'three': [(0, 1), (1, 1), (3, 1)], '1+2+1': [(0, 1), (1, 2), (2, 1)], '2+1+2': [(0, 2), (1, 1), (3, 2)], 'four': [(0, 1), (1, 1), (2, 1), (5, 1)],
    '3+1': [(0, 3), (2, 1)], '2+1+1': [(0, 2), (1, 1), (2, 1)],
    'none': [], 'none+lin': [(0, 1)], 'none+double': [(0, 2)], 'none+two': [(0, 1), (1, 1)],
}
def mul(p, q):
    out = [0] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q): out[i + j] = out[i + j] + a * b
    return out
def poly_of(ctx, shape, anywhere):
    """(coefficients of the polynomial, sign-relevant value, roots); threshold added to the constant term by the caller"""
    a = ctx.real('a'); ctx.assume(ctx.Not(a == 0))
    r0 = ctx.real('r') if anywhere else ctx.const(-1)
    cs, roots = [a], []
    for off, m in SHAPES[shape]:
        r = r0 + off
        roots.append((r, m))
        for _ in range(m): cs = mul(cs, [-r, 1])
    if shape.startswith('none'): cs = mul(cs, [1 + r0 * r0, -2 * r0, 1])     # (x - r0)**2 + 1
    def sign_value(x):
        v = a
        for r, m in roots:
            v = v * (x - r) if m % 2 else v * (x - r) * (x - r)
        return v
    return cs, sign_value, roots

def expression(cs):
    from sppl.transforms import make_sympy_polynomial
    return make_sympy_polynomial(cs)

def decide(ctx, S, x, truth, roots, allow=True):
    if not ctx.symbolic:
        # rounding: a point this close to a root is not decided by floating point
        if any(abs(float(x) - float(r)) < 1e-4 * (1 + abs(float(r))) and float(x) != float(r) for r, m in roots): ctx.assume(False)
        pts, ivs = numbers_of(S)
        for p in [p for p in pts + [b for i in ivs for b in (i.a, i.b)] if not is_inf(p)]:
            if any(abs(float(p) - float(r)) < 1e-4 * (1 + abs(float(r))) for r, m in roots) and any(float(x) == float(r) for r, m in roots) and abs(float(p) - float(x)) < 1e-4 * (1 + abs(float(x))):
                x = p
    ctx.check(ctx.Iff(member(ctx, S, x), truth), 'solution set')

def solve(ctx, shape, way, rel, t0, anywhere):
    from sppl.poly import solve_poly_equality, solve_poly_inequality
    cs, val, roots = poly_of(ctx, shape, anywhere)
    if ctx.symbolic: ctx.registry['known_roots'] = [r for r, m in roots]
    cs = [cs[0] + t0] + cs[1:]
    e = expression(cs)
    x = ctx.real('x')
    with route(ctx, way):
        if rel == 'eq': S = solve_poly_equality(e, t0)
        else: S = solve_poly_inequality(e, t0, rel == 'lt')
    v = val(x)
    truth = (v == 0) if rel == 'eq' else (v < 0) if rel == 'lt' else (v <= 0)
    if shape.startswith('none') and not roots: truth = (rel != 'eq' and bool(v < 0))
    decide(ctx, S, x, truth, roots)

RELS = ('lt', 'le', 'eq')
FAR = [s for s in SHAPES if s not in ('lin', 'double', 'triple', 'none')]
@case('roots', params=[dict(shape=s, way=w, rel=r) for s in SHAPES for w in ROUTES for r in RELS
                       if w in ('symbolic', 'off') or s in ('double', 'two', '2+1', 'three', 'none', 'lin', 'none+lin')], cost=2)
def roots(ctx, shape, way, rel):
    """Threshold zero: the roots are where they were put."""
    solve(ctx, shape, way, rel, ctx.const(0), shape not in FAR)

@case('threshold', params=[dict(shape=s, way=w, rel=r) for s in ('lin', 'double', 'two', '2+1', 'three', 'none', '2+2') for w in ('symbolic', 'off') for r in RELS], cost=2)
def threshold(ctx, shape, way, rel):
    solve(ctx, shape, way, rel, ctx.real('t'), False)

@case('constant', params=[dict(way=w, rel=r) for w in ('symbolic', 'off') for r in RELS])
def constant(ctx, way, rel):
    from sppl.poly import solve_poly_equality, solve_poly_inequality
    c = ctx.pick('c', [0, 3, -2]); t, x = ctx.real('t'), ctx.real('x')
    e = expression([c, 0])
    with route(ctx, way):
        S = solve_poly_equality(e, t) if rel == 'eq' else solve_poly_inequality(e, t, rel == 'lt')
    ctx.check(ctx.Iff(member(ctx, S, x), ctx.const(c) == t if rel == 'eq' else c < t if rel == 'lt' else c <= t), 'solution set')

# -- infinite thresholds ------------------------------------------------------------
@case('infinite', params=[dict(deg=d, rel=r, b=b, ext=e) for d in (0, 1, 2, 3, 4, 5) for r in RELS for b in ('+', '-') for e in (None, True, False) if r != 'eq' or e is None])
def infinite(ctx, deg, rel, b, ext):
    from sppl.poly import solve_poly_equality, solve_poly_inequality
    import sympy
    cs = [ctx.real('k%d' % i) for i in range(deg + 1)]
    if deg: ctx.assume(ctx.Not(cs[-1] == 0))
    else: cs = [ctx.pick('c', [0, 3, -2]), 0]
    e = expression(cs)
    B = {'+': ctx.pick('B', [inf, sympy.oo]), '-': ctx.pick('B', [-inf, -sympy.oo])}[b]
    S = solve_poly_equality(e, B) if rel == 'eq' else solve_poly_inequality(e, B, rel == 'lt', extended=ext)
    x = ctx.real('x')
    ctx.check(ctx.Iff(member(ctx, S, x), rel != 'eq' and b == '+'), 'finite solutions')
    if ext is False:
        for side in (inf, -inf): ctx.check(not has(S, side), 'a point at infinity')
        return
    if rel == 'lt' and b == '+': return     # the whole line absorbs the points at infinity
    for side in (inf, -inf):
        # value at an infinite point: the limit there
        if deg == 0: v = 0
        else: v = (1 if cs[-1] > 0 else -1) * (-1 if side < 0 and deg % 2 else 1)
        w = 1 if b == '+' else -1
        want = (v == w) if rel == 'eq' else (v < w) if rel == 'lt' else (v <= w)
        ctx.check(has(S, side) == want, 'solutions at %sinfinity' % ('-' if side < 0 else '+'))
def has(S, side):
    pts, ivs = numbers_of(S)
    return any(is_inf(p) and (p > 0) == (side > 0) for p in pts)

# -- through the public operators -----------------------------------------------------
@case('event', params=[dict(way=w, k=k) for w in ('symbolic', 'off', 'timeout', 'norange') for k in ('iv', 'ch', 'in', 'ne', 'none', 'all')], cost=3)
def event(ctx, way, k):
    """The routes seen through an event on a quadratic."""
    from sppl.transforms import Id
    X = Id('X')
    a = ctx.real('a', gt=0); s = ctx.real('s', gt=0)
    if ctx.symbolic: ctx.registry['known_roots'] = [s, -s]
    x = ctx.real('x'); y = a * x * x
    E = a * X ** 2 + 1
    ev, truth = {
        'iv': lambda: (E << Interval(1, a * s * s + 1), ctx.And(x <= s, x >= -s)), 'ch': lambda: ((1 < E) <= a * s * s + 1, ctx.And(x <= s, x >= -s, ctx.Not(x == 0))),
        'in': lambda: (E << {1}, x == 0), 'ne': lambda: (~(E << {1}), ctx.Not(x == 0)), 'none': lambda: (E < 1, False), 'all': lambda: (E >= 1, True)}[k]()
    with route(ctx, way): S = ev.solve()
    decide(ctx, S, x, truth, [(s, 1), (-s, 1), (ctx.const(0), 2)])
