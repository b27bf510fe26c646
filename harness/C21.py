"""C21 Arithmetic on variables means arithmetic on their values: operators and evaluate of transforms.py."""
from engine.h import case
from harness.exprs import *
from sppl.sets import Interval, FiniteReal
import sympy

BOUNDS = ('expressions of up to 3 nested operations with arbitrary real constants; exponents -3..4, roots of degree 2 and 3; sums and products of two polynomial '
          'expressions of degree up to 3; piecewise expressions of up to 3 pieces; all real values of the variable in the domain')
OUTSIDE = 'floating-point rounding; exponents that the operators refuse (floats, zero); values at infinity'
ASSUMPTIONS = ['sympy.Pow / log / exp are the mathematical functions (strictly monotone inverse pairs per base)']

def at(ctx, e, names=''):
    x = ctx.real('x')
    ctx.assume(e.domain(x))
    return x

def same(ctx, e):
    x = ctx.real('x')
    if not e.domain(x): return
    ctx.check(ctx.eq(e.obj.evaluate({X: x}), e.value(x)), 'value of the expression')

@case('one', params=[dict(f=f) for f in FORMS])
def one(ctx, f): same(ctx, chain(ctx, [f]))

MAIN = ['neg', 'abs', '+c', 'c-', '*c', '/c', 'c/', '1/', '**2', '**3', '**-2', 'sqrt', '**(-1,2)', 'exp', 'b**', 'log', 'log2', 'lin']
@case('two', params=[dict(f=f, g=g) for f in MAIN for g in MAIN])
def two(ctx, f, g): same(ctx, chain(ctx, [f, g]))

T3 = [('lin', 'abs', 'lin'), ('sqrt', 'lin', '**2'), ('lin', 'sqrt', 'lin'), ('log', 'lin', 'exp'), ('1/', 'lin', '1/'), ('**2', 'c-', 'sqrt'), ('abs', 'log', 'abs'), ('lin', '**3', 'lin'),
      ('exp', '+c', 'log'), ('b**', '1/', 'lin'), ('neg', 'abs', 'c/'), ('lin', '**2', '1/')]
@case('three', params=[dict(t='|'.join(t)) for t in T3], thorough=[dict(t='|'.join((f, g, h))) for f in MAIN for g in MAIN for h in ('lin', 'abs', '1/', 'sqrt', '**2', 'log', 'exp') if (f, g, h) not in T3])
def three(ctx, t): same(ctx, chain(ctx, t.split('|')))

# -- two expressions over the same base -----------------------------------------
POLYS = {
    'x': (0, lambda c: X, lambda c, x: x), 'lin': (2, lambda c: c[0] * X + c[1], lambda c, x: c[0] * x + c[1]),
    '-x': (0, lambda c: -X, lambda c, x: -x), 'x2': (0, lambda c: X ** 2, lambda c, x: x * x), 'x3': (0, lambda c: X ** 3, lambda c, x: x * x * x),
    'quad': (3, lambda c: c[0] * X ** 2 + c[1] * X + c[2], lambda c, x: c[0] * x * x + c[1] * x + c[2]),
    'cub': (2, lambda c: X ** 3 + c[0] * X ** 2 - c[1], lambda c, x: x * x * x + c[0] * x * x - c[1]),
    'x+c': (1, lambda c: X + c[0], lambda c, x: x + c[0]),
    '0x': (0, lambda c: 0 * X, lambda c, x: 0 * x),
}
BIN = {'+': (lambda a, b: a + b), '-': (lambda a, b: a - b), '*': (lambda a, b: a * b)}
PP = [(p, q) for p in POLYS for q in POLYS if (p, q) != ('quad', 'quad')]
@case('binary', params=[dict(p=p, q=q, op=o) for p, q in PP for o in BIN], cost=2)
def binary(ctx, p, q, op):
    cp = [ctx.real('p%d' % i) for i in range(POLYS[p][0])]; cq = [ctx.real('q%d' % i) for i in range(POLYS[q][0])]
    e = BIN[op](POLYS[p][1](cp), POLYS[q][1](cq))
    x = ctx.real('x')
    ctx.check(ctx.eq(e.evaluate({X: x}), BIN[op](POLYS[p][2](cp, x), POLYS[q][2](cq, x))), 'value of the combined expression')

# the same over a base that is itself an expression
BASES = {'sqrt': Sqrt, 'log': Log, 'abs': abs, '1/': lambda E: 1 / E, 'exp': Exp}
@case('base', params=[dict(b=b, op=o) for b in BASES for o in BIN])
def over_base(ctx, b, op):
    c = [ctx.real('c%d' % i) for i in range(3)]
    mk, ex, val, dom = FORMS[b]
    B = BASES[b](X)
    e = BIN[op](c[0] * B + c[1], B ** 2 - c[2])
    x = ctx.real('x')
    if not dom(ctx, x, {}): return
    y = val(ctx, x, {})
    ctx.check(ctx.eq(e.evaluate({X: x}), BIN[op](c[0] * y + c[1], y * y - c[2])), 'value of the combined expression')

@case('refused', params=[dict(a=a, b=b, op=o) for a, b in [('sqrt', 'x'), ('log', 'exp'), ('abs', '1/'), ('x', 'sqrt')] for o in BIN])
def refused(ctx, a, b, op):
    """Expressions over different bases are refused, never combined wrongly."""
    try: BIN[op](FORMS[a][1](X, {}), FORMS[b][1](X, {}))
    except (ValueError, TypeError): refused = True
    else: refused = False
    ctx.check(refused, 'expressions over different bases were combined')

# numbers of other kinds
CONST = {'int': 3, 'zero': 0, 'neg': -2, 'float': 0.1, 'rational': sympy.Rational(2, 7), 'sqrt2': sympy.sqrt(2), 'pi': sympy.pi, 'E': sympy.exp(1), 'big': 10 ** 20}
@case('constant', params=[dict(c=c, f=f) for c in CONST for f in ('+c', 'c+', '-c', 'c-', '*c', 'c*', '/c', 'c/') if not (c == 'zero' and f in ('/c', 'c/'))])
def constant(ctx, c, f):
    k = dict(c=CONST[c])
    mk, ex, val, dom = FORMS[f]
    x = ctx.real('x')
    if not dom(ctx, x, k): return
    from engine.api import number_of
    k2 = dict(c=number_of(ctx, CONST[c]))
    ctx.check(ctx.eq(ex(X, k).evaluate({X: x}), val(ctx, x, k2)), 'value of the expression')

# variables whose names mean something to sympy
@case('named', params=[dict(n=n, op=o) for n in ('E', 'pi', 'I', 'oo', 'GoldenRatio', 'nan', 'x', 'X') for o in BIN])
def named(ctx, n, op):
    from sppl.transforms import Id
    V = Id(n)
    c = ctx.real('c'); x = ctx.real('x')
    e = BIN[op](c * V + 1, V)
    ctx.check(ctx.eq(e.evaluate({V: x}), BIN[op](c * x + 1, x)), 'value of the combined expression')

# -- piecewise ------------------------------------------------------------------
@case('piecewise', params=[dict(k=k) for k in ('two', 'three', 'deep', 'point', 'arith', 'left', 'sum')])
def piecewise(ctx, k):
    x = ctx.real('x'); t = ctx.real('t'); c = ctx.real('c')
    if k == 'two':
        e = (X ** 2) * (X < t) + (c * X) * (X >= t); v = lambda: x * x if x < t else c * x
    elif k == 'left':
        e = (X < t) * (X ** 2) + (X >= t) * (c * X); v = lambda: x * x if x < t else c * x
    elif k == 'three':
        s = ctx.real('s'); ctx.assume(s < t)
        e = (X + c) * (X < s) + X * ((s <= X) < t) + (X ** 3) * (t <= X); v = lambda: x + c if x < s else x if x < t else x * x * x
    elif k == 'deep':
        e = (2 * abs(X) + c) * (X < t) + abs(X - c) * (t <= X); v = lambda: 2 * abs(x) + c if x < t else abs(x - c)
    elif k == 'point':
        e = (X + c) * (X << {1}) + (c * X) * ~(X << {1}); v = lambda: x + c if x == 1 else c * x
    elif k == 'arith':
        e = ((X ** 2) * (X < t) + (c * X) * (X >= t)) * 2 + 1; v = lambda: 2 * (x * x if x < t else c * x) + 1
    elif k == 'sum':
        e = abs((X ** 2) * (X < t) + (c - X) * (X >= t)); v = lambda: abs(x * x if x < t else c - x)
    ctx.check(ctx.eq(e.evaluate({X: x}), v()), 'value of the piece whose event holds')
