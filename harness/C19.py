"""C19 Mutual information is the textbook quantity: SPE.mutual_information."""
import math
from engine.h import case
from harness.joint import *
from sppl.spe import Memo, NominalLeaf, ProductSPE, SumSPE
from sppl.transforms import Id

BOUNDS = ('two events of up to 3 literals over the same, different or overlapping variables of distributions nested to depth 2, with arbitrary laws, weights and thresholds, including events of probability zero and one; '
          'a nominal variable with four arbitrary outcome probabilities (zeros included); with and without a cache')
OUTSIDE = 'floating-point rounding'
ASSUMPTIONS = ['log is additive on products of positive numbers; scipy evaluates the law exactly; logsumexp and exp/log are exact']

def mi(ctx, p11, p10, p01, p00):
    """Terms (p, p / (pa pb)) of the textbook sum."""
    a1, a0, b1, b0 = p11 + p10, p01 + p00, p11 + p01, p10 + p00
    terms = [(p11, a1, b1), (p10, a1, b0), (p01, a0, b1), (p00, a0, b0)]
    if not ctx.symbolic:
        return sum(p * math.log(p / (a * b)) for p, a, b in terms if p > 1e-12)
    from engine import sx
    tot = sx.LinLog({})
    for p, a, b in terms:
        if bool(p == 0): continue
        tot = tot + sx.SymLog(sx.wrap(p / (a * b))) * p
    return tot
def factors(v):
    """Positive v as a product of irreducible polynomials."""
    from engine import sx
    import sympy
    from fractions import Fraction
    if v.is_const(): return primes(Fraction(v.coef))
    (f, e), = v.fac
    terms = sx.POLYS[f].terms
    vs = sorted(sx.POLYS[f].vars)
    sy = {x: sympy.Symbol('v%d' % x) for x in vs}
    ex = sum(sympy.Rational(Fraction(c).numerator, Fraction(c).denominator) * sympy.Mul(*[sy[x] ** k for x, k in m]) for m, c in terms.items())
    c, fs = sympy.factor_list(ex, *[sy[x] for x in vs])
    out, const = [], Fraction(int(c.p), int(c.q))
    for g, k in fs:
        t = sx.wrap(0)
        for mono, cc in sympy.Poly(g, *[sy[x] for x in vs]).terms():
            m = sx.wrap(Fraction(int(cc.p), int(cc.q)))
            for x, i in zip(vs, mono):
                for _ in range(i): m = m * sx.SymReal.from_var(sx.VARS[x])
            t = t + m
        if bool(t < 0): t = -t              # every number a log is taken of is positive: signs cancel
        out.append((t, e * k))
    out += [(w, k * e) for w, k in primes(const)]
    return out
def primes(c):
    from engine import sx
    import sympy
    c = abs(c)
    return [(sx.wrap(int(p)), int(k)) for p, k in sympy.factorint(c.numerator).items() if p != 1] + [(sx.wrap(int(p)), -int(k)) for p, k in sympy.factorint(c.denominator).items() if p != 1]
def same(ctx, got, exp, what):
    if not ctx.symbolic:
        ctx.check(abs(float(got) - float(exp)) < 1e-6, what); return
    from engine import sx
    g = sx.LinLog.of(got)
    if g is None:
        w = sx.wrap(got)
        ctx.check(isinstance(w, sx.SymReal) and w == 0, what)       # a plain number other than zero is no such sum
        return
    d = g - exp
    items = [(c * k, w) for c, v in d.terms.values() for w, k in factors(v)]
    groups = []
    for c, v in items:
        if bool(v == 1): continue
        for gr in groups:
            if bool(gr[0] == v): gr[1] = gr[1] + c; break
        else: groups.append([v, c])
    for v, c in groups: ctx.check(ctx.eq(c, 0), what)
    if not groups: ctx.check(True, what)

def joint(ctx, M, ea, eb, space):
    P = lambda e: M.P(e, space)
    return P(('and', ea, eb)), P(('and', ea, ('not', eb))), P(('and', ('not', ea), eb)), P(('and', ('not', ea), ('not', eb)))

def run(ctx, M, space, ea, eb, memo=False):
    A, B = build(ea), build(eb)
    spe = M.spe
    exp = mi(ctx, *joint(ctx, M, ea, eb, space))
    same(ctx, spe.mutual_information(A, B, Memo()) if memo else spe.mutual_information(A, B), exp, 'mutual information')
    same(ctx, spe.mutual_information(B, A), exp, 'mutual information is symmetric')

@case('cells', params=[dict(k=k) for k in ('outcomes', 'zero', 'flip', 'self', 'complement')], cost=3)
def cells(ctx, k):
    """Four arbitrary cell probabilities."""
    N = Id('N')
    ps = nominal_weights(ctx, 'p', 4, zero_ok=(k == 'zero'))
    spe = NominalLeaf(N, dict(zip('abcd', ps)))
    p = [ctx.frac(x) for x in ps]
    A, B = N << {'a', 'b'}, N << {'a', 'c'}
    if k in ('outcomes', 'zero'): exp = mi(ctx, *p)
    elif k == 'flip': A, B, exp = B, ~A, mi(ctx, p[2], p[0], p[3], p[1])
    elif k == 'self': A, B, exp = A, A, mi(ctx, p[0] + p[1], ctx.const(0), ctx.const(0), p[2] + p[3])
    else: A, B, exp = A, ~A, mi(ctx, ctx.const(0), p[0] + p[1], p[2] + p[3], ctx.const(0))
    same(ctx, spe.mutual_information(A, B), exp, 'mutual information')

PAIRS1 = [('one', 'hole'), ('one', 'one'), ('one', 'not'), ('pt', 'one'), ('hole', 'pt')]
PAIRS2 = [('one', 'other'), ('and', 'one'), ('or', 'other'), ('xor', 'one'), ('and', 'or'), ('notand', 'one')]
ST = [(s, p) for s in ('mixX', 'mixXatom', 'mixY', 'mixN') for p in PAIRS1] + [(s, p) for s in ('XY', 'XN', 'XA', 'mix(XN,NX)', 'mix(XY,XY)') for p in PAIRS1[:2] + PAIRS2]
@case('events', params=[dict(st=s, a=a, b=b, memo=(i % 3 == 0)) for i, (s, (a, b)) in enumerate(ST)], cost=4)
def events(ctx, st, a, b, memo):
    M, th, space, vs = world(ctx, st)
    S = shapes(vs, th)
    run(ctx, M, space, S[a], S[b], memo)

@case('sure', params=[dict(st=s, a=a) for s in ('mixX', 'XN', 'mix(XN,NX)', 'mixXatom') for a in ('sure', 'impossible', 'all')], cost=2)
def sure(ctx, st, a):
    """Events of probability one and zero tell nothing."""
    M, th, space, vs = world(ctx, st)
    t = th['X'][0]
    ea = {'sure': ('or', ('le', 'X', t), ('gt', 'X', t)), 'impossible': ('and', ('lt', 'X', t), ('gt', 'X', t)), 'all': ('not', ('and', ('lt', 'X', t), ('gt', 'X', t)))}[a]
    eb = lit(vs[-1], 0, th)
    run(ctx, M, space, ea, eb)

@case('degenerate', params=[dict(st=s) for s in ('XN', 'XY')], cost=4)
def degenerate(ctx, st):
    """Laws that may give either event probability zero or one."""
    M, th, space, vs = world(ctx, st, strict=False, n=1, zero_ok=True)
    run(ctx, M, space, lit(vs[0], 0, th), lit(vs[1], 0, th))
