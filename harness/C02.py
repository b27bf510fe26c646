"""Normal form of sets and equality as sameness of members: /repo/src/sets.py on symbolic bounds."""
from engine.h import case
from harness.setlib import *
from harness.C01 import PAIRS, UN, UN_T, UC, NUM

BOUNDS = ('all real bounds; operands as for C01 (atomic sets, and unions of up to 3 atomic sets); normal form of every result of '
          '&, |, ~; equality and hash of every pair of results listed in the cases')
OUTSIDE = 'unions of more than 3 atomic parts per operand; sets made by calling the Union constructor directly'

def atoms_of(R):
    """(points, intervals, nominal) read from the public parts of a set."""
    if R is EmptySet: return [], [], None
    vals = list(R.args) if isinstance(R, Union) else [R]
    pts, ivs, nom = [], [], None
    for v in vals:
        if isinstance(v, FiniteReal): pts += list(v.values)
        elif isinstance(v, Interval): ivs.append(v)
        elif isinstance(v, FiniteNominal): nom = v
        else: raise AssertionError('unexpected part %r' % (v,))
    return pts, ivs, nom

def check_normal(ctx, R, what):
    pts, ivs, nom = atoms_of(R)
    if isinstance(R, Union):
        ctx.check(len(R.args) >= 2, '%s: union of fewer than two parts' % what)
        ctx.check(all(not isinstance(v, Union) and v is not EmptySet for v in R.args), '%s: nested union' % what)
        ctx.check(sum(isinstance(v, FiniteReal) for v in R.args) <= 1, '%s: two point parts' % what)
        ctx.check(sum(isinstance(v, FiniteNominal) for v in R.args) <= 1, '%s: two nominal parts' % what)
        ctx.check(len(list(R.values)) == len(R.args), '%s: values and args disagree' % what)
    for i, p in enumerate(pts):
        for q in pts[:i]:
            ctx.check(ctx.Not(p == q), '%s: repeated point' % what)
    for v in ivs:
        ctx.check(v.a < v.b, '%s: empty interval' % what)
        for p in pts:
            ctx.check(ctx.Or(p < v.a, p > v.b), '%s: point touches interval' % what)
    for i, v in enumerate(ivs):
        for w in ivs[:i]:
            # strictly apart, or touching at one excluded point
            apart = lambda s, t: ctx.Or(s.b < t.a, ctx.And(s.b == t.a, bool(s.right_open) and bool(t.left_open)))
            ctx.check(ctx.Or(apart(v, w), apart(w, v)), '%s: intervals meet' % what)

def candidates(ctx, sets):
    """Finitely many numbers such that two sets with these bounds differ iff they differ at one of them."""
    es = []
    for R in sets:
        pts, ivs, _ = atoms_of(R)
        es += pts
        for v in ivs:
            es += [e for e in (v.a, v.b) if e not in (inf, -inf)]
    out = list(es)
    for i, e in enumerate(es):
        for f in es[:i]: out.append((e + f) / ctx.const(2))
        out += [e + 1, e - 1]
    return out or [ctx.const(0)]

def is_member(ctx, R, x):
    pts, ivs, _ = atoms_of(R)
    return ctx.Or(*[x == p for p in pts], *[ctx.And(
        True if v.a == -inf else (x > v.a if v.left_open else x >= v.a),
        True if v.b == inf else (x < v.b if v.right_open else x <= v.b)) for v in ivs])

def check_equality(ctx, R, Q, what):
    same = bool(R == Q)
    ctx.check(bool(Q == R) == same, '%s: equality not symmetric' % what)
    ctx.check(bool(R != Q) == (not same), '%s: != disagrees with ==' % what)
    if same:
        x = ctx.real('x')
        ctx.check(ctx.Iff(is_member(ctx, R, x), is_member(ctx, Q, x)), '%s: equal sets with different members' % what)
        ctx.check(ctx.truth(lambda: hash_of(R) == hash_of(Q)), '%s: equal sets with different hashes' % what)
    else:
        ctx.check(ctx.Or(*[ctx.Not(ctx.Iff(is_member(ctx, R, y), is_member(ctx, Q, y))) for y in candidates(ctx, [R, Q])]),
                  '%s: unequal sets with the same members' % what)

def hash_of(x):
    from engine.api import hash_
    return hash_(x)

@case('normal-atoms', params=[dict(a=a, b=b) for a, b in PAIRS if a != 'empty' and b != 'empty'], cost=2)
def normal_atoms(ctx, a, b):
    A, B = mk(ctx, a, 'A').obj, mk(ctx, b, 'B').obj
    check_normal(ctx, A & B, 'and'); check_normal(ctx, A | B, 'or')
    if a == b:
        check_normal(ctx, ~A, 'not'); 

@case('normal-unions', params=[dict(A=A, B=B) for A, B in UN], thorough=[dict(A=A, B=B) for A, B in UN_T], cost=5)
def normal_unions(ctx, A, B):
    a, b = build(ctx, A, 'A').obj, build(ctx, B, 'B').obj
    check_normal(ctx, a & b, 'and'); check_normal(ctx, a | b, 'or')

@case('normal-complement', params=[dict(A=A) for A in UC if 'reals' not in A], cost=4)
def normal_complement(ctx, A):
    a = build(ctx, A, 'A').obj
    check_normal(ctx, ~a, 'not')

EQ = [(('p1',), ('p1',)), (('p2',), ('p2',)), (('p2',), ('p1',)), (('iv',), ('iv',)), (('iv',), ('lt',)), (('lt',), ('lt',)), (('gt',), ('gt',)),
      (('gt',), ('lt',)), (('iv',), ('p1',)), (('p1', 'iv'), ('iv',)), (('oo', 'oo'), ('oo',)), (('lt', 'gt'), ('reals',)), (('lt', 'gt'), ('p1', 'reals')),
      (('p1', 'oo'), ('p1', 'oo')), (('oc', 'cc'), ('co',)), (('oo', 'co'), ('oo', 'p1')), (('p1', 'lt'), ('lt', 'p1')), (('empty',), ('iv',)), (('p2',), ('p3',))]
EQ_T = [(('p1', 'iv'), ('p1', 'iv')), (('oo', 'oo'), ('oo', 'oo')), (('lt', 'gt'), ('lt', 'gt')), (('p2', 'cc'), ('p2', 'cc')), (('iv', 'iv'), ('iv',)), (('oo', 'p2'), ('oo', 'oo'))]
@case('equality', params=[dict(A=A, B=B) for A, B in EQ], thorough=[dict(A=A, B=B) for A, B in EQ_T], cost=5)
def equality(ctx, A, B):
    check_equality(ctx, build(ctx, A, 'A').obj, build(ctx, B, 'B').obj, 'eq')

LAWS = {
    'commute-or': lambda A, B: (A | B, B | A), 'commute-and': lambda A, B: (A & B, B & A),
    'demorgan': lambda A, B: (~(A | B), ~A & ~B), 'absorb': lambda A, B: (A & (A | B), A), 'self': lambda A, B: (A | (A & B), A),
}
@case('laws', params=[dict(law=l, A=A, B=B) for l in LAWS for A, B in [(('p1',), ('oo',)), (('oc',), ('co',)), (('p2',), ('cc',)), (('lt',), ('gt',)),
      (('p1',), ('lt',)), (('p1', 'oo'), ('cc',))]], cost=3)
def laws(ctx, law, A, B):
    L, R = LAWS[law](build(ctx, A, 'A').obj, build(ctx, B, 'B').obj)
    check_equality(ctx, L, R, law)
    ctx.check(bool(L == R), '%s: results with the same members are not equal' % law)

@case('associativity', params=[dict(ks=k) for k in [('p1', 'oo', 'cc'), ('lt', 'p1', 'gt'), ('oc', 'oo', 'p1')]], cost=5)
def associativity(ctx, ks):
    a, b, c = [mk(ctx, k, 'S%d' % i).obj for i, k in enumerate(ks)]
    ctx.check(bool((a | b) | c == a | (b | c)), 'or'); ctx.check(bool((a & b) & c == a & (b & c)), 'and')

# -- nominal sets: names are drawn from a finite alphabet ------------------------------
NAMES = [(), ('a',), ('b',), ('a', 'b'), ('b', 'a'), ('a', 'b', 'c')]
def nominal(ctx, n):
    names = ctx.pick(n, NAMES); co = ctx.bool(n + 'co')
    if not names and not co: return EmptySet
    return FiniteNominal(*names, b=co) if ctx.bool(n + 'ctor') or not names else (~FiniteNominal(*names) if co else FiniteNominal(*names))

def nom_members(R, s):
    return R is not EmptySet and s in R

@case('nominal', params=[dict(op=o) for o in ['and', 'or', 'not', 'eq']], cost=3)
def nominal_eq(ctx, op):
    A, B = nominal(ctx, 'A'), nominal(ctx, 'B')
    if op == 'eq': L, R = A, B
    elif op == 'and': L, R = A & B, B & A
    elif op == 'or': L, R = A | B, B | A
    else:
        if A is EmptySet or B is EmptySet or ~A is EmptySet or ~B is EmptySet or A & B is EmptySet: return
        L, R = ~(A & B), ~A | ~B
    same = all(nom_members(L, s) == nom_members(R, s) for s in strings())
    ctx.check((L == R) == same, 'equality of nominal sets')
    if same: ctx.check(hash(L) == hash(R), 'hash of equal nominal sets')
    if op != 'eq': ctx.check(same, 'members of nominal sets')

@case('mixed-eq', params=[dict(k=k) for k in ['p1', 'iv', 'gt']], cost=2)
def mixed_eq(ctx, k):
    # unions of a nominal and a numeric part, built in different orders
    N, M = nominal(ctx, 'A'), mk(ctx, k, 'M').obj
    if N is EmptySet: return
    N2 = ctx.pick('N2', [N, N | N, ~(~N) if ~N is not EmptySet else N, N & N])
    L, R = N | M, M | N2
    ctx.check(bool(L == R), 'unions built in different orders differ')
    ctx.check(ctx.truth(lambda: hash_of(L) == hash_of(R)), 'hashes of equal unions differ')
    check_normal(ctx, L, 'mixed')

# -- the same number given as different types ---------------------------------------------
import sympy as _sympy, itertools
from fractions import Fraction as _Fraction
KINDS = ['int', 'float', 'Integer', 'Rational', 'Float']
def number(kind, v):
    q = _Fraction(v); whole = q.denominator == 1
    return {'int': lambda: int(q) if whole else None, 'Integer': lambda: _sympy.Integer(int(q)) if whole else None, 'float': lambda: float(q),
            'Rational': lambda: _sympy.Rational(q.numerator, q.denominator), 'Float': lambda: _sympy.Float(float(q))}[kind]()

@case('kinds', params=[dict(i=i, j=j, v=v) for i, j in itertools.combinations(KINDS, 2) for v in ('2', '1/2', '-3/4', '0') if number(i, v) is not None and number(j, v) is not None], cost=2)
def kinds(ctx, i, j, v):
    """A number is the same member, end point and set element whatever its type."""
    a, b = number(i, v), number(j, v)
    t = ctx.real('t')
    P, Q = FiniteReal(a), FiniteReal(b)
    check_equality(ctx, P, Q, 'points')
    ctx.check(bool(P == Q) and a in Q and b in P, 'the same point is not equal')
    ctx.check(bool((P & Q) == P) and bool((P | Q) == Q), 'intersection or union of the same point')
    check_normal(ctx, P | Q, 'points'); check_normal(ctx, FiniteReal(a, b, t), 'list of points')
    T = FiniteReal(a, t)
    check_normal(ctx, T | Q, 'points'); check_equality(ctx, T | Q, T, 'absorbed')
    ctx.check(bool((T | Q) == T) and bool((T & Q) == P), 'absorbed point')
    if not bool(t > a): return
    I, J = Interval.open(a, t), Interval(b, t)
    check_normal(ctx, I | Q, 'end point'); ctx.check(bool((I | Q) == Interval.Ropen(b, t)), 'an open end point is not filled')
    check_normal(ctx, J & P, 'end point'); ctx.check(bool((J & P) == Q), 'an end point is not a member')
    ctx.check((I & Q) is EmptySet, 'an excluded end point')
    L = Interval.Ropen(-inf, a)
    check_normal(ctx, L | J, 'touching'); ctx.check(bool((L | J) == Interval.Lopen(-inf, t)), 'touching intervals')
    check_equality(ctx, Interval(a, t), Interval(b, t), 'intervals')
    ctx.check(bool(Interval(a, t) == Interval(b, t)), 'intervals with the same end points')
    ctx.check(bool(~Interval(a, t) == ~Interval(b, t)), 'complements of the same interval')
