"""Building blocks for sets with symbolic bounds, and a membership oracle of our own."""
from sppl.sets import (EmptySet, FiniteNominal, FiniteReal, Interval, Union, Reals)
inf = float('inf')

class S:
    """A real set under test together with an independent description of its members.

    parts: list of ('pt', v) | ('iv', a, b, left_open, right_open) | ('nom', names, complemented)"""
    def __init__(self, obj, parts):
        self.obj, self.parts = obj, parts

def member(ctx, parts, x):
    """Formula: number x belongs to one of the parts."""
    out = []
    for p in parts:
        if p[0] == 'pt':
            out.append(x == p[1])
        elif p[0] == 'iv':
            _, a, b, lo, ro = p
            l = True if a == -inf else (x > a if lo else x >= a)
            r = True if b == inf else (x < b if ro else x <= b)
            out.append(ctx.And(l, r))
    return ctx.Or(*out)

def smember(parts, s):
    return any((s in p[1]) != bool(p[2]) for p in parts if p[0] == 'nom')

def mk(ctx, kind, n):
    """One atomic set of the given kind; n names its bounds."""
    if kind == 'empty': return S(EmptySet, [])
    if kind == 'reals': return S(Interval(-inf, inf), [('iv', -inf, inf, True, True)])
    if kind == 'p1':
        a = ctx.real(n + 'a')
        return S(FiniteReal(a), [('pt', a)])
    if kind == 'p2':
        a, b = ctx.real(n + 'a'), ctx.real(n + 'b')
        return S(FiniteReal(a, b), [('pt', a), ('pt', b)])
    if kind == 'p3':
        a, b, c = ctx.real(n + 'a'), ctx.real(n + 'b'), ctx.real(n + 'c')
        return S(FiniteReal(a, b, c), [('pt', a), ('pt', b), ('pt', c)])
    if kind == 'iv':
        a, b = ctx.real(n + 'a'), ctx.real(n + 'b')
        ctx.assume(a < b)
        lo, ro = ctx.bool(n + 'lo'), ctx.bool(n + 'ro')
        return S(Interval(a, b, left_open=lo, right_open=ro), [('iv', a, b, lo, ro)])
    if kind in ('oo', 'cc', 'oc', 'co'):
        a, b = ctx.real(n + 'a'), ctx.real(n + 'b')
        ctx.assume(a < b)
        lo, ro = kind[0] == 'o', kind[1] == 'o'
        f = {'oo': Interval.open, 'cc': Interval, 'oc': Interval.Lopen, 'co': Interval.Ropen}[kind]
        return S(f(a, b), [('iv', a, b, lo, ro)])
    if kind == 'lt':
        b = ctx.real(n + 'b'); ro = ctx.bool(n + 'ro')
        return S(Interval(-inf, b, right_open=ro), [('iv', -inf, b, True, ro)])
    if kind == 'gt':
        a = ctx.real(n + 'a'); lo = ctx.bool(n + 'lo')
        return S(Interval(a, inf, left_open=lo), [('iv', a, inf, lo, True)])
    if kind == 'nom':
        names = ctx.pick(n + 'names', [('a',), ('a', 'b'), ('b', 'c')])
        c = ctx.bool(n + 'co')
        return S(FiniteNominal(*names, b=c), [('nom', names, c)])
    if kind == 'strs':
        return S(FiniteNominal(b=True), [('nom', (), True)])
    raise KeyError(kind)

def build(ctx, kinds, n):
    """Union (by the operator) of atomic sets; returns S."""
    parts = []
    obj = EmptySet
    for i, k in enumerate(kinds):
        s = mk(ctx, k, '%s%d' % (n, i))
        obj = obj | s.obj
        parts = parts + s.parts
    return S(obj, parts)

def strings(): return ['a', 'b', 'c', 'z']

def is_num(parts): return all(p[0] != 'nom' for p in parts)
def is_nom(parts): return all(p[0] == 'nom' for p in parts)
