"""Stand-ins for the native functions the code under test calls on numbers.

Each stand-in behaves as the native one on ordinary values and follows the documented
contract on symbolic ones.  sppl modules are loaded through engine.loader, which redirects
their imports and builtin names here; nothing outside those modules is patched.
"""
import builtins, math, types, functools, itertools, operator, signal as _signal
from fractions import Fraction as _Fraction
import numpy as _np
import sympy as _sp
import scipy.special as _ss
import sympy.calculus.util as _cu
from engine import sx
from engine.sx import (SymReal, SymLog, LinLog, SymBool, wrap, as_formula, f_and, f_or, f_not, Unsupported,
                       ONE_R, ZERO_R)

INF = builtins.float('inf')
X = _sp.Symbol('X')
from sympy.abc import X as _symX

def sym(x):
    return isinstance(x, (SymReal, SymLog, LinLog, SymBool))

def has_sym(x):
    if sym(x): return True
    if isinstance(x, (list, tuple, SymVec)): return any(has_sym(y) for y in x)
    return False

# ------------------------------------------------------------------------------
# builtins

class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or isinstance(x, (SymReal, SymLog, LinLog))
    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)
    def __call__(cls, x=0.0):
        if isinstance(x, (SymReal, SymLog, LinLog)): return x
        if isinstance(x, SymBool): return wrap(1 if x else 0)
        if isinstance(x, _sp.Basic) and x.is_number and x.is_real and x.is_finite and not x.is_Rational and sx.CTX is not None:
            return x if False else builtins.float(x)
        return builtins.float(x)
    def __eq__(cls, o): return o is builtins.float or o is cls
    def __hash__(cls): return hash(builtins.float)
    def __repr__(cls): return "<class 'float'>"
    def __getattr__(cls, n): return getattr(builtins.float, n)
class vf_float(metaclass=_FloatMeta):
    pass

class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, SymReal) and x.is_intval())
    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)
    def __call__(cls, x=0, *a):
        if isinstance(x, SymReal): return sx.sym_trunc(x)
        if isinstance(x, SymLog): raise Unsupported('int() of a log-space value')
        return builtins.int(x, *a)
    def __eq__(cls, o): return o is builtins.int or o is cls
    def __hash__(cls): return hash(builtins.int)
    def __repr__(cls): return "<class 'int'>"
    def __getattr__(cls, n): return getattr(builtins.int, n)
class vf_int(metaclass=_IntMeta):
    pass

class SymHash(builtins.int):
    """A hash whose inputs contain symbolic numbers: equal when the inputs have equal hashes."""
    def __new__(cls, content):
        h = builtins.hash(tuple(7919 if isinstance(c, (SymReal, _Fraction)) else c for c in content))
        self = builtins.int.__new__(cls, h)
        self.content = content
        return self
    def __eq__(self, o):
        if not isinstance(o, SymHash):
            return builtins.int.__eq__(self, o)
        return sx.sb(_content_eq(self.content, o.content))
    def __ne__(self, o):
        r = self.__eq__(o)
        return sx.sb(f_not(as_formula(r)))
    def __hash__(self): return builtins.int.__hash__(self)

class NumHash(SymHash):
    """The hash of something known, remembering its content: it may be compared with a hash that depends on symbolic numbers."""
    def __new__(cls, h, content):
        self = builtins.int.__new__(cls, h)
        self.content = content
        return self
    def __eq__(self, o):
        if not isinstance(o, SymHash) or isinstance(o, NumHash): return builtins.int.__eq__(self, o)
        return SymHash.__eq__(self, o)
    def __ne__(self, o):
        if not isinstance(o, SymHash) or isinstance(o, NumHash): return builtins.int.__ne__(self, o)
        return SymHash.__ne__(self, o)
    def __hash__(self): return builtins.int.__hash__(self)

class SetContent:
    """Hash content of a set: order of the elements does not matter."""
    def __init__(self, subs): self.subs = subs
    def __hash__(self): return 31 + len(self.subs)
    def known(self): return builtins.hash(frozenset(builtins.hash(u) for u in self.subs))

def _has_symbol(content):
    return any(isinstance(c, SymReal) or isinstance(c, SetContent) and any(_has_symbol(u) for u in c.subs) for c in content)

def _content_eq(a, b):
    if len(a) != len(b): return False
    fs = []
    for x, y in zip(a, b):
        if isinstance(x, SetContent) or isinstance(y, SetContent):
            if not (isinstance(x, SetContent) and isinstance(y, SetContent)) or len(x.subs) != len(y.subs): return False
            if not any(_has_symbol(u) for u in x.subs + y.subs):
                if x.known() != y.known(): return False
                continue
            if len(x.subs) > 4: raise Unsupported('hash of a symbolic set with more than 4 elements')
            opts = []
            for perm in itertools.permutations(y.subs):
                opts.append(f_and(*[_content_eq(u, v) for u, v in zip(x.subs, perm)]))
            fs.append(f_or(*opts))
        elif isinstance(x, SymReal) or isinstance(y, SymReal):
            if not (isinstance(x, (SymReal, _Fraction)) and isinstance(y, (SymReal, _Fraction))): return False
            u, v = wrap(x), wrap(y)
            # Python numeric hash: equal numbers agree, and hash(-1) == hash(-2).
            fs.append(f_or(as_formula(u == v), f_and(as_formula(u == -1), as_formula(v == -2)),
                           f_and(as_formula(u == -2), as_formula(v == -1))))
        elif isinstance(x, _Fraction) and isinstance(y, _Fraction):
            if builtins.hash(x) != builtins.hash(y): return False
        elif x != y:
            return False
    return f_and(*fs)

def _flatten_hash(x, out):
    """Append the hash-relevant content of x; True if something symbolic is inside."""
    if isinstance(x, SymReal):
        if x.is_const():
            out.append(x.coef); return False
        out.append(x); return True
    if isinstance(x, SymHash):
        out.extend(x.content); return not isinstance(x, NumHash)
    if isinstance(x, (builtins.int, builtins.float, _Fraction, _sp.Integer)) and not isinstance(x, SymHash) and not m_isinf(x) and x == x:
        out.append(_Fraction(builtins.int(x)) if isinstance(x, (builtins.int, _sp.Integer)) else _Fraction(x)); return False
    if isinstance(x, SymLog):
        out.append('log')
        return _flatten_hash(x.val, out)
    if isinstance(x, tuple):
        out.append('(')
        s = False
        for y in x: s = _flatten_hash(y, out) or s
        out.append(')')
        return s
    if isinstance(x, (VFSet, frozenset)):
        s = False
        subs = []
        for y in x:
            o2 = []
            s = _flatten_hash(y, o2) or s
            subs.append(tuple(o2))
        out.append(SetContent(subs))
        return s
    t = type(x)
    if getattr(t, '__module__', '').startswith('sppl'):
        h = t.__hash__(x) if t.__hash__ is not None else builtins.hash(x)
        if isinstance(h, SymHash):
            out.extend(h.content); return not isinstance(h, NumHash)
        out.append(builtins.int(h)); return False
    out.append(builtins.hash(x))
    return False

def vf_hash(x):
    out = []
    if _flatten_hash(x, out):
        return SymHash(tuple(out))
    if isinstance(x, VFSet): return NumHash(builtins.hash(frozenset(x)), tuple(out))
    return NumHash(builtins.hash(x), tuple(out))

def _symkey(x):
    if isinstance(x, SymReal): return True
    if type(x) in (str, builtins.int, builtins.float, bool, type(None)): return False
    h = vf_hash(x) if not isinstance(x, (list, dict)) else None
    return isinstance(h, SymHash) and not isinstance(h, NumHash)

class VFSet:
    """Set whose elements may be symbolic; elements are compared with ==."""
    __slots__ = ('items', 'frozen')
    def __init__(self, items=(), frozen=False):
        out = []
        for x in items:
            if not any(x is y or _hash_may_equal(x, y) and x == y for y in out):
                out.append(x)
        self.items = out
        self.frozen = frozen
    def __contains__(self, x):
        return any(x is y or _hash_may_equal(x, y) and bool(x == y) for y in self.items)
    def __iter__(self): return iter(list(self.items))
    def __len__(self): return len(self.items)
    def __bool__(self): return bool(self.items)
    def _new(self, items): return mkset(items, self.frozen)
    def __and__(self, o):
        if not isinstance(o, (set, frozenset, VFSet)): return NotImplemented
        o = _vs(o)
        return self._new([x for x in self.items if x in o])
    def __rand__(self, o): return _vs(o) & self
    def __or__(self, o):
        if not isinstance(o, (set, frozenset, VFSet)): return NotImplemented
        return self._new(list(self.items) + list(o))
    def __ror__(self, o): return mkset(list(o) + list(self.items), isinstance(o, frozenset))
    def __sub__(self, o):
        if not isinstance(o, (set, frozenset, VFSet)): return NotImplemented
        o = _vs(o)
        return self._new([x for x in self.items if x not in o])
    def __rsub__(self, o): return _vs(o) - self
    def __xor__(self, o): return (self - o) | (_vs(o) - self)
    def __le__(self, o):
        o = _vs(o); return all(x in o for x in self.items)
    def __ge__(self, o): return all(x in self for x in o)
    def __lt__(self, o): return self <= o and len(self) < len(o)
    def __gt__(self, o): return self >= o and len(self) > len(o)
    def __eq__(self, o):
        if self is o: return True
        if not isinstance(o, (set, frozenset, VFSet)): return False
        if len(self.items) != len(o): return False
        o = _vs(o)
        return all(x in o for x in self.items)
    def __ne__(self, o): return not self == o
    def __hash__(self): return vf_hash(self)
    def union(self, *os):
        r = self
        for o in os: r = r | mkset(o, True)
        return r
    def intersection(self, *os):
        r = self
        for o in os: r = r & mkset(o, True)
        return r
    def difference(self, *os):
        r = self
        for o in os: r = r - mkset(o, True)
        return r
    def issubset(self, o): return self <= mkset(o, True)
    def issuperset(self, o): return self >= mkset(o, True)
    def isdisjoint(self, o): return not (self & mkset(o, True))
    def copy(self): return VFSet(self.items, self.frozen)
    def add(self, x):
        if x not in self: self.items.append(x)
    def update(self, *os):
        for o in os:
            for x in o: self.add(x)
    def remove(self, x):
        for i, y in enumerate(self.items):
            if x is y or (_hash_may_equal(x, y) and x == y):
                del self.items[i]; return
        raise KeyError(x)
    def discard(self, x):
        try: self.remove(x)
        except KeyError: pass
    def pop(self): return self.items.pop(0)
    def __repr__(self): return '{%s}' % ', '.join(repr(x) for x in self.items)

def _isnum(x):
    return isinstance(x, (SymReal, builtins.int, builtins.float, _Fraction, _sp.Number))
def _hash_may_equal(x, y):
    # Different kinds of key never meet in a hash set.
    if _isnum(x) != _isnum(y): return False
    return True

def _vs(o): return o if isinstance(o, VFSet) else VFSet(o)

def mkset(items, frozen):
    items = list(items)
    if any(_symkey(x) for x in items): return VFSet(items, frozen)
    return frozenset(items) if frozen else set(items)

class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.native) or (isinstance(x, VFSet) and x.frozen == cls.fr)
    def __call__(cls, items=()):
        return mkset(items, cls.fr)
    def __eq__(cls, o): return o is cls or o is cls.native
    def __hash__(cls): return hash(cls.native)
class vf_set(metaclass=_SetMeta):
    native = set; fr = False
class vf_frozenset(metaclass=_SetMeta):
    native = frozenset; fr = True

def vf_setlit(items):
    return mkset(items, False)

class _TypeMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, builtins.type)
    def __subclasscheck__(cls, c): return issubclass(c, builtins.type)
    def __call__(cls, *a, **k):
        if len(a) == 1:
            if isinstance(a[0], SymReal): return builtins.int if a[0].is_intval() else builtins.float
            return builtins.type(a[0])
        return builtins.type(*a, **k)
class vf_type(metaclass=_TypeMeta):
    pass

# ------------------------------------------------------------------------------
# vectors

class SymVec:
    """Stand-in for a one-dimensional numpy array holding symbolic numbers."""
    __array_ufunc__ = None
    def __init__(self, xs): self.xs = list(xs)
    def __iter__(self): return iter(self.xs)
    def __len__(self): return len(self.xs)
    def __getitem__(self, i):
        r = self.xs[i]
        return SymVec(r) if isinstance(i, slice) else r
    @property
    def shape(self): return (len(self.xs),)
    @property
    def size(self): return len(self.xs)
    def tolist(self): return list(self.xs)
    def sum(self): return functools.reduce(operator.add, self.xs, 0)
    def _bin(self, o, f):
        if isinstance(o, (SymVec, list, tuple, _np.ndarray)):
            o = list(o)
            if len(o) != len(self.xs): raise ValueError('operands could not be broadcast together')
            return SymVec([f(a, b) for a, b in zip(self.xs, o)])
        return SymVec([f(a, o) for a in self.xs])
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b / a)
    def __neg__(self): return SymVec([-a for a in self.xs])
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b)
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b)
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b)
    def __repr__(self): return 'SymVec(%r)' % (self.xs,)

def _vec(f):
    @functools.wraps(f)
    def g(x, *a, **k):
        if isinstance(x, SymVec) or (isinstance(x, (list, tuple)) and has_sym(x)):
            return SymVec([f(y, *a, **k) for y in x])
        return f(x, *a, **k)
    return g

# ------------------------------------------------------------------------------
# elementary functions.  In the probability code real numbers enter logs and logs enter exps.

def _mexp(x, native):
    if isinstance(x, SymLog): return x.val
    if isinstance(x, SymReal):
        if x.is_const(): return sx._logconst(builtins.float(x.coef))
        return trans_exp(x, _sp.E)
    if isinstance(x, LinLog): raise Unsupported('exp of a combination of logs')
    if isinstance(x, builtins.float) and x == -INF: return 0.0
    return native(x)

def _mlog(x, native, zero):
    if isinstance(x, SymReal):
        if x > 0: return SymLog(x)
        if zero and x == 0: return -INF
        if zero: return builtins.float('nan')
        raise ValueError('math domain error')
    if isinstance(x, SymLog): raise Unsupported('log of a log')
    return native(x)

def m_exp(x): return _mexp(x, math.exp)
def m_log(x, base=None):
    if base is None: return _mlog(x, math.log, False)
    if sym(x) or sym(base): raise Unsupported('log with base')
    return math.log(x, base)
def m_log1p(x): return _mlog(1 + x, None, False) if sym(x) else math.log1p(x)
def m_expm1(x): return (_mexp(x, None) - 1) if sym(x) else math.expm1(x)
def m_isinf(x):
    if isinstance(x, SymLog): return x.val == 0
    if sym(x): return False
    if isinstance(x, (SPoly,)): return False
    return math.isinf(x)
def m_isnan(x): return False if sym(x) else math.isnan(x)
def m_isfinite(x):
    if isinstance(x, SymLog): return x.val != 0
    return True if sym(x) else math.isfinite(x)
def m_floor(x): return sx.sym_floor(x) if isinstance(x, SymReal) else math.floor(x)
def m_ceil(x): return -sx.sym_floor(-x) if isinstance(x, SymReal) else math.ceil(x)
def m_trunc(x): return sx.sym_trunc(x) if isinstance(x, SymReal) else math.trunc(x)
def m_fabs(x): return abs(x) if sym(x) else math.fabs(x)
def m_fsum(xs):
    xs = list(xs)
    return functools.reduce(operator.add, xs, 0) if has_sym(xs) else math.fsum(xs)
def m_prod(xs, **k):
    xs = list(xs)
    return functools.reduce(operator.mul, xs, 1) if has_sym(xs) else math.prod(xs, **k)
def m_sqrt(x): return root_of(x, 2) if isinstance(x, SymReal) else math.sqrt(x)
def m_isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    if not (sym(a) or sym(b)): return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    return _close(a, b, rel_tol, abs_tol)

def n_exp(x): return _mexp(x, _np.exp)
def n_log(x): return _mlog(x, _np.log, True)
def n_log1p(x): return _mlog(1 + x, None, True) if sym(x) else _np.log1p(x)
def n_expm1(x): return (_mexp(x, None) - 1) if sym(x) else _np.expm1(x)
def n_isinf(x): return m_isinf(x) if sym(x) else _np.isinf(x)
def n_isneginf(x): return m_isinf(x) if sym(x) else _np.isneginf(x)
def n_isposinf(x): return False if sym(x) else _np.isposinf(x)
def n_isnan(x): return False if sym(x) else _np.isnan(x)
def n_isfinite(x): return m_isfinite(x) if sym(x) else _np.isfinite(x)
def n_floor(x): return m_floor(x) if sym(x) else _np.floor(x)
def n_ceil(x): return m_ceil(x) if sym(x) else _np.ceil(x)
def n_trunc(x): return m_trunc(x) if sym(x) else _np.trunc(x)
def n_abs(x): return abs(x) if sym(x) else _np.abs(x)
def n_sqrt(x): return root_of(x, 2) if isinstance(x, SymReal) else _np.sqrt(x)
def n_logaddexp(a, b):
    if not (sym(a) or sym(b)): return _np.logaddexp(a, b)
    return logsumexp([a, b])

def _close(a, b, rtol, atol):
    if isinstance(a, SymLog) or isinstance(b, SymLog):
        u, v = SymLog.of(a), SymLog.of(b)
        if u is None or v is None: return False
        # |log u - log v| <= atol + rtol*|log v|; for the tolerances in use, ratio within 1 +- tol
        if isinstance(b, (builtins.int, builtins.float)) and not math.isinf(b):
            tol = _Fraction(atol + rtol * abs(b))
            lo = sx.wrap(math.exp(-tol)); hi = sx.wrap(math.exp(tol))
            return sx.sb(f_and(as_formula(u.val >= v.val * lo), as_formula(u.val <= v.val * hi)))
        if u.val == 0: return v.val == 0
        if v.val == 0: return False
        lo = sx.wrap(math.exp(-atol)); hi = sx.wrap(math.exp(atol))
        return sx.sb(f_and(as_formula(u.val >= v.val * lo), as_formula(u.val <= v.val * hi)))
    u, v = wrap(a), wrap(b)
    if not isinstance(u, SymReal) or not isinstance(v, SymReal): return u == v
    d = abs(u - v)
    return d <= _Fraction(atol) + _Fraction(rtol) * abs(v)

def n_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not (has_sym(a) or has_sym(b)): return _np.isclose(a, b, rtol=rtol, atol=atol)
    return _close(a, b, rtol, atol)
def n_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not (has_sym(a) or has_sym(b)): return _np.allclose(a, b, rtol=rtol, atol=atol)
    if isinstance(a, (list, tuple, SymVec)) or isinstance(b, (list, tuple, SymVec)):
        la = list(a) if isinstance(a, (list, tuple, SymVec)) else [a] * len(b)
        lb = list(b) if isinstance(b, (list, tuple, SymVec)) else [b] * len(la)
        return all(bool(_close(x, y, rtol, atol)) for x, y in zip(la, lb))
    return bool(_close(a, b, rtol, atol))
def n_asarray(a, dtype=None, **k):
    if has_sym(a):
        if sym(a): return a
        return SymVec(a)
    return _np.asarray(a, dtype=None if dtype is vf_float else dtype, **k) if dtype is not vf_float else _np.asarray(a, dtype=float, **k)
def n_sum(a, *r, **k):
    if has_sym(a): return functools.reduce(operator.add, list(a), 0)
    return _np.sum(a, *r, **k)
def n_prod(a, *r, **k):
    if has_sym(a): return functools.reduce(operator.mul, list(a), 1)
    return _np.prod(a, *r, **k)
def n_max(a, *r, **k):
    if has_sym(a): return max(list(a))
    return _np.max(a, *r, **k)
def n_min(a, *r, **k):
    if has_sym(a): return min(list(a))
    return _np.min(a, *r, **k)
def n_bin(name, op):
    nat = getattr(_np, name)
    def f(a, b):
        if sym(a) or sym(b) or isinstance(a, SymVec) or isinstance(b, SymVec): return op(a, b)
        return nat(a, b)
    return f

def logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):
    if isinstance(a, (list, tuple, SymVec)) and has_sym(a):
        if b is not None: raise Unsupported('logsumexp with weights')
        tot = ZERO_R
        for x in a:
            if isinstance(x, (builtins.float, _np.floating)) and (x == INF or x != x):
                return builtins.float(x)
            l = SymLog.of(x)
            if l is None: raise TypeError('logsumexp of %r' % (x,))
            tot = tot + l.val
        return SymLog(tot)
    if sym(a): return a
    return _ss.logsumexp(list(a) if isinstance(a, SymVec) else a, axis=axis, b=b, keepdims=keepdims, return_sign=return_sign)

class _FracMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (_Fraction, SymReal))
    def __call__(cls, a=0, b=None):
        if sym(a) or sym(b):
            r = wrap(a)
            return r if b is None else r / wrap(b)
        return _Fraction(a, b)
    def __getattr__(cls, n): return getattr(_Fraction, n)
class vf_Fraction(metaclass=_FracMeta):
    pass

# ------------------------------------------------------------------------------
# Roots, exponentials and logarithms of symbolic numbers (sympy.Pow, sympy.log).

def root_of(x, n):
    """Non-negative n-th root of x >= 0."""
    w = wrap(x)
    if not isinstance(w, SymReal): return w
    if w.is_const():
        c = w.coef
        if c == 0: return ZERO_R
        r = _exact_root(c, n)
        if r is not None: return SymReal(r, ())
    # structural root:  (v^n)^(1/n)
    if w.fac and all(e % n == 0 for f, e in w.fac):
        r = _exact_root(w.coef, n) if w.coef > 0 else None
        if r is not None:
            y = SymReal(r, tuple((f, e // n) for f, e in w.fac))
            return y if y >= 0 else -y
    if w < 0: raise Unsupported('root of a negative number')
    reg = sx.CTX.registry.setdefault('roots', [])
    for (m, v, y) in reg:
        if m == n and sx.same_value(v, w): return y
    y = sx.CTX.fresh('rt')
    sx.CTX.axiom(y >= 0)
    sx.CTX.axiom(f_or(as_formula(w < 0), as_formula(y ** n == w)))
    reg.append((n, w, y))
    return y

def _exact_root(c, n):
    if c < 0: return None
    def ir(k):
        r = builtins.int(round(k ** (1.0 / n)))
        for t in (r - 1, r, r + 1):
            if t >= 0 and t ** n == k: return t
        return None
    p, q = ir(c.numerator), ir(c.denominator)
    if p is None or q is None: return None
    return _Fraction(p, q)

def _base_key(b):
    return str(b)

def trans_pair(u, v, base):
    """Record v = base**u; monotone bijection facts against earlier pairs of the same base."""
    if sx.CTX.merge_depth: raise Unsupported('transcendental function inside merge')
    reg = sx.CTX.registry.setdefault(('exp', _base_key(base)), [])
    up = base_gt1(base)
    sx.CTX.axiom(v > 0)
    def order(u2, v2):
        for m in (sx.NEG, sx.ZERO):
            a = as_formula(wrap(u)._cmp(u2, m)); b = as_formula(wrap(v)._cmp(v2, m if up else sx.flip(m)))
            sx.CTX.axiom(f_and(f_or(f_not(a), b), f_or(a, f_not(b))))
    order(ZERO_R, ONE_R)
    order(ONE_R, wrap(base))
    for (u2, v2) in reg:
        order(u2, v2)
    reg.append((u, v))

def base_gt1(base):
    w = wrap(base)
    return bool(w > 1)

def trans_exp(u, base):
    u = wrap(u)
    if not isinstance(u, SymReal):
        if base_gt1(base): return INF if u > 0 else ZERO_R
        return ZERO_R if u > 0 else INF
    if u.is_const() and u.coef == 0: return ONE_R
    if u.is_const() and u.coef == 1: return wrap(base)
    reg = sx.CTX.registry.setdefault(('exp', _base_key(base)), [])
    for (u2, v2) in reg:
        if sx.same_value(u2, u): return v2
    if wrap(base) == 1: return ONE_R
    v = sx.CTX.fresh('ex')
    trans_pair(u, v, base)
    return v

def trans_log(v, base):
    w = wrap(v)
    if not isinstance(w, SymReal): return w
    if w.is_const() and w.coef == 1: return ZERO_R
    if sx.same_value(w, wrap(base)): return ONE_R
    reg = sx.CTX.registry.setdefault(('exp', _base_key(base)), [])
    for (u2, v2) in reg:
        if sx.same_value(wrap(v2), w): return u2
    if w <= 0:
        if w == 0: return _sp.zoo
        return _sp.log(-1)       # non-real
    u = sx.CTX.fresh('lg')
    trans_pair(u, w, base)
    return u

def _spnum(x):
    return isinstance(x, (_sp.Basic, builtins.int, builtins.float))

def s_Pow(b, e, evaluate=None):
    if isinstance(b, SPoly): return b ** builtins.int(e)
    if not (sym(b) or sym(e)): 
        return _sp.Pow(b, e) if evaluate is None else _sp.Pow(b, e, evaluate=evaluate)
    ew = wrap(e)
    if isinstance(ew, SymReal) and ew.is_const():
        q = ew.coef
        if q.denominator == 1:
            n = builtins.int(q)
            bw = wrap(b)
            if n < 0 and isinstance(bw, SymReal) and bw == 0: return _sp.zoo
            return bw ** n if isinstance(bw, SymReal) else _sp.Pow(b, e)
        bw = wrap(b)
        if isinstance(bw, SymReal) and bw < 0: return _sp.I * 2     # non-real principal root
        r = root_of(b, q.denominator)
        return r ** q.numerator
    return trans_exp(e, b)

def s_log(x, base=None):
    if not (sym(x) or sym(base)):
        return _sp.log(x) if base is None else _sp.log(x, base)
    return trans_log(x, _sp.E if base is None else base)

def s_exp(x): return trans_exp(x, _sp.E) if sym(x) else _sp.exp(x)
def s_sqrt(x, *a): return root_of(x, 2) if sym(x) else _sp.sqrt(x, *a)
def s_Abs(x, *a): return abs(x) if sym(x) else _sp.Abs(x, *a)

class _RatMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, _sp.Rational)
    def __call__(cls, p, q=None, gcd=None):
        if sym(p) or sym(q):
            # Rational(p, q) is p/q; q = 0 gives zoo/nan
            if q is None: return p
            if wrap(q) == 0: return _sp.zoo
            return wrap(p) / wrap(q)
        return _sp.Rational(p, q) if q is not None else _sp.Rational(p)
    def __getattr__(cls, n): return getattr(_sp.Rational, n)
class s_Rational(metaclass=_RatMeta):
    pass

# ------------------------------------------------------------------------------
# Univariate polynomials c0 + c1*X + ... over symbolic numbers (sympy expressions in X).

class SPoly:
    """Polynomial in the fixed symbol X with (possibly symbolic) real coefficients."""
    __array_ufunc__ = None
    def __init__(self, cs):
        cs = [wrap(c) for c in cs]
        if any(c is None or not isinstance(c, SymReal) for c in cs):
            raise Unsupported('polynomial coefficient')
        while len(cs) > 1 and cs[-1] == 0: cs.pop()
        self.cs = cs
    @property
    def deg(self): return len(self.cs) - 1
    def is_const(self): return self.deg == 0
    def atoms(self, *t):
        return {_symX} if self.deg > 0 else set()
    @property
    def free_symbols(self): return self.atoms()
    def subs(self, *a):
        if len(a) == 1 and isinstance(a[0], dict): ((s, x),) = a[0].items()
        else: s, x = a
        return self(x)
    def __call__(self, x):
        w = wrap(x)
        if w is None: return NotImplemented
        if not isinstance(w, SymReal):
            raise Unsupported('polynomial at infinity')
        r = ZERO_R
        for c in reversed(self.cs): r = r * w + c
        return r
    def _co(self, o):
        if isinstance(o, SPoly): return o
        if isinstance(o, _sp.Basic) and not o.is_number: return from_sympy(o)
        w = wrap(o)
        if w is None or not isinstance(w, SymReal): return None
        return SPoly([w])
    def __add__(self, o):
        o = self._co(o)
        if o is None: return NotImplemented
        n = max(len(self.cs), len(o.cs))
        g = lambda p, i: p.cs[i] if i < len(p.cs) else ZERO_R
        return SPoly([g(self, i) + g(o, i) for i in range(n)])
    __radd__ = __add__
    def __neg__(self): return SPoly([-c for c in self.cs])
    def __sub__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else self + (-o)
    def __rsub__(self, o): return (-self) + o
    def __mul__(self, o):
        o = self._co(o)
        if o is None: return NotImplemented
        r = [ZERO_R] * (len(self.cs) + len(o.cs) - 1)
        for i, a in enumerate(self.cs):
            for j, b in enumerate(o.cs):
                r[i + j] = r[i + j] + a * b
        return SPoly(r)
    __rmul__ = __mul__
    def __truediv__(self, o): return self * (ONE_R / wrap(o))
    def __pow__(self, n):
        r = SPoly([1])
        for _ in range(builtins.int(n)): r = r * self
        return r
    def diff(self, *a):
        return SPoly([c * i for i, c in enumerate(self.cs)][1:] or [0])
    def as_expr(self): return self
    def to_exact(self): return self
    def sqf_part(self): return self        # same roots; multiplicities are dropped by the caller's set()
    class domain: is_ZZ = False; is_QQ = True
    def all_coeffs(self): return list(reversed(self.cs))
    def degree(self): return self.deg
    def coeffs(self): return [c for c in reversed(self.cs) if c != 0]
    def __lt__(self, b): return SRel(self - b, True)
    def __le__(self, b): return SRel(self - b, False)
    def __gt__(self, b): return SRel(-(self - b), True)
    def __ge__(self, b): return SRel(-(self - b), False)
    @property
    def is_number(self): return self.deg == 0
    def __eq__(self, o):
        o = self._co(o) if not isinstance(o, str) else None
        if o is None: return False
        d = self - o
        return d.deg == 0 and d.cs[0] == 0
    def __ne__(self, o): return not self == o
    def __hash__(self): return 7877
    def __repr__(self): return 'SPoly(%s)' % (self.cs,)

class SRel:
    """poly < 0 (strict) or poly <= 0"""
    def __init__(self, poly, strict): self.poly, self.strict = poly, strict
    def __bool__(self):
        if self.poly.deg: raise Unsupported('truth of a relation on polynomials')
        return bool(self.poly.cs[0] < 0 if self.strict else self.poly.cs[0] <= 0)

def from_sympy(e):
    e = _sp.sympify(e)
    p = _sp.Poly(e, _symX)
    return SPoly([c for c in reversed(p.all_coeffs())])

def s_Add(*args):
    if any(isinstance(a, SPoly) or sym(a) for a in args) or (sx.CTX is not None and sx.CTX.symbolic and all(
            isinstance(a, (builtins.int, builtins.float)) or isinstance(a, _sp.Basic) and (a.has(_symX) or a.is_number and a.is_real) for a in args)):
        r = SPoly([0])
        for a in args: r = r + a
        return r
    return _sp.Add(*args)

class _PolyMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (_sp.Poly, SPoly))
    def __call__(cls, e, *gens, **k):
        if isinstance(e, SPoly):
            if e.deg == 0 and not gens:
                # sympy.Poly needs generators for a constant
                raise _sp.GeneratorsNeeded("can't initialize from 'Symbol' without generators")
            return e
        if isinstance(e, SymReal): return SPoly([e])
        return _sp.Poly(e, *gens, **k)
    def __getattr__(cls, n):
        if n in ('from_list',):
            return lambda cs, *a, **k: SPoly(list(reversed(cs))) if has_sym(cs) else _sp.Poly.from_list(cs, *a, **k)
        return getattr(_sp.Poly, n)
class s_Poly(metaclass=_PolyMeta):
    pass

def _poly_key(cs):
    return tuple((c.coef, c.fac) for c in cs)

def poly_roots(p):
    """All distinct real roots of a non-constant polynomial with multiplicities, increasing.

    Contract: exactly the real zeros.  Degree <= 3 (4 when biquadratic)."""
    # normalise by leading coefficient sign only for the cache key
    key = ('roots', _poly_key(p.cs))
    nkey = ('roots', _poly_key((-p).cs))
    reg = sx.CTX.registry
    if key in reg: return reg[key]
    if nkey in reg: return reg[nkey]
    r = _poly_roots(p)
    if not sx.CTX.merge_depth: reg[key] = r
    return r

def _poly_roots(p):
    cs, n = p.cs, p.deg
    # a known root at zero?
    if n >= 1 and cs[0].is_const() and cs[0].coef == 0:
        q = SPoly(cs[1:])
        rest = poly_roots(q) if q.deg >= 1 else []
        return _insert_root(rest, ZERO_R)
    if n == 1:
        return [(-cs[0] / cs[1], 1)]
    hint = sx.CTX.registry.get('known_roots', [])
    for r in hint:
        # polynomials built from chosen roots: divide out exactly
        if sx.same_value(p(r), ZERO_R):
            q = _deflate(p, r)
            rest = poly_roots(q) if q.deg >= 1 else []
            return _insert_root(rest, r)
    if n == 2:
        c, b, a = cs
        disc = b * b - 4 * a * c
        if disc < 0: return []
        if disc == 0: return [(-b / (2 * a), 2)]
        s = root_of(disc, 2)
        r1, r2 = (-b - s) / (2 * a), (-b + s) / (2 * a)
        return [(r1, 1), (r2, 1)] if r1 < r2 else [(r2, 1), (r1, 1)]
    if all(c.is_const() and c.coef == 0 for c in cs[1:-1]):
        # a X^n + c
        v = -cs[0] / cs[-1]
        if n % 2:
            if v >= 0: return [(root_of(v, n), 1)]
            return [(-root_of(-v, n), 1)]
        if v < 0: return []
        if v == 0: return [(ZERO_R, n)]
        r = root_of(v, n)
        return [(-r, 1), (r, 1)]
    if n == 3:
        d, c, b, a = cs
        ctx = sx.CTX
        r = ctx.fresh('cr')                    # one real root always exists
        ctx.axiom(f_or(as_formula(p.cs[-1] == 0), as_formula(p(r) == 0)))
        q = _deflate(p, r)
        return _insert_root(poly_roots(q), r)
    if all(c.is_const() for c in cs): return _known_roots(p)
    raise Unsupported('roots of a degree-%d polynomial' % n)

def native_poly(p):
    """A polynomial with known coefficients as a sympy polynomial in X."""
    from sympy.abc import X
    return sum((_sp.Rational(c.coef.numerator, c.coef.denominator) * X ** i for i, c in enumerate(p.cs)), _sp.Integer(0))

def _known_roots(p):
    """The real roots of a polynomial with known coefficients: numbers pinned by disjoint isolating intervals."""
    from sympy.abc import X
    out = []
    q = _sp.Poly(native_poly(p), X)
    for (lo, hi), m in q.intervals(eps=_sp.Rational(1, 10 ** 6)):
        lo, hi = _Fraction(int(lo.p), int(lo.q)), _Fraction(int(hi.p), int(hi.q))
        if lo == hi: out.append((wrap(lo), m)); continue
        r = sx.CTX.fresh('ar')
        sx.CTX.axiom(r > lo); sx.CTX.axiom(r < hi); sx.CTX.axiom(p(r) == 0)
        out.append((r, m))
    return out

def _deflate(p, r):
    out = [p.cs[-1]]
    for c in reversed(p.cs[1:-1]):
        out.append(c + out[-1] * r)
    return SPoly(list(reversed(out)))

def _insert_root(roots, r):
    out = []
    done = False
    for (x, m) in roots:
        if not done:
            if r == x:
                out.append((x, m + 1)); done = True; continue
            if r < x:
                out.append((r, 1)); done = True
        out.append((x, m))
    if not done: out.append((r, 1))
    return out

# fake sympy sets -------------------------------------------------------------

class FInterval:
    is_empty = False
    def __init__(self, a, b, lo, ro):
        self.left, self.right, self.left_open, self.right_open = a, b, lo, ro
        self.start, self.end, self.inf, self.sup = a, b, a, b
        self.args = (a, b, lo, ro)
    def contains(self, x): return _fs_contains(self, x)
    __contains__ = contains
class FFinite:
    is_empty = False
    def __init__(self, xs): self.args = tuple(xs)
    def __iter__(self): return iter(self.args)
    def __len__(self): return len(self.args)
    def __contains__(self, x): return _fs_contains(self, x)
class FUnion:
    is_empty = False
    def __init__(self, xs): self.args = tuple(xs)
    def __contains__(self, x): return _fs_contains(self, x)

SEmpty = _sp.S.EmptySet

def _inf(x):
    return isinstance(x, builtins.float) and math.isinf(x) or x is _sp.oo or x is -_sp.oo

def f_interval(a, b, left_open=False, right_open=False):
    if isinstance(a, builtins.float) and a == -INF: a = -_sp.oo
    if isinstance(b, builtins.float) and b == INF: b = _sp.oo
    if not (sym(a) or sym(b)):
        return _sp.Interval(a, b, left_open, right_open)
    if a is -_sp.oo: left_open = True
    if b is _sp.oo: right_open = True
    if a is _sp.oo or b is -_sp.oo: return SEmpty
    if a is not -_sp.oo and b is not _sp.oo:
        if wrap(a) > wrap(b): return SEmpty
        if wrap(a) == wrap(b):
            return SEmpty if (left_open or right_open) else FFinite([a])
    return FInterval(a, b, bool(left_open), bool(right_open))

def f_union(parts):
    ps = []
    for p in parts:
        if p is SEmpty: continue
        if isinstance(p, (FUnion, _sp.Union)): ps.extend(p.args)
        else: ps.append(p)
    if not ps: return SEmpty
    if len(ps) == 1: return ps[0]
    return FUnion(ps)

def _fs_contains(s, x):
    if s is SEmpty: return False
    if isinstance(s, (FFinite, _sp.FiniteSet)): return any(bool(wrap(x) == wrap(y)) for y in s.args)
    if isinstance(s, (FInterval, _sp.Interval)):
        w = wrap(x)
        l = True if _inf(s.left) else (w > wrap(s.left) if s.left_open else w >= wrap(s.left))
        if not l: return False
        return bool(True if _inf(s.right) else (w < wrap(s.right) if s.right_open else w <= wrap(s.right)))
    return any(_fs_contains(t, x) for t in s.args)

def _parts(s):
    """List of (kind, ...) in increasing order is not guaranteed."""
    if s is SEmpty: return []
    if isinstance(s, (FUnion, _sp.Union)): return [q for t in s.args for q in _parts(t)]
    return [s]

def f_intersection2(s, t):
    out = []
    for a in _parts(s):
        for b in _parts(t):
            if isinstance(a, (FFinite, _sp.FiniteSet)):
                xs = [x for x in a.args if _fs_contains(b, x)]
                if xs: out.append(FFinite(xs))
            elif isinstance(b, (FFinite, _sp.FiniteSet)):
                xs = [x for x in b.args if _fs_contains(a, x)]
                if xs: out.append(FFinite(xs))
            else:
                l, lo = _maxl(a, b)
                r, ro = _minr(a, b)
                out.append(f_interval(l, r, lo, ro))
    # collect points
    pts, ivs = [], []
    for o in out:
        if o is SEmpty: continue
        if isinstance(o, (FFinite, _sp.FiniteSet)): pts.extend(x for x in o.args if not any(bool(wrap(x) == wrap(y)) for y in pts))
        else: ivs.append(o)
    pts = [x for x in pts if not any(_fs_contains(i, x) for i in ivs)]
    return f_union(([FFinite(pts)] if pts else []) + ivs)

def _maxl(a, b):
    if _inf(a.left): return b.left, b.left_open
    if _inf(b.left): return a.left, a.left_open
    u, v = wrap(a.left), wrap(b.left)
    if u == v: return a.left, (a.left_open or b.left_open)
    return (a.left, a.left_open) if u > v else (b.left, b.left_open)
def _minr(a, b):
    if _inf(a.right): return b.right, b.right_open
    if _inf(b.right): return a.right, a.right_open
    u, v = wrap(a.right), wrap(b.right)
    if u == v: return a.right, (a.right_open or b.right_open)
    return (a.right, a.right_open) if u < v else (b.right, b.right_open)

def solve_rel(p, strict):
    """{x real : p(x) < 0} or <= 0 as a set, from the real roots."""
    if p.deg == 0:
        c = p.cs[0]
        ok = (c < 0) if strict else (c <= 0)
        return _sp.S.Reals if ok else SEmpty
    roots = poly_roots(p)
    neg_at_inf = p.cs[-1] < 0          # sign at +oo
    sign = -1 if neg_at_inf else 1
    # walk from right to left
    segs = []                          # (left, right, sign) right to left
    right = _sp.oo
    for (r, m) in reversed(roots):
        segs.append((r, right, sign))
        right = r
        if m % 2: sign = -sign
    segs.append((-_sp.oo, right, sign))
    segs.reverse()
    rs = [r for r, m in roots]
    out = []
    cur = None
    # merge closed pieces through the roots
    for i, (a, b, s) in enumerate(segs):
        if strict:
            if s < 0: out.append(f_interval_nc(a, b, True, True))
        else:
            if s < 0:
                if cur is None: cur = [a, b]
                else: cur[1] = b
            else:
                if cur is not None:
                    out.append(f_interval_nc(cur[0], cur[1], False, False)); cur = None
                elif i > 0:
                    out.append(('pt', a))
            if s >= 0 and i < len(segs) - 1:
                nxt = segs[i + 1][2]
                if nxt < 0: cur = [b, b]
    if cur is not None: out.append(f_interval_nc(cur[0], cur[1], False, False))
    pts = [o[1] for o in out if isinstance(o, tuple)]
    ivs = [o for o in out if not isinstance(o, tuple)]
    if len(ivs) == 1 and not pts and _inf(ivs[0].left) and _inf(ivs[0].right): return _sp.S.Reals
    return f_union(([FFinite(pts)] if pts else []) + ivs)

def f_interval_nc(a, b, lo, ro):
    return FInterval(a, b, lo or _inf(a), ro or _inf(b))

HOOKS = {}       # 'solveset' -> callable raising TimeoutError etc.

def s_solveset(rel, symbol=None, domain=None):
    if 'solveset' in HOOKS and sx.CTX is not None and sx.CTX.symbolic: 
        r = HOOKS['solveset'](rel)
        if r is not None: return r
    if isinstance(rel, SRel): return solve_rel(rel.poly, rel.strict)
    if isinstance(rel, SPoly):
        return FFinite([r for r, m in poly_roots(rel)]) if rel.deg else SEmpty
    if symbol is None: return _sp.solveset(rel, domain=domain)
    return _sp.solveset(rel, symbol, domain)

class CRoot:
    """A non-real root."""
    is_real = False

def s_nroots(p, **k):
    if not isinstance(p, SPoly): return _sp.nroots(p, **k)
    if p.deg == 0: raise _sp.PolynomialError("can't compute numerical roots of %s, not a polynomial" % (p,))
    out = []
    for r, m in poly_roots(p): out.extend([r] * m)
    out.extend(CRoot() for _ in range(p.deg - len(out)))
    return out

def s_limit(e, s, x, *a):
    if isinstance(e, SPoly):
        if e.deg == 0: return e.cs[0]
        if not _inf(x) : return e(x)
        pos = e.cs[-1] > 0
        if not (x > 0) and e.deg % 2: pos = not pos
        return _sp.oo if pos else -_sp.oo
    if sym(e): return e
    return _sp.limit(e, s, x, *a)

def s_function_range(f, s, domain):
    if 'function_range' in HOOKS and sx.CTX is not None and sx.CTX.symbolic: return HOOKS['function_range']()
    if not isinstance(f, SPoly):
        if sym(f): return FFinite([f])
        return _cu.function_range(f, s, domain)
    if f.deg == 0: return FFinite([f.cs[0]])
    if f.deg % 2: return _sp.S.Reals if False else _sp.Interval(-_sp.oo, _sp.oo)
    if f.deg == 2:
        c, b, a = f.cs
        m = c - b * b / (4 * a)
    else:
        # even degree: extreme value over the critical points
        crit = [f(r) for r, _ in poly_roots(f.diff())]
        m = crit[0]
        lead_pos = f.cs[-1] > 0
        for v in crit[1:]:
            if (v < m) if lead_pos else (v > m): m = v
    if f.cs[-1] > 0: return FInterval(m, _sp.oo, False, True)
    return FInterval(-_sp.oo, m, True, False)

def _set_shim(name, native, fakes, call):
    class Meta(type):
        def __instancecheck__(cls, x): return isinstance(x, (native,) + fakes)
        def __call__(cls, *a, **k): return call(*a, **k)
        def __getattr__(cls, n): return getattr(native, n)
    return Meta(name, (), {})

def _finite_call(*xs):
    if any(sym(x) for x in xs): return FFinite(xs)
    return _sp.FiniteSet(*xs)
def _union_call(*xs, **k):
    if any(isinstance(x, (FInterval, FFinite, FUnion)) for x in xs): return f_union(xs)
    return _sp.Union(*xs, **k)
def _inter_call(*xs, **k):
    if any(isinstance(x, (FInterval, FFinite, FUnion)) for x in xs):
        return functools.reduce(f_intersection2, xs)
    return _sp.Intersection(*xs, **k)
s_Interval = _set_shim('Interval', _sp.Interval, (FInterval,), f_interval)
s_FiniteSet = _set_shim('FiniteSet', _sp.FiniteSet, (FFinite,), _finite_call)
s_Union = _set_shim('Union', _sp.Union, (FUnion,), _union_call)
s_Intersection = _set_shim('Intersection', _sp.Intersection, (), _inter_call)

class _NotNumber:
    is_number = False
def s_sympify(x, *a, **k):
    if sym(x): return x
    if isinstance(x, str) and '_vf_sym(' in x:
        try: return eval(x, {'_vf_sym': sx._vf_sym, '_vf_log': sx_vf_log})
        except (NameError, SyntaxError, TypeError): return _NotNumber
    return _sp.sympify(x, *a, **k)
def sx_vf_log(n): return SymLog(sx.SYM_TOKENS[n])

# Native sympy numbers compared or combined with symbolic ones.
def _patch_sympy_numbers():
    import sympy.core.numbers as N, sympy.core.expr as E
    seen = set()
    refl = {'__lt__': '__gt__', '__le__': '__ge__', '__gt__': '__lt__', '__ge__': '__le__', '__eq__': '__eq__', '__ne__': '__ne__'}
    arith = {'__add__': '__radd__', '__sub__': '__rsub__', '__mul__': '__rmul__', '__truediv__': '__rtruediv__', '__pow__': '__rpow__',
             '__radd__': '__add__', '__rsub__': '__sub__', '__rmul__': '__mul__', '__rtruediv__': '__truediv__', '__rpow__': '__pow__'}
    from sympy.core.basic import Basic
    for mod in (N, E):
        for c in list(vars(mod).values()):
            if isinstance(c, type) and issubclass(c, Basic) and c not in seen:
                seen.add(c)
    seen.add(Basic)
    P = (SymReal, SymLog, SPoly)
    for c in seen:
        for n, r in list(refl.items()) + list(arith.items()):
            if n in vars(c):
                orig = vars(c)[n]
                def mk(orig, r):
                    def f(self, o):
                        if isinstance(o, P): return getattr(o, r)(self)
                        return orig(self, o)
                    f.__name__ = getattr(orig, '__name__', r)
                    return f
                try: setattr(c, n, mk(orig, r))
                except TypeError: pass
_patch_sympy_numbers()

# SymReal meets sympy expressions: c * X**i
def _sym_with_sympy(self, o, op):
    if isinstance(o, SPoly): return op(SPoly([self]), o)
    if isinstance(o, _sp.Basic) and o.has(_symX):
        return op(SPoly([self]), from_sympy(o))
    return None
sx.SYMPY_HOOK = _sym_with_sympy

def sin_mask(x): raise Unsupported('trigonometric function')

# ------------------------------------------------------------------------------
# module objects seen by the code under test

class ModShim(types.ModuleType):
    def __init__(self, native, over):
        super().__init__(native.__name__)
        self.__dict__['_native'] = native
        self.__dict__['_over'] = over
        for k, v in over.items(): self.__dict__[k] = v
    def __getattr__(self, n):
        return getattr(self.__dict__['_native'], n)

import scipy as _sc, scipy.special, scipy.stats as _st, fractions as _fr, os as _os

MATH = ModShim(math, dict(exp=m_exp, log=m_log, log1p=m_log1p, expm1=m_expm1, isinf=m_isinf, isnan=m_isnan,
    isfinite=m_isfinite, floor=m_floor, ceil=m_ceil, trunc=m_trunc, fabs=m_fabs, fsum=m_fsum, prod=m_prod,
    sqrt=m_sqrt, isclose=m_isclose))
NUMPY = ModShim(_np, dict(exp=_vec(n_exp), log=_vec(n_log), log1p=_vec(n_log1p), expm1=_vec(n_expm1),
    isinf=_vec(n_isinf), isneginf=_vec(n_isneginf), isposinf=_vec(n_isposinf), isnan=_vec(n_isnan), isfinite=_vec(n_isfinite),
    floor=_vec(n_floor), ceil=_vec(n_ceil), trunc=_vec(n_trunc), abs=_vec(n_abs), absolute=_vec(n_abs), fabs=_vec(n_abs), sqrt=_vec(n_sqrt),
    logaddexp=n_logaddexp, isclose=n_isclose, allclose=n_allclose, asarray=n_asarray, array=n_asarray,
    sum=n_sum, prod=n_prod, max=n_max, min=n_min, amax=n_max, amin=n_min,
    add=n_bin('add', operator.add), subtract=n_bin('subtract', operator.sub), multiply=n_bin('multiply', operator.mul),
    divide=n_bin('divide', operator.truediv), true_divide=n_bin('true_divide', operator.truediv)))
SPECIAL = ModShim(_ss, dict(logsumexp=logsumexp))
SCIPY = ModShim(_sc, dict(special=SPECIAL))
SYMPY = ModShim(_sp, dict(Pow=s_Pow, log=s_log, ln=s_log, exp=s_exp, sqrt=s_sqrt, Abs=s_Abs, Rational=s_Rational, Add=s_Add,
    Poly=s_Poly, Interval=s_Interval, FiniteSet=s_FiniteSet, Union=s_Union, Intersection=s_Intersection,
    solveset=s_solveset, nroots=s_nroots, limit=s_limit, function_range=s_function_range, sympify=s_sympify))
CALC = ModShim(_cu, dict(function_range=s_function_range, limit=s_limit))
FRACTIONS = ModShim(_fr, dict(Fraction=vf_Fraction))

class _SigShim(types.ModuleType):
    """Time-outs never fire by themselves in symbolic runs; HOOKS decide."""
    def __init__(self):
        super().__init__('signal')
    SIGALRM = _signal.SIGALRM
    def signal(self, *a): return None
    def alarm(self, *a): return 0
    def __getattr__(self, n): return getattr(_signal, n)
SIGNAL = _SigShim()

MODULES = {'math': MATH, 'numpy': NUMPY, 'scipy': SCIPY, 'scipy.special': SPECIAL, 'sympy': SYMPY,
           'sympy.calculus.util': CALC, 'fractions': FRACTIONS, 'signal': SIGNAL}
NAMES = {'float': vf_float, 'int': vf_int, 'hash': vf_hash, 'set': vf_set, 'frozenset': vf_frozenset, 'type': vf_type}
