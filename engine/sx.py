"""Symbolic execution of real Python code by proxies and re-execution (PyPy side).

Numeric values are kept in factored normal form (rational coefficient times powers of
interned primitive integer polynomials over solver variables).  Conditions are Boolean
combinations of sign literals on those polynomials; every Python branch on a condition asks
z3 which sides are feasible, and the harness is re-executed until all feasible paths are
covered.  `check` sends path-condition /\\ not property to the solver.
"""
import re as _re
import itertools, os, subprocess, sys, time
from fractions import Fraction as _Fraction
from math import gcd as _gcd
import math as _math

_float = float
REPO = os.environ.get('VF_REPO', '/repo')
_isinf = _math.isinf
_isnan = _math.isnan
_INF = _float('inf')

NEG, ZERO, POS = 1, 2, 4
ALL = 7


class Unsupported(BaseException):
    """A symbolic value met an operation the engine cannot encode."""

class PathEnd(BaseException):
    """The current path is infeasible or deliberately ended."""

class Inconclusive(BaseException):
    """The solver answered unknown, or a stated bound was exceeded."""

# ------------------------------------------------------------------------------
# Variables and polynomials (process-wide tables; terms are immutable).

class Var:
    __slots__ = ('id', 'name', 'sort')
    def __init__(self, id, name, sort):
        self.id, self.name, self.sort = id, name, sort

VARS = []
VAR_BY_NAME = {}
FRACS = set()       # ids of variables known to lie in [0, 1)

def input_term(kind, v):
    if kind == 'split': return SymReal.from_var(VARS[v[0]]) + SymReal.from_var(VARS[v[1]])
    return SymReal.from_var(VARS[v])

def _smt_name(n): return n if _re.fullmatch(r'[A-Za-z_~!@$%^&*+=<>.?/0-9-]+', n) else ''.join(c if c.isalnum() and c.isascii() or c in '_~!@' else '%%%x%%' % ord(c) for c in n)
def get_var(name, sort):
    v = VAR_BY_NAME.get((name, sort))
    if v is None:
        n = _smt_name(name)
        v = Var(len(VARS), n if sort == 'Real' else n + '@' + sort[0], sort)
        VARS.append(v)
        VAR_BY_NAME[(name, sort)] = v
    return v

class P:
    """Interned primitive polynomial: dict monomial -> int; leading coefficient positive."""
    __slots__ = ('id', 'terms', 'vars', 'smt', 'var', 'allint', 'linear')

POLYS = []
POLY_TABLE = {}

def _mono_key(m):
    # graded, then by content; only used to pick a deterministic leading term
    return (sum(e for _, e in m), m)

def intern_poly(terms):
    key = frozenset(terms.items())
    p = POLY_TABLE.get(key)
    if p is not None:
        return p
    p = P()
    p.id = len(POLYS)
    p.terms = terms
    vs = set()
    for m in terms:
        for v, _ in m:
            vs.add(v)
    p.vars = frozenset(vs)
    p.allint = all(VARS[v].sort == 'Int' for v in vs)
    p.linear = all(sum(e for _, e in m) <= 1 for m in terms)
    p.var = None
    if len(terms) == 1:
        (m, c), = terms.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            p.var = m[0][0]
    p.smt = None
    POLYS.append(p)
    POLY_TABLE[key] = p
    return p

def var_poly(v):
    return intern_poly({((v, 1),): 1})

def mono_mul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))

def poly_mul(a, b):
    r = {}
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = mono_mul(ma, mb)
            c = r.get(m, 0) + ca * cb
            if c:
                r[m] = c
            else:
                del r[m]
    return r

def poly_divide_exact(a, b):
    """a / b if b divides a exactly over Q, else None."""
    vs = sorted(set(v for m in a for v, _ in m) | set(v for m in b for v, _ in m))
    ix = {v: i for i, v in enumerate(vs)}
    n = len(vs)
    def dense(p):
        r = {}
        for m, c in p.items():
            t = [0] * n
            for v, e in m:
                t[ix[v]] = e
            r[tuple(t)] = c
        return r
    A, B = dense(a), dense(b)
    lb = max(B)
    cb = B[lb]
    Q = {}
    while A:
        la = max(A)
        t = tuple(x - y for x, y in zip(la, lb))
        if any(x < 0 for x in t):
            return None
        c = _Fraction(A[la]) / cb
        Q[t] = c
        for m, cc in B.items():
            mm = tuple(x + y for x, y in zip(m, t))
            nc = A.get(mm, 0) - c * cc
            if nc:
                A[mm] = nc
            else:
                A.pop(mm, None)
    return {tuple((vs[i], e) for i, e in enumerate(m) if e): c for m, c in Q.items()}

def normalize_poly(terms):
    """dict mono -> rational (non-empty) => (coef Fraction, [(fid, exp)...])"""
    # content
    den = 1
    for c in terms.values():
        d = c.denominator if isinstance(c, _Fraction) else 1
        den = den * d // _gcd(den, d)
    num = 0
    ints = {}
    for m, c in terms.items():
        i = int(c * den)
        ints[m] = i
        num = _gcd(num, i)
    lead = max(ints, key=_mono_key)
    if ints[lead] < 0:
        num = -num
    coef = _Fraction(num, den)
    ints = {m: c // num for m, c in ints.items()}
    # monomial gcd
    g = None
    for m in ints:
        d = dict(m)
        if g is None:
            g = d
        else:
            g = {v: min(e, d[v]) for v, e in g.items() if v in d}
        if not g:
            break
    fac = []
    if g:
        for v, e in g.items():
            fac.append((var_poly(v).id, e))
        ints = {tuple((v, e - g.get(v, 0)) for v, e in m if e - g.get(v, 0)): c
                for m, c in ints.items()}
    if len(ints) == 1 and () in ints:
        assert ints[()] == 1
    else:
        fac.append((intern_poly(ints).id, 1))
    return coef, fac

# ------------------------------------------------------------------------------
# Formulas.  True / False / ('s', fid, mask) / ('b', name, val) / ('&', ...) / ('|', ...)

def f_not(f):
    if f is True: return False
    if f is False: return True
    k = f[0]
    if k == 's': return ('s', f[1], ALL & ~f[2])
    if k == 'b': return ('b', f[1], not f[2])
    if k == '&': return f_or(*[f_not(x) for x in f[1:]])
    return f_and(*[f_not(x) for x in f[1:]])

def f_and(*fs):
    out = []
    seen = {}
    for f in fs:
        if f is True: continue
        if f is False: return False
        for g in (f[1:] if f[0] == '&' else (f,)):
            if g[0] == 's':
                m = seen.get(g[1])
                if m is not None:
                    nm = m[1] & g[2]
                    if nm == 0: return False
                    if nm != m[1]:
                        out[m[0]] = ('s', g[1], nm)
                        seen[g[1]] = (m[0], nm)
                    continue
                seen[g[1]] = (len(out), g[2])
                out.append(g)
            elif g not in out:
                out.append(g)
    if not out: return True
    if len(out) == 1: return out[0]
    return ('&',) + tuple(out)

def f_or(*fs):
    out = []
    seen = {}
    for f in fs:
        if f is False: continue
        if f is True: return True
        for g in (f[1:] if f[0] == '|' else (f,)):
            if g[0] == 's':
                m = seen.get(g[1])
                if m is not None:
                    nm = m[1] | g[2]
                    if nm == ALL: return True
                    if nm != m[1]:
                        out[m[0]] = ('s', g[1], nm)
                        seen[g[1]] = (m[0], nm)
                    continue
                seen[g[1]] = (len(out), g[2])
                out.append(g)
            elif g not in out:
                out.append(g)
    if not out: return False
    if len(out) == 1: return out[0]
    return ('|',) + tuple(out)

def f_lit(fid, mask):
    if mask == 0: return False
    if mask == ALL: return True
    return ('s', fid, mask)

_FVARS = {}
def f_vars(f):
    if f is True or f is False: return frozenset()
    k = f[0]
    if k == 's': return POLYS[f[1]].vars
    if k == 'b': return frozenset((('b', f[1]),))
    r = _FVARS.get(f)
    if r is None:
        s = set()
        for g in f[1:]:
            s |= f_vars(g)
        r = frozenset(s)
        _FVARS[f] = r
    return r

def _num(c):
    if c < 0: return '(- %d)' % (-c,)
    return '%d' % c

def poly_smt(p):
    if p.smt is None:
        isint = p.allint
        parts = []
        for m, c in sorted(p.terms.items()):
            fs = []
            for v, e in m:
                n = VARS[v].name
                if VARS[v].sort == 'Int' and not isint:
                    n = '(to_real %s)' % n
                fs.extend([n] * e)
            cs = _num(c) if isint else (_num(c) + '.0' if c >= 0 else '(- %d.0)' % -c)
            if not fs:
                parts.append(cs)
            elif c == 1:
                parts.append(fs[0] if len(fs) == 1 else '(* %s)' % ' '.join(fs))
            else:
                parts.append('(* %s %s)' % (cs, ' '.join(fs)))
        p.smt = parts[0] if len(parts) == 1 else '(+ %s)' % ' '.join(parts)
    return p.smt

_OPS = {1: '(< %s 0)', 2: '(= %s 0)', 4: '(> %s 0)', 3: '(<= %s 0)', 6: '(>= %s 0)', 5: '(not (= %s 0))'}
_OPSR = {1: '(< %s 0.0)', 2: '(= %s 0.0)', 4: '(> %s 0.0)', 3: '(<= %s 0.0)', 6: '(>= %s 0.0)', 5: '(not (= %s 0.0))'}

def f_smt(f):
    if f is True: return 'true'
    if f is False: return 'false'
    k = f[0]
    if k == 's':
        p = POLYS[f[1]]
        return (_OPS if p.allint else _OPSR)[f[2]] % poly_smt(p)
    if k == 'b':
        return f[1] if f[2] else '(not %s)' % f[1]
    return '(%s %s)' % ('and' if k == '&' else 'or', ' '.join(f_smt(g) for g in f[1:]))

def poly_eval(p, model):
    t = 0
    for m, c in p.terms.items():
        x = c
        for v, e in m:
            x = x * model[VARS[v].name] ** e
        t += x
    return t

def f_eval(f, model):
    if f is True or f is False: return f
    k = f[0]
    if k == 's':
        x = poly_eval(POLYS[f[1]], model)
        return bool(f[2] & (POS if x > 0 else NEG if x < 0 else ZERO))
    if k == 'b': return model.get(f[1], False) == f[2]
    if k == '&': return all(f_eval(g, model) for g in f[1:])
    return any(f_eval(g, model) for g in f[1:])

# ------------------------------------------------------------------------------
# Solver process.

class Solver:
    def __init__(self, cmd=None, timeout_ms=20000):
        self.cmd = cmd or ['z3', '-in', '-smt2']
        self.timeout_ms = timeout_ms
        self.proc = None
        self.declared = set()
        self.cache = {}
        self.queries = 0
        self.cache_hits = 0
        self.unknowns = 0
        self.seconds = 0.0
        self.log = None

    def start(self):
        self.proc = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=subprocess.STDOUT, universal_newlines=True, bufsize=1 << 16)
        self.declared = set()
        self.since = 0
        if 'cvc5' in self.cmd[0]:
            self.send('(set-logic ALL)')
        else:
            self.send('(set-option :timeout %d)' % self.timeout_ms)
            self.send('(set-option :pp.decimal false)')

    def send(self, s):
        self.proc.stdin.write(s + '\n')

    def stop(self):
        if self.proc is not None:
            try:
                self.proc.stdin.close()
                self.proc.kill()
                self.proc.wait()
            except Exception:
                pass
            self.proc = None

    def declare(self, vs):
        for v in vs:
            if isinstance(v, tuple):
                name, sort = v[1], 'Bool'
            else:
                name, sort = VARS[v].name, VARS[v].sort
            if name not in self.declared:
                self.send('(declare-const %s %s)' % (name, sort))
                self.declared.add(name)

    def read(self):
        self.proc.stdin.flush()
        if not self.buf_ready(self.timeout_ms / 1000.0 + 5):
            self.stop()
            return 'unknown'
        line = self.proc.stdout.readline()
        if not line:
            raise Inconclusive('solver process ended')
        return line.strip()

    def buf_ready(self, seconds):
        import select
        r, _, _ = select.select([self.proc.stdout], [], [], seconds)
        return bool(r)

    def check(self, asserts, vs, want_model=False):
        """asserts: list of SMT strings. Returns 'sat'/'unsat'/'unknown' (and model)."""
        key = None
        if not want_model:
            key = frozenset(asserts)
            r = self.cache.get(key)
            if r is not None:
                self.cache_hits += 1
                return r
        if self.proc is None:
            self.start()
        t0 = time.time()
        self.declare(vs)
        self.send('(push 1)')
        for a in asserts:
            self.send('(assert %s)' % a)
        self.send('(check-sat)')
        r = self.read()
        self.queries += 1
        self.since += 1
        model = None
        if r == 'sat' and want_model:
            model = self.get_values(vs)
        if r == 'unknown':
            r, model = self.portfolio(asserts, vs, want_model)
        if r not in ('sat', 'unsat', 'unknown'):
            # read and report solver errors, never treat as an answer
            self.stop()
            raise Inconclusive('solver said: %s on %s' % (r, asserts[-1][:300]))
        if self.proc is not None: self.send('(pop 1)')
        dt = time.time() - t0
        if dt > 2 and os.environ.get('VF_SLOW'):
            with open(os.environ['VF_SLOW'], 'a') as fh:
                fh.write('; %.1fs %s model=%s\n%s\n' % (dt, r, want_model, '\n'.join(asserts)))
        if self.log is not None:
            self.log.append(list(asserts))
        self.seconds += dt
        if r == 'unknown':
            self.unknowns += 1
        if self.since > 20000:
            self.stop()
        if want_model:
            return r, model
        if r != 'unknown':
            self.cache[key] = r
        return r

    PORTFOLIO = [['z3', '-smt2'], ['z3-new', '-smt2'], ['cvc5', '--lang=smt2'], ['z3', '-smt2', 'smt.random_seed=7', 'nlsat.seed=7'], ['z3-new', '-smt2', 'smt.random_seed=11', 'nlsat.randomize=true', 'nlsat.seed=11']]
    def portfolio(self, asserts, vs, want_model):
        """Fresh solvers of several kinds in parallel on a query that the incremental one gave up on; the first answer counts."""
        import tempfile, shutil
        d = tempfile.mkdtemp(prefix='vf')
        names = [v[1] if isinstance(v, tuple) else VARS[v].name for v in vs]
        decl = ['(declare-const %s %s)' % ((v[1], 'Bool') if isinstance(v, tuple) else (VARS[v].name, VARS[v].sort)) for v in vs]
        body = decl + ['(assert %s)' % a for a in asserts] + ['(check-sat)']
        ps = []
        try:
            for i, cmd in enumerate(self.PORTFOLIO):
                if shutil.which(cmd[0]) is None or (want_model and 'cvc5' in cmd[0]): continue
                pre = ['(set-logic ALL)'] if 'cvc5' in cmd[0] else []
                post = ['(get-value (%s))' % ' '.join(names)] if want_model and names else []
                path = os.path.join(d, '%d.smt2' % i)
                with open(path, 'w') as f: f.write('\n'.join(pre + body + post) + '\n')
                out = open(os.path.join(d, '%d.out' % i), 'w+')
                ps.append((subprocess.Popen(cmd + [path], stdout=out, stderr=subprocess.STDOUT), out))
            end = time.time() + max(20.0, 4 * self.timeout_ms / 1000.0)
            live = list(ps)
            while live and time.time() < end:
                for q, out in list(live):
                    if q.poll() is None: continue
                    live.remove((q, out))
                    out.seek(0)
                    text = out.read()
                    line, _, rest = text.partition('\n')
                    if line.strip() in ('sat', 'unsat'):
                        r = line.strip()
                        if r == 'sat' and want_model: return r, ({k: v for k, v in _parse_values(rest)} if names else {})
                        return r, None
                time.sleep(0.02)
            return 'unknown', None
        finally:
            for q, out in ps:
                if q.poll() is None: q.kill()
                q.wait(); out.close()
            shutil.rmtree(d, ignore_errors=True)

    def get_values(self, vs):
        names = [v[1] if isinstance(v, tuple) else VARS[v].name for v in vs]
        if not names:
            return {}
        self.send('(get-value (%s))' % ' '.join(names))
        self.proc.stdin.flush()
        depth, text = 0, ''
        while True:
            line = self.proc.stdout.readline()
            if not line:
                raise Inconclusive('solver process ended')
            if line.startswith('(error'):
                raise Inconclusive(line)
            text += line
            depth += line.count('(') - line.count(')')
            if depth <= 0:
                break
        return {k: v for k, v in _parse_values(text)}

def _tokenize(s):
    return s.replace('(', ' ( ').replace(')', ' ) ').split()

def _parse(tokens, i):
    if tokens[i] == '(':
        out = []
        i += 1
        while tokens[i] != ')':
            x, i = _parse(tokens, i)
            out.append(x)
        return out, i + 1
    return tokens[i], i + 1

def _value(x):
    if isinstance(x, str):
        if x == 'true': return True
        if x == 'false': return False
        if x.endswith('?'):
            x = x[:-1]
        return _Fraction(x)
    if x[0] == '-': return -_value(x[1])
    if x[0] == '/': return _value(x[1]) / _value(x[2])
    if x[0] == 'root-obj': return _root_obj(x)
    if x[0] == 'to_real': return _value(x[1])
    raise Inconclusive('cannot read model value %s' % (x,))

def _root_obj(x):
    # (root-obj poly k): k-th real root (1-based, increasing) of a univariate polynomial in x
    def ev(p, t):
        if isinstance(p, str):
            return t if p == 'x' else _Fraction(p)
        if p[0] == '+': return sum(ev(q, t) for q in p[1:])
        if p[0] == '*':
            r = 1
            for q in p[1:]: r = r * ev(q, t)
            return r
        if p[0] == '^': return ev(p[1], t) ** int(p[2])
        if p[0] == '-': return -ev(p[1], t)
        raise Inconclusive('root-obj %s' % (p,))
    k = int(x[2])
    # crude isolation on a fine grid followed by bisection
    pts = [_Fraction(i, 64) for i in range(-64 * 64, 64 * 64 + 1)]
    found = 0
    prev, fprev = pts[0], ev(x[1], pts[0])
    for t in pts[1:]:
        ft = ev(x[1], t)
        if fprev == 0 or (fprev < 0) != (ft < 0):
            found += 1
            if found == k:
                lo, hi, flo = prev, t, fprev
                if flo == 0: return lo
                for _ in range(70):
                    mid = (lo + hi) / 2
                    fm = ev(x[1], mid)
                    if fm == 0: return mid
                    if (fm < 0) == (flo < 0): lo = mid
                    else: hi = mid
                return lo
        prev, fprev = t, ft
    raise Inconclusive('root-obj not isolated')

def _parse_values(text):
    toks = _tokenize(text)
    lst, _ = _parse(toks, 0)
    return [(n, _value(v)) for n, v in lst]

# ------------------------------------------------------------------------------
# Context: one path.

CTX = None

class Ctx:
    symbolic = True
    def __init__(self, solver, solver2=None, max_paths=200000):
        self.solver = solver
        self.solver2 = solver2
        self.max_paths = max_paths
        self.violations = []
        self.inconclusive = []
        self.stats = dict(paths=0, checks=0, discharged=0, infeasible=0, trivial=0, witnesses=0, merged=0, branches=0)
        self.merge_depth = 0
        self.max_violations = 3
        self.functions = set()
        self.witnesses = []
        self.witness_budget = 2
        self.reset()

    # -- state -----------------------------------------------------------------
    def reset(self):
        self.known = {}
        self.blocks, self.block_of = {}, {}
        self.bknown = {}
        self.cons = []          # (formula, vars): path condition
        self.axioms = []        # definitional facts about fresh variables (satisfiable on every path)
        self.exports = []       # callables ev -> (key, value): stub tables for counterexample replay
        self.fresh_n = 0
        self.inputs = {}        # name -> ('real'|'int'|'bool'|'pick', var/values)
        self.registry = {}      # per-path scratch for stubs
        self.hints = []
        self.picked = {}
        self.path_checks = 0

    # -- terms -----------------------------------------------------------------
    def real(self, name, floor=False, **bounds):
        """A real input; with floor=True it is represented as integer part + fractional part."""
        if floor:
            n, f = get_var(name + '~n', 'Int'), get_var(name + '~f', 'Real')
            FRACS.add(f.id)
            self.inputs[name] = ('split', (n.id, f.id))
            fx = SymReal.from_var(f)
            self.assume(fx >= 0); self.assume(fx < 1)
            x = SymReal.from_var(n) + fx
            self._bounds(x, bounds)
            return x
        v = get_var(name, 'Real')
        self.inputs[name] = ('real', v.id)
        x = SymReal.from_var(v)
        self._bounds(x, bounds)
        return x
    def int(self, name, **bounds):
        v = get_var(name, 'Int')
        self.inputs[name] = ('int', v.id)
        x = SymReal.from_var(v)
        self._bounds(x, bounds)
        return x
    def _bounds(self, x, b):
        if 'lo' in b: self.assume(x >= b['lo'])
        if 'hi' in b: self.assume(x <= b['hi'])
        if 'gt' in b: self.assume(x > b['gt'])
        if 'lt' in b: self.assume(x < b['lt'])
    def bool(self, name):
        """A Boolean input, decided by branching (both values explored)."""
        self.inputs[name] = ('bool', name)
        return self.branch(('b', 'B_' + _smt_name(name), True))
    def pick(self, name, values):
        """An input chosen among finitely many shapes (all explored)."""
        values = list(values)
        for i in range(len(values) - 1):
            if self.branch(('b', 'B_%s_%d' % (_smt_name(name), i), True)):
                self.picked[name] = i
                return values[i]
        self.picked[name] = len(values) - 1
        return values[-1]
    def fresh(self, prefix, sort='Real'):
        self.fresh_n += 1
        v = get_var('%s!%d' % (prefix, self.fresh_n), sort)
        return SymReal.from_var(v)
    def const(self, x):
        return SymReal(_Fraction(x), ())
    num = const

    # -- formulas --------------------------------------------------------------
    def simp(self, f):
        if f is True or f is False: return f
        k = f[0]
        if k == 's':
            kn = self.known.get(f[1], ALL)
            m = kn & f[2]
            if m == kn: return True
            if m == 0: return False
            return f
        if k == 'b':
            kn = self.bknown.get(f[1])
            if kn is None: return f
            return kn == f[2]
        if k == '&': return f_and(*[self.simp(g) for g in f[1:]])
        return f_or(*[self.simp(g) for g in f[1:]])

    def add(self, f):
        """Add to the path condition."""
        if f is True: return
        if f is False: raise PathEnd('contradiction')
        k = f[0]
        if k == 's':
            m = self.known.get(f[1], ALL) & f[2]
            if m == 0: raise PathEnd('contradiction')
            self.known[f[1]] = m
            self.cons.append((f, POLYS[f[1]].vars))
        elif k == 'b':
            self.bknown[f[1]] = f[2]
        elif k == '&':
            for g in f[1:]:
                self.add(g)
        else:
            self.cons.append((f, f_vars(f)))

    def axiom(self, f):
        f = as_formula(f)
        if f is True: return
        if f is False: raise PathEnd('axiom')
        self.axioms.append((f, f_vars(f)))
        self.learn(f)

    def simplex(self, name, xs, verts, strict):
        """Declare that the vector xs ranges over a simplex with these vertices (its interior when strict)."""
        vs = tuple(next(iter(x.vars())) for x in xs)
        self.blocks[name] = (vs, tuple(tuple(v) for v in verts), strict)
        for v in vs: self.block_of[v] = name

    def vertex_learn(self, f):
        """The sign of a polynomial that is affine in every simplex follows from its values at the vertices."""
        p = POLYS[f]
        names = []
        for v in p.vars:
            b = self.block_of.get(v)
            if b is None: return
            if b not in names: names.append(b)
        names.sort()
        bl = tuple(self.blocks[b] for b in names)
        key = (f, bl)
        k = _VERTEX.get(key)
        if k is None:
            k = _VERTEX[key] = _vertex_mask(p, bl)
        if k: self.known[f] = k

    def learn(self, f):
        """Record an entailed fact (not part of the path condition)."""
        if f is True or f is False: return
        if f[0] == 's':
            m = self.known.get(f[1], ALL) & f[2]
            if m: self.known[f[1]] = m
        elif f[0] == '&':
            for g in f[1:]:
                self.learn(g)

    def slice(self, vs):
        vs = set(v for v in vs if not isinstance(v, tuple))
        out = []
        pending = self.cons + self.axioms
        while True:
            rest = []
            grew = False
            for c in pending:
                if c[1] & vs:
                    out.append(c[0])
                    n = len(vs)
                    vs |= c[1]
                    if len(vs) > n: grew = True
                else:
                    rest.append(c)
            pending = rest
            if not grew: break
        return out, vs

    def query(self, f, second=False):
        """Is path /\\ f satisfiable?"""
        f = self.simp(f)
        if f is False: return 'unsat'
        if f is True: return 'sat'
        fv = f_vars(f)
        if not any(not isinstance(v, tuple) for v in fv):
            return 'sat'     # only free Boolean inputs left, path is feasible
        cs, vs = self.slice(fv)
        asserts = [f_smt(c) for c in cs] + [f_smt(f)]
        vs = vs | fv
        r = self.solver.check(asserts, vs)
        if r == 'unknown' and self.solver2 is not None:
            r = self.solver2.check(asserts, vs)
        return r

    # -- branching -------------------------------------------------------------
    def branch(self, f):
        f = self.simp(f)
        if f is True or f is False: return f
        if self.pos < len(self.trail):
            g, val, kind = self.trail[self.pos]
            if g != f:
                raise Inconclusive('re-execution diverged: %s vs %s' % (f_smt(g), f_smt(f)))
            self.pos += 1
            if kind == 'forced':
                self.learn(f if val else f_not(f))
            else:
                self.add(f if val else f_not(f))
            return val
        if f[0] == 'b':
            t = u = 'sat'
        else:
            t = self.query(f)
            u = self.query(f_not(f)) if t != 'unsat' else 'sat'
        if t == 'unsat':
            self.trail.append((f, False, 'forced'))
            self.pos += 1
            self.learn(f_not(f))
            return False
        if u == 'unsat':
            self.trail.append((f, True, 'forced'))
            self.pos += 1
            self.learn(f)
            return True
        self.trail.append((f, True, 'open'))
        self.stats['branches'] += 2
        self.pos += 1
        self.add(f)
        return True

    def assume(self, f):
        f = self.simp(as_formula(f))
        if f is True: return
        if f is False: raise PathEnd('assume')
        if self.pos < len(self.trail):
            g, val, kind = self.trail[self.pos]
            if g != f or kind != 'assume':
                raise Inconclusive('re-execution diverged at assume: %s %s vs %s' % (f_smt(g), kind, f_smt(f)))
            self.pos += 1
            self.add(f)
            return
        if self.query(f) == 'unsat':
            raise PathEnd('assume')
        self.trail.append((f, True, 'assume'))
        self.pos += 1
        self.add(f)

    def _backtrack(self):
        t = self.trail
        while t and t[-1][2] != 'open':
            t.pop()
        if not t:
            return False
        f, val, _ = t.pop()
        t.append((f, not val, 'closed'))
        return True

    def explore(self, fn):
        """Run fn(self) on every feasible path."""
        global CTX
        self.trail = []
        n = 0
        while True:
            self.reset()
            self.pos = 0
            CTX = self
            try:
                if n == 0: sys.setprofile(self._profile)
                try:
                    fn(self)
                finally:
                    if n == 0: sys.setprofile(None)
                self.stats['paths'] += 1
                self._path_witness()
            except PathEnd:
                self.stats['infeasible'] += 1
            except Exception as exc:
                self.stats['paths'] += 1
                self.crash(exc)
            n += 1
            if len(self.violations) >= self.max_violations:
                return False
            if n > self.max_paths:
                raise Inconclusive('more than %d paths' % self.max_paths)
            if not self._backtrack():
                return True

    def _profile(self, frame, event, arg):
        if event == 'call':
            f = frame.f_code.co_filename
            i = f.find('/src/')
            if i >= 0 and f.startswith(REPO): self.functions.add('%s:%s' % (f[i + 5:], frame.f_code.co_name))

    def _path_witness(self):
        # a concrete input of this path, later run on the unmodified code
        k = self.stats['paths']
        if len(self.witnesses) < self.witness_budget and (k & (k - 1)) == 0 and self.path_checks:
            ms = self.models(True, want=0)
            if ms: self.witnesses.append(ms[0])

    def merge(self, fn, key=None):
        """Run fn under all its local paths; list of (formula, result) or, on exception, fork."""
        self.stats['merged'] += 1
        saved = (getattr(self, 'trail', None), self.pos, self.known, self.bknown, self.cons, self.merge_depth)
        results = []
        failed = False
        trail = []
        self.merge_depth += 1
        try:
            while True:
                self.trail, self.pos = trail, 0
                self.known, self.bknown, self.cons = dict(saved[2]), dict(saved[3]), list(saved[4])
                r = None
                try:
                    r = fn()
                except PathEnd:
                    r = PathEnd
                except Exception:
                    failed = True
                    break
                if r is not PathEnd:
                    conj = f_and(*[(f if val else f_not(f)) for f, val, kind in trail[:] if kind != 'forced'])
                    results.append((conj, r))
                if len(results) > 3000:
                    raise Inconclusive('merge too large')
                if not self._backtrack():
                    break
        finally:
            (self.trail, self.pos, self.known, self.bknown, self.cons, self.merge_depth) = saved
        if failed:
            return [(True, fn())]
        return results

    def truth(self, fn):
        """Formula for the truth of fn(), merged over its local paths."""
        rs = self.merge(fn)
        out = []
        for conj, r in rs:
            r = as_formula(r)
            out.append(f_and(conj, r))
        return SymBool(f_or(*out))

    def value(self, fn, key=None):
        """Value of fn() with local paths giving the same value merged."""
        rs = self.merge(fn)
        groups = []
        for conj, r in rs:
            for g in groups:
                if same_value(g[1], r):
                    g[0].append(conj)
                    break
            else:
                groups.append(([conj], r))
        for g in groups[:-1]:
            if self.branch(self.simp(f_or(*g[0]))):
                return g[1]
        return groups[-1][1]

    # -- properties ------------------------------------------------------------
    def check(self, f, msg='', info=None):
        self.stats['checks'] += 1
        f = self.simp(as_formula(f))
        if not self.path_checks and not self.stats['witnesses']:
            # reachability witness: the path condition itself must be satisfiable
            w = self.full_model(True)
            if w is not None:
                self.stats['witnesses'] += 1
        self.path_checks += 1
        if f is True:
            self.stats['discharged'] += 1
            self.stats['trivial'] += 1
            return True
        r = self.query(f_not(f))
        if r == 'unsat':
            self.stats['discharged'] += 1
            return True
        if r == 'unknown':
            self.inconclusive.append('unknown: %s' % msg)
            return True
        self.violate(f_not(f), msg, info)
        # continue on the part of the path where the property holds
        self.assume(f)
        return False

    def violate(self, f, msg, info=None):
        models = self.models(f)
        if not models:
            self.inconclusive.append('no model for: %s' % msg)
            return
        self.violations.append(dict(msg=msg, info=info, models=models, kind='check'))

    def crash(self, exc):
        """The code under test raised something the property does not allow."""
        import traceback
        tb = traceback.extract_tb(exc.__traceback__)
        where = ' <- '.join('%s:%d:%s' % (os.path.basename(f.filename), f.lineno, f.name) for f in reversed(tb[-6:]))
        models = self.models(True)
        if not models:
            self.inconclusive.append('no model for crash %r at %s' % (exc, where))
            return
        self.violations.append(dict(msg='unexpected %s: %s [%s]' % (type(exc).__name__, str(exc)[:200], where),
                                    models=models, kind='crash', etype=type(exc).__name__))

    def hint(self, f):
        """Preference for counterexample models (never restricts the claim)."""
        self.hints.append(f)

    def models(self, f, want=8):
        out = []
        f = self.simp(f)
        tries = []
        hs = self.hints
        nice = []
        for name, (kind, v) in self.inputs.items():
            if kind in ('real', 'int', 'split'):
                x = input_term(kind, v)
                nice.append(as_formula(x >= -8)); nice.append(as_formula(x <= 8))
        ints = []
        for i, (name, (kind, v)) in enumerate(self.inputs.items()):
            if kind == 'real' or kind == 'split':
                k = SymReal.from_var(get_var('HI!%d' % i, 'Int'))
                ints.append(as_formula(SymReal.from_var(VARS[v if kind == "real" else v[1]]) * 4 == k))
        tries.append([f] + [as_formula(h) for h in hs] + nice + ints)
        tries.append([f] + [as_formula(h) for h in hs] + nice)
        tries.append([f] + nice + ints)
        tries.append([f] + nice)
        tries.append([f])
        for t in tries:
            m = self.full_model(f_and(*t))
            if m is not None and m not in out:
                out.append(m)
        # further, different models
        block = []
        for m in list(out[:1]):
            for _ in range(want):
                d = []
                for name, (kind, v) in self.inputs.items():
                    if kind in ('real', 'int', 'split') and name in out[-1]['vars']:
                        x = input_term(kind, v)
                        d.append(as_formula(x != _Fraction(out[-1]['vars'][name])))
                if not d: break
                block.append(f_or(*d))
                m2 = self.full_model(f_and(f, *(block + nice + ints)))
                if m2 is None: m2 = self.full_model(f_and(f, *block))
                if m2 is None: break
                out.append(m2)
        return out

    def full_model(self, f):
        if f is False: return None
        allv = set()
        asserts = []
        for c, vs in self.cons + self.axioms:
            asserts.append(f_smt(c)); allv |= vs
        if f is not True:
            asserts.append(f_smt(f)); allv |= f_vars(f)
        for name, (kind, v) in self.inputs.items():
            if kind in ('real', 'int'): allv.add(v)
            elif kind == 'split': allv.update(v)
        try:
            r, m = self.solver.check(asserts, allv, want_model=True)
        except Inconclusive:
            self.solver.stop()
            return None
        if r != 'sat': return None
        vals = {}
        bools = {}
        for name, (kind, v) in self.inputs.items():
            if kind in ('real', 'int'):
                vals[name] = str(m.get(VARS[v].name, _Fraction(0)))
            elif kind == 'split':
                vals[name] = str(m.get(VARS[v[0]].name, _Fraction(0)) + m.get(VARS[v[1]].name, _Fraction(0)))
            elif kind == 'bool':
                b = self.bknown.get('B_' + _smt_name(name))
                if b is None: b = m.get('B_' + _smt_name(name), False)
                bools[name] = bool(b)
        def ev(x):
            if isinstance(x, SymReal):
                r = x.coef
                for f, e in x.fac:
                    t = _Fraction(0)
                    for mono, c in POLYS[f].terms.items():
                        y = _Fraction(c)
                        for v, k in mono: y = y * _Fraction(m.get(VARS[v].name, 0)) ** k
                        t += y
                    if t == 0 and e < 0: return _Fraction(0)
                    r = r * t ** e
                return r
            return x
        out = dict(vars=vals, bools=bools, picks=dict(self.picked))
        for fn in self.exports:
            k, v = fn(ev)
            out[k] = v
        return out

    # harness-level helpers shared with the concrete context
    def eq(self, a, b):
        return wrap(a) == wrap(b)
    def And(self, *fs): return SymBool(f_and(*[as_formula(f) for f in fs]))
    def Or(self, *fs): return SymBool(f_or(*[as_formula(f) for f in fs]))
    def Not(self, f): return SymBool(f_not(as_formula(f)))
    def Iff(self, a, b):
        a, b = as_formula(a), as_formula(b)
        return SymBool(f_or(f_and(a, b), f_and(f_not(a), f_not(b))))
    def Implies(self, a, b): return self.Or(self.Not(a), b)

# ------------------------------------------------------------------------------
# Proxies.

def as_formula(x):
    if isinstance(x, SymBool): return x.f
    if x is True or x is False: return x
    if isinstance(x, tuple): return x
    return bool(x)

def same_value(a, b):
    if type(a) is not type(b): return False
    if isinstance(a, SymReal): return a.coef == b.coef and a.fac == b.fac
    if isinstance(a, SymLog): return same_value(a.val, b.val)
    if isinstance(a, SymBool): return a.f == b.f
    if isinstance(a, _float) and a != a: return b != b
    if isinstance(a, (int, _float, str, bool, type(None))): return a == b
    return a is b

class SymBool:
    __slots__ = ('f',)
    __array_ufunc__ = None
    def __init__(self, f): self.f = f
    def __bool__(self): return CTX.branch(self.f)
    def __and__(self, o): return SymBool(f_and(self.f, as_formula(o)))
    __rand__ = __and__
    def __or__(self, o): return SymBool(f_or(self.f, as_formula(o)))
    __ror__ = __or__
    def __invert__(self): return SymBool(f_not(self.f))
    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)): return CTX.Iff(self, o)
        return bool(self) == o
    def __ne__(self, o): return not (self == o)
    def __hash__(self): return hash(bool(self))
    def __repr__(self): return '<cond %s>' % f_smt(self.f)[:200]
    def __index__(self): return int(bool(self))
    def __add__(self, o): return int(bool(self)) + o
    __radd__ = __add__
    def __mul__(self, o): return int(bool(self)) * o
    __rmul__ = __mul__
    def __rsub__(self, o): return o - int(bool(self))

def sb(f):
    return f if (f is True or f is False) else SymBool(f)

SYMPY = None
SYMPY_HOOK = None
def _hook(a, o, op):
    if SYMPY_HOOK is not None and SYMPY is not None and isinstance(o, SYMPY.Basic):
        r = SYMPY_HOOK(a, o, op)
        if r is not None: return r
    return NotImplemented
def _set_sympy(m):
    global SYMPY
    SYMPY = m

def wrap(x):
    """Convert to SymReal, or float inf/-inf, or None if not numeric."""
    if isinstance(x, SymReal): return x
    if isinstance(x, bool): return SymReal(_Fraction(int(x)), ())
    if isinstance(x, (int, _Fraction)): return SymReal(_Fraction(x), ())
    if isinstance(x, _float):
        if _isinf(x): return _float(x)
        if _isnan(x): return x
        return SymReal(_Fraction(x), ())
    if SYMPY is not None and isinstance(x, SYMPY.Basic):
        if x is SYMPY.oo: return _INF
        if x is -SYMPY.oo: return -_INF
        if x.is_Rational: return SymReal(_Fraction(int(x.p), int(x.q)), ())
        if x.is_Float: return SymReal(_Fraction(_float(x)), ())
        if x.is_number and x.is_real: return CTX_const(x)
        return None
    t = type(x).__module__
    if t == 'numpy':
        if hasattr(x, 'shape') and x.shape == ():
            return wrap(x.item())
    return None

def CTX_const(x):
    # irrational constant: arithmetic over solver variables within tight rational bounds
    if x.is_Add or x.is_Mul:
        r = None
        for a in x.args:
            w = wrap(a)
            r = w if r is None else r + w if x.is_Add else r * w
        return r
    if x.is_Pow and x.exp.is_Integer: return wrap(x.base) ** int(x.exp)
    if isinstance(x, SYMPY.exp) and x.args[0].is_Integer: return wrap(SYMPY.E) ** int(x.args[0])
    name = 'K!' + ''.join(c if c.isalnum() else '_' for c in str(x))
    reg = CTX.registry.setdefault('consts', {})
    if name not in reg:
        lo = _Fraction(str(SYMPY.N(x, 30)))
        eps = _Fraction(1, 10 ** 20)
        v = SymReal.from_var(get_var(name, 'Real'))
        reg[name] = v
        CTX.axiom(v > lo - eps); CTX.axiom(v < lo + eps)
        if x.is_Pow and x.base.is_Rational and x.exp.is_Rational and x.exp.p == 1: CTX.axiom(v ** int(x.exp.q) == wrap(x.base))
    return reg[name]

def flip(mask):
    return (mask & ZERO) | ((mask & NEG) << 2) | ((mask & POS) >> 2)

class SymReal:
    __slots__ = ('coef', 'fac', '_key')
    __array_ufunc__ = None
    is_real = True
    is_number = True
    def __init__(self, coef, fac):
        self.coef = coef
        self.fac = fac
    @staticmethod
    def from_var(v):
        return SymReal(_Fraction(1), ((var_poly(v.id).id, 1),))
    # -- inspection
    def is_const(self): return not self.fac
    def is_intval(self):
        if self.coef.denominator != 1: return False
        return all(e > 0 and POLYS[f].allint for f, e in self.fac)
    def vars(self):
        s = set()
        for f, _ in self.fac: s |= POLYS[f].vars
        return s
    def __repr__(self):
        if not self.fac:
            c = self.coef
            return str(c.numerator) if c.denominator == 1 else repr(_float(c))
        return '_vf_sym(%d)' % (sym_token(self),)
    __str__ = __repr__
    def show(self):
        return '%s*%s' % (self.coef, ' * '.join('(%s)^%d' % (poly_smt(POLYS[f]), e) for f, e in self.fac))
    def __format__(self, spec): return repr(self)
    def __hash__(self):
        if not self.fac: return hash(self.coef)
        return 7919
    @property
    def numerator(self): return self
    @property
    def denominator(self): return 1
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    # -- arithmetic
    def _mul(self, o):
        if self.coef == 0 or o.coef == 0: return ZERO_R
        if not o.fac: return SymReal(self.coef * o.coef, self.fac)
        if not self.fac: return SymReal(self.coef * o.coef, o.fac)
        d = dict(self.fac)
        for f, e in o.fac:
            n = d.get(f, 0) + e
            if n: d[f] = n
            else: del d[f]
        return SymReal(self.coef * o.coef, tuple(sorted(d.items())))
    def _inv(self):
        # caller ensures non-zero
        return SymReal(1 / self.coef, tuple((f, -e) for f, e in self.fac))
    def _add(self, o):
        if self.coef == 0: return o
        if o.coef == 0: return self
        if self.fac == o.fac:
            c = self.coef + o.coef
            return SymReal(c, self.fac) if c else ZERO_R
        da, db = dict(self.fac), dict(o.fac)
        common = {}
        for f in set(da) | set(db):
            m = min(da.get(f, 0), db.get(f, 0))
            if m: common[f] = m
        ta = _expand(self.coef, [(f, e - common.get(f, 0)) for f, e in da.items()]
                     + [(f, -m) for f, m in common.items() if f not in da])
        tb = _expand(o.coef, [(f, e - common.get(f, 0)) for f, e in db.items()]
                     + [(f, -m) for f, m in common.items() if f not in db])
        for m, c in tb.items():
            n = ta.get(m, 0) + c
            if n: ta[m] = n
            else: del ta[m]
        if not ta: return ZERO_R
        coef, fac = normalize_poly(ta)
        d = common
        for f, e in fac:
            if POLYS[f].var is None and len(POLYS[f].terms) > 1:
                # cancel against polynomial denominators
                f0 = f
                for g in [g for g, ge in d.items() if ge < 0 and g != f0 and len(POLYS[g].terms) > 1]:
                    while d.get(g, 0) < 0:
                        q = poly_divide_exact(POLYS[f0].terms, POLYS[g].terms)
                        if q is None: break
                        d[g] += 1
                        if not d[g]: del d[g]
                        c2, fac2 = normalize_poly(q)
                        coef *= c2
                        f0 = None
                        for h, he in fac2:
                            if len(POLYS[h].terms) > 1 and f0 is None:
                                f0 = h
                            else:
                                n = d.get(h, 0) + he
                                if n: d[h] = n
                                else: d.pop(h, None)
                        if f0 is None: break
                    if f0 is None: break
                if f0 is None: continue
                f = f0
            n = d.get(f, 0) + e
            if n: d[f] = n
            else: d.pop(f, None)
        return SymReal(coef, tuple(sorted(d.items())))
    def __add__(self, o):
        w = wrap(o)
        if w is None: return _hook(self, o, lambda a, b: a + b)
        if not isinstance(w, SymReal): return w
        return self._add(w)
    __radd__ = __add__
    def __neg__(self): return SymReal(-self.coef, self.fac)
    def __pos__(self): return self
    def __sub__(self, o):
        w = wrap(o)
        if w is None: return _hook(self, o, lambda a, b: a - b)
        if not isinstance(w, SymReal): return -w
        return self._add(-w)
    def __rsub__(self, o):
        w = wrap(o)
        if w is None: return _hook(self, o, lambda a, b: b - a)
        if not isinstance(w, SymReal): return w
        return w._add(-self)
    def __mul__(self, o):
        if isinstance(o, SymLog): return LinLog({}) ._addterm(self, o.val)
        w = wrap(o)
        if w is None: return _hook(self, o, lambda a, b: a * b)
        if not isinstance(w, SymReal):
            if self > 0: return w
            if self < 0: return -w
            return _float('nan')
        return self._mul(w)
    __rmul__ = __mul__
    def __truediv__(self, o):
        w = wrap(o)
        if w is None: return NotImplemented
        if not isinstance(w, SymReal): return ZERO_R
        if w == 0: raise ZeroDivisionError('division by zero')
        return self._mul(w._inv())
    def __rtruediv__(self, o):
        w = wrap(o)
        if w is None: return NotImplemented
        if not isinstance(w, SymReal):
            if self > 0: return w
            if self < 0: return -w
            raise ZeroDivisionError('division by zero')
        if self == 0: raise ZeroDivisionError('division by zero')
        return w._mul(self._inv())
    def __pow__(self, n):
        if isinstance(n, SymReal) and n.is_const() and n.coef.denominator == 1: n = int(n.coef)
        if SYMPY is not None and isinstance(n, SYMPY.Integer): n = int(n)
        if isinstance(n, int):
            if n == 0: return ONE_R
            if n < 0:
                if self == 0: raise ZeroDivisionError('0 to a negative power')
            if self.coef == 0: return ZERO_R
            return SymReal(self.coef ** n, tuple((f, e * n) for f, e in self.fac))
        if not isinstance(n, (SymReal, SymBool, int, _float)) and hasattr(n, '__rpow__') and hasattr(n, 'get_symbols'): return NotImplemented
        raise Unsupported('power %r' % (n,))
    def __rpow__(self, b):
        raise Unsupported('exponential of symbolic')
    def __abs__(self):
        return self if self >= 0 else -self
    def __floor__(self): return sym_floor(self)
    def __ceil__(self): return -sym_floor(-self)
    def __trunc__(self): return sym_trunc(self)
    def __floordiv__(self, o): return sym_floor(self / o)
    def __rfloordiv__(self, o): return sym_floor(o / self)
    def __mod__(self, o): return self - sym_floor(self / o) * o
    def __round__(self, n=None):
        raise Unsupported('round')
    def __float__(self):
        if self.is_const(): return _float(self.coef)
        raise Unsupported('float() on a symbolic value reached native code')
    def __int__(self):
        if self.is_const(): return int(self.coef)
        raise Unsupported('int() on a symbolic value reached native code')
    def __complex__(self): raise Unsupported('complex()')
    def __index__(self):
        if self.is_const() and self.coef.denominator == 1: return int(self.coef)
        raise Unsupported('symbolic value used as an index')
    def __bool__(self): return bool(self != 0)
    def is_integer(self): return bool(sym_floor(self) == self)
    def item(self): return self
    # -- comparison
    def _sign(self, mask):
        """Formula: sign of self is in mask."""
        known = CTX.known
        if CTX.blocks:
            for f, e in self.fac:
                if f not in known: CTX.vertex_learn(f)
        c = self.coef
        if c == 0: return bool(mask & ZERO)
        if c < 0: mask = flip(mask)
        todo = []
        for f, e in self.fac:
            k = known.get(f, ALL)
            if e < 0: k &= ~ZERO
            if e % 2 == 0:
                k = (k & ZERO) | (POS if k & (NEG | POS) else 0)
                par = 0
            else:
                par = 1
            if k == POS: continue
            if k == NEG:
                mask = flip(mask); continue
            if k == ZERO: return bool(mask & ZERO)
            todo.append((f, par, k))
        return _sign_formula(todo, 0, mask)
    def _cmp(self, o, mask):
        if isinstance(o, SymLog): return NotImplemented
        w = wrap(o)
        if w is None: return NotImplemented
        if not isinstance(w, SymReal):
            if w != w: return mask == 5      # nan
            return bool(mask & (NEG if w > 0 else POS))
        return sb(self._add(-w)._sign(mask))
    def __lt__(self, o): return self._cmp(o, NEG)
    def __le__(self, o): return self._cmp(o, NEG | ZERO)
    def __gt__(self, o): return self._cmp(o, POS)
    def __ge__(self, o): return self._cmp(o, POS | ZERO)
    def __eq__(self, o):
        if self is o: return True
        return self._cmp(o, ZERO)
    def __ne__(self, o):
        if self is o: return False
        r = self._cmp(o, NEG | POS)
        return r

def _sign_formula(todo, i, mask):
    if i == len(todo): return bool(mask & POS)
    f, par, k = todo[i]
    if i == len(todo) - 1:
        if par:
            if (mask & k) == k: return True
            if not POLYS[f].allint and CTX is not None:
                r = _frac_lit(f, mask)
                if r is None: r = _mixed_lit(f, mask)
                if r is not None: return r
            return f_lit(f, mask | (ALL & ~k))
        m = (ZERO if mask & ZERO else 0) | ((NEG | POS) if mask & POS else 0)
        if (m & k) == k or (k == (ZERO | POS) and (m & (ZERO | POS)) == (ZERO | POS)): return True
        return f_lit(f, m)
    out = []
    if k & ZERO and mask & ZERO:
        out.append(f_lit(f, ZERO))
    if par:
        if k & POS: out.append(f_and(f_lit(f, POS), _sign_formula(todo, i + 1, mask)))
        if k & NEG: out.append(f_and(f_lit(f, NEG), _sign_formula(todo, i + 1, flip(mask))))
    else:
        out.append(f_and(f_lit(f, NEG | POS), _sign_formula(todo, i + 1, mask)))
    return f_or(*out)

_VERTEX = {}
def _vertex_mask(p, bl):
    n = 1
    for vs, verts, st in bl: n *= len(verts)
    if n > 5000 or len(p.terms) < 2: return 0
    where = {v: (i, j) for i, (vs, _, _) in enumerate(bl) for j, v in enumerate(vs)}
    # polynomial over the blocks: one coordinate per block at most
    terms = []
    for m, c in p.terms.items():
        row = [None] * len(bl)
        for v, e in m:
            i, j = where[v]
            if e != 1 or row[i] is not None: return 0
            row[i] = j
        terms.append((row, c))
    lo = hi = None
    for combo in itertools.product(*[verts for _, verts, _ in bl]):
        t = 0
        for row, c in terms:
            for i, j in enumerate(row):
                if j is not None:
                    c = c * combo[i][j]
                    if not c: break
            t += c
        if lo is None or t < lo: lo = t
        if hi is None or t > hi: hi = t
        if lo < 0 < hi: return ALL
    strict = all(st for _, _, st in bl)
    if lo > 0: return POS
    if hi < 0: return NEG
    if lo == 0: return POS if strict else ZERO | POS
    return NEG if strict else ZERO | NEG

ZERO_R = SymReal(_Fraction(0), ())
ONE_R = SymReal(_Fraction(1), ())

_EXPAND = {}
def _expand(coef, fac):
    fac = tuple(sorted((f, e) for f, e in fac if e))
    t = _EXPAND.get(fac)
    if t is None:
        t = {(): 1}
        for f, e in fac:
            assert e > 0, fac
            for _ in range(e):
                t = poly_mul(t, POLYS[f].terms)
        if len(_EXPAND) < 200000: _EXPAND[fac] = t
    return {m: c * coef for m, c in t.items()}

def sym_floor(x):
    w = wrap(x)
    if not isinstance(w, SymReal): raise OverflowError('cannot convert float infinity to integer')
    if w.is_const(): return SymReal(_Fraction(_math.floor(w.coef)), ())
    if w.is_intval(): return w
    # split off the integer-valued additive part and a sign: one floor variable per remainder
    g, r = _int_part(w)
    if r is None: return g
    rg = _frac_range(r)
    if rg is not None:
        lo, hi = rg
        k, top = _math.floor(lo), _math.ceil(hi) - 1      # hi is never attained above an integer
        if _attains(r, hi): top = _math.floor(hi)
        while k < top and not bool(r < k + 1): k += 1
        return g._add(SymReal(_Fraction(k), ())) if k else g
    if r.coef < 0:
        n = _floor_var(-r)
        n = -n if bool(-r == n) else -n - 1
    else:
        n = _floor_var(r)
    return n._add(g)

def _int_part(w):
    if any(e < 0 for f, e in w.fac): return ZERO_R, w
    ts = _expand(w.coef, w.fac)
    gi, rest = {}, {}
    for m, c in ts.items():
        c = _Fraction(c)
        if not m:
            k = _math.floor(c)
            if k: gi[m] = _Fraction(k)
            if c != k: rest[m] = c - k
        elif c.denominator == 1 and all(VARS[v].sort == 'Int' for v, _ in m): gi[m] = c
        else: rest[m] = c
    def mk(t):
        if not t: return None
        coef, fac = normalize_poly(t)
        return SymReal(coef, tuple(sorted(fac)))
    g = mk(gi)
    return (ZERO_R if g is None else g), mk(rest)

def _frac_range(r):
    """(inf, sup) of a linear combination of fractional parts, else None."""
    if any(e < 0 for f, e in r.fac): return None
    lo = hi = _Fraction(0)
    for m, c in _expand(r.coef, r.fac).items():
        c = _Fraction(c)
        if not m: lo += c; hi += c
        elif len(m) == 1 and m[0][1] == 1 and m[0][0] in FRACS:
            if c > 0: hi += c
            else: lo += c
        else: return None
    return lo, hi

def _attains(r, hi):
    """The supremum is attained when no fractional part has a positive coefficient."""
    return not any(m and c > 0 for m, c in _expand(r.coef, r.fac).items())

_FRAC_SPLIT = {}
def _frac_lit(f, mask):
    """Comparison of integer parts + fractional parts as separate integer and real literals."""
    if f in _FRAC_SPLIT: sp = _FRAC_SPLIT[f]
    else:
        p = POLYS[f]
        sp = None
        if p.linear and any(v in FRACS for v in p.vars) and any(VARS[v].sort == 'Int' for v in p.vars):
            d = 0
            for m, c in p.terms.items():
                if m: d = _gcd(d, abs(int(c)))
            g, r = _int_part(SymReal(_Fraction(1, d), ((f, 1),)))
            if r is not None:
                rg = _frac_range(r)
                if rg is not None and rg[1] - rg[0] <= 5: sp = (g, r, rg[0], rg[1])
        _FRAC_SPLIT[f] = sp
    if sp is None: return None
    g, r, lo, hi = sp
    k0, k1 = _math.ceil(-hi), _math.floor(-lo)      # values of g at which the sign depends on r
    out = []
    if mask & POS: out.append(as_formula(g > k1))
    if mask & NEG: out.append(as_formula(g < k0))
    for k in range(k0, k1 + 1):
        x = r + k
        out.append(f_and(as_formula(g == k), as_formula(x._cmp(0, mask))))
    return f_or(*out)

def _floor_var(w):
    reg = CTX.registry.setdefault('floor', [])
    for (y, n) in reg:
        if same_value(y, w): return n
    n = CTX.fresh('fl', 'Int')
    CTX.axiom(n <= w); CTX.axiom(w < n + 1)
    for (y, m) in reg:
        le, nle = (y <= w), (n >= m)
        CTX.axiom(f_or(f_not(as_formula(le)), as_formula(nle)))
        CTX.axiom(f_or(as_formula(le), as_formula(n <= m)))
    reg.append((w, n))
    return n

_MIXED = {}
def _mixed_split(f):
    """poly = s * (g + r), g integer-valued, r real remainder; None unless int and real variables meet linearly."""
    if f in _MIXED: return _MIXED[f]
    p = POLYS[f]
    out = None
    sorts = set(VARS[v].sort for v in p.vars)
    if p.linear and len(sorts) == 2:
        s = next(abs(c) for m, c in sorted(p.terms.items()) if m and VARS[m[0][0]].sort == 'Real')
        w = SymReal(_Fraction(1, s), ((f, 1),))
        g, r = _int_part(w)
        if r is not None and all(VARS[v].sort == 'Real' for v in r.vars()): out = (g, r)
    _MIXED[f] = out
    return out

def _mixed_lit(f, mask):
    """Comparison of an integer term with a real whose floor n is named, over n."""
    reg = CTX.registry.get('floor')
    if not reg: return None
    sp = _mixed_split(f)
    if sp is None: return None
    g, r = sp
    neg = -r
    for y, n in reg:
        if same_value(y, r): sgn = 1; break
        if same_value(y, neg): sgn = -1; break
    else:
        return None
    k = -g if sgn == 1 else g          # sign of the poly is that of sgn * (y - k)
    if same_value(k, n): return None   # y - n itself
    if sgn < 0: mask = flip(mask)
    out = []
    if mask & NEG: out.append(as_formula(n < k))
    isint = as_formula(y == n)
    if mask & POS and mask & ZERO: out.append(as_formula(n >= k))
    elif mask & POS:
        out.append(as_formula(n > k)); out.append(f_and(as_formula(n == k), f_not(isint)))
    elif mask & ZERO: out.append(f_and(as_formula(n == k), isint))
    return f_or(*out)

def sym_trunc(x):
    w = wrap(x)
    if not isinstance(w, SymReal): raise OverflowError('cannot convert float infinity to integer')
    if w.is_intval(): return w
    if w >= 0: return sym_floor(w)
    return -sym_floor(-w)

# textual form of symbolic constants in rendered programs / reprs
SYM_TOKENS = {}
def sym_token(x):
    key = (x.coef, x.fac)
    for k, v in SYM_TOKENS.items():
        if (v.coef, v.fac) == key: return k
    n = len(SYM_TOKENS)
    SYM_TOKENS[n] = x
    return n
def _vf_sym(n): return SYM_TOKENS[n]

def _logconst(c):
    """exp(c) for a concrete log-space number, as an exact rational where recognisable."""
    if c == 0: return ONE_R
    if c == -_INF: return ZERO_R
    v = _math.exp(c) if not hasattr(_math, '_vf_exp') else _math._vf_exp(c)
    fr = _Fraction(v).limit_denominator(10 ** 6)
    if abs(_float(fr) - v) > 1e-12 * max(1.0, v):
        fr = _Fraction(v)
    return SymReal(fr, ())

class SymLog:
    """Log-space number log(val), val >= 0."""
    __slots__ = ('val',)
    __array_ufunc__ = None
    def __init__(self, val): self.val = val
    def __repr__(self):
        if self.val.is_const() and self.val.coef > 0: return '%r' % (_math.log(self.val.coef),)
        return '_vf_log(%d)' % (sym_token(self.val),)
    def __hash__(self): return 7907
    @staticmethod
    def of(o):
        if isinstance(o, SymLog): return o
        if isinstance(o, SymReal):
            if o.is_const(): return SymLog(_logconst(_float(o.coef)))
            return None
        if isinstance(o, (int, _float)):
            if o == _INF or o != o: return None
            return SymLog(_logconst(_float(o)))
        if type(o).__module__ == 'numpy' and getattr(o, 'shape', None) == ():
            return SymLog.of(o.item())
        return None
    def __add__(self, o):
        if isinstance(o, LinLog): return NotImplemented
        w = SymLog.of(o)
        if w is None:
            if isinstance(o, _float): return o if not (o == _INF and self.val == 0) else _float('nan')
            return NotImplemented
        return SymLog(self.val._mul(w.val))
    __radd__ = __add__
    def __neg__(self):
        if self.val == 0: return _INF
        return SymLog(self.val._inv())
    def __sub__(self, o):
        if isinstance(o, LinLog): return NotImplemented
        w = SymLog.of(o)
        if w is None: return NotImplemented
        if w.val == 0:
            return _float('nan') if self.val == 0 else _INF
        return SymLog(self.val._mul(w.val._inv()))
    def __rsub__(self, o):
        w = SymLog.of(o)
        if w is None:
            if isinstance(o, _float): return o
            return NotImplemented
        return w - self
    def __mul__(self, o):
        w = wrap(o)
        if w is None: return NotImplemented
        if isinstance(w, SymReal):
            if w.is_const() and w.coef == 1: return self
            return LinLog({})._addterm(w, self.val)
        return NotImplemented
    __rmul__ = __mul__
    def _cmp(self, o, mask):
        if isinstance(o, _float) and o == _INF: return bool(mask & NEG)
        w = SymLog.of(o)
        if w is None: return NotImplemented
        return sb(self.val._add(-w.val)._sign(mask))
    def __lt__(self, o): return self._cmp(o, NEG)
    def __le__(self, o): return self._cmp(o, NEG | ZERO)
    def __gt__(self, o): return self._cmp(o, POS)
    def __ge__(self, o): return self._cmp(o, POS | ZERO)
    def __eq__(self, o): return True if self is o else self._cmp(o, ZERO)
    def __ne__(self, o): return False if self is o else self._cmp(o, NEG | POS)
    def __float__(self):
        if self.val.is_const():
            return _math.log(self.val.coef) if self.val.coef > 0 else -_INF
        raise Unsupported('float() on log-space symbolic value')
    def __bool__(self): return bool(self != 0)
    def item(self): return self

class LinLog:
    """Formal sum  sum_i c_i * log(v_i)  of real multiples of logs (v_i > 0 where c_i != 0)."""
    __slots__ = ('terms',)
    __array_ufunc__ = None
    def __init__(self, terms): self.terms = terms   # list-like dict: key -> (coef, val)
    def _addterm(self, c, v):
        t = dict(self.terms)
        # split v into factors: log is additive
        if v.coef != 1:
            k = ('c', v.coef)
            t = _ll_add(t, k, c, SymReal(v.coef, ()))
        for f, e in v.fac:
            t = _ll_add(t, ('f', f), c * e, SymReal(_Fraction(1), ((f, 1),)))
        return LinLog(t)
    @staticmethod
    def of(o):
        if isinstance(o, LinLog): return o
        if isinstance(o, SymLog): return LinLog({})._addterm(ONE_R, o.val)
        if isinstance(o, (int, _float)) and o == 0: return LinLog({})
        return None
    def __add__(self, o):
        w = LinLog.of(o)
        if w is None: return NotImplemented
        t = dict(self.terms)
        for k, (c, v) in w.terms.items():
            t = _ll_add(t, k, c, v)
        return LinLog(t)
    __radd__ = __add__
    def __neg__(self): return LinLog({k: (-c, v) for k, (c, v) in self.terms.items()})
    def __sub__(self, o):
        w = LinLog.of(o)
        if w is None: return NotImplemented
        return self + (-w)
    def __rsub__(self, o): return (-self) + o
    def __mul__(self, o):
        w = wrap(o)
        if not isinstance(w, SymReal): return NotImplemented
        return LinLog({k: (c * w, v) for k, (c, v) in self.terms.items()})
    __rmul__ = __mul__
    def __repr__(self): return '<linlog>'

def _ll_add(t, k, c, v):
    t = dict(t)
    if k in t:
        n = t[k][0] + c
        if n.coef == 0: del t[k]
        else: t[k] = (n, v)
    elif c.coef != 0:
        t[k] = (c, v)
    return t

def is_sym(x):
    return isinstance(x, (SymReal, SymLog, LinLog, SymBool))

# ------------------------------------------------------------------------------
# harness-level conveniences of the symbolic context (mirrored by engine.concrete)

def _ctx_exp(self, lp):
    """Probability of a log-probability, as an exact number."""
    l = SymLog.of(lp)
    if l is None: raise Violation_('not a log-probability: %r' % (lp,))
    return l.val
def _ctx_log(self, p):
    w = wrap(p)
    return SymLog(w)
class Violation_(Exception):
    pass
Ctx.exp = _ctx_exp
Ctx.log = _ctx_log
Ctx.frac = lambda self, x: wrap(x)
