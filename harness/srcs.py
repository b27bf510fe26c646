"""Source programs: text printed from a program of progs (or written out), compiled by the real compiler, with given constants and laws.

Given values reach the text through the module `vf_given` (imported by the text itself); the calls norm(tag=k) and poisson(tag=k)
in the text are stand-ins that make a variable with an arbitrary law named k (the distribution constructors are C20's matter).
"""
import sys, types
from harness.progs import *

class Given:
    """The module vf_given and the stand-ins for distribution constructors, while a text is compiled and run."""
    def __init__(self, P, values): self.P, self.values = P, dict(values)
    def __enter__(self):
        from sppl import distributions as D
        m = types.ModuleType('vf_given')
        m.__dict__.update(self.values)
        sys.modules['vf_given'] = m
        P = self.P
        def stand(base, kind):
            class Stand(base):
                def __init__(self, *args, **kw):
                    assert not args and set(kw) == {'tag'}, (args, kw)
                    self.tag = kw['tag']
                def __call__(self, symbol): return P.leaf(self.tag, kind, symbol.token)['spe']
            return Stand
        self.old = [(n, getattr(D, n)) for n in ('norm', 'poisson')]
        D.norm = stand(D.ContinuousReal, 'cont')
        D.poisson = stand(D.DiscreteReal, 'disc')
        return self
    def __exit__(self, *a):
        from sppl import distributions as D
        for n, v in self.old: setattr(D, n, v)
        sys.modules.pop('vf_given', None)

class Src:
    """Prints statements of progs."""
    def __init__(self, P, eq='==', conn='&', tilde='~='):
        self.P, self.eq, self.conn, self.tilde = P, eq, conn, tilde
        self.values = {}
    def name(self, v):
        for k, u in self.values.items():
            if u is v: return k
        k = 'g%d' % len(self.values)
        self.values[k] = v
        return k
    # -- conditions
    def th(self, v, t):
        if v in self.P.der: b, f = self.P.der[v]; return self.name(f(t.x))
        return self.name(t.x)
    def ev(self, e):
        k = e[0]
        if k in ('and', 'or'):
            xs = ['(%s)' % self.ev(x) for x in e[1:]]
            op = {'and': '&', 'or': '|'}[k] if self.conn == '&' else k
            return (' %s ' % op).join(xs)
        if k == 'not':
            x = e[1]
            if x[0] in ('in', 's') and self.conn != '~': return self.member(x, True)
            return ('not (%s)' if self.conn == 'and' else '~(%s)') % self.ev(x)
        if k == 'xor': return '(%s) ^ (%s)' % (self.ev(e[1]), self.ev(e[2]))
        if k in ('in', 's'): return self.member(e, False)
        if k == 'ns': return self.member(('s',) + e[1:], True)
        op = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[k]
        x = self.th(e[1], e[2])
        if self.eq == 'in':
            # flipped
            return '%s %s %s' % (x, {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[op], e[1])
        return '%s %s %s' % (e[1], op, x)
    def member(self, e, neg):
        vals = [repr(t) if isinstance(t, str) else self.th(e[1], t) for t in e[2]]
        if len(vals) == 1 and self.eq == '==': return '%s %s %s' % (e[1], '!=' if neg else '==', vals[0])
        return '%s %s {%s}' % (e[1], 'not in' if neg else 'in', ', '.join(vals))
    # -- statements
    def dist(self, V, kind, key):
        if kind == 'nom':
            d = self.P.leaf(key, kind, V)['dist']
            return 'choice({%s})' % ', '.join('%r: %s' % (k, self.name(w)) for k, w in d.items())
        if kind == 'mix':
            l = self.P.leaf(key, kind, V)
            return ' | '.join('%s*%s' % (self.name(w), self.dist(V, 'disc' if self.P.kinds[V] == 'disc' else 'cont' if self.P.kinds[V] == 'cont' else 'nom', '%s_%d' % (key, i))) for i, w in enumerate(l['ws']))
        return '%s(tag=%r)' % ({'cont': 'norm', 'disc': 'poisson'}[kind], key)
    def lines(self, prog, path='p', ind=0):
        out = []
        for i, s in enumerate(prog): out += self.stmt(s, '%s%d' % (path, i), ind)
        return out
    def stmt(self, s, path, ind):
        pad = ' ' * ind
        k = s[0]
        if k in ('sample', 'shared'):
            return ['%s%s %s %s' % (pad, s[1], self.tilde, self.dist(s[1], s[2], path if k == 'sample' else s[3]))]
        if k == 'cond': return ['%scondition(%s)' % (pad, self.ev(s[1]))]
        if k == 'constrain': return ['%sconstrain({%s: %s})' % (pad, s[1], repr(s[2]) if isinstance(s[2], str) else self.name(s[2]))]
        if k == 'let':
            self.P.declare(s)
            return ['%s%s = %s*%s + %s' % (pad, s[1], s[3], s[2], self.name(s[4]) if not isinstance(s[4], int) else '(%d)' % s[4])]
        if k == 'seq': return self.lines(s[1], path + 's', ind)
        if k == 'if':
            out = []
            for i, (e, body) in enumerate(s[1:]):
                out.append('%s%s:' % (pad, 'else' if e is True else '%s (%s)' % ('elif' if i else 'if', self.ev(e))))
                out += self.lines(body, '%s_%d' % (path, i), ind + 4)
            return out
        raise ValueError(s)
    def text(self, prog, pre=()):
        body = self.lines(prog)
        return '\n'.join((['from vf_given import ' + ', '.join(self.values)] if self.values else []) + list(pre) + body) + '\n'

def run_text(P, text, values, modelname=None):
    from sppl.compilers.sppl_to_python import SPPL_Compiler
    with Given(P, values):
        if modelname: return SPPL_Compiler(text, modelname).execute_module()
        return SPPL_Compiler(text).execute_module()
