"""Small programs, their commands for sppl, and their meaning by running them forward over cells of values.

program: list of statements
 ('sample', V, kind) ('sample2', V, kind, tag)  ('mix', V, kind)  ('cond', ev)  ('skip',)  ('let', Z, V, a, b)  Z = a*V + b with a > 0
 ('if', (ev | True, program), ...)  ('switch', V, how, [(value, ev)], program of the value)  ('for', n0, n1, f)  ('seq', program)  ('constrain', V, value, kind)
Events are those of worlds; the threshold of an event on Z names the matching threshold of V.
"""
from harness.worlds import *

import re
def tagname(k): return re.sub(r'\W', '_', str(k).replace('-', 'm').replace(', ', '_'))

class Prog:
    def __init__(self, ctx, vs, kinds, n=2, strict=True, zero_ok=False):
        """vs: variables; kinds[v] in cont/disc/nom"""
        self.ctx, self.kinds, self.strict, self.zero_ok = ctx, kinds, strict, zero_ok
        self.th, self.space, self.der = {}, {}, {}
        for v in vs:
            if kinds[v] == 'nom': self.th[v] = None; self.space[v] = cells_nom(['a', 'b'])
            else:
                k = n[v] if isinstance(n, dict) else n
                self.th[v] = thresholds(ctx, 't' + tagname(v), k, sort='int' if kinds[v].startswith('disc') else 'real')
                self.space[v] = space_real(self.th[v])
        self.leaves = {}
        self.n = 0
    def leaf(self, key, kind, V):
        if key not in self.leaves:
            if kind == 'mix':
                sub = 'cont' if self.kinds[V] == 'cont' else self.kinds[V]
                ws = weights(self.ctx, 'w%s' % tagname(key), 2)
                cs = [make_leaf(self.ctx, sub, V, tagname('%s_%d' % (key, i)), self.strict, zero_ok=self.zero_ok) for i in range(2)]
                from sppl.spe import SumSPE
                for i, c in enumerate(cs): self.leaves['%s_%d' % (key, i)] = c
                self.leaves[key] = dict(ws=ws, cs=cs, spe=SumSPE([c['spe'] for c in cs], [self.ctx.log(w) for w in ws]), mass=lambda c: ws[0] * cs[0]['mass'](c) + ws[1] * cs[1]['mass'](c))
            else: self.leaves[key] = make_leaf(self.ctx, kind, V, tagname(key), self.strict, zero_ok=self.zero_ok)
        return self.leaves[key]
    # -- events
    def obj(self, e):
        """The sppl event (thresholds of derived variables shifted)."""
        if e[0] in ('and', 'or', 'not', 'xor'):
            xs = [self.obj(x) for x in e[1:]]
            r = xs[0]
            if e[0] == 'not': return ~r
            for x in xs[1:]: r = r & x if e[0] == 'and' else r | x if e[0] == 'or' else r ^ x
            return r
        if e[1] in self.der:
            b, f = self.der[e[1]]
            t = lambda y: Th(f(y.x), y.r) if isinstance(y, Th) else y
            e = (e[0], e[1]) + tuple([t(y) for y in x] if isinstance(x, list) and e[0] == 'in' else t(x) for x in e[2:])
        return build(e)
    def holds(self, e, cells):
        full = dict(cells)
        for z, (b, f) in self.der.items(): full[z] = cells.get(b)
        return holds(e, full)
    # -- commands
    def command(self, prog, path='p'):
        from sppl.compilers.ast_to_spe import Sequence
        cs = [self.stmt(s, '%s%d' % (path, i)) for i, s in enumerate(prog)]
        return cs[0] if len(cs) == 1 else Sequence(*cs)
    def stmt(self, s, path):
        from sppl.compilers import ast_to_spe as A
        from sppl.transforms import Id
        k = s[0]
        if k == 'sample' or k == 'shared':
            lf_ = self.leaf(path if k == 'sample' else s[3], s[2], s[1])
            return A.Sample(Id(s[1]), lambda sym: lf_['spe'])
        if k == 'skip': return A.Skip()
        if k == 'cond': return A.Condition(self.obj(s[1]))
        if k == 'let':
            self.declare(s)
            return A.Transform(Id(s[1]), s[3] * Id(s[2]) + s[4])
        if k == 'if':
            args = []
            for i, (e, body) in enumerate(s[1:]):
                args += [True if e is True else self.obj(e), self.command(body, '%s_%d' % (path, i))]
            return A.IfElse(*args)
        if k == 'switch':
            _, V, how, values, f = s
            vals = [v() for v, e in values]
            prog_of = lambda i: self.command(f(i), '%s_%d' % (path, i))
            if how == 'enum': return A.Switch(Id(V), enumerate(vals), lambda i, v: prog_of(i))
            return A.Switch(Id(V), vals, lambda v: prog_of([w is v for w in vals].index(True)))
        if k == 'for': return A.For(s[1], s[2], lambda i: self.command(s[3](i), '%s_%d' % (path, i)))
        if k == 'seq': return self.command(s[1], path + 's')
        if k == 'constrain': return A.Constrain({Id(s[1]): s[2]})
        raise ValueError(s)
    def declare(self, s):
        a, b = s[3], s[4]
        self.der[s[1]] = (s[2], lambda x: a * x + b)
    # -- meaning
    def run(self, prog, states=None, path='p'):
        """states: list of (mass, cells)"""
        states = [(self.ctx.const(1), {})] if states is None else states
        for i, s in enumerate(prog):
            states = self.step(s, states, '%s%d' % (path, i))
            if states is None: return None
        return states
    def total(self, states):
        t = self.ctx.const(0)
        for m, c in states: t = t + m
        return t
    def step(self, s, states, path):
        k = s[0]
        if k in ('sample', 'shared'):
            lf_ = self.leaf(path if k == 'sample' else s[3], s[2], s[1])
            return [(m * lf_['mass'](c), dict(cells, **{s[1]: c})) for m, cells in states for c in self.space[s[1]]]
        if k == 'skip': return states
        if k == 'let': self.declare(s); return states
        if k == 'cond': return self.filter(states, s[1])
        if k == 'if':
            branch = lambda cells: next((i for i, (e, _) in enumerate(s[1:]) if e is True or self.holds(e, cells)), None)
            return self.branches(states, branch, [b for _, b in s[1:]], path)
        if k == 'switch':
            branch = lambda cells: next((i for i, (_, e) in enumerate(s[3]) if self.holds(e, cells)), None)
            return self.branches(states, branch, [s[4](i) for i in range(len(s[3]))], path)
        if k == 'for':
            for i in range(s[1], s[2]):
                states = self.run(s[3](i), states, '%s_%d' % (path, i))
            return states
        if k == 'seq': return self.run(s[1], states, path + 's')
        if k == 'constrain': return self.filter(states, ('s', s[1], [s[2]]))
        raise ValueError(s)
    def filter(self, states, e):
        new = [(m, c) for m, c in states if self.holds(e, c)]
        z, w = self.total(new), self.total(states)
        if not bool(z > 0): return None
        return [(m * w / z, c) for m, c in new]
    def branches(self, states, branch, bodies, path):
        groups = {}
        for m, c in states: groups.setdefault(branch(c), []).append((m, c))
        if None in groups and bool(self.total(groups[None]) > 0): return None        # not covered
        out = []
        for i in sorted(k for k in groups if k is not None):
            if not bool(self.total(groups[i]) > 0): continue
            r = self.run(bodies[i], groups[i], '%s_%d' % (path, i))
            if r is None: return None
            out += r
        return out
    def P(self, e, states):
        t = self.ctx.const(0)
        for m, c in states:
            if self.holds(e, c): t = t + m
        return t
