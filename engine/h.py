"""Harness-side helpers shared by the symbolic and the concrete context."""
CASES = []

class Case:
    def __init__(self, name, fn, kw, tiers, cost, key=None):
        self.name, self.fn, self.kw, self.tiers, self.cost, self.key = name, fn, kw, tiers, cost, key
    def run(self, ctx):
        return self.fn(ctx, **self.kw)

def case(name, params=None, thorough=None, cost=1, key=None):
    """Register a harness function.  params: list of keyword dicts for both tiers; thorough: extra ones."""
    def deco(fn):
        def label(kw):
            return name + ('' if not kw else '[' + ','.join('%s=%s' % (k, v) for k, v in sorted(kw.items())) + ']')
        for kw in (params if params is not None else [{}]):
            CASES.append(Case(label(kw), fn, kw, ('quick', 'thorough'), cost, key))
        for kw in (thorough or []):
            CASES.append(Case(label(kw), fn, kw, ('thorough',), cost, key))
        return fn
    return deco

def cases(tier, module=None):
    return [c for c in CASES if tier in c.tiers and (module is None or c.fn.__module__ == module)]
