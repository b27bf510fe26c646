"""Structures and event shapes shared by the joint-distribution harnesses."""
from harness.worlds import *

KINDS = {'X': 'cont', 'Y': 'disc', 'N': 'nom', 'Z': 'cont', 'A': 'atom'}
def lf(v, k=None): return L(k or KINDS[v], v)

STRUCT = {
    'mixX': (mix(lf('X'), lf('X')), 'X'),
    'mixXXX': (mix(mix(lf('X'), lf('X')), lf('X')), 'X'),
    'mixXatom': (mix(lf('X'), lf('X', 'atom')), 'X'),
    'mixXnom': (mix(lf('X'), lf('X', 'nom')), 'X'),
    'mixY': (mix(lf('Y'), lf('Y')), 'Y'),
    'mixN': (mix(lf('N'), lf('N')), 'N'),
    'XY': (prod(lf('X'), lf('Y')), 'XY'),
    'XN': (prod(lf('X'), lf('N')), 'XN'),
    'YN': (prod(lf('Y'), lf('N')), 'YN'),
    'XA': (prod(lf('X'), lf('A')), 'XA'),
    'XYN': (prod(prod(lf('X'), lf('Y')), lf('N')), 'XYN'),
    'XYNflat': (prod(lf('X'), lf('Y'), lf('N')), 'XYN'),
    'mix(XY,XY)': (mix(prod(lf('X'), lf('Y')), prod(lf('X'), lf('Y'))), 'XY'),
    'mix(XN,NX)': (mix(prod(lf('X'), lf('N')), prod(lf('N'), lf('X'))), 'XN'),
    'mixX*N': (prod(mix(lf('X'), lf('X')), lf('N')), 'XN'),
    'mixX*mixN': (prod(mix(lf('X'), lf('X')), mix(lf('N'), lf('N'))), 'XN'),
    'mix(XN,mixX*N)': (mix(prod(lf('X'), lf('N')), prod(mix(lf('X'), lf('X')), lf('N'))), 'XN'),
    'mix(XN,XN)*Y': (prod(mix(prod(lf('X'), lf('N')), prod(lf('X'), lf('N'))), lf('Y')), 'XNY'),
    'Y*mix(XN,XN)': (prod(lf('Y'), mix(prod(lf('X'), lf('N')), prod(lf('X'), lf('N')))), 'YXN'),
    'mix(mix,XN)': (mix(mix(prod(lf('X'), lf('N')), prod(lf('X'), lf('N'))), prod(lf('X'), lf('N'))), 'XN'),
    'mix3': (mix(prod(lf('X'), lf('N')), prod(lf('X'), lf('N')), prod(lf('X'), lf('N'))), 'XN'),
}

def env(ctx, vs, kinds=KINDS, prefix='t', n=2):
    """Thresholds and cells of every variable."""
    th, space = {}, {}
    for v in vs:
        if kinds[v] == 'nom':
            th[v] = None; space[v] = cells_nom(['a', 'b'])
        else:
            th[v] = thresholds(ctx, prefix + v, n, sort='int' if kinds[v].startswith('disc') else 'real')
            space[v] = space_real(th[v])
    return th, space

def lit(v, i, th):
    t = th[v]
    if t is None:
        return [('s', v, ['a']), ('ns', v, ['a']), ('s', v, ['b', 'z']), ('s', v, ['a', 'b'])][i % 4]
    if len(t) == 1: return [('le', v, t[0]), ('gt', v, t[0]), ('in', v, [t[0]]), ('ge', v, t[0])][i % 4]
    return [('le', v, t[1]), ('gt', v, t[0]), ('or', ('lt', v, t[0]), ('gt', v, t[1])), ('in', v, [t[0]]), ('lt', v, t[0]), ('ge', v, t[1])][i % 6]

def shapes(vs, th):
    x = lambda i: lit(vs[0], i, th)
    out = {'one': x(0), 'hole': x(2), 'pt': x(3), 'not': ('not', x(0)), 'orself': ('or', x(0), x(1)), 'andself': ('and', x(0), x(1)),
           'contra': ('and', x(4), x(5)), 'xorself': ('xor', x(0), x(1))}
    if len(vs) > 1:
        y = lambda i: lit(vs[1], i, th)
        out.update({
            'other': y(1), 'and': ('and', x(0), y(1)), 'or': ('or', x(0), y(0)), 'or2': ('or', ('and', x(0), y(0)), ('and', x(1), y(1))),
            'orx': ('or', ('and', x(0), y(0)), x(2)), 'three': ('or', x(4), y(0), ('and', x(1), y(1))),
            'three2': ('or', ('and', x(0), y(0)), ('and', x(1), y(1)), ('and', x(2), y(0))),
            'notand': ('not', ('and', x(0), y(1))), 'notor': ('not', ('or', x(0), y(1))), 'xor': ('xor', x(0), y(0)),
            'disj': ('or', ('and', x(4), y(0)), ('and', x(5), y(1))), 'dup': ('or', ('and', x(0), y(0)), ('and', y(0), x(0))),
            'contra-or': ('or', ('and', x(4), x(5)), y(0)), 'contra-and': ('and', x(4), x(5), y(0)),
            'ornot': ('or', ('not', ('and', x(0), y(0))), ('and', x(1), y(1))),
            'sub': ('or', ('and', x(0), y(0)), x(4)),
        })
    if len(vs) > 2:
        z = lambda i: lit(vs[2], i, th)
        out.update({'and3': ('and', x(0), y(1), z(0)), 'or3': ('or', x(4), y(0), z(0)), 'skip': ('or', ('and', x(0), z(0)), y(1)),
                    'cyc': ('or', ('and', x(0), y(0)), ('and', y(1), z(0)), ('and', x(1), z(1))), 'not3': ('not', ('and', ('or', x(0), y(1)), z(0)))})
    return out
def kinds_of(spec, out=None):
    out = {} if out is None else out
    if spec[0] == 'leaf':
        out.setdefault(spec[2], spec[1])
    else:
        for c in spec[1:]: kinds_of(c, out)
    return out
S1 = ['one', 'hole', 'pt', 'not', 'orself', 'andself', 'contra', 'xorself']
S2 = ['other', 'and', 'or', 'or2', 'orx', 'three', 'three2', 'notand', 'notor', 'xor', 'disj', 'dup', 'contra-or', 'contra-and', 'ornot', 'sub']
S3 = ['and3', 'or3', 'skip', 'cyc', 'not3']
def names(st):
    n = len(STRUCT[st][1])
    return S1 + (S2 if n > 1 else []) + (S3 if n > 2 else [])
def world(ctx, st, strict=True, n=2, zero_ok=False):
    spec, vs = STRUCT[st]
    M = Model(ctx, spec, strict=strict, zero_ok=zero_ok)
    kinds = dict(KINDS); kinds.update({v: k for v, k in kinds_of(spec).items() if k != 'atom' or v == 'A'})
    th, space = env(ctx, vs, kinds, n=n)
    if st == 'mixXnom': space['X'] = space['X'] + [('s', 'a'), ('s', 'b')]
    return M, th, space, vs
