"""Load /repo/src as package `sppl`, with the numeric boundary redirected to engine.shims.

The source is read from the working tree on every run.  The only rewriting is mechanical:
absolute imports of numeric modules, the builtin names float/int/hash/set/frozenset/type/eval/exec
and set displays go through the stand-ins.
"""
import ast, builtins, importlib.abc, importlib.machinery, os, sys
sys.dont_write_bytecode = True
REPO = os.environ.get('VF_REPO', '/repo')

ROOTS = {'sppl': os.path.join(REPO, 'src'), 'sppl.compilers': os.path.join(REPO, 'src', 'compilers'),
         'sppl.magics': os.path.join(REPO, 'magics')}

def find_source(name):
    if name in ROOTS and os.path.isfile(os.path.join(ROOTS[name], '__init__.py')):
        return os.path.join(ROOTS[name], '__init__.py'), True
    if name in ROOTS and os.path.isdir(ROOTS[name]):
        return None, True
    pkg, _, mod = name.rpartition('.')
    if pkg in ROOTS:
        f = os.path.join(ROOTS[pkg], mod + '.py')
        if os.path.isfile(f): return f, False
        d = os.path.join(ROOTS[pkg], mod)
        if os.path.isfile(os.path.join(d, '__init__.py')):
            ROOTS[name] = d
            return os.path.join(d, '__init__.py'), True
    return None, False

class Rewrite(ast.NodeTransformer):
    def __init__(self, names, modules, bound):
        self.names, self.modules, self.bound = names, modules, bound
    def _call(self, fn, args, node):
        return ast.copy_location(ast.Call(ast.Name('__vf_' + fn + '__', ast.Load()), args, []), node)
    def visit_Import(self, node):
        out = []
        for al in node.names:
            top = al.name.split('.')[0]
            if al.name in self.modules or top in self.modules:
                if al.asname or '.' not in al.name:
                    tgt, modname = al.asname or al.name, al.name
                else:
                    tgt, modname = top, top
                pre = self._call('mod', [ast.Constant(al.name), ast.Constant(modname)], node)
                out.append(ast.copy_location(ast.Assign([ast.Name(tgt, ast.Store())], pre), node))
            else:
                out.append(ast.copy_location(ast.Import([al]), node))
        return out
    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module and (node.module in self.modules or node.module.split('.')[0] in self.modules) \
                and not any(a.name == '*' for a in node.names):
            out = []
            for al in node.names:
                v = self._call('from', [ast.Constant(node.module), ast.Constant(al.name)], node)
                out.append(ast.copy_location(ast.Assign([ast.Name(al.asname or al.name, ast.Store())], v), node))
            return out
        return node
    def visit_Name(self, node):
        if isinstance(node.ctx, ast.Load) and node.id in self.names and node.id not in self.bound:
            return ast.copy_location(ast.Name('__vf_' + node.id + '__', ast.Load()), node)
        return node
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ('eval', 'exec') and node.func.id not in self.bound:
            node = self.generic_visit(node)
            args = list(node.args)
            if len(args) == 1:
                args += [ast.Call(ast.Name('globals', ast.Load()), [], []), ast.Call(ast.Name('locals', ast.Load()), [], [])]
            return ast.copy_location(ast.Call(ast.Name('__vf_' + node.func.id + '__', ast.Load()), args, node.keywords), node)
        return self.generic_visit(node)
    def visit_Set(self, node):
        node = self.generic_visit(node)
        return self._call('setlit', [ast.copy_location(ast.List(node.elts, ast.Load()), node)], node)
    def visit_SetComp(self, node):
        node = self.generic_visit(node)
        return self._call('setlit', [ast.copy_location(ast.GeneratorExp(node.elt, node.generators), node)], node)

def bound_names(tree, names):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in names: out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in names: out.add(n.name)
        elif isinstance(n, ast.arg) and n.arg in names: out.add(n.arg)
        elif isinstance(n, ast.alias) and (n.asname or n.name) in names: out.add(n.asname or n.name)
    # methods named like a builtin do not shadow it
    return out

def inject(g):
    from engine import shims, sx
    for k, v in shims.NAMES.items(): g['__vf_' + k + '__'] = v
    g['__vf_setlit__'] = shims.vf_setlit
    g['__vf_mod__'] = vf_mod
    g['__vf_from__'] = vf_from
    g['__vf_eval__'] = vf_eval
    g['__vf_exec__'] = vf_exec
    g['_vf_sym'] = sx._vf_sym
    g['_vf_log'] = shims.sx_vf_log

def vf_mod(full, name):
    from engine import shims
    __import__(full)
    if name in shims.MODULES: return shims.MODULES[name]
    return sys.modules[name]

def vf_from(mod, name):
    from engine import shims
    __import__(mod)
    m = shims.MODULES.get(mod) or sys.modules[mod]
    if mod + '.' + name in shims.MODULES: return shims.MODULES[mod + '.' + name]
    try:
        return getattr(m, name)
    except AttributeError:
        __import__(mod + '.' + name)
        return sys.modules[mod + '.' + name]

def rewrite(tree):
    from engine import shims
    names = set(shims.NAMES)
    t = Rewrite(names, shims.MODULES, bound_names(tree, names | {'eval', 'exec'}) - set()).visit(tree)
    ast.fix_missing_locations(t)
    return t

def vf_eval(src, g=None, l=None):
    if isinstance(src, str):
        tree = ast.parse(src.strip(), mode='eval')
        code = compile(rewrite(tree), '<eval>', 'eval')
    else:
        code = src
    if g is not None and '__vf_setlit__' not in g: inject(g)
    return builtins.eval(code, g, l)

def vf_exec(src, g=None, l=None):
    if isinstance(src, str):
        tree = ast.parse(src)
        code = compile(rewrite(tree), '<exec>', 'exec')
    else:
        code = src
    if g is not None and '__vf_setlit__' not in g: inject(g)
    return builtins.exec(code, g, l) if l is not None else builtins.exec(code, g)

class Loader(importlib.abc.Loader):
    def __init__(self, path, symbolic): self.path, self.symbolic = path, symbolic
    def create_module(self, spec): return None
    def exec_module(self, module):
        if self.path is None: return
        with builtins.open(self.path, encoding='utf-8') as fh: src = fh.read()
        tree = ast.parse(src, self.path)
        if self.symbolic:
            tree = rewrite(tree)
            inject(module.__dict__)
        code = compile(tree, self.path, 'exec')
        builtins.exec(code, module.__dict__)
        if self.symbolic: post(module)

class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, symbolic): self.symbolic = symbolic
    def find_spec(self, name, path=None, target=None):
        if name != 'sppl' and not name.startswith('sppl.'): return None
        f, ispkg = find_source(name)
        if f is None and not ispkg: return None
        spec = importlib.machinery.ModuleSpec(name, Loader(f, self.symbolic), origin=f, is_package=ispkg)
        if ispkg: spec.submodule_search_locations = [ROOTS[name]]
        return spec

def post(module):
    """Summaries: small pure helpers whose branches give the same value are merged."""
    from engine import sx
    if module.__name__ == 'sppl.math_util':
        for n in ('log1mexp', 'logdiffexp'):
            f = module.__dict__.get(n)
            if f is None or not callable(f): continue
            module.__dict__[n] = merged(f)

def merged(f):
    import functools
    from engine import sx, shims
    @functools.wraps(f)
    def g(*a, **k):
        if sx.CTX is not None and sx.CTX.symbolic and not k and any(shims.sym(x) for x in a):
            return sx.CTX.value(lambda: f(*a))
        return f(*a, **k)
    return g

def install(symbolic=True):
    if symbolic:
        from engine import sx, shims
        import sympy
        sx._set_sympy(sympy)
    sys.meta_path.insert(0, Finder(symbolic))
