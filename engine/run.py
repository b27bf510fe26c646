"""Driver: symbolic exploration of every case of a property, replay of counterexamples, evidence."""
import importlib, json, multiprocessing, os, subprocess, sys, time, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import warnings
warnings.filterwarnings('ignore')
sys.setrecursionlimit(20000)
PY = '/opt/venv/bin/python'
T0 = time.time()

def run_case(i):
    from engine import sx
    c = CASELIST[i]
    t = time.time()
    out = dict(i=i, case=c.name, violations=[], inconclusive=[], stats={}, functions=[], models=[])
    solver = get_solver()
    q0, s0, h0 = solver.queries, solver.seconds, solver.cache_hits
    ctx = sx.Ctx(solver, max_paths=MAXP)
    ctx.witness_budget = VALIDATE
    try:
        done = ctx.explore(c.run)
        out['complete'] = bool(done)
    except sx.Inconclusive as e:
        out['inconclusive'].append('inconclusive: %s' % e)
    except sx.Unsupported as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%d:%s' % (os.path.basename(f.filename), f.lineno, f.name) for f in reversed(tb[-8:]))
        out['inconclusive'].append('unsupported: %s [%s]' % (e, where))
    except BaseException as e:
        out['inconclusive'].append('engine error %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
    out['violations'] = ctx.violations
    out['inconclusive'] += ctx.inconclusive
    out['stats'] = ctx.stats
    out['functions'] = sorted(ctx.functions)
    out['models'] = ctx.witnesses
    out['queries'] = solver.queries - q0
    out['hits'] = solver.cache_hits - h0
    out['solver_s'] = solver.seconds - s0
    out['wall'] = time.time() - t
    if out['stats']['checks'] == 0 and not out['violations'] and not out['inconclusive']:
        out['inconclusive'].append('vacuous: no check was reached')
    elif out['stats']['witnesses'] == 0 and not out['violations'] and not out['inconclusive']:
        out['inconclusive'].append('vacuous: no reachability witness')
    return out

SOLVER = None
def get_solver():
    global SOLVER
    from engine import sx
    if SOLVER is None or SOLVER.pid != os.getpid():
        SOLVER = sx.Solver(timeout_ms=int(os.environ.get('VF_TIMEOUT_MS', '10000')))
        SOLVER.pid = os.getpid()
    return SOLVER

def replay(prop, items, tag):
    """items: [{case, models}] -> list of result dicts (same order)."""
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '.%s-%s.json' % (prop, tag))
    with open(path, 'w') as f: json.dump(dict(property=prop, items=items), f)
    r = subprocess.run([PY, os.path.join(HERE, 'engine', 'replay.py'), path], stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, universal_newlines=True, cwd=HERE)
    out = []
    for line in r.stdout.splitlines():
        try: out.append(json.loads(line))
        except ValueError: pass
    if len(out) != len(items):
        out += [dict(i=k, reproduced=None, detail='replay process ended: %s' % r.stderr[-800:], ran=0, broken=True)
                for k in range(len(out), len(items))]
    os.unlink(path)
    return out

def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: ') and ('property=%s ' % prop) in line:
                kv = dict(x.split('=', 1) for x in line.split() if '=' in x and x.split('=', 1)[0] in ('property', 'case'))
                out.append((kv.get('case'), line[len('finding: '):]))
    return out

def main():
    global CASELIST, MAXP, VALIDATE
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case', default=None); ap.add_argument('-j', type=int, default=int(os.environ.get('VF_JOBS', '8')))
    ap.add_argument('-v', action='store_true'); ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    prop = a.prop
    from engine import loader
    loader.install(symbolic=True)
    from engine import sx, h
    mod = importlib.import_module('harness.' + prop)
    MAXP = getattr(mod, 'MAX_PATHS', 60000)
    VALIDATE = getattr(mod, 'VALIDATE', 2 if a.tier == 'quick' else 4)
    CASELIST = [c for c in h.cases(a.tier, 'harness.' + a.prop) if a.case is None or a.case in c.name]
    CASELIST.sort(key=lambda c: -c.cost)
    results = []
    nj = max(1, min(a.j, len(CASELIST)))
    # forked workers; everything is imported already
    with multiprocessing.get_context('fork').Pool(nj) as pool:
        for out in pool.imap_unordered(run_case, range(len(CASELIST)), chunksize=1):
            results.append(out)
            if a.v:
                print('%-70s paths=%-6d checks=%-6d viol=%d inc=%d q=%d %.1fs' % (out['case'][:70], out['stats']['paths'],
                      out['stats']['checks'], len(out['violations']), len(out['inconclusive']), out['queries'], out['wall']), flush=True)
    t_sym = time.time() - T0
    # counterexamples
    confirmed, unconfirmed, known_hits = [], [], []
    viols = [(r, v) for r in results for v in r['violations']]
    known = known_findings(prop)
    vitems = [dict(case=r['case'], models=v['models'], msg=v['msg']) for r, v in viols]
    # witnesses of explored paths, run on the real code as well
    witems = [dict(case=r['case'], models=[m]) for r in results for m in r['models']]
    allitems = vitems + witems
    res = []
    if allitems:
        n = min(nj, len(allitems))
        chunks = [allitems[k::n] for k in range(n)]
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(n) as ex:
            outs = list(ex.map(lambda kc: replay(prop, kc[1], '%d-%d' % (os.getpid(), kc[0])), enumerate(chunks)))
        res = [None] * len(allitems)
        for k, o in enumerate(outs):
            for j, x in enumerate(o): res[k + j * n] = x
    validated = 0
    for n, (it, x) in enumerate(zip(allitems, res)):
        isv = n < len(vitems)
        if x['reproduced'] is not None:
            k = next((line for cs, line in known if cs == it['case']), None)
            if k is not None:
                known_hits.append((it, x, k)); continue
            confirmed.append((it, x))
        elif isv:
            unconfirmed.append((it, x))
        elif x.get('broken') or x['detail']:
            unconfirmed.append((it, x))
        elif x['ran']:
            validated += 1
    inconclusive = [(r['case'], m) for r in results for m in r['inconclusive']]
    for line in sorted(set(k for _, _, k in known_hits)):
        print('KNOWN-FINDING: %s' % line)
    code = 0
    seen = set()
    for n, (it, x) in enumerate(confirmed):
        if it['case'] in seen: continue
        seen.add(it['case'])
        path = os.path.join(HERE, 'replays', '%s-%d.json' % (prop, len(seen)))
        json.dump(dict(property=prop, case=it['case'], msg=it.get('msg', 'explored path fails on the real code'), detail=x['detail'],
                       models=[it['models'][x['reproduced']]]), open(path, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(path, HERE)))
        print('   case %s: %s' % (it['case'], x['detail']))
        code = 1
    if code == 0 and (unconfirmed or inconclusive):
        code = 2
    for it, x in unconfirmed:
        print('UNREPRODUCED %s: %s / %s' % (it['case'], it.get('msg', 'witness'), x['detail']))
        if a.v: print('    ', json.dumps(it['models'][:1])[:600])
    for c, m in inconclusive[:20]:
        print('INCONCLUSIVE %s: %s' % (c, m))
    tot = lambda k: sum(r['stats'].get(k, 0) for r in results)
    wall = time.time() - T0
    funcs = sorted(set(f for r in results for f in r['functions']))
    ev = dict(property=prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=int(os.environ.get('VERIF_SEED', '1')),
        level='model_checking',
        coverage=dict(
            states=tot('paths'), transitions=tot('branches'), traces_validated_against_impl=validated,
            samples=[dict(case=r['case'], model=r['models'][0]) for r in results if r['models']][:6],
            explanation='bounded symbolic execution of the real functions: states are the feasible symbolic paths explored to the end, '
                        'transitions the solver-decided branches on them; every check below is an assertion over all values of the path',
            cases=len(results), assertions=tot('checks'), assertions_discharged=tot('discharged'), assertions_decided_syntactically=tot('trivial'),
            reachability_witnesses=tot('witnesses'), infeasible_paths=tot('infeasible'),
            solver_queries=sum(r['queries'] for r in results), solver_cache_hits=sum(r['hits'] for r in results),
            solver_seconds=round(sum(r['solver_s'] for r in results), 2), solver='z3 (SMT-LIB over pipe), ' + z3_version(),
            functions_encoded=funcs, bounds=getattr(mod, 'BOUNDS', ''), outside=getattr(mod, 'OUTSIDE', ''),
            case_paths={r['case']: r['stats']['paths'] for r in sorted(results, key=lambda r: r['case'])},
            exhaustive=False),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON_ASSUMPTIONS,
        wall_s=round(wall, 2), violations=len(confirmed))
    if not a.no_evidence and a.case is None:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', '%s.json' % prop), 'w'), indent=1)
    print('%s: %s  cases=%d paths=%d checks=%d queries=%d validated=%d symbolic=%.1fs wall=%.1fs' % (
        prop, {0: 'HELD', 1: 'VIOLATED', 2: 'NO ANSWER'}[code], len(results), tot('paths'), tot('checks'),
        sum(r['queries'] for r in results), validated, t_sym, wall))
    return code

COMMON_ASSUMPTIONS = [
    'Python floats, ints and sympy numbers are modelled as exact reals; rounding is outside the claim',
    'stand-ins in engine/shims.py follow the documented contract of the math, numpy, scipy.special and sympy functions they replace',
]

def z3_version():
    try: return subprocess.run(['z3', '--version'], stdout=subprocess.PIPE, universal_newlines=True).stdout.strip()
    except OSError: return '?'

if __name__ == '__main__':
    sys.exit(main())
