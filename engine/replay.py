"""Run recorded models against the real code.  usage: replay.py FILE [--quiet]

FILE: JSON {property, items: [{case, models: [...]}]}.  Prints one JSON line per item:
{"i": n, "reproduced": model index or null, "detail": text, "ran": k}
"""
import importlib, json, os, sys, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.environ['VF_CONCRETE'] = '1'
import warnings
warnings.filterwarnings('ignore')
from engine import loader
loader.install(symbolic=False)
from engine.concrete import ConcreteCtx, Violated, Skip

def main():
    rec = json.load(open(sys.argv[1]))
    from engine import h
    importlib.import_module('harness.' + rec['property'])
    by_name = {c.name: c for c in h.CASES}
    items = rec['items'] if 'items' in rec else [rec]
    any_rep = False
    for i, it in enumerate(items):
        c = by_name[it['case']]
        hit, detail, ran = None, '', 0
        for k, m in enumerate(it['models']):
            ctx = ConcreteCtx(m)
            env = dict(os.environ)
            try:
                c.run(ctx)
                ran += 1
            except Skip:
                continue
            except Violated as e:
                hit, detail = k, 'check failed: %s' % e
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                inrepo = any(f.filename.startswith(loader.REPO) for f in tb)
                where = ' <- '.join('%s:%d:%s' % (os.path.basename(f.filename), f.lineno, f.name) for f in reversed(tb[-6:]))
                if inrepo:
                    hit, detail = k, 'raised %s: %s [%s]' % (type(e).__name__, str(e)[:300], where)
                else:
                    detail = 'harness error %s: %s [%s]' % (type(e).__name__, str(e)[:300], where)
            finally:
                os.environ.clear(); os.environ.update(env)
            if hit is not None: break
        any_rep = any_rep or hit is not None
        print(json.dumps(dict(i=i, reproduced=hit, detail=detail, ran=ran)), flush=True)
    return 1 if any_rep else 0

if __name__ == '__main__':
    sys.exit(main())
