"""Write MANIFEST.json from properties.jsonl and the harness modules that exist."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTE = ('Every assertion is decided by z3 for all real/integer inputs on every feasible path of the real functions within the bounds stated in '
        'the evidence; floats are exact reals, numeric libraries follow the contracts in engine/shims.py, distributions are arbitrary '
        '(uninterpreted) cdfs unless stated; counterexamples and sample path models are replayed on the unmodified code.')
def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in NA:
            na.append(dict(property=i, reason=NA[i])); continue
        if not os.path.exists(os.path.join(HERE, 'harness', i + '.py')):
            na.append(dict(property=i, reason='check not built yet')); continue
        checks.append(dict(property=i, quick_cmd='./check.sh %s quick' % i, thorough_cmd='./check.sh %s thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique='bounded symbolic execution of the real Python functions with z3 deciding every branch and assertion',
            level='model_checking', level_note=NOTE))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
             notes='No hooks in /repo. engine/loader.py loads /repo/src afresh on every run. known_findings.txt lists repaired and recorded defects.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'claimed', len(na), 'not')
main()
