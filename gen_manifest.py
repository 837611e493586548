"""write MANIFEST.json from properties.jsonl and the harnesses that exist"""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NA = {}
NOTES = {}
exec(open(os.path.join(ROOT, 'manifest_notes.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'harness', i + '.py')) and i not in NA:
        checks.append({
            'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'symbolic execution of the instrumented Python source with SMT (z3) verdicts; counterexamples '
                         'replayed on the uninstrumented code',
            'level': 'model_checking',
            'level_note': NOTES.get(i, 'Holds for every value within the bounds stated in DESIGN.md and the evidence '
                                       'file; trusts the instrumentation and the models of the standard library '
                                       '(cross-validated by concrete replay of sampled paths on the real code) and z3.')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'The check for this property is not built yet.')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks instrument the source when they load it. '
              'See DESIGN.md for bounds, models and assumptions.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
