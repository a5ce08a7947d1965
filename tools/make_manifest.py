"""Writes MANIFEST.json: one entry per property with a check file."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = json.load(open(os.path.join(V, 'tools', 'not_applicable.json'))) if os.path.exists(os.path.join(V, 'tools', 'not_applicable.json')) else {}
checks, na = [], []
for p in props:
    c = p['id']
    f = os.path.join(V, 'checks', c + '.py')
    if os.path.exists(f):
        ns = {}
        src = open(f).read()
        doc = src.split('"""')[1].strip().split('\n')[0]
        import re
        b = re.search(r"^BOUNDS = (.*?)\n(?=\S)", src, re.S | re.M)
        bounds = eval(b.group(1).strip()) if b else ''
        checks.append({'property': c, 'quick_cmd': './check.sh ' + c, 'thorough_cmd': './check.sh ' + c,
                       'evidence_file': 'evidence/%s.json' % c,
                       'technique': 'symbolic execution of the repository source; SMT (z3) decides each obligation; counterexamples replayed natively',
                       'level': 'model_checking',
                       'level_note': 'All values within bounds: %s. Floats treated as reals.' % bounds})
    else:
        na.append({'property': c, 'reason': NA.get(c, 'check not built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Encodings are regenerated from /repo sources on every run. No hooks in /repo. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'without')
