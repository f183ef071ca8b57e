#!/usr/bin/env python3
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'py'))
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PLAN:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py ' + i,
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
            'technique': PLAN[i].get('technique', 'property-based testing (proptest) against a reference model'),
            'level': 'exploration',
            'level_note': PLAN[i].get('note', 'Randomised search over generated inputs against an independent bit-level model; a pass means no counterexample among the cases counted in the evidence file. Trusts the model, rustc and the generator distributions.'),
        })
    else:
        na.append({'property': i, 'reason': 'check under construction'})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks,
     'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the checks use the public API and the generated code only', 'source_commits': []},
     'not_applicable': na}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
