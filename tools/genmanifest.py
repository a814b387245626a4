#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a registered harness."""
import json, subprocess, sys
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
hs = [json.loads(l) for l in subprocess.check_output(['/verif/.build/replay', '-list'], text=True).splitlines()]
NA = {}
try:
    exec(open('/verif/tools/na.py').read())
except FileNotFoundError:
    pass
checks, na = [], []
for p in props:
    mine = [h for h in hs if h['Prop'] == p['id']]
    if not mine:
        na.append({'property': p['id'], 'reason': NA.get(p['id'], 'check not built yet')})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': f"bash check.sh {p['id']} quick",
        'thorough_cmd': f"bash check.sh {p['id']} thorough",
        'technique': 'bounded symbolic execution of the Go SSA with an SMT solver; counterexamples replayed natively',
        'level': 'model_checking',
        'level_note': 'Bounded: ' + ' | '.join(f"{h['Name']}: {h['Doc']}" for h in mine)
            + '. Trusts go/ssa, the engine\'s models of assembly kernels, fmt, reflect and sync, and z3; sampled paths are replayed natively and compared. Nothing is claimed outside the bounds.',
    })
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the harnesses use the exported API and the engine reads the unmodified source.'}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na], 'not claimed')
