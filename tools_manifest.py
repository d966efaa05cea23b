"""writes MANIFEST.json: one check per property that has a harness"""
import json
import os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': f'python3-vt check.py {i} --tier quick',
                       'thorough_cmd': f'python3-vt check.py {i} --tier thorough',
                       'evidence_file': f'evidence/{i}.json',
                       'technique': 'symbolic execution of the real Python source with z3 (bounded), counterexamples replayed',
                       'level': 'model_checking',
                       'level_note': 'Bounded: every draw, gene value, score and objective value symbolic within the sizes '
                                     'stated in the evidence file; larger sizes and floating-point effects beyond the stated '
                                     'model are outside the claim.'})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3, sys; print(z3.get_version_string())"', 'checks': checks, 'not_applicable': na},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
