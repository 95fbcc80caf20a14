#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/tools')
import plan
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
NOTE = {
    'core': 'Histories of the real code (random, exhaustive single-disturbance sweeps, behaviours of the TLA+ design model) are recorded and every event is judged by '
            'TLC against the TLA+ observer; the design model is checked exhaustively in small bounds. Assumes the bounds of the explored histories, the harness and its storage models.',
    'worker': 'The real worker runs in virtual time in many schedules; every recorded history is judged by TLC against the TLA+ worker specification, whose design model is checked '
              'exhaustively in small bounds. Liveness is judged with deadlines in virtual time. Assumes the harness executor and its clock.',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in plan.CORE + plan.WORKER:
        checks.append({'property': i, 'quick_cmd': f'python3 tools/check.py {i} quick', 'thorough_cmd': f'python3 tools/check.py {i} thorough',
                       'technique': 'TLA+ specification checked with TLC; trace validation of the real code and replay of TLC behaviours',
                       'level': 'model_checking', 'level_note': NOTE['worker' if i in plan.WORKER else 'core']})
    else:
        na.append({'property': i, 'reason': 'specification and harness of the worker tasks are not finished yet'})
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh',
     'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the harness uses the public API only', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. Repaired defects and known findings: KNOWN_FINDINGS.md.'}
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
