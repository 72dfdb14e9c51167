#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and props.py"""
import json, os, subprocess, sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, here)
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        P = props.PROPS[i]
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} --tier quick', 'thorough_cmd': f'python3 check.py {i} --tier thorough',
                       'technique': 'symbolic execution of the LLVM bitcode compiled from /repo (inputs and schedules symbolic), verdict by Z3, counterexamples replayed natively',
                       'level': 'model_checking', 'level_note': P.get('note') or 'bounded: ' + '; '.join(f"{c['name']}: {c['bounds']}" for c in P['cases'] if c.get('bounds') and c.get('tier') != 'thorough'),
                       'evidence_file': f'evidence/{i}.json'})
    else:
        na.append({'property': i, 'reason': props.NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3 -c "import check; check.engine_dir()"', 'hooks': {'guard': 'none', 'enable': 'no instrumentation in /repo: the checks compile the sources as they are', 'source_commits': []},
     'checks': checks, 'not_applicable': na, 'notes': 'See DESIGN.md. known_findings.json lists confirmed defects (known or fixed).'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
