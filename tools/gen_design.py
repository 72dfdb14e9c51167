#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the registry of checks, the findings file and the results of the planted bugs."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'tools')]
import props
from design_props import D
T = {}
P = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
kf = json.load(open(os.path.join(V, 'known_findings.json')))
kf = kf if isinstance(kf, list) else kf['findings']
R = os.path.join(V, 'tools', 'seed_results.json')
res = json.load(open(R)) if os.path.exists(R) else {}
o = [open(os.path.join(V, 'tools', 'design_head.md')).read().rstrip(), '', '## The properties', '',
     'Each line of a table is one case: a harness with its bounds. q = quick and thorough, t = thorough only. What a case covers is every value of',
     'its inputs and every schedule within these bounds.', '']
for p in P:
    i = p['id']
    what, why, out = D[i]
    o += ['### %s  %s' % (i, p['title']), '', p['statement'], '', '*Decided by:* ' + what, '', '*Beyond the reach of unit tests:* ' + why + '.', '']
    o += ['| case | | bounds |', '|---|---|---|']
    for c in props.PROPS[i]['cases']:
        o.append('| %s | %s | %s |' % (c['name'], 't' if c.get('tier') == 'thorough' else 'q', c.get('bounds', '').replace('|', '/')))
    o += ['', '*Left out:* ' + out + '.', '']
    f = [x for x in kf if x['property'] == i]
    if f:
        o.append('*Defects found:* ' + ', '.join('%s (%s)' % (x['id'], x['status']) for x in f) + '.')
        o.append('')
o += ['## Genuine defects', '', '| id | property | case that found it | state | what |', '|---|---|---|---|---|']
for x in kf:
    o.append('| %s | %s | %s | %s | %s |' % (x['id'], x['property'], x['case'], 'fixed in ' + x['commit'] if x['status'] == 'fixed' else '**known, not repaired**', x['what'].replace('|', '/')))
o += ['', open(os.path.join(V, 'tools', 'design_tail.md')).read().rstrip(), '', '## Planted bugs and the checks that report them', '',
      'Result of the quick check of the property on a clone of /repo with the bug applied (tools/run_seeds.py).', '',
      '| bug | property | what it breaks | reported by cases | first message | wall |', '|---|---|---|---|---|---|']
for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
    r = res.get(s, {})
    o.append('| %s | %s | %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'].replace('|', '/')[:160],
             {1: ', '.join(r.get('cases', [])) or 'yes', 0: '**missed**'}.get(r.get('exit'), 'not run') , r.get('says', '').replace('|', '/')[:90], '%s s' % r['wall_s'] if r else ''))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(o) + '\n')
