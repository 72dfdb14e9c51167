#!/usr/bin/env python3
"""run_seeds.py [IDs]: runs the quick check of each planted bug's property on a scratch clone of /repo with the bug applied and
records which cases report it in tools/seed_results.json."""
import json, os, re, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.path.join(V, 'tools', 'seed_results.json')
res = json.load(open(R)) if os.path.exists(R) else {}
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, 'seeded')))
def one(i):
    d = os.path.join(V, 'seeded', i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    t = tempfile.mkdtemp(prefix='sd', dir='/tmp')
    try:
        subprocess.run(['git', 'clone', '-q', '--shared', '/repo', t + '/r'], check=True)
        subprocess.run(['git', '-C', t + '/r', 'apply', os.path.join(d, 'patch.diff')], check=True)
        p = subprocess.run([sys.executable, os.path.join(V, 'check.py'), prop], env=dict(os.environ, SYM_REPO=t + '/r'), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=900)
        o = p.stdout.decode()
        cases = sorted(set(re.findall(r'^  case (\S+): (.*)$', o, re.M)))
        res[i] = {'property': prop, 'exit': p.returncode, 'cases': sorted({c for c, _ in cases})[:6], 'says': cases[0][1][:140] if cases else '', 'wall_s': round(float(re.search(r'wall ([\d.]+)s', o).group(1)))}
        print(i, prop, p.returncode, res[i]['cases'], res[i]['says'][:100], flush=True)
    finally:
        shutil.rmtree(t, ignore_errors=True)

from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(4) as ex:
    list(ex.map(one, ids))
json.dump(res, open(R, 'w'), indent=1, sort_keys=True)
