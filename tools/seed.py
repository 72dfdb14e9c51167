#!/usr/bin/env python3
"""Builds one planted bug from seeds/<id>.py-style description (see tools/seeds_*.py): seed(...) writes seeded/<id>/."""
import json, os, subprocess, shutil, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch; cwd is the repository
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 0
trap 'rm -r -- "$out"' EXIT
g++ -std=c++20 %s -w -DLIBCORO_FEATURE_NETWORKING -Iinclude -I_build/include "$here/demo.cpp" %s -o "$out/demo" %s -lpthread || exit 0
timeout %d "$out/demo"
'''
def seed(id, prop, edits, demo, needs, breaks, srcs='', flags='-O1 -g', libs='', timeout=60):
    d = os.path.join(ROOT, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed')
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/r', 'HEAD'], check=True)
    r = w + '/r'
    try:
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit(f'{id}: {f}: {s.count(old)} matches of {old[:60]!r}')
            open(p, 'w').write(s.replace(old, new))
        open(d + '/demo.cpp', 'w').write(demo)
        open(d + '/demo.sh', 'w').write(DEMO % (flags, srcs, libs, timeout))
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', r, 'diff'], capture_output=True, text=True, check=True).stdout)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        os.makedirs(r + '/_build', exist_ok=True)
        os.symlink('/repo/_build/include', r + '/_build/include')
        bad = subprocess.run([d + '/demo.sh'], cwd=r, capture_output=True, text=True)
        good = subprocess.run([d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
        print(id, prop, 'demo good', good.returncode, 'patched', bad.returncode, (bad.stdout + bad.stderr)[-150:].strip() if bad.returncode == 0 or good.returncode else '', (good.stdout + good.stderr)[-300:] if good.returncode else '', flush=True)
        env = dict(os.environ, SYM_REPO=r)
        if '--nocheck' not in sys.argv:
            c = subprocess.run(['timeout', '900', 'python3', os.path.join(ROOT, 'check.py'), prop, '--tier', 'quick'], env=env, capture_output=True, text=True, cwd=ROOT)
            v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            print('   check exit', c.returncode, v[:2], '' if v else c.stdout[-300:] + c.stderr[-300:], flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', r])
        shutil.rmtree(w, ignore_errors=True)
def want(id):
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    return not a or id in a
