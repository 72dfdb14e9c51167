#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--case NAME] [-v]

Decides one property by symbolic execution of the real code:
  1. builds the engine (engine/) when it is not built yet,
  2. compiles the harnesses of the property and the sources of /repo they exercise to LLVM bitcode (from the current tree),
  3. explores each harness with all inputs and scheduling choices symbolic; assertions are decided by Z3,
  4. replays every counterexample on the natively compiled real code (with ASan) before reporting it,
  5. replays sampled models of passing paths natively as well (validation of the engine against the real code),
  6. writes evidence/<PROPERTY>.json.
exit 0: held (within the stated bounds), 1: violation, 3: no answer (error, bound or time limit hit)."""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time, random
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SYM_REPO', '/repo')
sys.path.insert(0, HERE)
import props  # noqa: E402

CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
BASEF = ['-std=c++20', '-O1', '-g1', '-fno-pic', '-fno-pie', '-fno-vectorize', '-fno-slp-vectorize', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
         '-DLIBCORO_FEATURE_NETWORKING', '-DLIBCORO_FEATURE_TLS', '-Wno-everything', '-U_FORTIFY_SOURCE']


class NoAnswer(Exception):
    pass


def run(cmd, timeout=None, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
    return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')


def must(cmd, what, timeout=600):
    rc, o, e = run(cmd, timeout)
    if rc != 0:
        raise NoAnswer(f'{what} failed (exit {rc}): {" ".join(cmd)}\n{o[-2000:]}{e[-4000:]}')
    return o


def engine_dir():
    h = hashlib.sha256()
    for f in sorted(os.listdir(os.path.join(HERE, 'engine'))):
        h.update(f.encode())
        h.update(open(os.path.join(HERE, 'engine', f), 'rb').read())
    d = os.path.join(HERE, '.build', h.hexdigest()[:16])
    if not os.path.exists(os.path.join(d, 'ok')):
        os.makedirs(d, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=os.path.join(HERE, '.build'))
        must(['bash', os.path.join(HERE, 'engine', 'build.sh'), tmp], 'engine build')
        open(os.path.join(tmp, 'ok'), 'w').write('ok')
        for f in ('symexec', 'instr', 'ok'):
            os.replace(os.path.join(tmp, f), os.path.join(d, f))
        shutil.rmtree(tmp, ignore_errors=True)
    return d


class Ctx:
    def __init__(self, prop, tier, verbose):
        self.prop, self.tier, self.verbose = prop, tier, verbose
        self.eng = engine_dir()
        os.makedirs(os.path.join(HERE, '.build'), exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix='run_', dir=os.path.join(HERE, '.build'))
        inc = os.path.join(self.tmp, 'inc', 'coro')
        os.makedirs(inc)
        open(os.path.join(inc, 'export.hpp'), 'w').write('#pragma once\n#define CORO_EXPORT\n#define CORO_NO_EXPORT\n#define CORO_DEPRECATED\n')
        self.flags = BASEF + ['-I' + os.path.join(HERE, 'rt'), '-I' + os.path.join(HERE, 'harness'),
                              '-I' + os.path.join(self.tmp, 'inc'), '-I' + os.path.join(REPO, 'include')]
        self.rt, self.rest, self.lock, self.start = {}, None, threading.Lock(), time.time()

    def compile(self, src, out, extra=()):
        must([CLANG] + self.flags + list(extra) + ['-emit-llvm', '-c', src, '-o', out], 'compilation of ' + src)
        return out

    def prepare(self, cases):
        """compile the runtime and every /repo source any case needs, once"""
        for c in cases:
            c['sources'] = [s for s in c['sources'] if os.path.exists(os.path.join(REPO, s))]  # a moved one is found by complete()
        srcs = sorted({s for c in cases for s in c['sources']})
        rts = sorted({m for c in cases for m in c.get('models', [])} | {'rt_engine.cpp', 'rt_common.cpp'})
        jobs = []
        with ThreadPoolExecutor(8) as ex:
            for s in srcs:
                o = os.path.join(self.tmp, s.replace('/', '_') + '.bc')
                jobs.append((s, o, ex.submit(self.compile, os.path.join(REPO, s), o)))
            for s in rts:
                o = os.path.join(self.tmp, 'rt_' + s + '.bc')
                jobs.append((s, o, ex.submit(self.compile, os.path.join(HERE, 'rt', s), o, ['-fno-builtin'])))
            for c in cases:
                o = os.path.join(self.tmp, 'h_' + c['name'] + '.bc')
                jobs.append(('h:' + c['name'], o, ex.submit(self.compile, os.path.join(HERE, 'harness', c['src']), o, c.get('defs', []))))
            for s, o, j in jobs:
                j.result()
                self.rt[s] = o

    def complete(self, base, common):
        """link what the harness needs from every other source file of the library (a function may have moved)"""
        with self.lock:
            if self.rest is None:
                files = [os.path.relpath(os.path.join(d, f), REPO) for d, _, fs in os.walk(os.path.join(REPO, 'src')) for f in fs if f.endswith('.cpp')]
                self.rest = {}
                with ThreadPoolExecutor(8) as ex:
                    for s in sorted(files):
                        o = os.path.join(self.tmp, 'all_' + s.replace('/', '_') + '.bc')
                        self.rest[s] = ex.submit(self.compile, os.path.join(REPO, s), o)
                self.rest = {s: j.result() for s, j in self.rest.items() if not j.exception()}
        must(['llvm-link-18'] + common + ['-o', base + '.part.bc'], 'llvm-link')
        extra = [o for s, o in self.rest.items() if self.rt.get(s) not in common]
        must(['llvm-link-18', '--only-needed', base + '.part.bc'] + extra + ['-o', base + '.full.bc'], 'llvm-link')
        return [base + '.full.bc']

    def link(self, c, everything=False):
        base = os.path.join(self.tmp, c['name'])
        common = [self.rt['h:' + c['name']]] + [self.rt[s] for s in c['sources']] + [self.rt[m] for m in c.get('models', [])] + [self.rt['rt_common.cpp']]
        if everything:
            common = self.complete(base, common)
        must(['llvm-link-18'] + common + [self.rt['rt_engine.cpp'], '-o', base + '.eng.bc'], 'llvm-link')
        must(['llvm-link-18'] + common + ['-o', base + '.nat.bc'], 'llvm-link')
        return base

    def native(self, base, c):
        exe = base + '.exe'
        if os.path.exists(exe):
            return exe
        must([os.path.join(self.eng, 'instr'), base + '.nat.bc', base + '.ins.bc'] + (['--fine'] if '--fine' in c.get('opts', []) else []), 'instrumentation')
        must(['opt-18' if shutil.which('opt-18') else 'opt', '-passes=asan', base + '.ins.bc', '-o', base + '.asan.bc'], 'asan pass')
        must([CLANG, '-O1', '-fno-pic', '-c', base + '.asan.bc', '-o', base + '.o', '-Wno-everything'], 'native codegen')
        must([CLANG, '-std=c++20', '-O1', '-fsanitize=address', '-fno-pie', os.path.join(HERE, 'rt', 'native.cpp'), base + '.o', '-no-pie', '-Wl,--unresolved-symbols=ignore-all', '-lpthread', '-o', exe], 'native link')
        return exe

    def concrete(self, base, c, model, tag):
        """run the engine with every symbol fixed to the model: gives the schedule, the inputs and the observable log"""
        mf = base + f'.{tag}.model'
        with open(mf, 'w') as f:
            for n, w, v in model:
                f.write(f'{n} {w} {v}\n')
        out = base + f'.{tag}.json'
        run([os.path.join(self.eng, 'symexec'), '--bc', base + '.eng.bc', '--model', mf, '--out', out] + c.get('opts', []), timeout=300)
        r = json.load(open(out))
        if r['status'] == 'error':
            raise NoAnswer('concrete run: ' + r['error'])
        tr = base + f'.{tag}.trace'
        with open(tr, 'w') as f:
            f.write('log\nsched ' + ' '.join(map(str, r['sched'])) + '\n')
            for i in r['inputs']:
                f.write('input ' + i + '\n')
        return r, tr

    def run_native(self, exe, tr):
        env = dict(os.environ, ASAN_OPTIONS='exitcode=43:alloc_dealloc_mismatch=0:detect_leaks=0:detect_stack_use_after_return=1:handle_segv=1:abort_on_error=0:use_sigaltstack=0', UBSAN_OPTIONS='print_stacktrace=1')
        try:
            return run([exe, tr], timeout=120, env=env)
        except subprocess.TimeoutExpired:
            return 46, 'REPLAY TIMEOUT', ''


EXPECT = {'assert': {42}, 'fail': {42, 44}, 'memory': {43, 42, 44, 45, 46}, 'deadlock': {45}, 'terminate': {44}, 'livelock': {46}, 'trap': {-4, 132, 43},
          'arith': {-8, 136, 43}, 'unreachable': {42, 43, 44, 45, 46, 50, 51, 132, 139, -4, -11}}


class Incomplete(NoAnswer):
    pass


def smaller(c):
    """the same case within smaller bounds, for code on which the stated ones take too long"""
    out = []
    if c.get('threaded') and '--max-preempt' not in c['opts']:
        for n in (2, 1):
            out.append(dict(c, opts=c['opts'] + ['--max-preempt', str(n)], bounds=c.get('bounds', '') + f'; REDUCED: at most {n} preemptions'))
    else:
        for k in ('STEPS', 'ROUNDS', 'BITS', 'TIMERS'):
            old = [d for d in c.get('defs', []) if re.fullmatch(rf'-D{k}=\d+', d)]
            n = int(old[0].split('=')[1]) if old else 0
            for m in ((n - 2, n - 4) if k == 'BITS' else (n - 1, n - 2)):
                if m <= 0:
                    continue
                out.append(dict(c, defs=[f'-D{k}={m}' if d == old[0] else d for d in c['defs']], bounds=c.get('bounds', '') + f'; REDUCED: {k}={m}'))
    for i, d in enumerate(out):
        d['name'], d['reduced'] = f'{c["name"]}~{i + 1}', True
    return out


def one_case(ctx, c):
    """explores the case; falls back to smaller bounds, which the evidence states, when the time is used up"""
    try:
        return explore(ctx, c)
    except Incomplete as e:
        first, orig = e, c
    for d in smaller(c):
        if ctx.tier == 'quick' and time.time() - ctx.start > 560:
            break
        try:
            o = ctx.rt['h:' + c['name']]
            if d.get('defs') != c.get('defs'):
                o = ctx.compile(os.path.join(HERE, 'harness', d['src']), os.path.join(ctx.tmp, 'h_' + d['name'] + '.bc'), d['defs'])
            ctx.rt['h:' + d['name']] = o
            r = explore(ctx, d)
            print(f'REDUCED: {first}; explored within smaller bounds: {d["bounds"]}')
            r['case'] = dict(d, name=orig['name'])
            return r
        except Incomplete:
            pass
    raise first


def explore(ctx, c):
    t0 = time.time()
    base = ctx.link(c)
    out = base + '.json'
    cap = c.get('time', 120 if ctx.tier == 'quick' else 700)
    cmd = [os.path.join(ctx.eng, 'symexec'), '--bc', base + '.eng.bc', '--out', out, '--time', str(cap)] + c.get('opts', [])
    if ctx.verbose:
        cmd.append('-v')
    def engine():
        if os.path.exists(out):
            os.unlink(out)
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=None if ctx.verbose else subprocess.PIPE, timeout=cap + 120)
        except subprocess.TimeoutExpired:
            raise Incomplete(f'case {c["name"]}: engine time limit')
        if not os.path.exists(out):
            raise (Incomplete if p.returncode == -9 else NoAnswer)(f'case {c["name"]}: engine died (exit {p.returncode}) {(p.stderr or b"").decode()[-2000:]}')
        return json.load(open(out))
    r = engine()
    if r['status'] == 'error' and re.search(r'unmodelled external function _ZNK?4coro', r['error']):
        ctx.link(c, True)
        r = engine()
    res = {'case': c, 'result': r, 'violations': [], 'validated': 0, 'wall': 0.0}
    if r['status'] == 'error':
        raise (Incomplete if 'unknown' in r['error'] else NoAnswer)(f'case {c["name"]}: {r["error"]}')
    for i, v in enumerate(r['violations']):
        cr, tr = ctx.concrete(base, c, v['model'], f'v{i}')
        hit = [x for x in cr['violations'] if x['kind'] == v['kind'] and x['msg'] == v['msg']]
        if not hit:
            raise NoAnswer(f'case {c["name"]}: counterexample does not reproduce in the engine: {v["kind"]}: {v["msg"]}')
        exe = ctx.native(base, c)
        rc, o, e = ctx.run_native(exe, tr)
        ok = rc in EXPECT.get(v['kind'], {42, 43, 44, 45, 46}) or (rc < 0 and v['kind'] in ('memory', 'unreachable', 'trap', 'arith')) or (rc in (139, 136, 132) and v['kind'] != 'assert')
        if v['kind'] == 'assert' and rc == 42 and v['msg'] not in o:
            ok = False
        v['replay_rc'], v['replay_out'] = rc, (o[-600:] + e[:3000])
        v['reproduced'] = ok
        v['trace'] = tr
        res['violations'].append(v)
    if r['status'] == 'incomplete' and not res['violations']:
        raise Incomplete(f'case {c["name"]}: exploration incomplete: {r["incomplete"]}')
    if not r['violations']:
        missing = [x for x in c.get('reach', [1]) if x not in r['reached']]
        if missing:
            raise (Incomplete if c.get('reduced') else NoAnswer)(f'case {c["name"]}: vacuous: witness points {missing} are unreachable')
        if not r['exhaustive'].startswith('skipped') and r['exhaustive'] not in ('unsat', 'unknown') and not r['stats']['cut']:
            raise NoAnswer(f'case {c["name"]}: exhaustiveness query: {r["exhaustive"]}')
    # engine validation against the native code
    n = c.get('validate', 2 if ctx.tier == 'quick' else 20)
    samples = r.get('samples', [])
    if n and samples and not r['violations']:
        rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))
        pick = samples if len(samples) <= n else rnd.sample(samples, n)
        exe = ctx.native(base, c)
        for i, m in enumerate(pick):
            cr, tr = ctx.concrete(base, c, m, f's{i}')
            if cr['violations']:
                raise NoAnswer(f'case {c["name"]}: a sampled passing path fails in the concrete engine run')
            rc, o, e = ctx.run_native(exe, tr)
            log = [l[4:] for l in o.splitlines() if l.startswith('LOG ') and not l.startswith('LOG reach')]
            if rc != 0 or log != cr['log']:
                raise NoAnswer(f'case {c["name"]}: engine and native run disagree (exit {rc}) {o[-500:]} {e[:3000]} engine log {cr["log"][:20]}')
            res['validated'] += 1
    res['wall'] = time.time() - t0
    return res


def samples_of(results):
    """actual cases: models of explored paths (inputs and scheduling choices), and counterexamples"""
    out = []
    for r in results:
        for m in r['result'].get('samples', [])[:3]:
            out.append({'case': r['case']['name'], 'outcome': 'path ended, property held', 'inputs': {n: v for n, w, v in m if n.startswith('in_')},
                        'schedule': ' '.join(f'{n[2:]}:t{v}' for n, w, v in m if n.startswith('s_'))})
        for v in r['violations'][:2]:
            out.append({'case': r['case']['name'], 'outcome': f'{v["kind"]}: {v["msg"]}', 'inputs': {n: x for n, w, x in v['model'] if n.startswith('in_')},
                        'schedule': ' '.join(f'{n[2:]}:t{x}' for n, w, x in v['model'] if n.startswith('s_'))})
    return out


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--case')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    P = props.PROPS[a.property]
    cases = []
    for c in P['cases']:
        if c.get('tier', 'quick') == 'thorough' and tier == 'quick' and not a.case:
            continue
        if c.get('only') == 'quick' and tier != 'quick' and not a.case:
            continue
        if a.case and c['name'] != a.case:
            continue
        cases.append(c)
    t0 = time.time()
    ctx = Ctx(a.property, tier, a.v)
    errors, results = [], []
    try:
        ctx.prepare(cases)
        with ThreadPoolExecutor(8 if tier == 'quick' else 6) as ex:
            futs = [(c, ex.submit(one_case, ctx, c)) for c in cases]
            for c, f in futs:
                try:
                    results.append(f.result())
                except NoAnswer as e:
                    errors.append(str(e))
                except Exception as e:  # noqa
                    errors.append(f'case {c["name"]}: {type(e).__name__}: {e}')
    except NoAnswer as e:
        errors.append(str(e))
    kf = [k for k in known_findings() if k['property'] == a.property and k['status'] == 'known']
    nviol = 0
    seen = set()
    rep = os.path.join(HERE, 'evidence', 'replays', a.property)
    for r in results:
        for i, v in enumerate(r['violations']):
            m = [k for k in kf if k['case'] == r['case']['name'] and k['kind'] == v['kind'] and k['msg'] == v['msg'] and k.get('where', '') in v['where'] + v['stack']]
            if m and v['reproduced']:
                if m[0]['id'] not in seen:
                    seen.add(m[0]['id'])
                    print(f'KNOWN-FINDING: property={a.property} {m[0]["id"]}: {m[0]["what"]}')
                continue
            if not v['reproduced']:
                errors.append(f'case {r["case"]["name"]}: counterexample not reproduced natively ({v["kind"]}: {v["msg"]} at {v["where"]}; native exit {v["replay_rc"]}: {v["replay_out"][:800]})\n{v["stack"]}')
                continue
            nviol += 1
            d = os.path.join(rep, f'{r["case"]["name"]}_{i}')
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            shutil.copy(v['trace'], os.path.join(d, 'trace.txt'))
            json.dump(v, open(os.path.join(d, 'violation.json'), 'w'), indent=1)
            print(f'  case {r["case"]["name"]}: {v["kind"]}: {v["msg"]}\n  at {v["where"]}\n{v["stack"]}  native replay: exit {v["replay_rc"]} {v["replay_out"][:300]}')
            print(f'VIOLATION property={a.property} replay={d}')
    wall = time.time() - t0
    tot = {}
    for r in results:
        for k, x in r['result']['stats'].items():
            tot[k] = max(tot.get(k, 0), x) if k == 'solver_max_s' else tot.get(k, 0) + x
    fns = sorted({f for r in results for f in r['result']['functions']})
    ev = {
        'property': a.property, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
        'coverage': {
            'states': tot.get('states', 0), 'transitions': tot.get('transitions', 0),
            'traces_validated_against_impl': sum(r['validated'] for r in results) + sum(1 for r in results for v in r['violations'] if v['reproduced']),
            'samples': samples_of(results),
            'sample_models': sum(len(r['result'].get('samples', [])) for r in results),
            'functions_encoded': fns,
            'functions_encoded_total': sum(r['result']['functions_total'] for r in results),
            'queries': int(tot.get('queries', 0)), 'queries_sat': int(tot.get('sat', 0)), 'queries_unsat': int(tot.get('unsat', 0)),
            'query_cache_hits': int(tot.get('query_cache_hits', 0) + tot.get('model_reuse', 0)),
            'solver_s': round(tot.get('solver_s', 0), 3), 'solver_max_query_s': round(tot.get('solver_max_s', 0), 3),
            'paths_ended': int(tot.get('paths_ended', 0)), 'state_merges': int(tot.get('merged', 0)), 'symbols': int(tot.get('symbols', 0)),
            'instructions_interpreted': int(tot.get('instructions', 0)),
            'assertions': {m: n for r in results for m, n in r['result']['asserts'].items()},
            'cases': [{'name': r['case']['name'], 'bounds': r['case'].get('bounds', ''), 'status': r['result']['status'], 'defs': r['case'].get('defs', []),
                       'options': r['case'].get('opts', []), 'reduced_bounds': r['case'].get('reduced', False), 'stats': r['result']['stats'], 'exhaustiveness_query': r['result']['exhaustive'],
                       'reached_witnesses': r['result']['reached'], 'validated_traces': r['validated'], 'wall_s': round(r['wall'], 1)} for r in results],
            'bounds': P.get('bounds', ''),
            'errors': errors,
        },
        'assumptions': props.COMMON_ASSUMPTIONS + P.get('assumptions', []),
        'wall_s': round(wall, 2), 'violations': nviol,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.property + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if not a.keep:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
    else:
        print('kept', ctx.tmp)
    for e in errors:
        print('NO-ANSWER:', e)
    print(f'{a.property} {tier}: {len(results)}/{len(cases)} cases, {int(tot.get("states", 0))} states, {int(tot.get("queries", 0))} queries, solver {tot.get("solver_s", 0):.2f}s, wall {wall:.1f}s, violations {nviol}, known {len(seen)}, errors {len(errors)}')
    if nviol:
        return 1
    if errors:
        return 3
    return 0


if __name__ == '__main__':
    sys.exit(main())
