#!/usr/bin/env python3
"""Check driver.  run.py PROP [--tier quick|thorough] [--replay FILE] [--seed N] [--shards N] [--keep]

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: inconclusive / harness error.
"""
from __future__ import annotations
import argparse, json, os, pathlib, shutil, signal, subprocess, sys, tempfile, time, collections, importlib.util

ROOT = pathlib.Path(__file__).resolve().parent
REPO = os.environ.get('ZMON_REPO', '/repo')
PY = os.environ.get('ZMON_PYTHON', '/opt/venv/bin/python')
UID = 65534


def known_findings(prop):
    res = {}
    path = ROOT / 'known_findings.jsonl'
    if path.exists():
        for line in path.read_text().splitlines():
            line = line.strip()
            if not line or line.startswith('#'):
                continue
            item = json.loads(line)
            if item.get('status') == 'known' and item['property'] == prop:
                res[item['key']] = item
    return res


CRASH = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE)


def ensure_version():
    path = pathlib.Path(REPO) / 'zcollection' / 'version.py'
    if not path.exists():
        try:
            path.write_text("__version__ = version = '2024.2.0'\n__version_tuple__ = version_tuple = (2024, 2, 0)\n")
        except OSError:
            pass


def meta(prop):
    """CASES/RULE/LEVEL... of a property, read without importing the code under test."""
    code = ("import json,sys;sys.path.insert(0,%r);from zmon import propinfo;print(json.dumps(propinfo.INFO[%r]))" % (str(ROOT), prop))
    return json.loads(subprocess.check_output([PY, '-c', code], text=True))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--cases')
    ap.add_argument('--shards', type=int, default=0)
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    prop, tier, seed = args.prop, args.tier, args.seed
    only = None
    if args.replay:
        rep = json.load(open(args.replay))
        seed, tier = rep['seed'], rep['tier']
        only = [rep['case']]
    if args.cases:
        only = [int(c) for c in args.cases.split(',')]
    t0 = time.time()
    ensure_version()
    sys.path.insert(0, str(ROOT))
    from zmon import propinfo
    info = propinfo.INFO[prop]
    nshards = args.shards or info.get('shards', 8)
    if only:
        nshards = 1
    scratch = pathlib.Path(tempfile.mkdtemp(prefix=f'zmon-{prop}-', dir='/tmp'))
    drop = os.geteuid() == 0
    if drop:
        os.chmod(scratch, 0o755)
        probe = subprocess.run(
            [PY, '-c', f"import os;os.setgroups([]);os.setgid({UID});os.setuid({UID});import sys;sys.path[:0]=[{REPO!r},{str(ROOT)!r}];"
             "import importlib.util as u;assert u.find_spec('zcollection') and open(u.find_spec('zcollection').origin) and open(u.find_spec('zmon').origin)"],
            cwd='/', capture_output=True)
        drop = probe.returncode == 0
    env = dict(os.environ)
    env.update(PYTHONPATH=f'{ROOT}:{REPO}', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', HOME=str(scratch), OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', NUMEXPR_MAX_THREADS='1', MALLOC_ARENA_MAX='2', ZMON_REPO=REPO,
               DASK_DISTRIBUTED__WORKER__USE_FILE_LOCKING='false', DASK_TEMPORARY_DIRECTORY=str(scratch / 'keep-dask'),
               DASK_DISTRIBUTED__WORKER__MEMORY__TERMINATE='false', DASK_DISTRIBUTED__WORKER__MEMORY__PAUSE='false',
               DASK_DISTRIBUTED__WORKER__MEMORY__SPILL='false', DASK_DISTRIBUTED__WORKER__MEMORY__TARGET='false',
               DASK_DISTRIBUTED__COMM__TIMEOUTS__CONNECT='60s', DASK_DISTRIBUTED__COMM__TIMEOUTS__TCP='120s',
               DASK_DISTRIBUTED__ADMIN__TICK__LIMIT='60s', DASK_DISTRIBUTED__SCHEDULER__ALLOWED_FAILURES='3',
               TMPDIR=str(scratch / 'keep-tmp'), VERIF_SEED=str(seed), VERIF_TIER=tier)
    if drop:
        env['ZMON_UID'] = str(UID)
    for sub in ('keep-dask', 'keep-tmp'):
        (scratch / sub).mkdir()
    (scratch / 'keep-out').mkdir()
    if drop:
        for p in [scratch, *scratch.iterdir()]:
            os.chown(p, UID, UID)

    def spawn(k, n, cases=None):
        d = scratch / f's{k}-{int(time.time()*1000)}'
        d.mkdir()
        if drop:
            os.chown(d, UID, UID)
        out = str(scratch / 'keep-out' / f'{d.name}.json')
        err = open(scratch / 'keep-out' / f'{d.name}.err', 'wb')
        cmd = [PY, '-m', 'zmon.worker', prop, tier, str(seed), str(k), str(n), str(d), out]
        if cases:
            cmd.append(','.join(map(str, cases)))
        p = subprocess.Popen(cmd, env=env, cwd=str(d), stdin=subprocess.DEVNULL, stdout=err, stderr=err, start_new_session=True)
        return p, out, err, k

    def finish(job, timeout):
        p, out, err, k = job
        try:
            p.wait(timeout=max(1, timeout))
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        err.close()
        if os.path.exists(out):
            return json.load(open(out))
        tail = open(err.name, errors='replace').read()[-4000:]
        try:
            case = int(open(out + '.case').read())
        except (OSError, ValueError):
            case = None
        return {'status': 'died', 'rc': p.returncode, 'stderr': tail, 'shard': k, 'case': case}

    rc = 0
    lines = []
    try:
        hard = time.time() + (840 if tier == 'quick' else 4 * 3600)
        jobs = [spawn(k, nshards, only) for k in range(nshards)]
        results = [finish(j, hard - time.time()) for j in jobs]
        # A shard that died or hung is examined again, alone, before it counts.
        final = []
        for r in results:
            if r['status'] == 'hang' and time.time() < hard - 200:
                r2 = finish(spawn(r['shard'], nshards, [r['case']]), hard - time.time())
                if r2['status'] == 'hang':
                    r['violations'].append({'case': r['case'], 'msg': 'an operation never terminated (twice)', 'detail': {'stacks': r2.get('stacks')},
                                            'trace': r2.get('trace'), 'tb': ''})
                else:
                    r['violations'] += r2.get('violations', [])
                r['status'] = 'ok'
            elif r['status'] == 'died' and r['case'] is not None and -r['rc'] in CRASH and time.time() < hard - 200:
                # the interpreter itself crashed: does this case do it again, alone?
                r2 = finish(spawn(r['shard'], nshards, [r['case']]), hard - time.time())
                if r2['status'] == 'died' and -r2['rc'] in CRASH:
                    r = {'status': 'ok', 'violations': [{'case': r['case'], 'msg': f'the interpreter crashed (twice, signal {-r2["rc"]})', 'detail': {}, 'trace': [],
                                                         'tb': r2['stderr']}]}
                else:
                    r = finish(spawn(r['shard'], nshards, only), hard - time.time())
            elif r['status'] == 'died' and time.time() < hard - 200:
                r = finish(spawn(r['shard'], nshards, only), hard - time.time())
            final.append(r)
        results = final
        dead = [r for r in results if r['status'] != 'ok']
        counters = collections.Counter()
        sigs, samples, violations, findings = set(), [], [], {}
        done = planned = 0
        reached = collections.defaultdict(set)
        for r in results:
            for name, numbers in r.get('lines', {}).items():
                reached[name].update(numbers)
            counters.update(r.get('counters', {}))
            sigs |= set(r.get('sigs', []))
            samples += r.get('samples', [])
            violations += r.get('violations', [])
            done += r.get('done', 0)
            planned += r.get('planned', 0)
            for key, msg in r.get('findings', []):
                findings.setdefault(key, msg)
        kf = known_findings(prop)
        for key, msg in list(findings.items()):
            if key not in kf:
                violations.append({'case': -1, 'msg': f'finding {key} is not listed: {msg}', 'detail': {}, 'trace': [], 'tb': ''})
            else:
                lines.append(f'KNOWN-FINDING: property={prop} {kf[key]["what"]}')
        needed = info.get('needs', [])
        missing = [n for n in needed if counters.get(n, 0) == 0]
        (ROOT / 'evidence').mkdir(exist_ok=True)
        ev = {
            'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
            'level': info['level'],
            'coverage': {
                'evaluations': int(counters.get('cases', 0)), 'distinct_nontrivial': len(sigs), 'rule': info['rule'],
                'samples': samples[:6], 'observed': {k: int(v) for k, v in sorted(counters.items())},
                'cases_planned': planned, 'cases_done': done, 'shards': nshards,
                'code_lines_reached': {name: len(numbers) for name, numbers in sorted(reached.items())},
            },
            'assumptions': info.get('assumptions', []),
            'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
        }
        if os.environ.get('ZMON_LINES'):   # maintenance: which lines, for tools/uncovered.py
            pathlib.Path(os.environ['ZMON_LINES']).write_text(json.dumps({k: sorted(v) for k, v in reached.items()}))
        if not args.replay and not args.cases:
            (ROOT / 'evidence' / f'{prop}.json').write_text(json.dumps(ev, indent=1))
        if violations:
            rdir = ROOT / 'replays'
            rdir.mkdir(exist_ok=True)
            for v in violations[:int(os.environ.get("ZMON_SHOW", 3))]:
                path = rdir / f'{prop}-{tier}-{seed}-{v["case"]}.json'
                path.write_text(json.dumps({'property': prop, 'tier': tier, 'seed': seed, **v}, indent=1))
                print(f'# {v["msg"]}'[:1500])
                if args.v:
                    print('\n'.join(v.get('trace') or []))
                    print(json.dumps(v.get('detail'), indent=1)[:3000])
                    print(v.get('tb'))
                lines.append(f'VIOLATION property={prop} replay={path}')
            rc = 1
        elif dead:
            for r in dead[:2]:
                print('# shard failed', r.get('status'), r.get('rc'), (r.get('stderr') or '')[-2500:])
            rc = 2
        elif missing and not only:
            print(f'# inconclusive: never observed {missing}')
            rc = 2
        elif counters.get('inconclusive_cases', 0) > max(3, done // 5) or done * 4 < planned:
            print(f'# inconclusive: {counters.get("inconclusive_cases", 0)} undecided cases, {done}/{planned} done')
            rc = 2
        print(f'# {prop} {tier} seed={seed}: {done}/{planned} cases, {len(sigs)} distinct, {len(violations)} violations, '
              f'{time.time() - t0:.1f}s, observed {dict(sorted(counters.items()))}'[:1800])
        for line in lines:
            print(line)
    finally:
        if not args.keep:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
