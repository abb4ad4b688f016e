"""Builds and confirms planted bugs (maintenance tool; no check uses it).

tools/plant.py [ID ...] [--notest] [--nocheck] [--seeds 1,2]
For each bug of tools/bugs/*.py: scratch copy of /repo under /tmp, apply the edits, write seeded/<id>/, run the demonstration with and
without the change, the repository's tests with it, and the check of its property against the changed copy.
"""
import argparse, importlib.util, json, os, pathlib, re, shutil, subprocess, sys, tempfile
R = pathlib.Path(__file__).resolve().parents[1]
PY = '/opt/venv/bin/python'
BASE = '6c42bd0'
ap = argparse.ArgumentParser()
ap.add_argument('ids', nargs='*')
ap.add_argument('--notest', action='store_true')
ap.add_argument('--nocheck', action='store_true')
ap.add_argument('--seeds', default='1')
args = ap.parse_args()

bugs = {}
for f in sorted((R / 'tools' / 'bugs').glob('*.py')):
    spec = importlib.util.spec_from_file_location(f.stem, f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for b in m.BUGS:
        assert b['id'] not in bugs, b['id']
        bugs[b['id']] = b


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def scratch():
    d = pathlib.Path(tempfile.mkdtemp(prefix='plant'))
    sh(['cp', '-a', '/repo', str(d / 'repo')])
    os.chmod(d, 0o755)
    return d


DEMO_SH = '''#!/bin/bash
# Run in the repository: exit 0 on the unchanged tree, nonzero with the change.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec_py=/opt/venv/bin/python
[ -x "$exec_py" ] || exec_py=python3
timeout 250 "$exec_py" "$here/demo.py" "$work"
'''
HEAD = '''"""%s"""
import os, sys, pathlib
WORK = pathlib.Path(sys.argv[1])
os.chdir(WORK)
import numpy as np
import dask, dask.distributed
import fsspec
import zarr
import zcollection
from zcollection import collection, dataset, meta, merging, partitioning, storage, sync, view


def client():
    return dask.distributed.Client(dask.distributed.LocalCluster(
        n_workers=1, threads_per_worker=2, processes=False, dashboard_address=None))


'''


def demo(repo, folder):
    return sh(['bash', str(folder / 'demo.sh')], cwd=repo)


ok = True
for i in (args.ids or bugs):
    b = bugs[i]
    folder = R / 'seeded' / i
    folder.mkdir(parents=True, exist_ok=True)
    d = scratch()
    try:
        clean = pathlib.Path('/repo')
        repo = d / 'repo'
        blame_ok = False
        for file, old, new in b['edits']:
            p = repo / file
            s = p.read_text()
            assert s.count(old) == 1, (i, file, s.count(old), old)
            p.write_text(s.replace(old, new))
        patch = sh(['git', 'diff'], cwd=repo).stdout
        (folder / 'patch.diff').write_text(patch)
        # lines of the original repository
        for file in {e[0] for e in b['edits']}:
            base = set(l.strip() for l in sh(['git', 'show', f'{BASE}:{file}'], cwd='/repo').stdout.splitlines() if l.strip())
            for hunk in re.findall(r'^-(?!--)(.*)$', sh(['git', 'diff', '--', file], cwd=repo).stdout, re.M):
                if hunk.strip() in base and len(hunk.strip()) > 3:
                    blame_ok = True
        (folder / 'demo.sh').write_text(DEMO_SH)
        (folder / 'demo.py').write_text(HEAD % b['breaks'].replace('"""', '') + b['demo'].lstrip('\n'))
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(folder / 'meta.json', 'w'), indent=1)
        a, c = demo(clean, folder), demo(repo, folder)
        res = {'orig_lines': blame_ok, 'demo_clean': a.returncode, 'demo_bug': c.returncode}
        if a.returncode:
            print(a.stdout[-1500:], a.stderr[-2500:])
        if c.returncode == 0 or c.returncode == 124:
            print('demo did not fail with the change', c.stdout[-500:])
        if not args.notest:
            env = dict(os.environ, HOME='/root', PYTHONPATH=str(repo), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                       AWS_EC2_METADATA_DISABLED='true')
            t = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '4', '--timeout=120', f'--basetemp={d}/tmp', '--processes', '--n_workers', '1',
                    '--threads_per_worker', '1', '-o', 'junit_family=xunit2', f'--junitxml={d}/j.xml'], cwd=repo, env=env)
            sh(['/usr/bin/python3', '/opt/vp/results.py', f'{d}/out.json', f'junit:{d}/j.xml'])
            out = json.load(open(f'{d}/out.json'))
            missing = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(out['passed'])
            res['tests_missing'] = sorted(missing)[:5]
        if not args.nocheck:
            caught = []
            for s in args.seeds.split(','):
                k = sh([str(R / 'run.py'), b['property'], '--seed', s], cwd=R, env=dict(os.environ, ZMON_REPO=str(repo)))
                caught.append(k.returncode)
                last = [l for l in k.stdout.splitlines() if l.startswith('# ')][:2]
            res['check'] = caught
            res['how'] = last[0][:200] if last else ''
        good = res['demo_clean'] == 0 and res['demo_bug'] not in (0, 124) and blame_ok and not res.get('tests_missing') and set(res.get('check', [1])) == {1}
        ok &= good
        print('OK  ' if good else 'BAD ', i, json.dumps(res, ensure_ascii=False), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
sys.exit(0 if ok else 1)
