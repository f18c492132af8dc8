#!/usr/bin/env python3
"""Try planted bugs in scratch copies of /repo (never in /repo itself).

    plant.py new ID PROP "needs" "breaks" < edit script   (python: sub(file, old, new) calls)  then write demo.py
    plant.py check ID...      demo on the clean tree and on the changed one, the stable tests, and the property's check
    plant.py run ID... [--props C01,C02] [--runs N]
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
DEMO = '''#!/bin/bash
# exit 0: the property holds; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export PYTHONPATH="$PWD:$here/lib" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$t" PYTHONWARNINGS=ignore TMPDIR="$t"
cd "$t" && /opt/venv/bin/python "$here/demo.py"
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def copy():
    d = tempfile.mkdtemp(prefix='plant-')
    sh('cp', '-a', '/repo', d + '/repo')
    sh('git', '-C', d + '/repo', 'checkout', '-q', '--', '.')
    return d


def new(bid, prop, needs, breaks):
    d = copy()
    try:
        def sub(path, old, new):
            p = os.path.join(d, 'repo', path)
            b = open(p, 'rb').read().decode()
            if '\r\n' in b:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert b.count(old) == 1, (path, b.count(old), old)
            open(p, 'wb').write(b.replace(old, new).encode())
        exec(sys.stdin.read(), {'sub': sub})
        diff = subprocess.run(['git', '-C', d + '/repo', 'diff'], capture_output=True).stdout
    finally:
        shutil.rmtree(d)
    t = os.path.join(S, bid)
    os.makedirs(os.path.join(t, 'lib'), exist_ok=True)
    open(os.path.join(t, 'patch.diff'), 'wb').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(t, 'meta.json'), 'w'), indent=1)
    open(os.path.join(t, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(t, 'demo.sh'), 0o755)
    shutil.copytree(os.path.join(V, 'stubs', 'nilm_metadata'), os.path.join(t, 'lib', 'nilm_metadata'), dirs_exist_ok=True,
                    ignore=shutil.ignore_patterns('__pycache__'))
    shutil.copy(os.path.join(V, 'sim', 'world.py'), os.path.join(t, 'lib', 'world.py'))


def demo(bid, repo):
    return sh('bash', os.path.join(S, bid, 'demo.sh'), cwd=repo)


def one(bid, full, props, runs):
    meta = json.load(open(os.path.join(S, bid, 'meta.json')))
    d = copy()
    repo = d + '/repo'
    out = [bid, meta['property']]
    try:
        if full:
            r = demo(bid, repo)
            out.append('demo clean %s' % ('ok' if r.returncode == 0 else 'BAD: ' + (r.stdout + r.stderr)[-400:]))
        r = sh('git', '-C', repo, 'apply', os.path.join(S, bid, 'patch.diff'))
        if r.returncode:
            return out + ['DOES NOT APPLY ' + r.stderr[-200:]]
        if full:
            r = demo(bid, repo)
            out.append('demo changed %s' % ('ok: ' + (r.stdout + r.stderr).strip().splitlines()[-1][:150] if r.returncode else 'BAD: passes'))
            b = json.load(open('/opt/vp/BASELINE.json'))['stable']
            t = sh('/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-o', 'addopts=', 'nilmtk/tests/test_timeframe.py', cwd=repo,
                   env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=repo + ':' + V + '/stubs', MPLBACKEND='Agg'))
            out.append('tests: ' + (t.stdout.strip().splitlines() or ['?'])[-1] + ' (stable %d)' % len(b))
        for p in props or [meta['property']]:
            r = sh('python3', 'run.py', p, '--no-shrink', '--no-evidence', *(['--runs', str(runs)] if runs else []), cwd=V,
                   env=dict(os.environ, SIM_REPO=repo))
            v = [l for l in r.stdout.splitlines() if l.startswith('run ')]
            out.append('%s: %s' % (p, 'CAUGHT ' + v[0] if r.returncode == 1 else 'missed' if r.returncode == 0 else 'BROKEN ' + (r.stdout + r.stderr)[-300:]))
    finally:
        shutil.rmtree(d)
    return out


if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'new':
        new(*args)
    else:
        props = runs = None
        if '--props' in args:
            i = args.index('--props')
            props = args[i + 1].split(',')
            del args[i:i + 2]
        if '--runs' in args:
            i = args.index('--runs')
            runs = int(args[i + 1])
            del args[i:i + 2]
        ids = args or sorted(os.listdir(S))
        with cf.ThreadPoolExecutor(2) as ex:
            for o in ex.map(lambda b: one(b, cmd == 'check', props, runs), ids):
                print(' | '.join(o), flush=True)
