"""Runs a property: many seeded simulations in worker processes, then the verdict."""
import importlib
import json
import os
import pickle
import struct
import subprocess
import sys
import time

import core

EVID = os.path.join(core.VERIF, 'evidence')
REPLAYS = os.path.join(core.VERIF, 'replays')
KNOWN = os.path.join(core.VERIF, 'known-findings.txt')


def load(pid):
    sys.path.insert(0, os.path.join(core.HERE, 'props'))
    import faults
    faults.install_fs()          # before nilmtk binds open
    faults.install_hdf()
    faults.install_pool()
    core.load_nilmtk()
    m = importlib.import_module(pid.lower())
    assert m.ID == pid
    if hasattr(m, 'warm'):
        m.warm()
    # the library calls gc.collect() all the time: keep what is loaded by now out of it
    import gc
    gc.collect()
    gc.freeze()
    return m


def worker(prop, a, w, jobs, runs, t_end, fd, base):
    def send(obj):
        b = pickle.dumps(obj)
        b = struct.pack('>I', len(b)) + b
        while b:
            b = b[os.write(fd, b):]
    for i in range(a.first + w, a.first + runs, jobs):
        if time.monotonic() > t_end:
            break
        scn = core.make(prop, a.seed, i, a.tier)
        r = core.run_forked(prop, scn, base)
        send((i, r))
        if not r['ok'] and not a.all:
            break
    send(None)


def run_many(prop, a, runs, jobs, budget, base):
    """-> {i: result}"""
    t_end = time.monotonic() + budget
    fds = {}
    for w in range(jobs):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                worker(prop, a, w, jobs, runs, t_end, wr, base)
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 3
            os._exit(code)
        os.close(wr)
        fds[r] = [pid, b'', False]
    import select
    res = {}
    while fds:
        for r in select.select(list(fds), [], [])[0]:
            b = os.read(r, 1 << 16)
            if not b:
                os.close(r)
                pid, _, done = fds.pop(r)
                os.waitpid(pid, 0)
                if not done:
                    res[-pid] = {'ok': False, 'harness': True, 'cls': 'harness', 'detail': 'worker died'}
                continue
            fds[r][1] += b
            while len(fds[r][1]) >= 4:
                n = struct.unpack('>I', fds[r][1][:4])[0]
                if len(fds[r][1]) < 4 + n:
                    break
                obj = pickle.loads(fds[r][1][4:4 + n])
                fds[r][1] = fds[r][1][4 + n:]
                if obj is None:
                    fds[r][2] = True
                else:
                    res[obj[0]] = obj[1]
    return res


def brief(scn, limit=1500):
    s = json.dumps(scn, sort_keys=True)
    return scn if len(s) <= limit else s[:limit] + ' ...'


def evidence(prop, a, res, wall, viol, extra):
    ok = [r for r in res.values() if 'sig' in r]
    tot = {}
    probes = {}
    for r in ok:
        for k, v in r['faults'].items():
            tot[k] = tot.get(k, 0) + v
        for k, v in r['probes'].items():
            probes[k] = probes.get(k, 0) + v
    nt = {r['sig'] for r in ok if r['nontrivial']}
    idx = sorted(i for i in res if i >= 0)
    cov = {
        'evaluations': len(ok),
        'distinct_nontrivial': len(nt),
        'rule': prop.RULE,
        'samples': [brief(core.make(prop, a.seed, i, a.tier)) for i in idx[:2]],
        'seeds': {'VERIF_SEED': a.seed, 'first_run': idx[0] if idx else None, 'last_run': idx[-1] if idx else None},
        'runs_per_hour': round(len(ok) / wall * 3600) if wall else None,
        'simulated_data_hours': round(sum(r['data_s'] for r in ok) / 3600, 1),
        'steps': sum(r['steps'] for r in ok),
        'events': sum(r['n_events'] for r in ok),
        'distinct_histories': len({r['digest'] for r in ok}),
        'faults_injected': dict(sorted(tot.items())),
        'faults_total': sum(tot.values()),
        'situations_reached': dict(sorted(probes.items())),
        'situations_never_reached': [p for p in getattr(prop, 'PROBES', []) if p not in probes],
        'real_components': prop.REAL,
        'stubbed_components': prop.STUB,
    }
    cov.update(extra)
    ev = {'property': prop.ID, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': prop.ASSUME, 'wall_s': round(wall, 2), 'violations': viol}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop.ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')


def replay(prop, path, base, quiet=False):
    with open(path) as f:
        rep = json.load(f)
    r = core.run_forked(prop, rep['scenario'], base)
    if r.get('harness'):
        print('HARNESS ERROR in replay:\n' + r['detail'])
        return 2
    same = (not r['ok']) and r['cls'] == rep['class'] and r.get('digest') == rep.get('digest')
    if r['ok']:
        print('replay: the property held')
        return 0
    print('replay: %s (%s)' % (r['cls'], 'identical to the recording' if same else 'DIFFERS from the recording'))
    if not quiet:
        print(r['detail'])
        for t in r.get('tail', []):
            print('   ', t)
    print('VIOLATION property=%s replay=%s' % (prop.ID, path))
    return 1


def main(a):
    base = os.environ['SIM_BASE']
    t_start = time.monotonic()
    prop = load(a.prop)
    if a.replay:
        return replay(prop, a.replay, base)
    if a.show is not None:
        scn = core.make(prop, a.seed, a.show, a.tier)
        print(json.dumps(scn, indent=1))
        os.environ['SIM_STDERR'] = '1'
        r = core.run_forked(prop, scn, base)
        print(json.dumps(r, indent=1).replace('\\n', '\n'))
        return 0
    runs = a.runs or prop.RUNS[a.tier]
    budget = a.budget or getattr(prop, 'BUDGET', {'quick': 420, 'thorough': 3000})[a.tier]
    if a.selftest:
        return selftest(prop, a, runs, base)
    t0 = time.monotonic()
    res = run_many(prop, a, runs, a.jobs, budget, base)
    wall = time.monotonic() - t0
    if a.digests:
        for i in sorted(res):
            print(i, res[i].get('digest'), res[i]['ok'], res[i].get('cls', ''))
        return 0
    harness = [i for i in sorted(res) if res[i].get('harness')]
    bad = [i for i in sorted(res) if not res[i]['ok'] and not res[i].get('harness')]
    if a.all:
        by = {}
        for i in bad:
            by.setdefault((res[i]['cls'], res[i]['detail'][-160:]), []).append(i)
        for k, v in by.items():
            print(len(v), v[:8], k)
    if harness and not bad:
        print('HARNESS ERROR in run %d of %s:\n%s' % (harness[0], prop.ID, res[harness[0]]['detail']))
        return 2
    for line in known_lines(prop, base):
        print(line)
    status = 0
    extra = {}
    if bad:
        i = bad[0]
        r = res[i]
        scn = core.make(prop, a.seed, i, a.tier)
        tries = 0
        if not a.no_shrink:
            scn, tries = core.shrink(prop, scn, r['cls'], base)
            r = core.run_forked(prop, scn, base)
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, '%s-s%d-r%d.json' % (prop.ID, a.seed, i))
        with open(path, 'w') as f:
            json.dump({'property': prop.ID, 'seed': a.seed, 'run': i, 'class': r.get('cls'), 'detail': r.get('detail'),
                       'digest': r.get('digest'), 'trace': r.get('tail'), 'scenario': scn, 'shrink_tries': tries}, f, indent=1)
        print('run %d (seed %d): %s\n%s' % (i, a.seed, r.get('cls'), r.get('detail')))
        p = subprocess.run([sys.executable, os.path.join(core.VERIF, 'run.py'), prop.ID, '--replay', path],
                           capture_output=True, text=True, env=dict(os.environ))
        print('replayed in a new process: ' + ([l for l in p.stdout.splitlines() if l.startswith('replay:')] or ['?'])[0])
        extra['replay'] = path
        print('VIOLATION property=%s replay=%s' % (prop.ID, path))
        status = 1
    else:
        # the same seed must give the same history: a sample of the runs again, in this order
        again = sorted(i for i in res if i >= 0)[:: max(1, len(res) // 5)][:5]
        n = 0
        for i in again:
            r = core.run_forked(prop, core.make(prop, a.seed, i, a.tier), base)
            if r.get('digest') != res[i].get('digest'):
                print('HARNESS ERROR: run %d is not repeatable' % i)
                return 2
            n += 1
        extra['repeated_with_identical_history'] = n
    if not a.no_evidence:
        evidence(prop, a, res, wall, len(bad), extra)
    nf = {}
    for r in res.values():
        for k, v in r.get('faults', {}).items():
            nf[k] = nf.get(k, 0) + v
    print('%s: %d runs, %d steps, %d faults injected, %.1f s (%.1f s with start-up)%s' % (
        prop.ID, len(res), sum(r.get('steps', 0) for r in res.values()), sum(nf.values()), wall,
        time.monotonic() - t_start, '' if not bad else ', %d violating' % len(bad)))
    return status


def known_lines(prop, base):
    """KNOWN-FINDING lines: the listed findings which still fail on this tree."""
    out = []
    listed = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: property=%s ' % prop.ID):
                    key, _, text = line[len('known: property=%s ' % prop.ID):].partition(' ')
                    listed[key] = text
    for key, text in listed.items():
        scn = prop.KNOWN[key]
        r = core.run_forked(prop, json.loads(json.dumps(dict(scn, known=key))), base)
        if not r['ok'] and not r.get('harness'):
            out.append('KNOWN-FINDING: property=%s %s' % (prop.ID, text))
    return out


def selftest(prop, a, runs, base):
    """Each run twice in this process and once more with other workers and another hash seed."""
    a.all = True
    r1 = run_many(prop, a, runs, 8, 1e9, base)
    r2 = run_many(prop, a, runs, 3, 1e9, base)
    env = dict(os.environ, SIM_HASHSEED='77', PYTHONHASHSEED='77')
    p = subprocess.run([sys.executable, os.path.join(core.VERIF, 'run.py'), prop.ID, '--digests', '--all', '--runs', str(runs),
                        '--seed', str(a.seed), '--tier', a.tier, '--jobs', '5'], capture_output=True, text=True, env=env)
    r3 = {}
    for line in p.stdout.splitlines():
        f = line.split()
        if len(f) >= 3:
            r3[int(f[0])] = f[1]
    diff2 = [i for i in r1 if r1[i].get('digest') != r2[i].get('digest')]
    diff3 = [i for i in r1 if r1[i].get('digest') != r3.get(i)]
    print('%s selftest: %d runs; other workers: %d differ %s; other hash seed and process: %d differ %s' % (
        prop.ID, len(r1), len(diff2), diff2[:5], len(diff3), diff3[:5]))
    if p.stderr:
        print(p.stderr[-500:])
    return 2 if diff2 or diff3 else 0
