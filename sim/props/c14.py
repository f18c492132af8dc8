"""C14: temporary stores are separate, complete and gone when closed; nothing stays open after a failure."""
import hashlib
import os
import subprocess
import sys
import tempfile

import numpy as np
import pandas as pd

import faults
import core
import bld as B
import world as W
from core import Violation

ID = 'C14'
RUNS = {'quick': 260, 'thorough': 7000}
RULE = ('a run interleaves temporary stores, datasets that are opened (intact ones, ones without metadata, torn or foreign files), queried and closed, clean-ups of model '
        'checkpoints, and whole processes that exit normally or by an exception, with failures of opening, reading, writing and removing injected; after each step the open '
        'files, the temporary directory and the working directory are compared with the model; non-trivial when at least two temporary stores were alive at once or '
        'a failure was injected; distinct by the steps and faults')
REAL = ['nilmtk.TmpDataStore, HDFDataStore, CSVDataStore, DataSet and its metadata import, Disaggregator.clear_model_checkpoints', 'nilmtk start-up and exit (in some runs, a real process)',
        'pandas', 'PyTables', 'HDF5', 'the file system (a scratch directory)']
STUB = ['nilm_metadata', 'the names drawn by tempfile: seeded, and repeated on purpose']
ASSUME = ['a process that is killed cannot clean up; its file is not counted']
PROBES = ['several temporary stores', 'name taken', 'creation failed', 'open failed', 'no metadata', 'foreign file', 'closed twice', 'process exit', 'checkpoints removed',
          'removal failed', 'opened for writing after a failure', 'closed while being read']
SHRINK = ('ops',)
KEYS = ['/a', '/b/c', '/building1/elec/meter1']
FILES = ['good', 'nometa', 'nobuildingmeta', 'torn', 'text', 'csv', 'absent']
CWD = ['m-1.h5', 'm-epoch-2.h5', 'm-1.txt', 'n-1.h5', 'M-1.h5', 'xm-1.h5', 'm-dir.h5/', 'm.h5', 'm-1.h5.bak', 'sub/m-1.h5']


def gen(rng, tier):
    ops = []
    for _ in range(rng.randint(3, 22)):
        k = rng.weighted([('tmp', 4), ('put', 5), ('append', 5), ('get', 4), ('del', 1), ('close', 4), ('open', 5), ('query', 2), ('dsclose', 3), ('clear', 2),
                          ('write', 2), ('process', .12)])
        if k == 'tmp':
            ops.append([k, rng.choice([None] * 5 + ['hdf.open'])])
        elif k in ('put', 'append'):
            ops.append([k, rng.randrange(6), rng.choice(KEYS), rng.randint(1, 6), rng.choice([None] * 7 + ['hdf.write', 'hdf.create'])])
        elif k in ('get', 'del'):
            ops.append([k, rng.randrange(6), rng.choice(KEYS)])
        elif k == 'close':
            ops.append([k, rng.randrange(6), rng.choice([0, 0, 0, 1])])
        elif k == 'open':
            ops.append([k, rng.choice(['good', 'good'] + FILES), rng.choice([None, None, None, 'hdf.open', 'fs.open', 'fs.read'])])
        elif k in ('query', 'dsclose'):
            ops.append([k, rng.randrange(6), rng.randint(0, 2)])
        elif k == 'clear':
            ops.append([k, rng.choice([None, 'm', 'm-', 'm-epoch', 'zzz']), rng.choice([None, None, 1, 2])])
        elif k == 'write':
            ops.append([k, rng.choice(['good', 'nometa', 'nobuildingmeta'])])
        else:
            ops.append([k, rng.choice(['normal', 'exception', 'exit', 'query'])])
    return {'ops': ops, 'names': rng.randint(1, 4), 'world': B.gen_world(rng, n_sub=1, n=12), 'taken': rng.chance(.5)}


def digest(root):
    h = {}
    for d, dirs, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            p = os.path.join(d, f)
            with faults._real_open(p, 'rb') as fh:
                h[os.path.relpath(p, root)] = hashlib.sha256(fh.read()).hexdigest()
        for f in dirs:
            h[os.path.relpath(os.path.join(d, f), root) + '/'] = ''
    return h


class Names:
    """What tempfile draws: names which are taken come up again."""

    def __init__(self, n, where):
        self.i = 0
        self.n = n
        self.where = where
        self.queue = []

    def __iter__(self):
        return self

    def __next__(self):
        while self.queue:
            name = self.queue.pop(0)
            if os.path.exists(os.path.join(self.where, 'nilmtk-%s.h5' % name)):
                return name
        self.i += 1
        self.queue = ['sim%d' % j for j in range(max(0, self.i - self.n), self.i + 1)]
        return 'sim%d' % self.i


def open_fds(root):
    out = []
    for f in faults._real['listdir']('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + f)
        except OSError:
            continue
        if p.startswith(root + os.sep):
            out.append(os.path.relpath(p.replace(' (deleted)', ''), root))
    return sorted(out)


def run(scn, ctx):
    import nilmtk
    import tables
    from nilmtk import TmpDataStore, DataSet, HDFDataStore
    from nilmtk.disaggregate import Disaggregator
    plane = faults.PLANE
    tmp = ctx.path('tmp')
    data = ctx.path('data')
    os.makedirs(data)
    w = scn['world']
    W.write_hdf(w, os.path.join(data, 'good.h5'))
    W.write_csv(w, os.path.join(data, 'csv'))
    W.write_hdf(w, os.path.join(data, 'nometa.h5'))
    with pd.HDFStore(os.path.join(data, 'nometa.h5'), 'a') as st:
        del st.root._v_attrs.metadata
    W.write_hdf(w, os.path.join(data, 'nobuildingmeta.h5'))
    with pd.HDFStore(os.path.join(data, 'nobuildingmeta.h5'), 'a') as st:
        del st.get_node('/building1')._v_attrs.metadata
    with open(os.path.join(data, 'good.h5'), 'rb') as f:
        b = f.read()
    with open(os.path.join(data, 'torn.h5'), 'wb') as f:
        f.write(b[:len(b) // 3])
    with open(os.path.join(data, 'text.h5'), 'w') as f:
        f.write('hello')
    cwd = ctx.path('cwd')
    os.makedirs(cwd)
    for n in CWD:
        p = os.path.join(cwd, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if n.endswith('/'):
            os.makedirs(p, exist_ok=True)
        else:
            with open(p, 'w') as f:
                f.write(n)
    os.chdir(cwd)
    mine = ctx.path('tmp', 'nilmtk-user.h5')       # somebody's file in the temporary directory
    with open(mine, 'w') as f:
        f.write('mine')
    if scn['taken']:
        with open(ctx.path('tmp', 'nilmtk-sim0.h5'), 'w') as f:
            f.write('taken')
    tempfile._get_candidate_names = lambda n=Names(scn['names'], tmp): n
    base = digest(tmp)
    base_fds = open_fds(ctx.dir)
    data_ref = digest(data)
    cwd_ref = digest(cwd)
    plane.start(ctx)
    plane.seam_open = True
    ctx.begin()
    stores = []            # [{'s', 'tables': {key: list of frames}, 'open'}]
    sets = []              # [{'ds', 'file', 'open'}]
    ctx.data_s = 60

    def frame(n, c=[0]):
        c[0] += 1
        idx = pd.date_range('2014-01-01', periods=n, freq='min', tz='UTC') + pd.Timedelta(hours=c[0])
        return pd.DataFrame(np.arange(n) + c[0] * 1000., index=idx, columns=W.cols_index(['pa']))

    def guarded(fn, fault, site_kind='hdf'):
        """-> (value, failed)"""
        plane.arm([{'site': fault, 'nth': 1, 'kind': 'hdf' if fault.startswith('hdf') else 'eio'}] if fault else [])
        try:
            v = fn()
        except Exception as e:
            if isinstance(e, Violation) or not plane.fired:
                raise
            plane.disarm()
            return None, True
        plane.disarm()
        return v, False

    def invariants(op):
        live = [s for s in stores if s['open']]
        want = sorted(list(base) + [os.path.basename(s['path']) for s in live])
        got = sorted(digest(tmp))
        ctx.check(got == want, 'temporary-files', lambda: 'after %r: %r in the temporary directory, expected %r' % (op, got, want))
        h = digest(tmp)
        for n in base:
            if n not in cache:
                ctx.check(h[n] == base[n], 'foreign-file', lambda: 'after %r: %s, which belongs to somebody else, was changed' % (op, n))
        fds = open_fds(ctx.dir)
        exp = sorted(base_fds + ['tmp/' + os.path.basename(s['path']) for s in live] + ['data/' + x['file'] + '.h5' for x in sets if x['open'] and x['file'] != 'csv'])
        # PyTables shares one descriptor between handles of a file which is open for reading
        ctx.check(sorted(set(fds)) == sorted(set(exp)), 'left-open', lambda: 'after %r: open files %r, expected %r' % (op, fds, exp))
        ctx.check(len(fds) <= len(exp), 'left-open', lambda: 'after %r: open files %r, expected %r' % (op, fds, exp))
        ctx.check(digest(cwd) == cwd_ref, 'working-directory', lambda: 'after %r: %r' % (op, sorted(set(digest(cwd)) ^ set(cwd_ref))))
        ctx.check(digest(data) == data_ref, 'dataset-file', lambda: 'after %r: the dataset files changed' % (op,))

    cache = set(base) - {'nilmtk-user.h5', 'nilmtk-sim0.h5'}
    for op in scn['ops']:
        k = op[0]
        if k == 'tmp':
            if len(stores) >= 6:
                continue
            s, failed = guarded(TmpDataStore, op[1])
            if failed:
                ctx.probe('creation failed')
                ctx.nontrivial = True
            else:
                path = s.store.filename
                ctx.check(os.path.dirname(os.path.realpath(path)) == os.path.realpath(tmp), 'temporary-files', lambda: 'a temporary store in %s' % path)
                ctx.check(path not in [x['path'] for x in stores if x['open']], 'shared', lambda: 'two temporary stores share %s' % os.path.basename(path))
                ctx.check(not list(s.elements_below_key('/')), 'shared', 'a new temporary store is not empty')
                stores.append({'s': s, 'tables': {}, 'open': True, 'path': path, 'dirty': set()})
                if sum(x['open'] for x in stores) >= 2:
                    ctx.probe('several temporary stores')
                    ctx.nontrivial = True
                if scn['taken'] or len(stores) > scn['names']:
                    ctx.probe('name taken')
        elif k in ('put', 'append', 'get', 'del', 'close'):
            if not stores:
                continue
            x = stores[op[1] % len(stores)]
            s = x['s']
            if k == 'close':
                if not x['open']:
                    ctx.probe('closed twice')
                if op[2] and x['open'] and x['tables']:
                    g = s.load(sorted(x['tables'])[0], chunksize=1)      # a reader which is abandoned
                    if not sorted(x['tables'])[0] in x['dirty']:
                        next(g, None)
                        ctx.probe('closed while being read')
                s.close()
                x['open'] = False
                if op[2]:
                    s.close()
                    ctx.probe('closed twice')
            elif not x['open']:
                try:
                    if k == 'get':
                        s[op[2]]
                    elif k == 'del':
                        s.remove(op[2])
                    else:
                        getattr(s, k)(op[2], frame(op[3]))
                except Exception:
                    pass
                else:
                    raise Violation('closed', '%s on a closed temporary store succeeded' % k)
            elif k in ('put', 'append'):
                df = frame(op[3])
                _, failed = guarded(lambda: getattr(s, k)(op[2], df), op[4])
                if failed:
                    ctx.nontrivial = True
                    x['dirty'].add(op[2])
                else:
                    if k == 'put':
                        x['tables'][op[2]] = [df]
                        x['dirty'].discard(op[2])
                    else:
                        x['tables'].setdefault(op[2], []).append(df)
            elif k == 'get':
                if op[2] in x['dirty']:
                    continue
                if op[2] not in x['tables']:
                    try:
                        s[op[2]]
                    except KeyError:
                        pass
                    else:
                        raise Violation('shared', 'a table which was never stored here: %s' % op[2])
                else:
                    want = pd.concat(x['tables'][op[2]])
                    got = s[op[2]]
                    ctx.check(got.index.equals(want.index) and (got.values == want.values).all(), 'shared', lambda: 'table %s: %r, stored %r' % (op[2], got, want))
            elif k == 'del':
                if op[2] in x['tables'] and op[2] not in x['dirty']:
                    s.remove(op[2])
                    del x['tables'][op[2]]
        elif k == 'open':
            f = op[1]
            path = os.path.join(data, f if f == 'csv' else f + '.h5')
            fault = op[2]
            if (f == 'csv') == bool(fault and fault.startswith('hdf')):
                fault = None
            bad = f in ('nometa', 'nobuildingmeta', 'torn', 'text', 'absent')
            plane.arm([{'site': fault, 'nth': 1, 'kind': 'hdf' if fault.startswith('hdf') else 'eio'}] if fault else [])
            err = None
            try:
                ds = DataSet(path, format='CSV' if f == 'csv' else 'HDF')
            except Exception as e:
                err = type(e).__name__
            fired = bool(plane.fired)
            plane.disarm()
            ctx.check(bool(err) or not bad, 'accepted', lambda: 'DataSet of a file %s was accepted' % f)
            ctx.check(not err or bad or fired, 'exception:' + str(err), lambda: 'DataSet(%s)' % f)
            if err:
                ctx.probe({'nometa': 'no metadata', 'nobuildingmeta': 'no metadata', 'torn': 'foreign file', 'text': 'foreign file'}.get(f, 'open failed'))
                ctx.nontrivial = True
            else:
                sets.append({'ds': ds, 'file': f, 'open': True})
        elif k == 'query':
            xs = [x for x in sets if x['open']]
            if xs:
                elec = xs[op[1] % len(xs)]['ds'].buildings[1].elec
                for m in elec.meters:
                    [m.total_energy, m.good_sections, m.get_timeframe][op[2]]()
        elif k == 'dsclose':
            if sets:
                x = sets[op[1] % len(sets)]
                x['ds'].store.close()
                x['open'] = False
        elif k == 'write':
            # after a failed open, and when nobody reads it, the file can be opened for writing
            f = op[1]
            if not any(x['open'] and x['file'] == f for x in sets):
                s = HDFDataStore(os.path.join(data, f + '.h5'), 'a')
                s.close()
                ctx.probe('opened for writing after a failure')
                data_ref = digest(data)
        elif k == 'clear':
            d = Disaggregator()
            d.MODEL_NAME = 'sim'
            d.file_prefix = op[1]
            gone = [n for n in cwd_ref if '/' not in n and op[1] is not None and n.startswith(op[1]) and n.endswith('.h5')]
            plane.arm([{'site': 'fs.remove', 'nth': op[2], 'kind': 'eio'}] if op[2] else [])
            try:
                d.clear_model_checkpoints()
            except OSError:
                if not plane.fired:
                    raise
                ctx.probe('removal failed')
                plane.disarm()
                left = digest(cwd)
                ctx.check(set(cwd_ref) - set(left) <= set(gone), 'checkpoints', lambda: 'removed %r' % (set(cwd_ref) - set(left)))
                d.clear_model_checkpoints()
            plane.disarm()
            left = digest(cwd)
            ctx.check(sorted(set(cwd_ref) - set(left)) == sorted(gone) and set(left) <= set(cwd_ref), 'checkpoints',
                      lambda: 'prefix %r: removed %r, expected %r' % (op[1], sorted(set(cwd_ref) - set(left)), sorted(gone)))
            if gone:
                ctx.probe('checkpoints removed')
            cwd_ref = left
        else:
            ctx.probe('process exit')
            sub = ctx.path('subtmp')
            os.makedirs(sub, exist_ok=True)
            tail = {'normal': '', 'exception': 'raise ValueError()', 'exit': 'sys.exit(3)',
                    'query': 'ds = nilmtk.DataSet(%r); [m.total_energy() for m in ds.buildings[1].elec.meters]' % os.path.join(data, 'good.h5')}[op[1]]
            r = subprocess.run([sys.executable, '-c', 'import sys; sys.path[:0] = %r; import nilmtk; %s' % ([core.REPO, os.path.join(core.VERIF, 'stubs')], tail)],
                               env=dict(os.environ, TMPDIR=sub), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            ctx.check(r.returncode == {'normal': 0, 'exception': 1, 'exit': 3, 'query': 0}[op[1]], 'process', lambda: '%s: exit %d' % (op[1], r.returncode))
            left = [n for n in os.listdir(sub) if n.startswith('nilmtk')]
            ctx.check(not left, 'temporary-files', lambda: 'a process which ended (%s) left %d file(s) in the temporary directory' % (op[1], len(left)))
        ctx.step(*op)
        invariants(op)
    for s in stores:
        s['s'].close()
        s['open'] = False
    for x in sets:
        if x['open']:
            x['ds'].store.close()
            x['open'] = False
    invariants(['end'])
