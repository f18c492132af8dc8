"""C01: the HDF store as a map of tables, through faults, restarts and crashes."""
import copy
import os
import shutil

import numpy as np
import pandas as pd

import core
import faults
import world as W
from core import Violation

ID = 'C01'
RUNS = {'quick': 640, 'thorough': 12000}
RULE = ('a run is a seeded sequence of 4-16 store operations (write, append, remove, metadata, read, list, extent, '
        'close/reopen, process crash) with up to 3 injected faults; it is non-trivial when it acknowledged at least '
        'two writes and then read after a crash, a reopen or a failed operation; distinct by the sequence of '
        'operations, faults and outcomes')
REAL = ['nilmtk.datastore.HDFDataStore', 'pandas HDFStore', 'PyTables', 'the HDF5 library and its file on disk']
STUB = ['nilm_metadata (import stand-in)', 'process crash: the file as the kernel has it at that instant is what the next process opens']
ASSUME = ['a process crash loses what the HDF5 library has buffered, and nothing that it has written to the kernel; loss of power is not modelled',
          'a crash inside an operation is modelled only up to the first modification of the file, because HDF5 itself does not survive more',
          'tables hold at least two samples in time order']
PROBES = ['crash', 'reopen', 'failed put', 'failed append', 'failed remove', 'failed metadata', 'retry after failure',
          'crash in operation', 'read after crash', 'metadata without data']

BLD = [1, 2]
KEYS = ['/building%d/elec/meter%d' % (b, m) for b in BLD for m in (1, 2, 3)]
COLSETS = [['pa'], ['pa', 'pr'], ['pp', 'v'], ['ea', 'pa', 'v']]


def gen(rng, tier):
    n = rng.randint(4, 16)
    keys = rng.sample(KEYS, rng.randint(1, 4))
    tz = rng.choice(['UTC', 'Europe/London', 'US/Eastern', 'Asia/Kolkata'])
    ops = []
    for i in range(n):
        k = rng.weighted([('put', 4), ('append', 4), ('remove', 1.5), ('meta', 2), ('get', 3), ('load', 2), ('getmeta', 2),
                          ('list', 1), ('extent', 1), ('reopen', 1.2), ('crash', 2), ('missing', .5)])
        op = {'op': k}
        if k in ('put', 'append', 'remove', 'get', 'load', 'extent', 'missing'):
            op['key'] = rng.choice(keys)
        if k in ('put', 'append'):
            op['n'] = rng.weighted([(rng.randint(2, 5), 3), (rng.randint(6, 60), 2), (rng.randint(100, 600), .5)])
            op['cols'] = rng.randrange(len(COLSETS))
            op['v'] = i + 1
            op['step'] = rng.choice([1, 6, 60])
            op['gap'] = rng.choice([0, 0, 3600])
        if k in ('meta', 'getmeta'):
            op['key'] = rng.choice(['/'] + ['/building%d' % b for b in BLD] + keys[:1])
            op['v'] = i + 1
        if k in ('put', 'append', 'remove', 'meta'):
            op['slash'] = rng.chance(.2)
        ops.append(op)
    fl = []
    if rng.chance(.55):
        writers = [i for i, o in enumerate(ops) if o['op'] in ('put', 'append', 'remove', 'meta')]
        for i in rng.some(writers, 1, 3):
            fl.append({'at': i, 'nth': rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 8]), 'kind': rng.choice(['hdf', 'hdf', 'mem', 'intr', 'crash'])})
    return {'tz': tz, 'dtype': rng.choice(['float32', 'float64']), 'ops': ops, 'faults': fl, 'retry': rng.chance(.7)}


SHRINK = ('ops', 'faults')


def valid(s):
    return all(f['at'] < len(s['ops']) for f in s['faults'])


def canon(df):
    return df


def same(a, b):
    """Equal tables: labels, instants and values."""
    if list(map(tuple, a.columns)) != list(map(tuple, b.columns)) or len(a) != len(b):
        return False
    if not len(a):
        return True
    if str(a.index.tz) != str(b.index.tz):
        return False
    return bool((a.index.asi8 == b.index.as_unit(a.index.unit).asi8).all()) and \
        bool(np.array_equal(a.values, b.values, equal_nan=True)) and list(a.dtypes) == list(b.dtypes)


def md_for(key, v):
    if v % 4 == 0:
        return {'name': 'D%d' % v, 'meter_devices': {}} if key == '/' else {}
    if key == '/':
        return {'name': 'D%d' % v, 'timezone': 'Europe/London', 'meter_devices': {'m': {'model': 'm', 'v': [v]}}}
    return {'instance': v, 'elec_meters': {1: {'site_meter': True}, 2: {'submeter_of': 1, 'x': [v, {'y': v}]}}}


class Model:
    def __init__(self):
        self.t = {}        # key -> list of allowed tables (one, except after a failed operation); None = absent
        self.m = {}        # key -> list of allowed metadata
        # after a failed operation: what may be found after a crash, until something else was acknowledged
        self.loose_t = {}
        self.loose_m = {}

    def flushed(self):
        self.loose_t.clear()
        self.loose_m.clear()

    def crashed(self):
        self.t.update(self.loose_t)
        self.m.update(self.loose_m)
        self.flushed()


def run(scn, ctx):
    from nilmtk.datastore import HDFDataStore
    plane = faults.PLANE
    plane.start(ctx)
    path = ctx.path('store.h5')
    n_files = [0]
    model = Model()
    ctx.begin()
    st = HDFDataStore(path, 'w')
    st.close()
    st = HDFDataStore(path, 'a')
    zombies = []
    acked = 0
    dirty = False

    def make(op, after):
        cols = COLSETS[op['cols']]
        t0 = 0
        rows = after is not None and len(after) > 0
        if rows:
            last = after.index[-1]
            t0 = int(last.timestamp()) - W.T0 + op['step'] + op['gap']
        spec = {'t0': t0 if rows else op['v'] * 86400, 'n': op['n'], 'step': op['step'],
                'cols': COLSETS[op['cols']], 'kind': 'uniq', 'vseed': op['v']}
        if after is not None:
            rev = {tuple('' if x is None else x for x in W.COLS[c]): c for c in W.COLS}
            spec['cols'] = [rev[tuple(c)] for c in after.columns]
        return W.frame(spec, scn['tz'], scn['dtype'])

    def read(key, how):
        if how == 'get':
            return st[key]
        parts = list(st.load(key))
        ctx.check(len(parts) == 1, 'load-parts', '%d parts' % len(parts))
        return parts[0]

    def check_key(key, how='get'):
        """What is read is one of the allowed tables; from then on it is the only one."""
        al = model.t.get(key, [None])
        try:
            got = read(key, how)
        except KeyError:
            got = None
        except Exception:
            if how == 'load':      # reading a missing table by stream: any loud error will do
                got = None
            else:
                raise
        if got is not None and not len(got):
            got = None                # an operation that failed may leave an empty table behind
        ok = []
        for a in al:
            if isinstance(a, tuple) and got is None and not len(a[0]):
                a = None
            if a is None or got is None:
                if a is None and got is None:
                    ok.append(a)
            elif isinstance(a, tuple):        # (old, new): old rows and then a prefix of the new ones
                old, new = a
                if len(old) <= len(got) <= len(old) + len(new) and same(got, pd.concat([old, new]).iloc[:len(got)]):
                    ok.append(got)
            elif same(got, a):
                ok.append(a)
        ctx.log('read', key, None if got is None else len(got))
        ctx.check(ok, 'wrong-table', lambda: '%s: read %s; expected %s' % (
            key, 'no table' if got is None else got.to_string(max_rows=6),
            ' or '.join('no table' if a is None else str(a if isinstance(a, tuple) else a.to_string(max_rows=6)) for a in al)))
        model.t[key] = [ok[0]]

    def check_meta(key):
        al = model.m.get(key, [None])
        try:
            got = st.load_metadata(key)
        except (AttributeError, KeyError):
            got = None
        ctx.log('readmeta', key, repr(got))
        ctx.check(any(got == a for a in al), 'wrong-metadata', lambda: '%s: read %r; expected %r' % (key, got, al))
        model.m[key] = [copy.deepcopy(got)]
        if got is not None:
            keep = copy.deepcopy(got)
            got['scribble'] = 1            # the caller may do what he likes with the answer
            for x in got.values():
                if isinstance(x, dict):
                    x['scribble'] = 1
            again = st.load_metadata(key)
            ctx.check(again == keep, 'metadata-shared', lambda: '%s: %r' % (key, again))

    def known_keys():
        return sorted(set(model.t))

    def check_all(why):
        for k in known_keys():
            check_key(k)
        for k in sorted(model.m):
            check_meta(k)
        ctx.probe('read after ' + why)
        if acked >= 2 and why != 'end':
            ctx.nontrivial = True

    def crash():
        nonlocal st, path
        n_files[0] += 1
        new = ctx.path('store%d.h5' % n_files[0])
        shutil.copyfile(path, new)
        zombies.append(st)
        path = new
        ctx.fault('process crash')
        model.crashed()
        st = HDFDataStore(path, 'a')

    ghost_keys = set()
    ghosts = set()          # left behind, empty, by an operation that failed
    for i, op in enumerate(scn['ops']):
        k = op['op']
        key = op.get('key')
        ctx.step(k, key, op.get('n'))
        fl = [f for f in scn['faults'] if f['at'] == i]
        if k in ('put', 'append', 'remove', 'meta'):
            if k in ('append', 'remove'):
                al = model.t.get(key, [None])
                if len(al) > 1 or isinstance(al[0], tuple):
                    check_key(key)
                cur = model.t.get(key, [None])[0]
            if k == 'remove' and cur is None:
                continue
            if k == 'append' and cur is None and key in ghost_keys:
                k = 'put'             # the columns of the empty table that a failure left there are unknown
            if k == 'put':
                val = make(op, None)
                call = lambda: st.put(key[1:] if op.get('slash') else key, val)
                new, mid = [val], [val, (val.iloc[:0], val), None]
            elif k == 'append':
                val = make(op, cur)
                call = lambda: st.append(key[1:] if op.get('slash') else key, val)
                new = [val if cur is None else pd.concat([cur, val])]
                mid = [val, (val.iloc[:0], val)] if cur is None else [(cur, val)]
                if cur is None:
                    mid.append(None)
            elif k == 'remove':
                call = lambda: st.remove(key[1:] if op.get('slash') else key)
                new, mid = [None], [None]
            else:
                val = md_for(key, op['v'])
                if key.count('/') > 1 and model.t.get(key, [None])[0] is None:
                    continue
                if key != '/' and not any(x.startswith(key) for x, a in model.t.items() if a[0] is not None):
                    ctx.probe('metadata without data')
                call = lambda: st.save_metadata(key, val)
                new, mid = [copy.deepcopy(val)], [copy.deepcopy(val)]
            before = copy.deepcopy(val) if k in ('put', 'append', 'meta') else None
            first_write = []
            snap = []
            if any(f['kind'] == 'crash' for f in fl):
                # the file as it is just before the first modification of this operation
                def hook(site, n):
                    if not snap and site in ('hdf.write', 'hdf.create', 'hdf.remove', 'hdf.flush'):
                        n_files[0] += 1
                        p = ctx.path('store%d.h5' % n_files[0])
                        shutil.copyfile(path, p)
                        snap.append(p)
                plane.hook = hook
            plane.arm([{'site': '*', 'nth': f['nth'], 'kind': f['kind']} for f in fl])
            failed = crashed = False
            try:
                call()
            except (core.SimHDFFault, core.SimFault, MemoryError, core.SimInterrupt) as e:
                if not plane.fired:
                    raise
                failed = True
            except core.SimCrash:
                crashed = True
            fired = list(plane.fired)
            plane.disarm()
            plane.hook = None
            if fired and not failed and not crashed:
                # swallowed: legal only if the operation nevertheless did its work
                ctx.log('swallowed')
            if before is not None:
                if k == 'meta':
                    ctx.check(before == val, 'argument-modified', op)
                    val['scribble'] = 2          # the caller's object stays the caller's
                    val.setdefault('elec_meters', {})['scribble'] = 2
                else:
                    ctx.check(same(before, val), 'argument-modified', op)
            d = model.m if k == 'meta' else model.t
            old = d.get(key, [None])
            if crashed:
                zombies.append(st)
                if snap:
                    path = snap[0]
                else:                               # died before it modified anything
                    n_files[0] += 1
                    p = ctx.path('store%d.h5' % n_files[0])
                    shutil.copyfile(path, p)
                    path = p
                ctx.probe('crash in operation')
                ctx.fault('process crash')
                model.crashed()
                st = HDFDataStore(path, 'a')
                check_all('crash')
            elif failed:
                d[key] = list(old) + mid
                if k == 'remove':                   # a removal takes the metadata of the table with it
                    model.m[key] = model.m.get(key, [None]) + [None]
                if k == 'put' and key in model.m:
                    model.m[key] = model.m[key] + [None]
                if k != 'meta':
                    ghosts.add(key.split('/')[3])
                    ghost_keys.add(key)
                # none of it is durable for certain before something else is acknowledged
                if k != 'meta':
                    model.loose_t[key] = model.loose_t.get(key, []) + list(model.t.get(key, [None]))
                model.loose_m[key] = model.loose_m.get(key, []) + list(model.m.get(key, [None]))
                ctx.probe('failed ' + {'meta': 'metadata'}.get(k, k))
                ctx.step('failed')
                check_all('failure')
                if scn['retry'] and k in ('put', 'meta'):
                    if k == 'put':
                        st.put(key, val)
                        model.m.pop(key, None)
                    else:
                        val = copy.deepcopy(before)
                        st.save_metadata(key, val)
                    ctx.probe('retry after failure')
                    d[key] = new
                    acked += 1
                    model.flushed()
            else:
                d[key] = new
                acked += 1
                model.flushed()
                if k in ('remove', 'put'):
                    # the node is made anew, or is gone: metadata attached to this very table goes
                    model.m.pop(key, None)
                    if k == 'put':
                        model.m.pop(key, None)
        elif k in ('get', 'load'):
            check_key(key, k)
        elif k == 'getmeta':
            check_meta(key)
        elif k == 'extent':
            check_key(key)
            cur = model.t[key][0]
            if cur is not None and len(cur):
                tf = st.get_timeframe(key)
                ctx.check(tf.start == cur.index[0] and tf.end == cur.index[-1], 'wrong-extent',
                          lambda: '%s: %s, expected %s - %s' % (key, tf, cur.index[0], cur.index[-1]))
        elif k == 'list':
            for kk in known_keys():
                check_key(kk)
            have = sorted(kk for kk, a in model.t.items() if a[0] is not None)
            for b in BLD:
                below = sorted(kk.split('/')[3] for kk in have if kk.startswith('/building%d/' % b))
                try:
                    got = sorted(st.elements_below_key('/building%d/elec' % b))
                except AttributeError:
                    got = []
                ctx.check(set(below) <= set(got) <= set(below) | ghosts and len(got) == len(set(got)), 'wrong-listing', lambda: '%r, expected %r' % (got, below))
            roots = set(kk.split('/')[1] for kk in have)
            got = set(st.elements_below_key())
            ctx.check(roots <= got, 'wrong-listing', lambda: '%r, expected at least %r' % (got, roots))
        elif k == 'missing':
            for f in (lambda: st['/building9/elec/meter9'], lambda: list(st.load('/building9/elec/meter9')),
                      lambda: st.load_metadata('/building9')):
                try:
                    f()
                except Exception:
                    continue
                raise Violation('missing-key-silent', 'reading what does not exist gave an answer')
        elif k == 'reopen':
            st.close()
            model.flushed()
            st = HDFDataStore(path, 'a')
            ctx.probe('reopen')
            check_all('reopen')
        elif k == 'crash':
            crash()
            ctx.probe('crash')
            check_all('crash')
    ctx.step('end')
    check_all('end')
    crash()
    check_all('crash')
    st.close()
    st = HDFDataStore(path, 'r')
    check_all('reopen')
