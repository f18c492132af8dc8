"""C03: the CSV store as a map of tables and as a source of streams."""
import copy
import os

import numpy as np
import pandas as pd

import core
import faults
import streams as S
import world as W
from core import Violation

ID = 'C03'
RUNS = {'quick': 640, 'thorough': 12000}
RULE = ('a run is a seeded sequence of 3-14 operations on a CSV store (write, append, remove, metadata, whole and streamed reads with '
        'drawn chunk size, sections, window, columns and look ahead, listing, extent, reopen) with torn writes, full disk, failing reads '
        'and process crashes; non-trivial when at least two tables or versions were written and read back by stream; '
        'distinct by operations, faults and outcomes')
REAL = ['nilmtk.datastore.CSVDataStore', 'pandas read_csv and to_csv', 'PyYAML', 'files on disk']
STUB = ['nilm_metadata (its YAML file loader)', 'the file layer: open/read/write pass through a shim that can tear, fail or drop writes']
ASSUME = ['a process crash loses what Python has buffered, nothing that was passed to the kernel',
          'samples are in time order; no sample is blank in all columns (pandas reads a blank first line as the name of the index)',
          'values are compared in the precision in which they were written']
PROBES = ['torn put', 'torn append', 'torn metadata', 'crash in operation', 'read fault', 'several parts', 'look ahead',
          'append to existing', 'daylight saving change', 'retry after failure', 'voltage column', 'window']
KEYS = ['/building%d/elec/meter%d' % (b, m) for b in (1, 2) for m in (1, 2, 12)]
COLSETS = [['pa'], ['pa', 'pr'], ['pa', 'v'], ['pp', 'ea', 'v']]
SHRINK = ('ops', 'sections')


def gen(rng, tier):
    keys = rng.sample(KEYS, rng.randint(1, 3))
    tz = rng.choice(['UTC', 'Europe/London', 'US/Eastern', 'Asia/Kolkata'])
    ops = []
    have = {}
    faulty = rng.chance(.5)
    for i in range(rng.randint(3, 14)):
        k = rng.weighted([('put', 4), ('append', 3), ('remove', 1), ('meta', 1.5), ('get', 2), ('load', 5), ('getmeta', 1.5),
                          ('list', 1), ('extent', 1), ('reopen', 1)])
        if i == 0:
            k = 'put'
        op = {'op': k}
        if k in ('put', 'append', 'remove', 'get', 'load', 'extent'):
            op['key'] = rng.choice(keys) if k == 'put' or not have else rng.choice(sorted(have))
            op['slash'] = rng.chance(.85)
        if k in ('put', 'append'):
            op['s'] = {'n': rng.choice([1, 2, 3, rng.randint(4, 30), rng.randint(4, 30), rng.randint(30, 120)]), 'step': rng.choice([1, 6, 60, 1800]),
                       'cols': rng.randrange(len(COLSETS)), 'v': i + 1, 'gap': rng.choice([0, 0, 7, 3600]),
                       'name': rng.chance(.2), 'f': rng.chance(.3)}
            # half of the time close to a change of the clocks (2014-03-30 01:00 UTC)
            op['s']['t0'] = rng.choice([0, 3600 * 5, 7606800 - rng.randint(0, 4000), 5900000])
            have[op['key']] = 1
        if k == 'load':
            op['u'] = [rng.random() for _ in range(12)]
            op['chunk'] = rng.choice([None, 1, 2, 3, 5, 8, 16, 33, 100])
            op['la'] = rng.choice([0, 0, 1, 4])
            op['cols'] = rng.chance(.3)
            op['win'] = rng.chance(.4)
            op['secs'] = rng.choice([None, None, 'split', 'apart', 'open'])
        if k in ('meta', 'getmeta'):
            op['key'] = rng.choice(['/', '/building1', '/building2', 'building1'])
            op['v'] = i + 1
        if faulty and k in ('put', 'append', 'meta') and rng.chance(.35):
            op['fault'] = {'site': rng.choice(['fs.write', 'fs.write', 'fs.write', 'fs.open']), 'nth': rng.choice([1, 1, 2, 3, 5]),
                           'kind': rng.choice(['eio', 'enospc', 'crash', 'crash'])}
        if faulty and k in ('get', 'load', 'extent', 'getmeta') and rng.chance(.25):
            op['fault'] = {'site': rng.choice(['fs.read', 'fs.read', 'fs.open']), 'nth': rng.choice([1, 2, 3, 5, 8]), 'kind': rng.choice(['eio', 'eio', 'intr'])}
        ops.append(op)
    return {'tz': tz, 'dtype': rng.choice(['float32', 'float64']), 'ops': ops, 'retry': rng.chance(.7), 'iobuf': rng.choice([64, 256, 1024]),
            'cut': rng.choice([0, 10, 50, 90]), 'dirseed': rng.randint(1, 10 ** 6)}


def valid(s):
    return all('s' not in o or o['s']['n'] >= 1 for o in s['ops']) and all(o.get('chunk') is None or o['chunk'] > 0 for o in s['ops'])


def md_for(key, v):
    if key == '/':
        if v % 4 == 0:
            return {'name': 'D%d' % v, 'meter_devices': {}}
        if v % 4 == 1:
            return {'name': 'Stra\xdfe %d' % v, 'none': None, 'num': 1.5, 'meter_devices': {'k': {'measurements': [{'physical_quantity': 'power', 'type': 'active'}]}}}
        return {'name': 'D%d' % v, 'timezone': 'Europe/London', 'long': 'x' * 300, 'meter_devices': {'m': {'model': 'm', 'v': [v]}, 'k': {'z': 'y' * 200}}}
    b = int(key.strip('/').replace('building', ''))
    if v % 4 == 0:
        return {'instance': b, 'elec_meters': {}}
    return {'instance': b, 'text': 'y' * 400, 'n': v, 'elec_meters': {
        i: {'site_meter': i == 1, 'data_location': '/building%d/elec/meter%d' % (b, i)} for i in (1, 2)}}


def table_eq(got, want):
    return (list(map(tuple, got.columns)) == list(map(tuple, want.columns)) and len(got) == len(want)
            and bool((S.instants(got) == S.instants(want)).all()) and np.array_equal(got.values.astype(want.values.dtype), want.values))


INJ = (core.SimFault, core.SimInterrupt)


def run(scn, ctx):
    from nilmtk.datastore import CSVDataStore
    from nilmtk import TimeFrame
    plane = faults.PLANE
    plane.start(ctx)
    ctx.begin()
    root = ctx.path('csv')
    st = CSVDataStore(root)
    tabs, torn = {}, {}          # key -> table; key -> samples that must still lead the table, or None
    meta, torn_meta = {}, set()
    written = 0

    def make(op, after):
        s = op['s']
        spec = {'t0': s['t0'], 'n': s['n'], 'step': s['step'], 'cols': COLSETS[s['cols']], 'kind': 'uniq', 'vseed': s['v'], 'gaps': [[2, s['gap']]]}
        if after is not None:
            rev = {tuple('' if x is None else x for x in W.COLS[c]): c for c in W.COLS}
            spec['cols'] = [rev[tuple(c)] for c in after.columns]
            spec['t0'] = int(S.instants(after)[-1]) + s['step'] + s['gap']
        df = W.frame(spec, scn['tz'], scn['dtype'])
        if s['f']:
            df = df + np.array(0.25, dtype=scn['dtype'])
        if s['name']:
            df.index.name = 'datetime'
        if any(c == 'v' for c in spec['cols']):
            ctx.probe('voltage column')
        if len({t.utcoffset() for t in df.index}) > 1:
            ctx.probe('daylight saving change')
        return df

    def check_table(key):
        if key in torn:
            lead = torn[key]
            try:
                got = st[key]
            except Exception:
                return
            if lead is not None and len(lead):
                n = len(lead)
                ctx.check(len(got) >= n and table_eq(got.iloc[:n], lead), 'earlier-samples-damaged', lambda: '%s\n%s' % (key, S.show(got)))
            return
        want = tabs.get(key)
        try:
            got = st[key]
        except KeyError:
            got = None
        if want is None or got is None:
            ctx.check(want is None and got is None, 'wrong-table', lambda: '%s: %s, expected %s' % (
                key, 'no table' if got is None else S.show(got), 'no table' if want is None else S.show(want)))
            return
        ctx.check(table_eq(got, want), 'wrong-table', lambda: '%s:\n%s\nexpected\n%s' % (key, S.show(got), S.show(want)))
        ctx.log('read', key, len(got))

    def check_meta(key):
        if key in torn_meta:
            return
        want = meta.get(key)
        if want is None:
            return
        got = st.load_metadata(key)
        ctx.check(got == want, 'wrong-metadata', lambda: '%s: %r expected %r' % (key, got, want))
        got['scribble'] = {}
        ctx.log('meta', key)

    def check_all():
        for k in sorted(set(tabs) | set(torn)):
            check_table(k)
        for k in sorted(meta):
            check_meta(k)

    def faulted(op):
        f = op.get('fault')
        plane.arm([f] if f else [])

    for i, op in enumerate(scn['ops']):
        k = op['op']
        key = op.get('key')
        ctx.step(k, key, op.get('s'), op.get('fault'))
        arg = key if key is None or op.get('slash', True) or key == '/' else key[1:]
        mkey = None if key is None else ('/' + key.strip('/'))
        if k in ('put', 'append', 'meta'):
            if k == 'append' and key in torn:
                k = 'put'
            if k == 'meta':
                val = md_for(mkey, op['v'])
                call = lambda: st.save_metadata(arg, val)
                keep = copy.deepcopy(val)
            else:
                cur = tabs.get(key) if k == 'append' else None
                val = make(op, cur)
                keep = val.copy(deep=True)
                call = (lambda: st.append(arg, val)) if k == 'append' else (lambda: st.put(arg, val))
                new = val if cur is None else pd.concat([cur, val])
                if cur is not None:
                    ctx.probe('append to existing')
            faulted(op)
            failed = crashed = False
            try:
                call()
            except INJ:
                if not plane.fired:
                    raise
                failed = True
            except core.SimCrash:
                failed = crashed = True
            fired = list(plane.fired)
            if crashed:
                # the dead process's objects flush into nothing
                import gc
                gc.collect()
                ctx.probe('crash in operation')
            plane.restart()
            if k == 'meta':
                ctx.check(val == keep, 'argument-modified', '')
            else:
                ctx.check(table_eq(val, keep), 'argument-modified', '')
            if crashed:
                st = CSVDataStore(root)
            if failed:
                ctx.step('failed')
                ctx.probe('torn ' + {'meta': 'metadata'}.get(k, k))
                if k == 'meta':
                    torn_meta.add(mkey)
                else:
                    torn[key] = cur if k == 'append' else None
                    tabs.pop(key, None)
                check_all()
                if scn['retry']:
                    if k == 'meta':
                        st.save_metadata(arg, val)
                        torn_meta.discard(mkey)
                        meta[mkey] = keep
                    else:
                        st.put(arg, new)
                        torn.pop(key, None)
                        tabs[key] = new
                    ctx.probe('retry after failure')
                    check_all()
            else:
                if k == 'meta':
                    torn_meta.discard(mkey)
                    meta[mkey] = keep
                else:
                    torn.pop(key, None)
                    tabs[key] = new
                    written += 1
        elif k == 'remove':
            if key in tabs:
                st.remove(arg)
                del tabs[key]
                check_all()
        elif k == 'reopen':
            st.close()
            st = CSVDataStore(root)
            check_all()
        elif k == 'list':
            # what is on the disk, read without nilmtk
            have = {}
            for d, _, fs in os.walk(root):
                for f in fs:
                    p = os.path.relpath(os.path.join(d, f), root).split(os.sep)
                    if p[0].startswith('building'):
                        have.setdefault(p[0], set()).add(f[:-4])
            for b in sorted(have):
                got = st.elements_below_key('/%s/elec' % b)
                ctx.check(sorted(got) == sorted(have[b]), 'wrong-listing', lambda: '%r expected %r' % (got, have[b]))
            got = st.elements_below_key()
            ctx.check(set(have) <= set(got) and len(set(got)) == len(got), 'wrong-listing', lambda: '%r expected %r' % (got, sorted(have)))
            live = {(x.split('/')[1], x.split('/')[3]) for x in tabs}
            ctx.check(live <= {(b, m) for b in have for m in have[b]}, 'wrong-layout', lambda: '%r expected %r' % (have, live))
        elif k in ('get', 'extent', 'getmeta'):
            faulted(op)
            try:
                if k == 'get':
                    check_table(key)
                elif k == 'getmeta':
                    check_meta(mkey)
                elif key in tabs and len(tabs[key]) > 1:
                    secs = S.instants(tabs[key])
                    tf = st.get_timeframe(arg)
                    ctx.check(tf.start == S.ts(int(secs[0])) and tf.end == S.ts(int(secs[-1])), 'wrong-extent',
                              lambda: '%s, expected %s to %s' % (tf, S.ts(int(secs[0])), S.ts(int(secs[-1]))))
            except INJ:
                if not plane.fired:
                    raise
                ctx.probe('read fault')
            plane.restart()
            if op.get('fault'):
                check_all()
        elif k == 'load':
            if key not in tabs:
                continue
            df = tabs[key]
            secs = S.instants(df)
            req = request(op, secs)
            ctx.step('request', req)
            st.window = S.tframe(req['win'], scn['tz']) if req['win'] else TimeFrame()
            kw = {}
            if req['sections'] is not None:
                kw['sections'] = [S.tframe(x, scn['tz']) for x in req['sections']]
            if op['chunk'] is not None:
                kw['chunksize'] = op['chunk']
            cols = None
            if op['cols']:
                cols = [tuple(df.columns[0])]
                kw['columns'] = [(a, b or None) for a, b in cols]
            elif op['la']:
                kw['n_look_ahead_rows'] = op['la']
                ctx.probe('look ahead')
            if req['win']:
                ctx.probe('window')
            for attempt in range(2):
                chk = S.StreamCheck(df, secs, req['sections'], req['win'], columns=cols, look_ahead=0 if op['cols'] else op['la'],
                                    chunksize=op['chunk'], empties=False, check_tf=False, la_cols=False)
                if attempt == 0:
                    faulted(op)
                else:
                    plane.restart()
                try:
                    for part in st.load(arg, **kw):
                        if len(part):
                            tf = part.timeframe
                            ctx.check(tf.start <= part.index[0] and (tf.end is None or tf.end >= part.index[-1]), 'wrong-timeframe', lambda: tf)
                        chk.feed(part)
                    chk.finish()
                    if chk.n_parts > 1:
                        ctx.probe('several parts')
                        if written >= 2:
                            ctx.nontrivial = True
                    break
                except INJ:
                    if not plane.fired:
                        raise
                    ctx.probe('read fault')
                    ctx.step('failed after', chk.n_parts)
            plane.restart()
            st.window = TimeFrame()
    check_all()
    st = CSVDataStore(root)
    check_all()


def request(op, secs):
    rng = core.Rng(core.derive(tuple(op['u'])))
    win = S.gen_window(rng, secs, 1.0) if op['win'] else None
    if op['secs'] is None:
        sec = None
    else:
        sec = S.gen_sections(rng, secs, inc=True, opened=op['secs'] == 'open')
        sec = S.unambiguous(secs, sec, win)
    return {'win': win, 'sections': sec}
