"""C06: a statistic that comes from the cache is the one that would be computed now."""
import copy
import json

import numpy as np

import bld as B
import core
import faults
import streams as S
import world as W

ID = 'C06'
RUNS = {'quick': 420, 'thorough': 9000}
RULE = ('a run is a seeded history of 4-16 statistics queries (energy, good sections, dropout, group energies and shares) over 1-2 datasets opened in one process, '
        'with drawn sections, AC types, columns and chunk sizes, moves of the window, cleared caches, reopened datasets and failing reads and cache writes; '
        'each answer is compared with that of an empty cache; non-trivial when at least two queries touched statistics of the same meter; distinct by queries, faults and outcomes')
REAL = ['nilmtk statistics, results and cache store', 'ElecMeter', 'MeterGroup', 'HDFDataStore', 'pandas', 'PyTables', 'HDF5']
STUB = ['nilm_metadata']
ASSUME = ['the data do not change while the cache is in use', 'requested sections do not overlap and are closed',
          'rates of dropout are asked for without chunks (their combination over chunks is an approximation)']
PROBES = ['same query again', 'other dataset, same meter number', 'restricted then whole', 'chunked then whole', 'window moved', 'cleared', 'reopened',
          'failed query', 'repeated after failure', 'inclusive then exclusive', 'group query', 'full results']
SHRINK = ('ops', 'sections', 'meters', 'buildings', 'faults')


def gen(rng, tier):
    worlds = []
    for d in range(rng.weighted([(1, 2), (2, 1)])):
        cols = rng.choice([['pa'], ['pa', 'pr'], ['pa', 'pp'], ['pa', 'ea'], ['ca', 'pp'], ['pa', 'v']])
        w = B.gen_world(rng, n_sub=rng.randint(1, 2), n=rng.randint(10, 50), cols=cols, name='DS%d' % (0 if rng.chance(.3) else d), tz=rng.choice(['UTC', 'UTC', 'Europe/London']), t0s=(0, 0, 600))
        worlds.append(w)
    pool = []          # sections to choose from, so that they come again
    for _ in range(rng.randint(1, 3)):
        w = rng.choice(worlds)
        m = rng.choice(w['buildings'][0]['meters'])
        s = W.seconds(m['data'])
        p = S.gen_sections(rng, s, inc=True, opened=False)
        while p is not None and not disjoint(p):
            p = S.gen_sections(rng, s, inc=True, opened=False)
        if p is not None:
            p = sorted(p)
            p = [x[:2] for x in p[:-1]] + [p[-1]]
        pool.append(p)
        if rng.chance(.5):
            pool.append([[int(s[0]), int(s[-1])]])
        if rng.chance(.3):
            k = rng.randrange(len(s))
            pool.append([[int(s[0]), int(s[k])]] if k else None)
        if rng.chance(.3):
            pool.append([[int(s[0]), int(s[-1]), True]])
    ops = []
    for i in range(rng.randint(4, 16)):
        d = rng.randrange(len(worlds))
        ms = [m['i'] for m in worlds[d]['buildings'][0]['meters']]
        k = rng.weighted([('q', 12), ('window', 1.5), ('clear', 1), ('reopen', 1)])
        op = {'op': k, 'd': d}
        if k == 'q':
            op['stat'] = rng.weighted([('energy', 5), ('good', 3), ('dropout', 2), ('genergy', 1), ('share', 1), ('gdropout', .5)])
            op['m'] = rng.choice(ms)
            op['sections'] = rng.choice(pool + [None])
            c = worlds[d]['buildings'][0]['meters'][0]['data']['cols']
            op['sel'] = rng.weighted([(None, 5), ({'ac_type': 'active'}, 1), ({'ac_type': 'best'}, 1), ({'physical_quantity': 'power'}, 2),
                                      ({'columns': [list(W.COLS[rng.choice(c)])]}, 1), ({'ac_type': rng.choice(['reactive', 'apparent'])}, 1)])
            op['chunk'] = rng.choice([None, None, 3, 7, 20]) if op['stat'] in ('energy', 'good', 'genergy') else None
            op['full'] = op['stat'] in ('energy', 'good') and rng.chance(.2)
            if ops and rng.chance(.25):
                prev = [o for o in ops if o['op'] == 'q']
                if prev:
                    op = copy.deepcopy(rng.choice(prev))
                    if rng.chance(.5):
                        op['d'] = d
                        if op['m'] not in ms:
                            op['m'] = ms[0]
                    if rng.chance(.3):
                        op['sel'] = None
            op.pop('fault', None)
            if rng.chance(.12):
                op['fault'] = {'nth': rng.choice([1, 1, 2, 3, 5, 8, 13, 21]), 'site': rng.choice(['*', '*', 'hdf.write', 'hdf.create', 'hdf.flush', 'hdf.read']),
                               'kind': rng.choice(['hdf', 'mem', 'intr', 'enospc'])}
        elif k == 'window':
            m = rng.choice(worlds[d]['buildings'][0]['meters'])
            op['win'] = S.gen_window(rng, W.seconds(m['data']), p=.8)
        elif k == 'clear':
            op['m'] = rng.choice(ms + [0])
        ops.append(op)
    return {'worlds': worlds, 'ops': ops}


def disjoint(p):
    p = sorted(p, key=lambda s: s[0])
    for a, b in zip(p, p[1:]):
        if b[0] < a[1]:
            return False
    return True


def valid(s):
    return s['worlds'] and all(o['d'] < len(s['worlds']) for o in s['ops']) and all(
        o['op'] != 'q' or (o['m'] in [m['i'] for m in s['worlds'][o['d']]['buildings'][0]['meters']] and (o['sections'] is None or (o['sections'] and disjoint(o['sections']) and all(
            x[0] < x[1] for x in o['sections']))) and (o['chunk'] is None or o['chunk'] > 0)) for o in s['ops']) and all(
        m['data']['n'] >= 4 for w in s['worlds'] for m in w['buildings'][0]['meters'])


def close(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def outcome(f):
    """What a caller sees: an answer, or the kind of error."""
    try:
        return ['ok', f()]
    except (core.SimFault, core.SimHDFFault, core.SimInterrupt, MemoryError):
        raise
    except Exception as e:
        import os
        if os.environ.get('SIM_STDERR'):
            import traceback
            traceback.print_exc()
        return ['error', type(e).__name__]


def ask(ds, op):
    elec = ds.buildings[1].elec
    kw = {}
    if op['sections'] is not None:
        kw['sections'] = [S.tframe(x, ds.metadata['timezone']) for x in op['sections']]
    for k, v in (op['sel'] or {}).items():
        kw[k] = [tuple('' if y is None else y for y in x) for x in v] if k == 'columns' else v
    if op['chunk'] is not None:
        kw['chunksize'] = op['chunk']
    st = op['stat']
    meter = [m for m in elec.meters if m.instance() == op['m']][0]

    def series(x):
        return B.canon(x, 15)
    if st == 'energy':
        r = meter.total_energy(full_results=op['full'], **kw)
        return [series(r.combined()), series(r.combined()), series(r.simple())] if op['full'] else series(r)
    if st == 'good':
        r = meter.good_sections(full_results=op['full'], **kw)
        return [series(list(r.combined())), series(list(r.combined()))] if op['full'] else series(list(r))
    if st == 'dropout':
        return series(meter.dropout_rate(**kw))
    if st == 'genergy':
        return series(elec.total_energy(**kw))
    if st == 'share':
        kw.pop('chunksize', None)
        sub = elec.submeters()
        return series(sub.energy_per_meter(per_period=None))
    if st == 'gdropout':
        return series(elec.submeters().dropout_rate(**kw))
    raise ValueError(st)


def run(scn, ctx):
    import nilmtk
    from nilmtk import TmpDataStore, MeterGroup
    plane = faults.PLANE
    plane.start(ctx)
    paths = []
    for d, w in enumerate(scn['worlds']):
        p = ctx.path('d%d.h5' % d)
        W.write_hdf(w, p)
        paths.append(p)
        ctx.data_s += sum(int(W.seconds(m['data'])[-1]) for m in w['buildings'][0]['meters'])
    ctx.begin()
    wins = [None] * len(paths)
    ds = [B.open_dataset(p) for p in paths]

    def window(d, win):
        if win is None:
            d.set_window(None, None)
        else:
            tz = d.metadata['timezone']         # windows are given in local time
            d.set_window(*[None if x is None else S.ts(x, tz).tz_localize(None) for x in win])

    memo = {}

    def fresh(op):
        key = json.dumps([op['d'], wins[op['d']], {k: v for k, v in op.items() if k not in ('fault', 'd')}], sort_keys=True)
        if key not in memo:
            keep = nilmtk.STATS_CACHE, nilmtk.global_meter_group, nilmtk.ElecMeter.meter_devices
            nilmtk.STATS_CACHE, nilmtk.global_meter_group, nilmtk.ElecMeter.meter_devices = TmpDataStore(), MeterGroup(), {}
            try:
                x = B.open_dataset(paths[op['d']])
                window(x, wins[op['d']])
                memo[key] = outcome(lambda: ask(x, op))
                x.store.close()
            finally:
                nilmtk.STATS_CACHE.close()
                nilmtk.STATS_CACHE, nilmtk.global_meter_group, nilmtk.ElecMeter.meter_devices = keep
        else:
            ctx.probe('same query again')
        return memo[key]

    seen = {}
    for i, op in enumerate(scn['ops']):
        k, d = op['op'], op['d']
        if k == 'window':
            wins[d] = op['win']
            window(ds[d], op['win'])
            ctx.step('window', d, op['win'])
            ctx.probe('window moved')
            continue
        if k == 'clear':
            for m in ds[d].buildings[1].elec.meters:
                if op['m'] in (0, m.instance()):
                    m.clear_cache()
            ctx.step('clear', d, op['m'])
            ctx.probe('cleared')
            continue
        if k == 'reopen':
            ds[d].store.close()
            ds[d] = B.open_dataset(paths[d])
            window(ds[d], wins[d])
            ctx.step('reopen', d)
            ctx.probe('reopened')
            continue
        for tag, cond in (('restricted then whole', lambda o: o['sel'] and not op['sel']), ('chunked then whole', lambda o: o['chunk'] and not op['chunk']),
                          ('inclusive then exclusive', lambda o: o['sections'] is None and op['sections'] is not None),
                          ('other dataset, same meter number', lambda o: o['d'] != d)):
            if any(o['stat'] == op['stat'] and o['m'] == op['m'] and cond(o) for o in seen.values()):
                ctx.probe(tag)
        if any(o['m'] == op['m'] for o in seen.values()):
            ctx.nontrivial = True
        seen[i] = op
        if op['full']:
            ctx.probe('full results')
        if op['stat'] in ('genergy', 'share', 'gdropout'):
            ctx.probe('group query')
        want = fresh(op)
        ctx.step('q', d, op['stat'], op['m'], op['sections'], op['sel'], op['chunk'], wins[d])
        for attempt in range(3):
            f = op.get('fault')
            plane.arm([dict(f)] if f and attempt == 0 else [])
            try:
                got = outcome(lambda: ask(ds[d], op))
            except (core.SimFault, core.SimHDFFault, core.SimInterrupt, MemoryError):
                if not plane.fired:
                    raise
                plane.disarm()
                ctx.probe('failed query')
                ctx.step('failed', list(plane.fired))
                continue
            fired = list(plane.fired)
            plane.disarm()
            if attempt:
                ctx.probe('repeated after failure')
            ctx.log(got)
            if fired and got != want:
                ctx.check(got[0] == 'error', 'wrong-answer-after-fault', lambda: '%r: %r, with an empty cache %r' % (op, got, want))
                continue
            ctx.check(close(got, want), 'wrong-statistic', lambda: 'query %d %r\nanswer %r\nwith an empty cache %r' % (i, op, got, want))
            break
        else:
            ctx.check(False, 'no-progress', lambda: 'query %d %r fails although no fault is left' % (i, op))
