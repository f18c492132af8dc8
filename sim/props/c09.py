"""C09: what a group of meters delivers is what its meters deliver, added up."""
import math

import numpy as np

import bld as B
import core
import faults
import streams as S
import world as W
from props.c08 import resample

ID = 'C09'
RUNS = {'quick': 320, 'thorough': 8000}
RULE = ('a run reads groups (all meters, submeters, split mains, groups in groups, groups across buildings) of a generated dataset 2-4 times - added up, as a power series or with one column per meter - with drawn periods, sections, window, '
        'chunk sizes and measurements, some with a failing read, and compares every value with the sum of the resampled samples of the members; non-trivial when at least two members had samples in a part; '
        'distinct by requests, world and faults')
REAL = ['MeterGroup', 'ElecMeter', 'resampling', 'HDFDataStore', 'pandas', 'PyTables', 'HDF5']
STUB = ['nilm_metadata']
ASSUME = ['sections are closed, in order, do not overlap and begin on the grid of the sample period', 'whole hours between the timezone and UTC', 'each part is resampled by itself, so that a gap is filled only within its part']
PROBES = ['several parts', 'sections', 'windowed', 'nested', 'split mains', 'across buildings', 'voltage averaged', 'member without data', 'member silent for a while', 'read fault', 'columns per meter', 'no member has data', 'power series', 'different periods']
SHRINK = ('ops', 'sections', 'gaps', 'meters', 'buildings')


def gen(rng, tier):
    base = rng.choice([1, 5, 6, 10, 60])
    cols = rng.choice([['pa'], ['pa'], ['pa', 'pr'], ['pa', 'v'], ['v', 'pp']])
    nb = rng.choice([1, 1, 1, 2])
    tz = rng.choice(['UTC', 'UTC', 'Europe/London', 'America/New_York'])
    zero = rng.choice([0, 0, 3600, 7606800 - 10 * base])
    blds = []
    for b in range(1, nb + 1):
        ms = []
        for i in range(1, rng.randint(2, 4) + 1):
            step = base * rng.choice([1, 1, 1, 2])
            n = rng.randint(5, 50)
            c = cols if rng.chance(.85) else ['pa'] if 'pa' in cols else cols
            gaps = [[rng.randint(1, n - 1), step * rng.choice([1, 2, 5, 30])] for _ in range(rng.randint(0, 3))]
            m = {'i': i, 'period': step, 'max': step * rng.choice([1, 2, 3]),
                 'data': {'t0': zero + step * rng.choice([0, 0, 0, 3, 10, 60]), 'n': n, 'step': step, 'gaps': gaps, 'jit': 0, 'cols': c, 'kind': rng.choice(['rand', 'onoff']), 'vseed': rng.randint(1, 40), 'level': 100}}
            if i == 1 or (i == 2 and rng.chance(.3)):
                m['site'] = True
            else:
                m['of'] = 1
                m['apps'] = [[B.APPS[i], 1]]
            ms.append(m)
        blds.append({'i': b, 'meters': ms})
    w = {'name': 'SIM', 'tz': tz, 'dtype': rng.choice(['float64', 'float32']), 'buildings': blds}
    allm = [m for b in blds for m in b['meters']]
    top = max(m['period'] for m in allm)
    lo = min(int(W.seconds(m['data'])[0]) for m in allm)
    hi = max(int(W.seconds(m['data'])[-1]) for m in allm)
    win = None
    ops = []
    if rng.chance(.3):
        m = rng.choice(allm)
        s = W.seconds(m['data'])
        a, b = sorted((int(rng.choice(s)), int(rng.choice(s))))
        a -= a % (top * 5)
        if b > a:
            win = [a, b + rng.choice([0, 1, top])]
    for _ in range(rng.randint(2, 4)):
        op = {'g': rng.choice(['all', 'all', 'sub', 'mains', 'nested', 'cross']), 'how': rng.choice(['load', 'load', 'series', 'all', 'frame'])}
        op['period'] = rng.weighted([(None, 3), (top, 1), (top * 2, 1), (top * 5, 1)])
        p = op['period'] or top * 2
        if rng.chance(.4):
            pts = sorted({lo + (rng.randint(-2, max(1, (hi - lo) // p + 2))) * p for _ in range(rng.randint(2, 6))})
            pts = [x - x % (top * 2 if not op['period'] else p) for x in pts]
            pts = sorted(set(pts))
            sec = [[a, b] for a, b in zip(pts, pts[1:])]
            if rng.chance(.5):
                sec = sec[::2]
            if rng.chance(.3) and sec:
                sec[-1][1] += rng.choice([1, top])
            op['sections'] = sec or None
        else:
            op['sections'] = None
        op['chunk'] = rng.choice([None, None, 2, 5, 20]) if op['how'] != 'frame' else None
        op['sel'] = rng.choice([None, {'physical_quantity': 'power'}]) if op['how'] == 'load' else None
        if rng.chance(.1):
            op['fault'] = {'nth': rng.choice([1, 2, 3, 5, 8, 13]), 'site': '*', 'kind': rng.choice(['hdf', 'mem', 'intr', 'eio'])}
        ops.append(op)
    return {'world': w, 'win': win, 'ops': ops}


def valid(s):
    w = s['world']
    if not w['buildings'] or not s['ops']:
        return False
    for b in w['buildings']:
        if not b['meters'] or not any(m.get('site') for m in b['meters']):
            return False
        for m in b['meters']:
            d = m['data']
            if d['n'] < 3 or d['step'] <= 0 or d['t0'] % d['step'] or m['period'] != d['step'] or m['max'] < m['period'] or d['jit'] or 3600 % d['step']:
                return False
    top = max(m['period'] for b in w['buildings'] for m in b['meters'])
    for o in s['ops']:
        p = o['period'] or top * 2
        if (o['period'] is not None and (o['period'] % top or 3600 % o['period'])) or (o['chunk'] is not None and o['chunk'] < 1):
            return False
        if o['sections'] is not None and (not o['sections'] or any(len(x) != 2 or x[0] >= x[1] or x[0] % p for x in o['sections']) or any(b[0] < a[1] for a, b in zip(o['sections'], o['sections'][1:]))):
            return False
    return True


def members(scn, g):
    """-> tree: list of (building, meter spec) or lists"""
    b1 = scn['world']['buildings'][0]
    ms = [(b1['i'], m) for m in b1['meters']]
    if g == 'all':
        return ms
    if g == 'sub':
        return [x for x in ms if not x[1].get('site')]
    if g == 'mains':
        return [x for x in ms if x[1].get('site')]
    if g == 'nested':
        return [[x for x in ms if x[1].get('site')], [x for x in ms if not x[1].get('site')]]
    return [(b['i'], m) for b in scn['world']['buildings'] for m in b['meters'][:2]]


def flat(t):
    out = []
    for x in t:
        out += flat(x) if isinstance(x, list) else [x]
    return out


def extent(tree, win):
    r = []
    for _, m in flat(tree):
        s = W.seconds(m['data'])
        c = S.clip([int(s[0]), int(s[-1])], win)
        if c is not None:
            r.append(c)
    return [min(c[0] for c in r), max(c[1] for c in r)] if r else None


def expect_part(scn, tree, sec, p, cols):
    """-> grid, {column: values} of one part, number of members with samples"""
    start = sec[0] - sec[0] % p
    grid = np.arange(start, sec[1], p)
    acc = {}
    cnt = {c: np.zeros(len(grid)) for c in cols}
    have = 0
    for node in tree:
        vals = {}
        if isinstance(node, list):          # a group in the group: what it delivers itself
            _, vals, h = expect_part(scn, node, sec, p, cols)
            have += h
        else:
            m = node[1]
            d = m['data']
            s = W.seconds(d)
            pos = S.rows_of(s, S.clip(sec, scn['win']))
            if not len(pos):
                continue
            have += 1
            v = W.frame(d, dtype=scn['world']['dtype']).values.astype(float)[pos]
            t, x = resample(s[pos], v, p, 'mean', int(math.ceil(m['max'] / p)))
            for c in cols:
                if c in d['cols']:
                    a = np.full(len(grid), np.nan)
                    for q, y in zip(t, x[:, d['cols'].index(c)]):
                        k = int(q - start) // p
                        if 0 <= k < len(grid):
                            a[k] = y
                    vals[c] = a
        for c, a in vals.items():
            ok = ~np.isnan(a)
            cnt[c] += ok
            if c not in acc:
                acc[c] = np.full(len(grid), np.nan)
            both = np.isnan(acc[c]) & ~ok
            acc[c] = np.nan_to_num(acc[c]) + np.nan_to_num(a)
            acc[c][both] = np.nan
    for c in cols:
        if c not in acc:
            acc[c] = np.full(len(grid), np.nan)
        if c == 'v':
            with np.errstate(all='ignore'):
                acc[c] = acc[c] / cnt[c]
    return grid, acc, have


def run(scn, ctx):
    from nilmtk import MeterGroup
    plane = faults.PLANE
    plane.start(ctx)
    w = scn['world']
    path = ctx.path('d.h5')
    W.write_hdf(w, path)
    allm = [m for b in w['buildings'] for m in b['meters']]
    ctx.data_s = sum(int(W.seconds(m['data'])[-1] - W.seconds(m['data'])[0]) for m in allm)
    tz = w['tz']
    ctx.begin()
    ds = B.open_dataset(path)
    if scn['win'] is not None:
        ds.set_window(*[None if x is None else S.ts(x, tz).tz_localize(None) for x in scn['win']])
        ctx.probe('windowed')

    def meter(b, m):
        return [x for x in ds.buildings[b].elec.all_meters() if x.instance() == m['i']][0]

    def group(g):
        elec = ds.buildings[w['buildings'][0]['i']].elec
        if g == 'all':
            return elec
        if g == 'sub':
            return elec.submeters()
        t = members(scn, g)
        if g == 'nested':
            return MeterGroup([MeterGroup([meter(*x) for x in y]) for y in t if y])
        return MeterGroup([meter(*x) for x in t])

    def read(op, grp, sections):
        kw = {}
        if op['sections'] is not None:
            kw['sections'] = [S.tframe(x, tz) for x in op['sections']]
        if op['chunk'] is not None:
            kw['chunksize'] = op['chunk']
        if op['period'] is not None:
            kw['sample_period'] = op['period']
        kw.update(op['sel'] or {})
        if op['how'] == 'load':
            return list(grp.load(**kw))
        if op['how'] == 'series':
            return list(grp.power_series(**kw))
        if op['how'] == 'all':
            x = grp.power_series_all_data(**kw)
            return [] if x is None else [x]
        return grp.dataframe_of_meters(**kw)

    for op in scn['ops']:
        tree = [x for x in members(scn, op['g']) if x != []]
        ms = flat(tree)
        if not ms:
            continue
        p = op['period'] or max(m['period'] for _, m in ms)
        ext = extent(tree, scn['win'])
        if op['sections'] is None and ext is None:
            ctx.step('nothing', op['g'])
            continue
        if op['how'] == 'frame':
            secs = op['sections'] if op['sections'] is not None else [None]
        else:
            secs = op['sections'] if op['sections'] is not None else [ext]
            if op['sections'] is None and ext[0] % p:
                ctx.step('off the grid', op['g'])
                continue
        if op['how'] in ('series', 'all', 'frame'):     # the best AC type of each member
            if any('pa' not in m['data']['cols'] for _, m in ms) and any('pa' in m['data']['cols'] for _, m in ms):
                continue
            cols = ['pa'] if 'pa' in ms[0][1]['data']['cols'] else ['pp']
        else:
            cols = sorted({c for _, m in ms for c in m['data']['cols'] if not (op['sel'] and c[0] != 'p')})
        if op['sel'] and any(all(c[0] != 'p' for c in m['data']['cols']) for _, m in ms):
            continue
        for attempt in range(3):
            f = op.get('fault')
            plane.arm([dict(f)] if f and attempt == 0 else [])
            try:
                parts = read(op, group(op['g']), secs)
            except (core.SimFault, core.SimHDFFault, core.SimInterrupt, MemoryError):
                if not plane.fired:
                    raise
                plane.disarm()
                ctx.probe('read fault')
                ctx.step('failed', op['g'])
                continue
            except Exception:
                if not plane.fired:
                    raise
                plane.disarm()
                continue
            plane.disarm()
            break
        else:
            ctx.check(False, 'no-progress', repr(op))
        ctx.step(op['g'], op['how'], op['period'], op['sections'], op['chunk'], op['sel'], scn['win'])
        for tag, c in (('nested', op['g'] == 'nested'), ('split mains', op['g'] == 'mains' and len(ms) > 1), ('across buildings', op['g'] == 'cross' and len({b for b, _ in ms}) > 1), ('sections', op['sections']),
                       ('voltage averaged', 'v' in cols and len(ms) > 1), ('different periods', len({m['period'] for _, m in ms}) > 1), ('columns per meter', op['how'] == 'frame'), ('power series', op['how'] in ('series', 'all'))):
            if c:
                ctx.probe(tag)

        def label(c):
            return tuple('' if x is None else x for x in W.COLS[c])

        def compare(t, v, gt, gv, what):
            ctx.check(len(t) == len(gt) and bool((np.asarray(t) == np.asarray(gt)).all()), 'wrong-times', lambda: '%s: %r window %r\ndelivered %s\nexpected  %s' % (what, op, scn['win'], list(t), list(gt)))
            ctx.check(np.allclose(v, gv, rtol=1e-5, atol=1e-3, equal_nan=True), 'wrong-sum', lambda: '%s: %r window %r\ndelivered %s\nexpected  %s' % (
                what, op, scn['win'], list(zip(list(t), np.asarray(v).tolist())), list(zip(list(gt), np.asarray(gv).tolist()))))

        if op['how'] == 'frame':
            got = {}
            for c in parts.columns:
                got[c] = [[int(t), float(v)] for t, v in zip(S.instants(parts) if len(parts) else [], parts[c].values) if not math.isnan(v)]
            n = 0
            if op['g'] == 'nested':       # a column per group: its members added up
                continue
            for b, m in ms:
                want = []
                d = m['data']
                s = W.seconds(d)
                for sec in secs:
                    pos = S.rows_of(s, S.clip(sec if sec is not None else [None, None], scn['win']))
                    if not len(pos):
                        continue
                    v = W.frame(d, dtype=w['dtype']).values.astype(float)[pos][:, [d['cols'].index(cols[0])]]
                    t, x = resample(s[pos], v, p, 'mean', int(math.ceil(m['max'] / p)))
                    want += [[int(q), float(y)] for q, y in zip(t, x[:, 0]) if not math.isnan(y)]
                mine = [v for k, v in got.items() if (k[0], k[1]) == (m['i'], b)]
                mine = mine[0] if mine else []
                n += bool(want)
                ctx.log(m['i'], B.canon(mine, 5))
                ctx.check(len(mine) == len(want) and np.allclose(mine, want, rtol=1e-5), 'wrong-column', lambda: 'meter %d of building %d: %r window %r\ndelivered %r\nexpected  %r' % (m['i'], b, op, scn['win'], mine, want))
            ctx.nontrivial |= n > 1
            continue
        want = []
        for sec in secs:
            if sec is None:
                continue
            dur = p * op['chunk'] if op['chunk'] else 10 ** 12
            a = sec[0]
            while a < sec[1]:
                b = min(a + dur, sec[1])
                want.append(expect_part(scn, tree, [a, b], p, cols))
                a = b
        for _, _, have in want:
            if have > 1:
                ctx.nontrivial = True
            if have == 0:
                ctx.probe('no member has data')
            elif have < len(ms):
                ctx.probe('member without data')
        for g, acc, have in want:
            if have > 1 and any(np.isnan(x).any() for x in acc.values()):
                ctx.probe('member silent for a while')
        if len(want) > 1:
            ctx.probe('several parts')
        if op['how'] == 'load':
            parts = [x for x in parts if len(x)]
            want = [x for x in want if len(x[0])]
            ctx.check(len(parts) == len(want), 'wrong-number-of-parts', lambda: '%r: %d, expected %d' % (op, len(parts), len(want)))
            for i, (x, (g, acc, have)) in enumerate(zip(parts, want)):
                ctx.check(sorted(map(tuple, x.columns)) == sorted(label(c) for c in cols), 'wrong-columns', lambda: '%r: %r' % (op, list(x.columns)))
                t = S.instants(x)
                for c in cols:
                    ctx.log(i, c, B.canon(x[label(c)].values, 5))
                    compare(t, x[label(c)].values.astype(float), g, acc[c], 'part %d, %s' % (i, c))
        else:
            xs = [x for x in parts if len(x)]
            t = np.concatenate([S.instants(x) for x in xs]) if xs else np.zeros(0)
            v = np.concatenate([x.values.astype(float) for x in xs]) if xs else np.zeros(0)
            g = np.concatenate([x[0] for x in want]) if want else np.zeros(0)
            gv = np.concatenate([x[1][cols[0]] for x in want]) if want else np.zeros(0)
            ctx.log(B.canon(v, 5))
            compare(t, v, g, gv, op['how'])
