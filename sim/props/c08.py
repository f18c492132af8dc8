"""C08: what a meter delivers - raw, clipped, resampled, as power series - does not depend on how it is read."""
import math

import numpy as np
import pandas as pd

import bld as B
import core
import faults
import streams as S
import world as W

ID = 'C08'
RUNS = {'quick': 600, 'thorough': 12000}
RULE = ('a run reads one meter of a generated dataset 3-6 times - as frames, series, whole power series or on/off states; raw, clipped, mapped by a function or resampled; all measurements or some; '
        'by sections, window and chunk size - some reads with a failing disk, and compares every value with a direct computation; non-trivial when a read came in several parts or from several sections; '
        'distinct by requests, world and faults')
REAL = ['ElecMeter.load and power series', 'preprocessing nodes', 'HDFDataStore and CSVDataStore', 'pandas', 'PyTables', 'HDF5']
STUB = ['nilm_metadata']
ASSUME = ['samples in time order; sections closed, in order and not overlapping', 'a meter that is resampled in several parts has samples on the grid of its own sample period and no blank readings',
          'whole hours between the timezone and UTC']
PROBES = ['several parts', 'sections', 'windowed', 'resampled', 'resampled in parts', 'filled gap', 'unfilled gap', 'clip', 'clip by device', 'one limit', 'function', 'all data', 'on/off', 'read fault', 'csv', 'blank reading', 'clock change', 'sum of types', 'how', 'acts', 'hist', 'vampire']
SHRINK = ('ops', 'sections', 'gaps', 'nans')


def gen(rng, tier):
    cols = rng.choice([['pa'], ['pa', 'pr'], ['pa', 'pp'], ['pa', 'v'], ['pp', 'pr', 'v'], ['pa', 'ea']])
    step = rng.choice([1, 5, 6, 10, 60, 60])
    aligned = rng.chance(.7)
    csv = rng.chance(.2)
    tz = rng.choice(['UTC', 'UTC', 'Europe/London', 'America/New_York'])
    t0 = rng.choice([0, 0, 600, 7606800 - 20 * step, 5 * step])
    n = rng.randint(6, 90)
    data = {'t0': t0 if aligned else t0 + rng.randint(0, 50), 'n': n, 'step': step, 'cols': cols, 'kind': rng.choice(['rand', 'onoff']), 'vseed': rng.randint(1, 30), 'level': rng.choice([20, 100, 1500]),
            'gaps': [[rng.randint(1, n - 1), step * rng.choice([1, 1, 2, 3, 10, 40])] for _ in range(rng.randint(0, 4))],
            'jit': 0 if aligned or step < 4 else rng.randint(1, 10 ** 6)}
    blank = not csv and rng.chance(.2)
    if blank:
        data['nans'] = rng.some(range(n), 0, 5)
    m = {'i': 1, 'site': True, 'period': step, 'max': step * rng.choice([1, 2, 3, 5]), 'data': data}
    if rng.chance(.4):
        m['hi'], m['lo'] = rng.choice([(50, 0), (500, 10), (1000, 0), (300, None), (None, 20), (None, None)])
    secs = W.seconds(data)
    win = S.gen_window(rng, secs, p=.3)
    ops = []
    for _ in range(rng.randint(3, 6)):
        if rng.chance(.2):
            op = {'how': rng.choice(['acts', 'acts', 'hist', 'vampire']), 'chunk': None, 'sections': None, 'pre': None, 'sel': None, 'rs': 'own' if aligned and not blank else step, 'thr': rng.choice([10, 50, 101, 900]),
                  'off': rng.choice([0, 0, step, 3 * step, 20 * step]), 'on': rng.choice([0, 0, step, 2 * step, 4 * step]), 'border': rng.choice([0, 1, 1, 2])}
            if op['rs'] != 'own' and 3600 % step:
                op['rs'] = 60
            if op['how'] == 'hist':
                op['rs'], op['rk'] = 60, {'how': 'max'}
            if op['how'] == 'vampire':
                op['rs'] = None
                op['chunk'] = rng.choice([None, 2, 5, 20]) if not csv else None
            ops.append(op)
            continue
        op = {'how': rng.choice(['load', 'load', 'series', 'all', 'all', 'on']), 'chunk': rng.choice([None, 2, 3, 5, 7, 20, 1000])}
        op['sections'] = S.gen_sections(rng, secs, inc=False, opened=not csv and rng.chance(.3))
        if op['sections'] is not None:
            p = sorted(op['sections'], key=lambda x: -10 ** 9 if x[0] is None else x[0])
            if any(a[1] is None or b[0] is None or b[0] < a[1] for a, b in zip(p, p[1:])):
                p = None
            op['sections'] = p
        op['pre'] = rng.weighted([(None, 3), ('clip', 1), ('device', 1), ('double', 1), ('low', .4), ('high', .4)])
        op['sel'] = rng.weighted([(None, 3), ({'physical_quantity': 'power'}, 1), ({'ac_type': 'best'}, 1)])
        if op['how'] != 'load':
            op['sel'] = rng.weighted([(None, 4), ({'ac_type': None}, 1)])
        r = rng.random()
        if r < .25 and aligned and not blank:
            op['rs'] = 'own'
        elif r < .5:
            op['rs'] = step * rng.choice([1, 2, 3, 5, 10])
            if 3600 % op['rs'] and op['rs'] % 3600:
                op['rs'] = 60
            op['chunk'] = None
            if rng.chance(.3):
                op['rk'] = rng.choice([{'how': 'max'}, {'limit': 1}, {'limit': 3}, {'how': 'min', 'limit': 2}])
        else:
            op['rs'] = None
        if csv and op['rs'] == 'own':
            op['chunk'] = None
        if rng.chance(.12):
            op['fault'] = {'nth': rng.choice([1, 2, 3, 5, 8]), 'site': 'fs.read' if csv else '*', 'kind': rng.choice(['eio', 'eio'] if csv else ['hdf', 'mem', 'intr', 'eio'])}
        ops.append(op)
    return {'world': {'name': 'SIM', 'tz': tz, 'dtype': rng.choice(['float64', 'float64', 'float32']), 'buildings': [{'i': 1, 'meters': [m]}]}, 'csv': csv, 'win': win, 'ops': ops, 'iobuf': 256}


def valid(s):
    ms = s['world']['buildings'][0]['meters']
    if len(ms) != 1 or not s['ops']:
        return False
    d = ms[0]['data']
    for o in s['ops']:
        if o['chunk'] is not None and o['chunk'] < 1:
            return False
        p = o['sections']
        if p is not None and (not p or any(len(x) != 2 or (None not in x and x[0] >= x[1]) for x in p) or any(a[1] is None or b[0] is None or b[0] < a[1] for a, b in zip(p, p[1:]))):
            return False
        r = d['step'] if o['rs'] == 'own' else o['rs']
        if r is not None and (r <= 0 or (3600 % r and r % 3600)):
            return False
        if o['rs'] == 'own' and (d['t0'] % d['step'] or d.get('nans') or d['jit']):
            return False
        if o['rs'] is not None and o['rs'] != 'own' and o['chunk'] is not None:
            return False
    return d['n'] >= 4 and d['step'] > 0 and ms[0]['period'] == d['step'] and ms[0]['max'] >= d['step']


def resample(t, v, p, how, limit):
    """(times, values) of the bins; independent of pandas."""
    b = (t // p) * p
    grid = np.arange(b[0], b[-1] + 1, p)
    out = np.full((len(grid), v.shape[1]), np.nan)
    for j in range(v.shape[1]):
        for i, g in enumerate(grid):
            x = v[b == g, j]
            x = x[~np.isnan(x)]
            if len(x):
                out[i, j] = {'mean': x.mean, 'max': x.max, 'min': x.min}[how]()
        run, last = 0, np.nan
        for i in range(len(grid)):
            if np.isnan(out[i, j]):
                run += 1
                if run <= limit:
                    out[i, j] = last
            else:
                run, last = 0, out[i, j]
    return grid, out


def derived(op, t, x):
    """Activations, histogram or the smallest power, from the (resampled) power series of a section."""
    if op['how'] == 'vampire':
        return [float(np.nanmin(x))]
    on = x >= op['thr']                 # NaN: off
    if op['how'] == 'hist':
        h = [0.0] * 60
        if len(t) >= 5:
            for s, o in zip(t, on):
                h[int(s % 3600) // 60] += bool(o)
        return h
    runs, cur = [], None                # [first sample that is on, first that is off again]
    for i in range(1, len(x)):
        if on[i] and not on[i - 1]:
            cur = i
        elif on[i - 1] and not on[i] and cur is not None:
            runs.append([cur, i])
            cur = None
    merged = []
    for r in runs:
        if merged and op['off'] > 0 and t[r[0]] - t[merged[-1][1]] < op['off']:
            merged[-1][1] = r[1]
        else:
            merged.append(list(r))
    out = []
    for a, b in merged:
        if t[b] - t[a] < op['on']:
            continue
        a, b = max(0, a - 1 - op['border']), b + op['border']
        if not np.isnan(x[a:b]).any():
            out.append([t[a:b].tolist(), x[a:b].tolist()])
    return out


def near(a, b, tol):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(near(x, y, tol) for x, y in zip(a, b))
    return abs(a - b) <= tol * max(1, abs(b))


def expect(scn, op, ctx):
    """-> [(times, values)] per section that has samples, and the labels of the columns"""
    m = scn['world']['buildings'][0]['meters'][0]
    d = m['data']
    secs = W.seconds(d)
    v = W.frame(d, dtype=scn['world']['dtype']).values.astype(float)
    cols = list(d['cols'])
    if op['how'] == 'load':
        pick = cols
        if op['sel']:
            if 'physical_quantity' in op['sel']:
                pick = [c for c in cols if c[0] == 'p']
            else:
                pick = [[c for c in ('pa', 'pp', 'pr') if c in cols][0]] + [c for c in cols if c == 'ea']
    else:
        pw = [c for c in ('pa', 'pp', 'pr') if c in cols]
        pick = pw if op['sel'] else pw[:1]
        if op['how'] == 'vampire' and np.isnan(v[S.rows_of(secs, S.clip([None, None], scn['win']))]).all():
            return None, None
    v = v[:, [cols.index(c) for c in pick]]
    if op['pre'] == 'clip':
        v = np.clip(v, 30, 700)
    elif op['pre'] in ('low', 'high'):       # the other limit is that of the device, if it has one
        v = np.clip(v, 30 if op['pre'] == 'low' else W.limits(m)[0], 700 if op['pre'] == 'high' else W.limits(m)[1])
    elif op['pre'] == 'device':
        v = np.clip(v, *W.limits(m))
    elif op['pre'] == 'double':
        v = v * 2
    out = []
    for s in (op['sections'] if op['sections'] is not None else [[None, None]]):
        pos = S.rows_of(secs, S.clip(s, scn['win']))
        if not len(pos):
            continue
        t, x = secs[pos], v[pos]
        if op['rs'] is not None:
            p = d['step'] if op['rs'] == 'own' else op['rs']
            rk = op.get('rk') or {}
            lim = rk.get('limit', int(math.ceil(m['max'] / p)))
            n = len(t)
            t, x = resample(t, x, p, rk.get('how', 'mean'), lim)
            if np.isnan(x).any():
                ctx.probe('unfilled gap')
            if len(t) > n:
                ctx.probe('filled gap')
        if op['how'] != 'load':
            x = x.sum(axis=1, keepdims=True)
        if op['how'] in ('acts', 'hist', 'vampire'):
            x = derived(op, t, x[:, 0])
            t = np.zeros(len(x))
        if op['how'] == 'on':
            x = (x >= 50).astype(float)
        out.append((t, x))
    return out, pick


def run(scn, ctx):
    from nilmtk.preprocessing import Clip, Apply
    plane = faults.PLANE
    plane.start(ctx)
    w = scn['world']
    path = ctx.path('d') if scn['csv'] else ctx.path('d.h5')
    (W.write_csv if scn['csv'] else W.write_hdf)(w, path)
    m0 = w['buildings'][0]['meters'][0]
    d = m0['data']
    secs = W.seconds(d)
    ctx.data_s = int(secs[-1] - secs[0])
    tz = w['tz']
    ctx.begin()
    ds = B.open_dataset(path, 'CSV' if scn['csv'] else 'HDF')
    if scn['win'] is not None:
        ds.set_window(*[None if x is None else S.ts(x, tz).tz_localize(None) for x in scn['win']])
        ctx.probe('windowed')
    meter = ds.buildings[1].elec.meters[0]
    for tag, c in (('csv', scn['csv']), ('blank reading', d.get('nans')), ('clock change', tz == 'Europe/London' and d['t0'] > 10 ** 6)):
        if c:
            ctx.probe(tag)

    def read(op):
        kw = {}
        if op['sections'] is not None:
            kw['sections'] = [S.tframe(x, tz) for x in op['sections']]
        if op['chunk'] is not None:
            kw['chunksize'] = op['chunk']
        if op['rs'] is not None:
            if op['rs'] == 'own':
                kw['resample'] = True
            else:
                kw['sample_period'] = op['rs']
            if op.get('rk'):
                kw['resample_kwargs'] = dict(op['rk'])
        kw.update(op['sel'] or {})
        if op['pre'] == 'clip':
            c = Clip()
            c.lower, c.upper = 30, 700
            kw['preprocessing'] = [c]
        elif op['pre'] in ('low', 'high'):
            c = Clip()
            c.lower, c.upper = (30, None) if op['pre'] == 'low' else (None, 700)
            kw['preprocessing'] = [c]
        elif op['pre'] == 'device':
            kw['preprocessing'] = [Clip()]
        elif op['pre'] == 'double':
            kw['preprocessing'] = [Apply(func=lambda df: df * 2)]
        h = op['how']
        if h == 'load':
            return list(meter.load(**kw))
        if h == 'series':
            return list(meter.power_series(**kw))
        if h == 'all':
            x = meter.power_series_all_data(**kw)
            return [] if x is None else [x]
        if h == 'acts':
            if op['rs'] != 'own':
                kw['sample_period'] = op['rs']
            kw.pop('resample', None)
            return meter.get_activations(min_off_duration=op['off'], min_on_duration=op['on'], border=op['border'], on_power_threshold=op['thr'], **kw)
        if h == 'hist':
            kw.pop('sample_period', None)
            kw.pop('resample_kwargs', None)
            return meter.activity_histogram(period='h', bin_duration='min', on_power_threshold=op['thr'], **kw)
        if h == 'vampire':
            return meter.vampire_power(**kw)
        return list(meter.when_on(on_power_threshold=50, **kw))

    tol = 1e-9 if w['dtype'] == 'float64' else 1e-4
    for k, op in enumerate(scn['ops']):
        want, cols = expect(scn, op, ctx)
        if want is None:
            continue
        for attempt in range(3):
            f = op.get('fault')
            plane.arm([dict(f)] if f and attempt == 0 else [])
            try:
                parts = read(op)
            except (core.SimFault, core.SimHDFFault, core.SimInterrupt, MemoryError):
                if not plane.fired:
                    raise
                plane.disarm()
                ctx.probe('read fault')
                ctx.step('failed', op['how'])
                continue
            except Exception:
                if not plane.fired:
                    raise
                plane.disarm()
                ctx.probe('read fault')
                continue
            plane.disarm()
            break
        else:
            ctx.check(False, 'no-progress', repr(op))
        ctx.step(op['how'], op['chunk'], op['sections'], op['pre'], op['sel'], op['rs'], op.get('rk'), scn['win'], len(parts) if isinstance(parts, list) else 0)
        if op['how'] in ('acts', 'hist', 'vampire'):
            ctx.probe(op['how'])
            if op['how'] == 'acts':
                got = [[S.instants(x).tolist(), x.values.astype(float).tolist()] for x in parts]
            elif op['how'] == 'hist':
                got = [float(x) for x in parts]
            else:
                got = [float(parts)]
            want = [y for t, x in want for y in x]
            ctx.log(B.canon(got, 5))
            if op['how'] == 'hist' and not want:
                want = [0.0] * 60
            ctx.check(near(got, want, tol), 'wrong-' + op['how'], lambda: '%r window %r\ndelivered %r\nexpected  %r' % (op, scn['win'], got, want))
            continue
        got_t, got_v = [], []
        for i, x in enumerate(p for p in parts if len(p)):
            t = S.instants(x)
            if op['how'] == 'load':
                ctx.check(sorted(map(tuple, x.columns)) == sorted(tuple('' if y is None else y for y in W.COLS[c]) for c in cols), 'wrong-columns', lambda: '%r: %r' % (op, list(x.columns)))
                v = np.column_stack([x[tuple('' if y is None else y for y in W.COLS[c])].values for c in cols]).astype(float)
            else:
                v = x.values.astype(float).reshape(-1, 1)
            if got_t and op['how'] != 'all' and op['chunk'] is not None and t[0] == got_t[-1][-1]:
                same = np.array_equal(v[0], got_v[-1][-1], equal_nan=True)
                ctx.check(same, 'repeated-row-differs', lambda: '%r: part %d repeats the row before it with other values' % (op, i))
                t, v = t[1:], v[1:]
            if len(t):
                got_t.append(t)
                got_v.append(v)
        if len([p for p in parts if len(p)]) > 1 and op['how'] != 'all':
            ctx.probe('several parts')
            ctx.nontrivial = True
            if op['rs'] is not None and op['chunk']:
                ctx.probe('resampled in parts')
        if op['sections']:
            ctx.probe('sections')
            ctx.nontrivial = True
        for tag, c in (('resampled', op['rs'] is not None), ('clip', op['pre'] == 'clip'), ('clip by device', op['pre'] == 'device'), ('one limit', op['pre'] in ('low', 'high') or (op['pre'] == 'device' and None in (m0.get('hi', 1), m0.get('lo', 1)))), ('function', op['pre'] == 'double'), ('all data', op['how'] == 'all'),
                       ('on/off', op['how'] == 'on'), ('sum of types', op['how'] != 'load' and op['sel'] and len(cols) > 1), ('how', op.get('rk'))):
            if c:
                ctx.probe(tag)
        a_t = np.concatenate(got_t) if got_t else np.zeros(0)
        a_v = np.concatenate(got_v) if got_v else np.zeros((0, 1))
        if op['how'] == 'all' and op['rs'] is not None:     # bins of adjoining sections may coincide: the later is left out
            w2, last = [], None
            for t, v in want:
                if last is not None and t[0] <= last:
                    t, v = t[1:], v[1:]
                if len(t):
                    w2.append((t, v))
                    last = t[-1]
            want = w2
        b_t = np.concatenate([t for t, _ in want]) if want else np.zeros(0)
        b_v = np.concatenate([v for _, v in want]) if want else np.zeros((0, 1))
        ctx.log(B.canon(a_t.tolist()), B.canon(a_v.tolist(), 5))
        ctx.check(len(a_t) == len(b_t) and bool((a_t == b_t).all()), 'wrong-times', lambda: '%r window %r\ndelivered %s\nexpected  %s' % (op, scn['win'], a_t.tolist(), b_t.tolist()))
        ctx.check(np.allclose(a_v, b_v, rtol=tol, atol=tol, equal_nan=True), 'wrong-values', lambda: '%r window %r\ndelivered %s\nexpected  %s' % (
            op, scn['win'], list(zip(a_t.tolist(), a_v.tolist())), list(zip(b_t.tolist(), b_v.tolist()))))
