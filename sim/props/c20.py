"""C20: derived analyses (switches, correlation, entropy, split, description, frame of meters) follow from the samples."""
import math

import numpy as np
import pandas as pd

import bld as B
import c07
import c08
import core
import faults
import streams as S
import world as W

ID = 'C20'
RUNS = {'quick': 500, 'thorough': 9000}
RULE = ('a run asks 3-7 analyses of one generated building - switching times, simultaneous switches, correlation of meters and of groups, entropy, mutual information, a split for training, a description, a frame of all meters - '
        'with windows set in between, parts of a drawn size and some failing reads, and compares each with a direct computation on the generated samples; '
        'non-trivial when an analysis was limited by a window, came in several parts or met a gap; distinct by requests, world and faults')
REAL = ['Electric, ElecMeter, MeterGroup, Building and DataSet analyses', 'preprocessing nodes', 'HDFDataStore', 'pandas', 'scipy', 'PyTables', 'HDF5']
STUB = ['nilm_metadata']
ASSUME = ['all meters of a building have samples on the grid of one sample period', 'entropy and mutual information of powers which are all different, in one part; mutual information to within the choice whether the neighbour at the very distance counts',
          'frames and correlation with a group in one part', 'a correlation with a group is of the power the group delivers']
PROBES = ['switches', 'together', 'correlation', 'pairwise', 'sum correlation', 'entropy', 'information', 'split', 'describe', 'building', 'data set', 'frame', 'each', 'script', 'in parts', 'windowed', 'read fault',
          'gap', 'several sections', 'split mains', 'nothing in window', 'no variance', 'split between sections']
SHRINK = ('ops', 'meters', 'gaps')


def gen(rng, tier):
    step = rng.choice([1, 6, 10, 60])
    n = rng.randint(10, 70)
    kind = rng.choice(['rand', 'onoff', 'onoff', 'uniq'])
    shared = [[rng.randint(1, n - 1), step * rng.choice([1, 3, 10, 50])] for _ in range(rng.randint(0, 3))] if rng.chance(.6) else None
    cols = rng.choice([['pa'], ['pa'], ['pp'], ['pa', 'pr'], ['pr', 'pp'], ['pa', 'v']])
    w = B.gen_world(rng, n_sub=rng.randint(1, 4), n=n, cols=cols, step=step, tz=rng.choice(['UTC', 'Europe/London', 'America/New_York']), t0s=(0, 0, 0, step * 2),
                    kind=kind, gaps=shared, blds=rng.choice([1, 1, 2]))
    split = rng.chance(.25)
    for b in w['buildings']:
        for m in b['meters']:
            if shared is not None:
                m['data']['gaps'] = [list(x) for x in shared]
                if rng.chance(.5):
                    m['data']['t0'] = 0
            if rng.chance(.5):
                m['max'] = step
            if m.get('apps') and rng.chance(.7):
                m['apps'][0][2:] = [{'on_power_threshold': rng.choice([10, 50, 101, 700])}]
            if rng.chance(.2):
                m['data']['n'] = max(6, n - rng.randint(0, 5))
            if rng.chance(.15):
                m['data']['n'] = max(6, n // 4)
        if split and len(b['meters']) > 2:
            m = b['meters'][1]
            m['site'] = True
            m.pop('of', None)
            m.pop('apps', None)
    ops = []
    for _ in range(rng.randint(3, 7)):
        k = rng.weighted([('switches', 2.5), ('together', 2), ('correlation', 2), ('pairwise', 1), ('sum correlation', 1), ('entropy', 1), ('information', .5), ('split', 2), ('describe', 2), ('building', .5),
                          ('data set', .7), ('frame', 2), ('each', .5), ('script', .8), ('window', 1.2)])
        b = rng.choice(w['buildings'])
        op = {'k': k, 'b': b['i']}
        if k == 'window':
            secs = W.seconds(rng.choice(b['meters'])['data'])
            op['win'] = S.gen_window(rng, secs, p=.85)
            if rng.chance(.25):        # after some of the meters have ended
                op['win'] = [int(max(secs) * rng.choice([.4, .6, .8])), None]
        if k in ('switches', 'correlation', 'entropy', 'information'):
            op['m'] = rng.choice(b['meters'])['i']
            op['o'] = rng.choice(b['meters'])['i']
        if k in ('switches', 'together'):
            op['thr'] = rng.choice([0, 10, 40, 99, 101, 500])
        if k == 'split':
            op['f'] = rng.choice([.5, .5, .25, .1, .9, .75, .33, round(rng.random() * .98 + .01, 3)])
        if k == 'frame':
            op['sp'] = rng.choice([None, None, step * 2, 60])
        if k not in ('window', 'frame', 'pairwise', 'sum correlation', 'entropy', 'information', 'each', 'describe', 'building', 'data set', 'script') and rng.chance(.5):
            op['part'] = rng.choice([2, 3, 5, 7, 20])
        if k != 'window' and rng.chance(.12):
            op['fault'] = {'nth': rng.choice([1, 2, 3, 5, 8, 13, 21]), 'site': '*', 'kind': rng.choice(['hdf', 'mem', 'intr', 'eio'])}
        ops.append(op)
    return {'world': w, 'ops': ops}


def valid(s):
    bs = {b['i']: {m['i']: m for m in b['meters']} for b in s['world']['buildings']}
    if not bs or not s['ops']:
        return False
    for b in bs.values():
        if 1 not in b or all(m.get('site') for m in b.values()) or len({m['data']['step'] for m in b.values()}) != 1:
            return False
        for m in b.values():
            d = m['data']
            if d['n'] < 6 or d['step'] <= 0 or d['t0'] % d['step'] or m['period'] != d['step'] or m['max'] < m['period'] or any(not 0 < x[0] or x[1] % d['step'] for x in d['gaps']):
                return False
    for o in s['ops']:
        if o['b'] not in bs or ('m' in o and (o['m'] not in bs[o['b']] or o['o'] not in bs[o['b']])) or o.get('part', 2) < 2:
            return False
        if o['k'] == 'frame' and o['sp'] is not None and (o['sp'] < max(m['period'] for m in bs[o['b']].values()) or 3600 % o['sp']):
            return False
    return True


# ---------------------------------------------------------------- reference

def power(r):
    """(times, power) of the samples in the window"""
    c = [c for c in ('pa', 'pp', 'pr') if c in r.cols][0]
    pos = S.rows_of(r.secs, S.clip([None, None], r.win))       # a window is half open, what a whole meter delivers is not
    return r.secs[pos], r.v[pos, r.cols.index(c)]


def switches(r, thr):
    t, x = power(r)
    return [int(t[i]) for i in range(1, len(t)) if abs(x[i] - x[i - 1]) > thr]


def on_grid(r, p):
    t, x = power(r)
    if not len(t):
        return {}
    g, v = c08.resample(t, x[:, None], p, 'mean', int(math.ceil(r.m['max'] / p)))
    return {int(a): float(b) for a, b in zip(g, v[:, 0])}


def pearson(a, b):
    both = sorted(t for t in set(a) & set(b) if not math.isnan(a[t]) and not math.isnan(b[t]))
    if len(both) < 2:
        return 'nan'
    x, y = np.array([a[t] for t in both]), np.array([b[t] for t in both])
    x, y = x - x.mean(), y - y.mean()
    d = math.sqrt((x * x).sum() * (y * y).sum())
    if d < 1e-9 * max(1, abs(x).max() ** 2 + abs(y).max() ** 2):
        return None
    return float((x * y).sum() / d)


def digamma(n):
    return -0.5772156649015329 + sum(1.0 / i for i in range(1, n))


def entropy(x, k=3):
    n = len(x)
    d = [sorted(abs(x - v))[k] for v in x]
    return (digamma(n) - digamma(k) + math.log(2) + sum(math.log(v) for v in d) / n) / math.log(2)


def site(m):
    return bool(m.get('site'))


def expect(scn, op, win, inc):
    """-> list of admissible answers, or None"""
    ms = {m['i']: m for m in [b for b in scn['world']['buildings'] if b['i'] == op['b']][0]['meters']}
    rs = {i: c07.Ref(m, win, inc) for i, m in ms.items()}
    k = op['k']
    if k == 'switches':
        return [switches(rs[op['m']], op['thr'])]
    if k == 'together':
        c = {}
        for i, r in rs.items():
            if not site(ms[i]):
                for t in switches(r, op['thr']):
                    c[t] = c.get(t, 0) + 1
        return [{t: n for t, n in c.items() if n > 1}]
    if k == 'correlation':
        p = max(ms[op['m']]['period'], ms[op['o']]['period'])
        if op.get('part') and (op['m'] != op['o'] and (list(rs[op['m']].secs) != list(rs[op['o']].secs)) or ms[op['m']]['max'] != p or ms[op['o']]['max'] != p):
            return None
        if op.get('part'):       # what is filled within a gap depends on where parts end
            t = rs[op['m']].secs
            if len(set(np.diff(t))) > 1:
                return None
        x = pearson(on_grid(rs[op['m']], p), on_grid(rs[op['o']], p))
        return None if x is None else [x]
    if k == 'pairwise':
        out = {}
        for i in rs:
            for j in rs:
                p = max(ms[i]['period'], ms[j]['period'])
                x = pearson(on_grid(rs[i], p), on_grid(rs[j], p))
                if x is None:
                    return None
                out['%d %d' % (i, j)] = x
        return [out]
    if k in ('entropy', 'each'):
        out = {}
        for i in ([op['m']] if k == 'entropy' else sorted(rs)):
            t, x = power(rs[i])
            if len(set(x)) != len(x) or len(x) < 5 or min(np.diff(np.sort(x))) < .01:
                return None
            out[i] = entropy(x)
        return [out[op['m']] if k == 'entropy' else {str(i): v for i, v in out.items()}]
    if k == 'split':
        first = min(i for i in ms if site(ms[i]))
        g = rs[first].runs(None)
        p = max(m['period'] for m in ms.values() if site(m))
        if not g:
            return None
        n = [int((b - a) / p) for a, b in g]
        left = sum(n) * op['f']
        if len(g) == 1:
            return [[g[0][0] + int(left * p)]]
        out = set()
        for eps in (-1e-9, 0, 1e-9):
            rest = left + eps
            for i, x in enumerate(n):
                if rest > x:
                    rest -= x
                else:
                    if abs(rest - x) < 1e-6 and i + 1 < len(g):
                        out.add(g[i + 1][0])
                        out.add(g[i][1])
                    else:
                        out.add(g[i][0] + rest * p)
                    break
        return [sorted(out)]
    if k == 'frame':
        p = op['sp'] or max(m['period'] for m in ms.values())
        cols = {i: on_grid(r, p) for i, r in rs.items()}
        t = sorted({x for c in cols.values() for x in c})
        return [{'t': t, 'c': {i: [c.get(x, float('nan')) for x in t] for i, c in cols.items() if c}}]
    if k == 'script':
        out = {}
        for b in scn['world']['buildings']:
            for m in b['meters']:
                if site(m):
                    continue
                g = on_grid(c07.Ref(m, win, inc), m['period'])
                kind = B.app_type(m['apps'][0][0])
                op2 = {'how': 'acts', 'thr': (m['apps'][0][2:] or [kind])[0].get('on_power_threshold', 10), 'off': kind.get('min_off_duration', 0), 'on': kind.get('min_on_duration', 0), 'border': 1}
                t = np.array(sorted(g), dtype=int)
                acts = c08.derived(op2, t, np.array([g[x] for x in t])) if len(t) else []
                out['/building%d/%s__%d' % (b['i'], m['apps'][0][0].replace(' ', '_'), m['apps'][0][1])] = sorted([a[0][0], 1] for a in acts) + sorted([a[0][-1], 0] for a in acts)
        return [out]
    if k in ('describe', 'building', 'data set'):
        todo = [op['b']] if k != 'data set' else sorted(b['i'] for b in scn['world']['buildings'])
        out = {}
        for b in todo:
            ms = {m['i']: m for m in [x for x in scn['world']['buildings'] if x['i'] == b][0]['meters']}
            rs = {i: c07.Ref(m, win, inc) for i, m in ms.items()}
            d = describe(ms, rs, win)
            if d is None:
                return None
            out.update({'%d %s' % (b, q): v for q, v in d.items()})
        return [out]
    raise ValueError(k)


def describe(ms, rs, win):
    d = {'total_n_meters': len(ms), 'total_n_site_meters': sum(map(site, ms.values()))}
    up = [i for i in ms if site(ms[i])]
    sub = [i for i in ms if not site(ms[i])]
    d['mains_sample_period'] = max(ms[i]['period'] for i in up)
    d['submeter_sample_period'] = max(ms[i]['period'] for i in sub)
    ext = [S.clip([int(r.secs[0]), int(r.secs[-1])], win) for r in rs.values()]
    if any(c is None for c in ext):
        return None
    a, b = min(c[0] for c in ext), max(c[1] for c in ext)
    d['start'], d['end'], d['total_duration'] = a, b, b - a
    if any(not len(power(r)[0]) for r in rs.values()):
        return None
    if len(up) == 1:
        r = rs[up[0]]
        t = float(sum(y - x for x, y in r.runs(None)))
        if not t or b == a:
            return None
        d['mains_uptime'] = t
        d['proportion_uptime'] = t / (b - a)
        e = r.energy(None)
        for ac, v in e.items():
            d['energy ' + ac] = v / (t / 86400)
        v = [c07.share(i, up[0], rs) for i in sub]
        if any(x is None or x == 'nan' for x in v):
            return None
        d['proportion_of_energy_submetered'] = sum(v)
    v = [r.dropout(None, True) for r in rs.values()]
    if any(x is None for x in v):
        return None
    d['drop min'], d['drop mean'], d['drop max'] = min(v), sum(v) / len(v), max(v)
    return d


# ---------------------------------------------------------------- the real thing

def sec(t):
    return int(pd.Timestamp(t).value // 10 ** 9 - W.T0)


def told(s, mains):
    """A description, as numbers"""
    out = {}
    for q in ('total_n_meters', 'total_n_site_meters', 'mains_sample_period', 'submeter_sample_period'):
        out[q] = int(s[q])
    a, b = s['timeframe'].split(', ')
    out['start'], out['end'] = [sec(pd.Timestamp(x.split('=')[1]).tz_convert('UTC')) for x in (a, b)]
    out['total_duration'] = pd.Timedelta(s['total_duration']).total_seconds()
    if mains == 1:
        out['mains_uptime'] = pd.Timedelta(s['mains_uptime']).total_seconds()
        out['proportion_uptime'] = float(s['proportion_uptime'])
        for ac, v in s['average_mains_energy_per_day'].items():
            if not math.isnan(v):
                out['energy ' + ac] = float(v)
        out['proportion_of_energy_submetered'] = float(s['proportion_of_energy_submetered'])
    for x in s['dropout_rates_ignoring_gaps'].split(', '):
        q, v = x.split('=')
        out['drop ' + q] = float(v)
    return out


def ask(ds, op, scn, ctx):
    from nilmtk.datastore import HDFDataStore
    e = ds.buildings[op['b']].elec
    by = {m.instance(): m for m in e.all_meters()}
    k = op['k']
    whole = HDFDataStore.load
    if op.get('part'):
        def load(self, key, *a, **kw):
            kw.setdefault('chunksize', op['part'])
            return whole(self, key, *a, **kw)
        HDFDataStore.load = load
    try:
        if k == 'switches':
            x = by[op['m']].switch_times(op['thr'])
            return [sec(t) for t in x]
        if k == 'together':
            return {sec(t): int(n) for t, n in e.simultaneous_switches(op['thr']).items()}
        if k == 'correlation':
            x = by[op['m']].correlation(by[op['o']])
            return 'nan' if math.isnan(x) else float(x)
        if k == 'pairwise':
            x = e.pairwise_correlation()
            return {'%d %d' % (i.instance, j.instance): 'nan' if math.isnan(x[i][j]) else float(x[i][j]) for i in x.columns for j in x.index}
        if k == 'entropy':
            return float(by[op['m']].entropy())
        if k == 'each':
            return {str(i.instance): float(v) for i, v in e.entropy_per_meter().items()}
        if k == 'split':
            return [sec(e.train_test_split(op['f']))]
        if k == 'frame':
            kw = {} if op['sp'] is None else {'sample_period': op['sp']}
            x = e.dataframe_of_meters(**kw)
            if x.empty:
                return {'t': [], 'c': {}}
            return {'t': [sec(t) for t in x.index], 'c': {c.instance: [float(v) for v in x[c].values] for c in x.columns}}
        if k == 'script':
            f = ctx.path('script.h5')
            ds.get_activity_script(f)
            out = {}
            with pd.HDFStore(f, 'r') as st:
                for key in st.keys():
                    x = st[key]
                    if len(x) and list(x.index) != sorted(x.index):
                        return 'not in order of time'
                    out[key] = sorted([sec(t), 1] for t, v in x.items() if v) + sorted([sec(t), 0] for t, v in x.items() if not v)
            return out
        n = {b['i']: sum(map(site, b['meters'])) for b in scn['world']['buildings']}
        if k == 'data set':
            x = ds.describe()
            return {'%d %s' % (b, q): v for b in x.columns for q, v in told(x[b], n[b]).items()}
        x = e.describe() if k == 'describe' else ds.buildings[op['b']].describe()
        return {'%d %s' % (op['b'], q): v for q, v in told(x, n[op['b']]).items()}
    finally:
        HDFDataStore.load = whole


def close(a, b, tol):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return (math.isnan(a) and math.isnan(b)) or abs(a - b) <= tol * max(1e-3, abs(a), abs(b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k], tol) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    return a == b


def delivered(x):
    return {sec(t): float(v) for p in x.power_series() if not p.empty for t, v in p.items()}


def run(scn, ctx):
    plane = faults.PLANE
    plane.start(ctx)
    w = scn['world']
    path = ctx.path('d.h5')
    W.write_hdf(w, path)
    ctx.data_s = sum(int(W.seconds(m['data'])[-1] - W.seconds(m['data'])[0]) for b in w['buildings'] for m in b['meters'])
    win = None
    ctx.begin()
    ds = B.open_dataset(path)

    def put(d, x):
        d.set_window(*([None if y is None else S.ts(y, w['tz']).tz_localize(None) for y in x] if x is not None else [None, None]))
    if any(m['data']['gaps'] for b in w['buildings'] for m in b['meters']):
        ctx.probe('gap')
    if any(site(m) for b in w['buildings'] for m in b['meters'] if m['i'] != 1):
        ctx.probe('split mains')
    for op in scn['ops']:
        k = op['k']
        if k == 'window':
            win = op['win']
            ctx.step('window', win)
            put(ds, win)
            continue
        if k in ('sum correlation', 'information'):
            # of what the two deliver: asked of a handle of its own
            other = B.open_dataset(path)
            if win is not None:
                put(other, win)
            e = other.buildings[op['b']].elec
            by = {m.instance(): m for m in e.all_meters()}
            try:
                if k == 'information':
                    a, b = delivered(by[op['m']]), delivered(by[op['o']])
                    x, y = list(a.values()), list(b.values())
                    want = None
                    if op['m'] != op['o'] and sorted(a) == sorted(b) and len(a) > 8 and all(len(set(v)) == len(v) and min(np.diff(np.sort(v))) > .01 for v in (x, y)):
                        want = [information(np.array(x), np.array([b[t] for t in a]))]
                else:
                    a, b = e.mains(), e.meters_directly_downstream_of_mains()
                    p = max(m['period'] for m in [q for q in w['buildings'] if q['i'] == op['b']][0]['meters'])
                    a, b = [{sec(t): float(v) for c in q.power_series(sample_period=p) if not c.empty for t, v in c.items()} for q in (a, b)]
                    x = pearson(a, b)
                    want = None if x is None else [x]
            finally:
                other.store.close()
        else:
            want = []
            for inc in (True, False):
                x = expect(scn, op, win, inc)
                if x is None:
                    want = None
                    break
                want += x
        if want is None:
            ctx.step('skip', k)
            continue
        for attempt in range(3):
            f = op.get('fault')
            plane.arm([dict(f)] if f and attempt == 0 else [])
            try:
                if k == 'sum correlation':
                    got = float(ds.buildings[op['b']].elec.correlation_of_sum_of_submeters_with_mains())
                    got = 'nan' if math.isnan(got) else got
                elif k == 'information':
                    by = {m.instance(): m for m in ds.buildings[op['b']].elec.all_meters()}
                    got = float(by[op['m']].mutual_information(by[op['o']]))
                else:
                    got = ask(ds, op, scn, ctx)
            except (core.SimFault, core.SimHDFFault, core.SimInterrupt, MemoryError):
                if not plane.fired:
                    raise
                plane.disarm()
                ctx.probe('read fault')
                ctx.step('failed', k)
                continue
            except Exception:
                if not plane.fired:
                    raise
                plane.disarm()
                continue
            plane.disarm()
            break
        else:
            ctx.check(False, 'no-progress', repr(op))
        ctx.step(k, op['b'], op.get('m'), op.get('o'), op.get('part'), win)
        ctx.log(B.canon(got, 5) if k not in ('information',) else k)
        ctx.probe(k)
        for tag, c in (('in parts', op.get('part')), ('windowed', win is not None), ('nothing in window', isinstance(got, (list, dict, str)) and got in ([], {}, 'nan')), ('split between sections', k == 'split' and len(want[0]) > 1)):
            if c:
                ctx.probe(tag)
        if op.get('part') or win is not None or any(m['data']['gaps'] for b in w['buildings'] if b['i'] == op['b'] for m in b['meters']):
            ctx.nontrivial = True
        if k == 'information':
            ok = want[0][0] - 1e-6 <= got <= want[0][1] + 1e-6
        elif k == 'split':
            ok = any(abs(got[0] - x) <= 1 for q in want for x in q)
        else:
            tol = {'switches': 0, 'together': 0, 'script': 0, 'sum correlation': 1e-3, 'frame': 1e-5}.get(k, 1e-5)
            if k in ('describe', 'building', 'data set'):
                tol = 1e-5
            ok = any(close(got, x, tol) for x in want)
        ctx.check(ok, k, lambda: '%r window %r\nanswer   %r\nexpected %s' % (op, win, got, ' or '.join(sorted({repr(x) for x in want}))))


def information(x, y, k=3):
    """least and most: whether the neighbour at the very distance counts is a matter of rounding"""
    n = len(x)
    tot = [0.0, 0.0]
    for i in range(n):
        dx, dy = abs(x - x[i]), abs(y - y[i])
        eps = sorted(np.maximum(dx, dy))[k]
        for j, e in enumerate((eps + 1e-6, eps - 1e-6)):
            tot[j] += (digamma(max(1, int((dx < e).sum()))) + digamma(max(1, int((dy < e).sum())))) / n
    return [(-t + digamma(k) + digamma(n)) / math.log(2) for t in tot]
