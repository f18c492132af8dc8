"""Raw datasets for the converters, and what the converted dataset has to contain.

A converter here is a pair: the raw files it reads, generated from the scenario in the
layout its documentation describes, and the readings they hold.  Expectations are stated
per channel: which readings, under which building and meter where the layout of the raw
data fixes that, otherwise "in exactly one meter".
"""
import gzip
import io
import os
import shutil

import numpy as np
import pandas as pd
import yaml

T0 = 1388534400
S = 10 ** 9


def vals(ch, k=1):
    r = np.random.RandomState(ch['vseed'])
    return r.randint(0, 4000, (ch['n'], k)) * 0.5


def times(ch):
    """seconds since the epoch, ascending"""
    t = T0 + ch['t0'] + ch['step'] * np.arange(ch['n'])
    for i, extra in ch.get('gaps', []):
        if 0 < i < ch['n']:
            t[i:] += extra
    return t


def rows(ch, k=1):
    """-> rows as they stand in the raw file: [t, v1..vk], with repeats and out of order"""
    out = [[int(t)] + [float(x) for x in v] for t, v in zip(times(ch), vals(ch, k))]
    for i in sorted(set(ch.get('dups', [])), reverse=True):
        if i < len(out):
            out.insert(i + 1, [out[i][0]] + [x + 1.0 for x in out[i][1:]])
    for i, j in ch.get('swaps', []):
        if i < len(out) and j < len(out):
            out[i], out[j] = out[j], out[i]
    return out


def multi(rows_, k=1):
    """{ns: sorted list of value tuples}"""
    d = {}
    for r in rows_:
        d.setdefault(r[0] * S, []).append(tuple(r[1:k + 1]))
    return {t: sorted(v) for t, v in d.items()}


class Table:
    """One converted meter."""

    def __init__(self, df):
        self.cols = [tuple('' if (x is None or x != x or str(x).startswith('Unnamed')) else str(x) for x in c) for c in df.columns]
        idx = pd.DatetimeIndex(df.index)
        if idx.tz is not None:
            idx = idx.tz_convert('UTC').tz_localize(None)
        self.ns = idx.as_unit('ns').asi8
        self.v = df.values.astype('float64')
        self.ascending = bool((np.diff(self.ns) >= 0).all())

    def multi(self, cols=None):
        ix = range(len(self.cols)) if cols is None else [self.cols.index(c) for c in cols]
        ix = list(ix)
        d = {}
        for t, row in zip(self.ns.tolist(), self.v.tolist()):
            if all(row[i] == row[i] for i in ix):
                d.setdefault(t, []).append(tuple(row[i] for i in ix))
        return {t: sorted(v) for t, v in d.items()}

    def blob(self):
        return (tuple(self.cols), self.ns.tobytes(), self.v.tobytes())


def read_back(out, fmt):
    """-> {(building, meter): Table}"""
    res = {}
    if fmt == 'HDF':
        with pd.HDFStore(out, 'r') as st:
            for key in st.keys():
                p = key.strip('/').split('/')
                if len(p) == 3 and p[1] == 'elec':
                    df = st[key]
                    res[int(p[0][8:]), int(p[2][5:])] = Table(df)
    else:
        for b in sorted(os.listdir(out)):
            d = os.path.join(out, b, 'elec')
            if not (b.startswith('building') and os.path.isdir(d)):
                continue
            for f in sorted(os.listdir(d)):
                df = pd.read_csv(os.path.join(d, f), index_col=0, header=[0, 1])
                df.index = pd.to_datetime(df.index, utc=True, format='ISO8601')
                res[int(b[8:]), int(f[5:-4])] = Table(df)
    return res


def stored_metadata(out, fmt):
    """-> (dataset metadata, {building: metadata})"""
    blds = {}
    if fmt == 'HDF':
        with pd.HDFStore(out, 'r') as st:
            ds = getattr(st.root._v_attrs, 'metadata', None)
            for name, node in st.root._v_children.items():
                if name.startswith('building'):
                    md = getattr(node._v_attrs, 'metadata', None)
                    if md is not None:
                        blds[int(name[8:])] = md
    else:
        d = os.path.join(out, 'metadata')
        if not os.path.isfile(os.path.join(d, 'dataset.yaml')):
            return None, {}
        with open(os.path.join(d, 'dataset.yaml')) as f:
            ds = yaml.safe_load(f)
        with open(os.path.join(d, 'meter_devices.yaml')) as f:
            ds['meter_devices'] = yaml.safe_load(f)
        for f in os.listdir(d):
            if f.startswith('building'):
                with open(os.path.join(d, f)) as fh:
                    blds[int(f[8:-5])] = yaml.safe_load(fh)
    return ds, blds


def same(a, b, tol=0):
    """Compare {ns: [tuples]}.  -> None or the first difference"""
    for t in sorted(set(a) | set(b)):
        x, y = a.get(t), b.get(t)
        if x is None:
            return 'reading at %d is not in the raw data: %r' % (t // S, y)
        if y is None:
            return 'reading at %d is missing: %r' % (t // S, x)
        if len(x) != len(y) or not np.allclose(x, y, rtol=max(tol, 1e-6), atol=1e-6):
            return 'at %d: raw %r, converted %r' % (t // S, x, y)
    return None


class Conv:
    name = None
    fmts = ['HDF']
    tz = None
    slow = False
    static = True            # the metadata is in the package
    ordered = True
    module = None

    def gen(self, rng):
        raise NotImplementedError

    def files(self, s):
        raise NotImplementedError

    def expect(self, s):
        """-> {(b, m): (cols, {ns: [tuples]})}"""
        raise NotImplementedError

    def fn(self):
        import importlib
        m = importlib.import_module('nilmtk.dataset_converters.%s.convert_%s' % (self.name, self.name))
        return getattr(m, 'convert_' + self.name)

    def convert(self, ctx, s, raw, out, fmt):
        self.fn()(raw, out, **({} if fmt == 'HDF' else {'format': fmt}))

    def metadata_dir(self):
        import nilmtk
        return os.path.join(os.path.dirname(nilmtk.__file__), 'dataset_converters', self.name, 'metadata')

    def verify(self, ctx, s, tabs, ds, blds):
        exp = self.expect(s)
        ctx.check(set(tabs) == set(exp), 'channels', lambda: '%s: meters %r, expected %r' % (self.name, sorted(tabs), sorted(exp)))
        for k, (cols, want) in sorted(exp.items()):
            t = tabs[k]
            ctx.check(t.cols == list(cols), 'columns', lambda: '%s %r: %r, expected %r' % (self.name, k, t.cols, cols))
            self.ascending(ctx, k, t)
            self.rows(ctx, k, want, t)

    def ascending(self, ctx, k, t):
        if self.ordered:
            ctx.check(t.ascending, 'out-of-order', lambda: '%s %r is not in the order of time' % (self.name, k))

    def rows(self, ctx, k, want, t):
        d = same(want, t.multi())
        ctx.check(d is None, 'readings', lambda: '%s %r: %s' % (self.name, k, d))


def chan(rng, n=None, dups=False, swaps=False, gaps=True, **kw):
    n = rng.randint(1, 12) if n is None else n
    ch = {'n': n, 't0': rng.choice([0, 0, 60, 3600, 86400 * 87]), 'step': rng.choice([1, 3, 6, 60]),
          'vseed': rng.randrange(10 ** 6)}
    if gaps and rng.chance(.3):
        ch['gaps'] = [[rng.randrange(n), rng.choice([1, 100, 5000])]]
    if dups and rng.chance(.4):
        ch['dups'] = [rng.randrange(n) for _ in range(rng.randint(1, 2))]
    if swaps and rng.chance(.4):
        ch['swaps'] = [[rng.randrange(n), rng.randrange(n)] for _ in range(rng.randint(1, 3))]
    ch.update(kw)
    return ch


class Redd(Conv):
    name = 'redd'
    fmts = ['HDF', 'CSV']

    def gen(self, rng):
        out = []
        for b in sorted(rng.some(range(1, 7), 1, 3)):
            for m in sorted(rng.some(range(1, 23), 1, 4)):
                out.append(chan(rng, dups=True, swaps=True, b=b, m=m))
        return {'chans': out, 'extra': rng.chance(.5)}

    def files(self, s):
        f = {}
        for c in s['chans']:
            f['house_%d/channel_%d.dat' % (c['b'], c['m'])] = ''.join('%d %.2f\n' % tuple(r) for r in rows(c))
            if s.get('extra'):
                f['house_%d/labels.dat' % c['b']] = '1 mains\n'
                f['readme.txt'] = 'x'
        return f

    def expect(self, s):
        return {(c['b'], c['m']): ([('power', 'apparent' if c['m'] <= 2 else 'active')], multi(rows(c)))
                for c in s['chans']}


class Ukdale(Conv):
    name = 'ukdale'
    fmts = ['HDF', 'HDF', 'CSV']
    static = False

    def gen(self, rng):
        out, one = [], []
        for b in sorted(rng.some(range(1, 6), 1, 3)):
            ms = sorted(rng.some(range(1, 55), 1, 4))
            for m in ms:
                out.append(chan(rng, dups=True, b=b, m=m, ac=rng.choice(['active', 'apparent']), off=rng.chance(.15)))
            if rng.chance(.5):
                m = rng.randint(1, 54)
                if m not in ms:
                    out.append(chan(rng, dups=True, b=b, m=m, ac='both', off=rng.chance(.15)))
        return {'chans': out}

    def files(self, s):
        f = {}
        devs = {}
        for ac, types in (('active', ['active']), ('apparent', ['apparent']), ('both', ['active', 'apparent'])):
            devs[ac] = {'model': ac, 'sample_period': 6, 'max_sample_period': 120,
                        'measurements': [{'physical_quantity': 'power', 'type': t, 'upper_limit': 50000, 'lower_limit': 0} for t in types]}
            if ac == 'both':
                devs[ac]['measurements'].append({'physical_quantity': 'voltage', 'upper_limit': 300, 'lower_limit': 0})
        f['metadata/meter_devices.yaml'] = yaml.safe_dump(devs)
        f['metadata/dataset.yaml'] = yaml.safe_dump({'name': 'UK-DALE', 'timezone': 'Europe/London'})
        blds = {}
        for c in s['chans']:
            em = {'device_model': c['ac']}
            if c['ac'] == 'both':
                em['site_meter'] = True
            else:
                em['submeter_of'] = 0
            if c.get('off'):
                em['disabled'] = True
            blds.setdefault(c['b'], {})[c['m']] = em
            d = 'house_%d/' % c['b']
            if c['ac'] == 'both':
                f[d + 'mains.dat'] = ''.join('%d %.2f %.2f %.2f\n' % tuple(r) for r in rows(c, 3))
            else:
                f[d + 'channel_%d.dat' % c['m']] = ''.join('%d %.1f\n' % tuple(r) for r in rows(c))
            f[d + 'labels.dat'] = '1 x\n'
        for b, em in blds.items():
            f['metadata/building%d.yaml' % b] = yaml.safe_dump(
                {'instance': b, 'original_name': 'house_%d' % b, 'elec_meters': em, 'appliances': []})
        return f

    def expect(self, s):
        exp = {}
        for c in s['chans']:
            k = 3 if c['ac'] == 'both' else 1
            first = {}
            for r in rows(c, k):
                first.setdefault(r[0], r)
            cols = ([('power', 'active'), ('power', 'apparent'), ('voltage', '')] if k == 3 else [('power', c['ac'])])
            exp[c['b'], c['m']] = (cols, multi(first.values(), k))
        return exp


class Refit(Conv):
    name = 'refit'
    fmts = ['CSV', 'CSV', 'HDF']
    HOUSES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 19, 20, 21]

    def gen(self, rng):
        return {'chans': [chan(rng, n=rng.randint(1, 4), swaps=True) for _ in self.HOUSES], 'clean': rng.chance(.5),
                'issues': rng.chance(.5)}

    def files(self, s):
        f = {}
        for h, c in zip(self.HOUSES, s['chans']):
            head = ['Time', 'Unix', 'Aggregate'] + ['Appliance%d' % i for i in range(1, 10)] + (['Issues'] if s['issues'] else [])
            L = [','.join(head)]
            for r in rows(c, 10):
                L.append(','.join(['x', str(r[0])] + ['%g' % v for v in r[1:]] + (['0'] if s['issues'] else [])))
            f['CLEAN_House%d.csv' % h if s['clean'] else 'House_%d.csv' % h] = '\n'.join(L) + '\n'
        return f

    def expect(self, s):
        exp = {}
        for b, c in enumerate(s['chans'], 1):
            rs = rows(c, 10)
            for m in range(1, 11):
                exp[b, m] = ([('power', 'active')], multi([[r[0], r[m]] for r in rs]))
        return exp


class Greend(Conv):
    name = 'greend'
    DEVS = ['000D6F0002%06d' % i for i in range(1, 7)]

    def gen(self, rng):
        houses = []
        for h in range(rng.randint(1, 2)):
            files = []
            for d in range(rng.randint(1, 4)):
                blocks, t = [], 0
                for _ in range(rng.randint(1, 3)):
                    ch = chan(rng, n=rng.randint(1, 5), swaps=True, gaps=False, t0=86400 * d + t, step=rng.choice([1, 2, 60]))
                    t += ch['n'] * ch['step'] + rng.choice([0, 0, 5]) - rng.choice([0, 0, 0, ch['step']])
                    ch['cols'] = rng.some(range(6), 1, 4)
                    ch['null'] = [[rng.randrange(ch['n']), rng.randrange(4)]] if rng.chance(.3) else []
                    ch['nul0'] = rng.chance(.1)
                    blocks.append(ch)
                files.append({'day': d + 1, 'blocks': blocks})
            houses.append({'b': h, 'files': files})
        return {'houses': houses, 'mp': rng.chance(.7), 'stray': rng.chance(.3)}

    def block(self, ch):
        rs = rows(ch, len(ch['cols']))
        for i, j in ch['null']:
            if i < len(rs) and j < len(ch['cols']):
                rs[i][j + 1] = None
        return rs

    def files(self, s):
        f = {}
        for h in s['houses']:
            for fi in h['files']:
                L = ''
                for ch in fi['blocks']:
                    L += ','.join(['timestamp'] + [self.DEVS[c] for c in ch['cols']]) + '\n'
                    for k, r in enumerate(self.block(ch)):
                        L += ('\0\0' if ch['nul0'] and k == 0 else '') + ','.join(
                            ['%.6f' % r[0]] + ['NULL' if v is None else '%r' % v for v in r[1:]]) + '\n'
                f['building%d/dataset_2014-01-%02d.csv' % (h['b'], fi['day'])] = L
            if s['stray']:
                f['building%d/notes.txt' % h['b']] = 'x'
        return f

    def convert(self, ctx, s, raw, out, fmt):
        self.fn()(raw, out, use_mp=s['mp'])

    def verify(self, ctx, s, tabs, ds, blds):
        for b, h in enumerate(sorted(s['houses'], key=lambda h: h['b']), 1):
            cand = {}                # ns -> list of {col: value}
            used = []
            for fi in h['files']:
                for ch in fi['blocks']:
                    for c in ch['cols']:
                        if c not in used:
                            used.append(c)
                    for r in self.block(ch):
                        cand.setdefault(r[0] * S, []).append(dict(zip(ch['cols'], r[1:])))
            mine = {k: t for k, t in tabs.items() if k[0] == b}
            ctx.check(len(mine) == len(used), 'channels', lambda: 'greend house %d: %d meters, %d devices' % (b, len(mine), len(used)))
            for m, c in enumerate(used, 1):
                t = mine.get((b, m))
                ctx.check(t is not None, 'channels', lambda: 'greend: no meter %d in house %d' % (m, b))
                ctx.check(t.cols == [('power', 'active')], 'columns', lambda: 'greend: %r' % (t.cols,))
                ctx.check(bool((np.diff(t.ns) > 0).all()), 'out-of-order', 'greend %d/%d' % (b, m))
                ctx.check(set(t.ns.tolist()) == set(cand), 'readings',
                          lambda: 'greend %d/%d: times %r, expected %r' % (b, m, (t.ns // S).tolist(), sorted(x // S for x in cand)))
                for ns, v in zip(t.ns.tolist(), t.v[:, 0].tolist()):
                    ok = [x.get(c) for x in cand[ns]]
                    good = any((w is None and v != v) or (w is not None and w == v) for w in ok)
                    ctx.check(good, 'readings', lambda: 'greend house %d, meter %d (device %d of the house by first appearance) at %d: %r, raw %r'
                              % (b, m, c, ns // S, v, ok))
        ctx.check({k[0] for k in tabs} == set(range(1, len(s['houses']) + 1)), 'channels', lambda: 'greend: houses %r' % sorted(tabs))


class Hes(Conv):
    name = 'hes'
    static = False
    CODES = [0, 1, 2, 30, 100, 150, 209, 222, 240, 252]
    GROUPS = ['1a', '1b', '1c', '1d', '2', '3']

    def gen(self, rng):
        houses = rng.sample(range(100000, 100050), rng.randint(1, 3))
        recs = []
        for h in houses:
            for c in rng.some(self.CODES, 1, 5):
                ch = chan(rng, n=rng.randint(1, 6), step=120, gaps=False, h=h, c=c)
                recs.append(ch)
        groups = rng.some(self.GROUPS, 1, 3)
        for ch in recs:
            ch['g'] = rng.choice(groups)
        return {'houses': houses, 'chans': recs, 'mix': rng.randrange(1000) if rng.chance(.7) else 0, 'rows': rng.choice([3, 5, 10, 1000])}

    def files(self, s):
        import random
        f = {'anonhes/ipsos-anonymised-corrected_310713.csv': 'HomeIdentifier,x\n' + ''.join('%d,1\n' % h for h in s['houses'])}
        g = {}
        for ch in s['chans']:
            for r in rows(ch):
                d = pd.Timestamp(r[0], unit='s')
                g.setdefault(ch['g'], []).append((r[0], '2,%d,%d,%s,%g,%s\n' % (
                    ch['h'], ch['c'], d.strftime('%Y-%m-%d'), r[1], d.strftime('%H:%M:%S'))))
        for k, L in g.items():
            if s['mix']:
                random.Random(s['mix']).shuffle(L)
            f['agd-%s/appliance_group_data-%s.csv' % (k, k)] = ''.join(x[1] for x in L)
        return f

    def verify(self, ctx, s, tabs, ds, blds):
        import nilmtk
        look = pd.read_csv(os.path.join(os.path.dirname(nilmtk.__file__), 'dataset_converters', 'hes', 'hes_to_nilmtk_appliance_lookup.csv'))
        names = dict(zip(look.Code, look.Name))
        want = {}
        for ch in s['chans']:
            d = want.setdefault((ch['h'], ch['c']), {})
            for t, v in multi(rows(ch)).items():
                d[t] = sorted(d.get(t, []) + v)
        byname = {md.get('original_name'): b for b, md in blds.items()}
        for h in sorted({c[0] for c in want}):
            ctx.check(h in byname, 'channels', lambda: 'hes: house %d is not in the metadata: %r' % (h, sorted(byname)))
            b = byname[h]
            codes = [c for (x, c) in want if x == h]
            mine = {k[1]: t for k, t in tabs.items() if k[0] == b}
            ctx.check(len(mine) == len(codes), 'channels', lambda: 'hes: house %d has %d channels, converted to %d meters' % (h, len(codes), len(mine)))
            apps = {a['original_name']: a['meters'] for a in blds[b]['appliances']}
            listed = [c for c in codes if c < 208]
            ctx.check(set(apps) == {names[c] for c in listed}, 'metadata',
                      lambda: 'hes: house %d: appliances %r in the metadata, raw data of %r' % (h, sorted(apps), sorted(names[c] for c in listed)))
            left = dict(mine)
            for c in codes:
                if c in listed:
                    m = apps[names[c]][0]
                    ctx.check(m in blds[b]['elec_meters'], 'metadata', lambda: 'hes: meter %r of house %d' % (m, h))
                    t = left.pop(m)
                    d = same({k: [tuple(x * 10 for x in v) for v in vs] for k, vs in want[h, c].items()}, t.multi())
                    ctx.check(d is None, 'readings', lambda: 'hes: house %d, %s: %s' % (h, names[c], d))
            for c in codes:
                if c not in listed:
                    w = {k: [tuple(x * 10 for x in v) for v in vs] for k, vs in want[h, c].items()}
                    hit = [m for m, t in left.items() if same(w, t.multi()) is None]
                    ctx.check(bool(hit), 'readings', lambda: 'hes: no meter of house %d holds the readings of appliance %d' % (h, c))
                    del left[hit[0]]


class Iawe(Conv):
    name = 'iawe'
    slow = True
    HEAD = ['W', 'VAR', 'VA', 'f', 'VLN', 'PF', 'A']
    MAP = {'W': ('power', 'active'), 'VAR': ('power', 'reactive'), 'VA': ('power', 'apparent'), 'f': ('frequency', ''),
           'VLN': ('voltage', ''), 'PF': ('pf', ''), 'A': ('current', '')}

    def gen(self, rng):
        out = []
        for m in range(1, 12):
            c = chan(rng, n=rng.randint(3, 15), dups=True, swaps=True, m=m, t0=0, step=rng.choice([1, 20, 45, 60, 600]))
            c['t0'] = 1373673600 - T0 + rng.choice([0, 30, 86400 * 5 + 17])
            c['cols'] = rng.sample(self.HEAD, rng.randint(1, 4))
            c['na'] = [rng.randrange(c['n'])] if rng.chance(.3) and c['n'] > 3 else []
            out.append(c)
        return {'chans': out}

    def rs(self, c):
        rs = rows(c, len(c['cols']))
        for i in c['na']:
            if i < len(rs):
                rs[i][1] = None
        return rs

    def files(self, s):
        f = {}
        for c in s['chans']:
            L = ','.join(['timestamp'] + c['cols']) + '\n'
            for r in self.rs(c):
                L += ','.join([str(r[0])] + ['\\N' if v is None else '%g' % v for v in r[1:]]) + '\n'
            f['electricity/%d.csv' % c['m']] = L
        return f

    def verify(self, ctx, s, tabs, ds, blds):
        ctx.check(set(tabs) == {(1, c['m']) for c in s['chans']}, 'channels', lambda: 'iawe: %r' % sorted(tabs))
        lo, hi = 1373673600, 1375574400
        for c in s['chans']:
            t = tabs[1, c['m']]
            cols = [self.MAP[x] for x in c['cols']]
            ctx.check(sorted(t.cols) == sorted(cols), 'columns', lambda: 'iawe %d: %r' % (c['m'], t.cols))
            ctx.check(len(t.ns) == (hi - lo) // 60 + 1 and t.ns[0] == lo * S and bool((np.diff(t.ns) == 60 * S).all()),
                      'readings', lambda: 'iawe %d: not one row per minute of the documented period' % c['m'])
            ctx.check(not np.isnan(t.v).any(), 'readings', lambda: 'iawe %d: missing values' % c['m'])
            first = {}
            for r in self.rs(c):
                first.setdefault(r[0], r)
            mins = {}
            for r in first.values():
                if None not in r:
                    mins.setdefault(r[0] // 60 * 60, []).append(r[1:])
            for mi, rs in mins.items():
                if lo <= mi <= hi:
                    got = t.v[(mi - lo) // 60]
                    for j, col in enumerate(cols):
                        w = np.mean([r[j] for r in rs])
                        g = got[t.cols.index(col)]
                        ctx.check(abs(w - g) < 1e-2, 'readings', lambda: 'iawe %d %r at %d: %r, raw mean %r' % (c['m'], col, mi, g, w))
            empty = np.ones(len(t.ns), bool)
            for mi in mins:
                if lo <= mi <= hi:
                    empty[(mi - lo) // 60] = False
            for j, col in enumerate(t.cols):
                if col[0] == 'power':
                    ctx.check(not t.v[empty, j].any(), 'readings', lambda: 'iawe %d: power in a minute without readings' % c['m'])


class Ampds(Conv):
    name = 'ampds'
    HEAD = ['V', 'I', 'f', 'DPF', 'APF', 'P', 'Pt', 'Q', 'Qt', 'S', 'St']
    MAP = {'V': ('voltage', ''), 'I': ('current', ''), 'f': ('frequency', ''), 'DPF': ('power factor', 'real'),
           'APF': ('power factor', 'apparent'), 'P': ('power', 'active'), 'Pt': ('energy', 'active'), 'Q': ('power', 'reactive'),
           'Qt': ('energy', 'reactive'), 'S': ('power', 'apparent'), 'St': ('energy', 'apparent')}

    def gen(self, rng):
        names = ['WHE'] + rng.some(['B1E', 'BME', 'CDE', 'CWE', 'DWE', 'XYZ', 'WZE'], 0, 4)
        return {'chans': [chan(rng, n=rng.randint(2, 12), f=n, step=60) for n in names], 'swp': rng.chance(.3),
                'nan': rng.choice([None, None, 0])}

    def files(self, s):
        f = {}
        for c in s['chans']:
            L = 'TS, ' + ', '.join(self.HEAD) + '\n'
            for i, r in enumerate(rows(c, 11)):
                L += ','.join([str(r[0])] + ['%g' % v if not (s['nan'] == i and j == 3) else '' for j, v in enumerate(r[1:])]) + '\n'
            f[c['f'] + '.csv'] = L
        if s['swp']:
            f['.WHE.csv.swp'] = 'x'
        return f

    def expect(self, s):
        exp = {}
        order = sorted(s['chans'], key=lambda c: (c['f'] != 'WHE', c['f']))
        for m, c in enumerate(order, 1):
            rs = [r for i, r in enumerate(rows(c, 11)) if s['nan'] != i]
            exp[1, m] = ([self.MAP[h] for h in self.HEAD], multi(rs, 11))
        return exp


class Combed(Conv):
    name = 'combed'
    LOADS = [('Academic Block', 'Building Total Mains', '0', 1, 1), ('Academic Block', 'Lifts', '0', 1, 2),
             ('Academic Block', 'Floor Total', '3', 1, 5), ('Academic Block', 'AHU', '5', 1, 11), ('Academic Block', 'Light', '3', 1, 12),
             ('Lecture Block', 'Building Total Mains', '0', 2, 1), ('Lecture Block', 'Floor Total', '2', 2, 4), ('Lecture Block', 'AHU', '3', 2, 7)]

    def gen(self, rng):
        out = []
        for i in sorted(rng.some(range(len(self.LOADS)), 1, 4)):
            n = rng.randint(1, 8)
            a = chan(rng, n=n, load=i)
            out.append({'load': i, 'attrs': [a, chan(rng, n=n, t0=a['t0'], step=a['step']) if rng.chance(.3) else dict(a, vseed=a['vseed'] + 1),
                                             dict(a, vseed=a['vseed'] + 2)]})
        return {'chans': out, 'iiitd': rng.chance(.5)}

    def files(self, s):
        f = {}
        for c in s['chans']:
            b, l, p, _, _ = self.LOADS[c['load']]
            for a, ch in zip(('Power', 'Energy', 'Current'), c['attrs']):
                f[os.path.join('iiitd' if s['iiitd'] else '', b, l, p, a + '.csv')] = ''.join('%d,%g\n' % (r[0] * 1000, r[1]) for r in rows(ch))
        return f

    def expect(self, s):
        return {self.LOADS[c['load']][3:]: c for c in s['chans']}

    def verify(self, ctx, s, tabs, ds, blds):
        exp = self.expect(s)
        ctx.check(set(tabs) == set(exp), 'channels', lambda: 'combed: %r, expected %r' % (sorted(tabs), sorted(exp)))
        for k, c in exp.items():
            t = tabs[k]
            self.ascending(ctx, k, t)
            for col, ch in zip([('power', 'active'), ('energy', 'active'), ('current', '')], c['attrs']):
                ctx.check(col in t.cols, 'columns', lambda: 'combed %r: %r' % (k, t.cols))
                d = same(multi(rows(ch)), t.multi([col]))
                ctx.check(d is None, 'readings', lambda: 'combed %r %r: %s' % (k, col, d))


class Eco(Conv):
    name = 'eco'
    slow = True
    N = 86400

    def gen(self, rng):
        days = rng.sample(['2012-06-01', '2012-06-02', '2012-10-28'], rng.choice([1, 1, 2]))
        plugs = sorted(rng.sample(range(1, 10), 3))
        return {'b': rng.randint(1, 6), 'days': sorted(days), 'plugs': plugs, 'deep': rng.chance(.5), 'tz': rng.choice(['Europe/Zurich', 'GMT']),
                'vseed': rng.randrange(10 ** 6), 'miss': rng.choice([0, 10, 1000]), 'txt': rng.chance(.3), 'swap': rng.chance(.4)}

    def data(self, s, di, what):
        r = np.random.RandomState((s['vseed'] * 31 + di * 7 + what) % (2 ** 31))
        base = r.randint(0, 400, 97) * 0.5
        v = np.tile(base, self.N // 97 + 1)[:self.N].copy()
        v[:3] = [1.5, 2.5, 3.5]
        if s['miss']:
            i = r.randint(0, self.N - s['miss'])
            v[i:i + s['miss']] = -1
        return v

    def files(self, s):
        f = {}
        b = '%02d' % s['b']
        for di, d in enumerate(s['days']):
            ps = [self.data(s, di, 100 + p) for p in (1, 2, 3)]
            cols = {}
            z = ['0'] * self.N
            strs = [z] * 16
            for p in (1, 2, 3):
                v = ps[p - 1]
                strs = list(strs)
                strs[p] = ['%g' % x for x in v]                   # column 1+p (from 1)
                strs[4 + p] = ['%g' % (x / 2) for x in v]         # 5+p: current
                strs[7 + p] = ['230'] * self.N
                strs[12 + p] = ['45'] * self.N
            f['%s_sm_csv/%s/%s.csv' % (b, b, d)] = '\n'.join(map(','.join, zip(*strs))) + '\n'
            for p in s['plugs']:
                pre = '%s_plugs_csv/' % b + (b + '/' if s['deep'] else '')
                f[pre + '%02d/%s.csv' % (p, d)] = '\n'.join('%g' % x for x in self.data(s, di, p)) + '\n'
        if s['txt']:
            f['readme.txt'] = 'x'
        return f

    def convert(self, ctx, s, raw, out, fmt):
        self.fn()(raw, out, s['tz'])

    def verify(self, ctx, s, tabs, ds, blds):
        want = {(s['b'], p) for p in (1, 2, 3)} | {(s['b'], p + 3) for p in s['plugs']}
        ctx.check(set(tabs) == want, 'channels', lambda: 'eco: %r, expected %r' % (sorted(tabs), sorted(want)))
        for k in sorted(want):
            t = tabs[k]
            self.ascending(ctx, k, t)
            ts, vs = [], []
            for di, d in enumerate(s['days']):
                v = self.data(s, di, 100 + k[1] if k[1] <= 3 else k[1] - 3)
                ok = v != -1
                ts.append((pd.Timestamp(d).value + np.arange(self.N) * S)[ok])
                vs.append(v[ok])
            ts, vs = np.concatenate(ts), np.concatenate(vs)
            j = t.cols.index(('power', 'active')) if ('power', 'active') in t.cols else None
            ctx.check(j is not None, 'columns', lambda: 'eco %r: %r' % (k, t.cols))
            ctx.check(len(ts) == len(t.ns) and (ts == t.ns).all(), 'readings', lambda: 'eco %r: %d readings, raw %d' % (k, len(t.ns), len(ts)))
            ctx.check((t.v[:, j] == vs).all(), 'readings', lambda: 'eco %r: values differ' % (k,))
            if k[1] <= 3:
                for col, w in ((('current', ''), vs / 2), (('voltage', ''), vs * 0 + 230), (('phase_angle', ''), vs * 0 + 45), (('power', 'reactive'), vs)):
                    ctx.check(col in t.cols, 'columns', lambda: 'eco %r: %r' % (k, t.cols))
                    ctx.check(np.allclose(t.v[:, t.cols.index(col)], w, rtol=1e-4), 'readings', lambda: 'eco %r %r' % (k, col))


class Dred(Conv):
    name = 'dred'
    fmts = ['HDF', 'CSV']

    def gen(self, rng):
        return {'chans': [chan(rng, swaps=True)]}

    def files(self, s):
        c = s['chans'][0]
        L = 'x\ny\nTimestamp,a\n'
        for r in rows(c, 13):
            L += ','.join([pd.Timestamp(r[0], unit='s').strftime('%Y-%m-%d %H:%M:%S')] + ['%g' % v for v in r[1:]]) + '\n'
        return {'All_data.csv': L}

    def convert(self, ctx, s, raw, out, fmt):
        Conv.convert(self, ctx, s, os.path.join(raw, 'All_data.csv'), out, fmt)

    def expect(self, s):
        rs = rows(s['chans'][0], 13)
        return {(1, m): ([('power', 'apparent')], multi([[r[0], r[m]] for r in rs])) for m in range(1, 14)}


class Smart(Conv):
    name = 'smart'
    fmts = ['HDF', 'CSV']

    def gen(self, rng):
        homes = []
        for h in 'ABC':
            apps = ['App%s%d [kW]' % (h, i) for i in range(rng.randint(2, 6))]
            cut = rng.randint(1, len(apps) - 1)
            ms = [apps[:cut], apps[cut:]]
            n = rng.randint(1, 5)
            years = sorted(rng.sample([2014, 2015, 2016], rng.randint(1, 3)))
            homes.append({'h': h, 'meters': ms, 'years': years, 'n': n, 'vseed': rng.randrange(10 ** 6), 'new': rng.chance(.5),
                          'other': rng.chance(.4)})
        return {'homes': homes, 'rel': rng.chance(.5)}

    def data(self, h, y, mi):
        n = h['n']
        t = int(pd.Timestamp('%d-03-01' % y).timestamp()) + 1800 * np.arange(n)
        r = np.random.RandomState((h['vseed'] + y * 7 + mi) % 2 ** 31)
        v = r.randint(0, 4000, (n, len(h['meters'][mi]))) * 0.5
        use = np.random.RandomState((h['vseed'] + y) % 2 ** 31).randint(0, 4000, n) * 0.5
        return t, v, use

    def files(self, s):
        f = {}
        for h in s['homes']:
            for y in h['years']:
                d = 'Home%s/%d/' % (h['h'], y)
                for mi, apps in enumerate(h['meters']):
                    name = 'Home%s-meter%d' % (h['h'], mi + 2)
                    t, v, use = self.data(h, y, mi)
                    ucol = 'use [kW]' if not h['new'] else 'Usage [kW]'
                    L = ','.join(['Date & Time', ucol, 'gen [kW]', 'Grid [kW]'] + apps) + '\n'
                    for i in range(h['n']):
                        L += ','.join([pd.Timestamp(int(t[i]), unit='s').strftime('%Y-%m-%d %H:%M:%S'), '%g' % use[i], '0', '%g' % use[i]]
                                      + ['%g' % x for x in v[i]]) + '\n'
                    f[d + name + '_%d.csv' % y] = L
                    f[d + name + '.txt'] = name + '\nabout\nperiod: 30 minutes\nend\n'
                if h['other']:
                    f[d + 'Home%s-meter1_%d.csv' % (h['h'], y)] = 'Date & Time,x\n'
                    f[d + 'Home%s-meter1.txt' % h['h']] = 'Home%s-meter1\nabout\nperiod: 1 minute\nend\n' % h['h']
        return f

    def convert(self, ctx, s, raw, out, fmt):
        if s['rel']:
            raw, out = os.path.relpath(raw), os.path.relpath(out)
        Conv.convert(self, ctx, s, raw, out, fmt)

    def verify(self, ctx, s, tabs, ds, blds):
        for b, h in enumerate(s['homes'], 1):
            left = {k[1]: t for k, t in tabs.items() if k[0] == b}
            want = {'use': {}}
            for y in h['years']:
                for mi, apps in enumerate(h['meters']):
                    t, v, use = self.data(h, y, mi)
                    for i, ti in enumerate(t.tolist()):
                        want['use'][ti * S] = [(use[i],)]
                        for j, a in enumerate(apps):
                            want.setdefault(a, {})[ti * S] = [(v[i, j],)]
            ctx.check(len(left) == len(want), 'channels', lambda: 'smart home %s: %d channels, converted to %d meters' % (h['h'], len(want), len(left)))
            for m, t in left.items():
                self.ascending(ctx, (b, m), t)
            ctx.check(1 in left, 'channels', lambda: 'smart: no meter 1 in home %s' % h['h'])
            d = same(want.pop('use'), left.pop(1).multi())
            ctx.check(d is None, 'readings', lambda: 'smart home %s, whole-home: %s' % (h['h'], d))
            for a in sorted(want):
                hit = [m for m, t in left.items() if same(want[a], t.multi()) is None]
                ctx.check(bool(hit), 'readings', lambda: 'smart home %s: no meter holds the readings of %s' % (h['h'], a))
                del left[hit[0]]


class Ideal(Conv):
    name = 'ideal'
    fmts = ['HDF', 'CSV']

    def gen(self, rng):
        out = []
        sid = 100
        for h in rng.sample([61, 62, 63, 65, 73, 90, 105], rng.randint(1, 3)):
            for cat in ['electric-mains'] + ['electric-appliance'] * rng.randint(0, 3) + rng.some(['room', 'temperature'], 0, 1):
                sid += rng.randint(1, 9)
                out.append(chan(rng, swaps=True, h=h, cat=cat, sid='%dc%d' % (sid, sid + 1) if cat == 'electric-mains' else str(sid)))
                sid += 2
        return {'chans': out}

    def files(self, s):
        f = {}
        for c in s['chans']:
            L = ''.join('%s,%g\n' % (pd.Timestamp(r[0], unit='s').strftime('%Y-%m-%d %H:%M:%S'), r[1]) for r in rows(c))
            d = 'household_sensordata' if c['cat'] == 'electric-mains' else 'rooms_appliance_sensordata'
            buf = io.BytesIO()
            with gzip.GzipFile(fileobj=buf, mode='wb', mtime=0) as g:
                g.write(L.encode())
            f['%s/home%d_kitchen%d_sensor%s_%s_sub.csv.gz' % (d, c['h'], c['h'] + 1000, c['sid'], c['cat'])] = buf.getvalue()
        for d in ('household_sensordata', 'rooms_appliance_sensordata'):
            f[d + '/readme.txt'] = 'x'
        return f

    def expect(self, s):
        exp = {}
        both = {c['h'] for c in s['chans'] if c['cat'] == 'electric-appliance'}
        for c in s['chans']:
            if c['h'] in both and c['cat'].startswith('electric'):
                exp[c['h'], int(c['sid'].split('c')[0])] = ([('power', 'active' if c['cat'] == 'electric-appliance' else 'apparent')], multi(rows(c)))
        return exp


class Hipe(Conv):
    name = 'hipe'
    fmts = ['HDF', 'CSV']
    MACH = ['MainTerminal', 'ChipPress', 'ChipSaw', 'HighTemperatureOven', 'PickAndPlaceUnit', 'ScreenPrinter', 'SolderingOven',
            'VacuumOven', 'VacuumPump1', 'VacuumPump2', 'WashingMachine']

    def gen(self, rng):
        return {'chans': [chan(rng, swaps=True, neg=rng.chance(.2)) for _ in self.MACH]}

    def files(self, s):
        f = {}
        for m, c in zip(self.MACH, s['chans']):
            L = 'SensorDateTime,Phase,P_kW\n'
            for r in rows(c):
                L += '%s,1,%g\n' % (pd.Timestamp(r[0], unit='s', tz='UTC').tz_convert('Europe/Berlin').isoformat(), r[1] * (-1 if c['neg'] else 1))
            f['%s_PhaseCount_2_geq_2017-10-23_lt_2017-10-30.csv' % m] = L
        return f

    def convert(self, ctx, s, raw, out, fmt):
        # the converter reads its metadata from the directory it is started in
        if not os.path.isdir('metadata'):
            shutil.copytree(self.metadata_dir(), 'metadata')
        Conv.convert(self, ctx, s, raw, out, fmt)

    def expect(self, s):
        return {(1, m): ([('power', 'apparent' if m < 2 else 'active')], multi([[r[0], r[1] * 1000] for r in rows(c)]))
                for m, c in enumerate(s['chans'], 1)}


class Dataport(Conv):
    name = 'dataport'
    static = False
    COLS = ['air1', 'bedroom1', 'drye1', 'refrigerator1', 'kitchen1', 'kitchenapp1', 'icemaker1']

    def fn(self):
        from nilmtk.dataset_converters.dataport.csv_converter import convert_dataport
        return convert_dataport

    def gen(self, rng):
        files, t = [], 0
        ids = rng.sample([26, 59, 661, 2335], rng.randint(1, 3))
        for fi in range(rng.randint(1, 3)):
            parts = []
            for b in rng.some(ids, 1):
                ch = chan(rng, n=rng.randint(1, 6), gaps=False, t0=fi * 86400, step=60, b=b)
                ch['has'] = sorted(rng.some(range(len(self.COLS)), 0, 4))
                ch['solar'] = False
                parts.append(ch)
            files.append(parts)
        for b in ids:
            if rng.chance(.3):
                for parts in files:
                    for ch in parts:
                        if ch['b'] == b:
                            ch['solar'] = True
        return {'files': files, 'ids': ids, 'bad': rng.chance(.4), 'mix': rng.randrange(1000) if rng.chance(.5) else 0, 'rows': rng.choice([2, 3, 7, 1000])}

    def files(self, s):
        import random
        f = {}
        L = 'dataid,building_type,city,state,house_construction_year,egauge_1s_data_availability,grid\nx,x,x,x,x,x,x\n'
        for b in s['ids']:
            L += '%d,Single,Austin,Texas,1990,99%%,yes\n' % b
        if s['bad']:
            L += '7777,Single,Austin,Texas,1990,20%,yes\n'
        f['metadata.csv'] = L
        for i, parts in enumerate(s['files'], 1):
            lines = []
            for ch in parts + ([dict(parts[0], b=7777)] if s['bad'] else []):
                for r in rows(ch, 2 + len(self.COLS)):
                    row = {'grid': r[1], 'solar': r[2] if ch['solar'] else ''}
                    for j, c in enumerate(self.COLS):
                        row[c] = r[3 + j] if j in ch['has'] else ''
                    lines.append(','.join([str(ch['b']), pd.Timestamp(r[0], unit='s').strftime('%Y-%m-%d %H:%M:%S') + '+00']
                                          + [str(row[c]) for c in ['grid', 'solar'] + self.COLS]) + '\n')
            if s['mix']:
                random.Random(s['mix'] + i).shuffle(lines)
            f['1s_data_austin_file%d.csv' % i] = ','.join(['dataid', 'localminute', 'grid', 'solar'] + self.COLS) + '\n' + ''.join(lines)
        return f

    def convert(self, ctx, s, raw, out, fmt):
        names = [os.path.join(raw, '1s_data_austin_file%d.csv' % i) for i in range(len(s['files']), 0, -1)]
        self.fn()(names, os.path.join(raw, 'metadata.csv'), out, s['rows'])

    def verify(self, ctx, s, tabs, ds, blds):
        byname = {md.get('original_name'): b for b, md in blds.items()}
        here = sorted({ch['b'] for p in s['files'] for ch in p})
        ctx.check(sorted(byname) == here, 'channels', lambda: 'dataport: buildings %r, expected %r' % (sorted(byname), here))
        for h in here:
            b = byname[h]
            md = blds[b]
            mine = {k[1]: t for k, t in tabs.items() if k[0] == b}
            want = {}
            for p in s['files']:
                for ch in p:
                    if ch['b'] != h:
                        continue
                    for r in rows(ch, 2 + len(self.COLS)):
                        want.setdefault('use', {})[r[0] * S] = [((r[1] + (r[2] if ch['solar'] else 0)) * 1000,)]
                        for j in ch['has']:
                            if self.COLS[j] != 'icemaker1':
                                want.setdefault(self.COLS[j], {})[r[0] * S] = [(r[3 + j] * 1000,)]
            where = {}
            for a in md['appliances']:
                ctx.check(a['original_name'] not in where and len(a['meters']) == 1, 'metadata',
                          lambda: 'dataport: %s is listed twice in building %d' % (a['original_name'], b))
                where[a['original_name']] = a['meters'][0]
            site = [m for m, e in md['elec_meters'].items() if e.get('site_meter')]
            ctx.check(len(site) == 1, 'metadata', lambda: 'dataport: building %d has site meters %r' % (b, site))
            where['use'] = site[0]
            ctx.check(set(where) == set(want), 'channels', lambda: 'dataport building %d: %r, raw %r' % (h, sorted(where), sorted(want)))
            ctx.check(sorted(where.values()) == sorted(mine) == sorted(md['elec_meters']), 'metadata',
                      lambda: 'dataport building %d: meters with data %r, in the metadata %r, of appliances %r'
                      % (h, sorted(mine), sorted(md['elec_meters']), where))
            for n in sorted(want):
                t = mine[where[n]]
                self.ascending(ctx, (b, where[n]), t)
                d = same(want[n], t.multi(), 1e-5)
                ctx.check(d is None, 'readings', lambda: 'dataport building %d, %s: %s' % (h, n, d))


class Caxe(Conv):
    name = 'caxe'

    def gen(self, rng):
        return {'chans': [chan(rng, n=rng.randint(1, 9), gaps=False, swaps=True, t0=rng.choice([0, 60, 86400]), step=60)]}

    def files(self, s):
        return {'in.csv': ''.join(','.join([pd.Timestamp(r[0], unit='s', tz='UTC').isoformat()] + ['%g' % v for v in r[1:]]) + '\n'
                                  for r in rows(s['chans'][0], 6))}

    def convert(self, ctx, s, raw, out, fmt):
        # it writes test.h5, and reads its metadata, in the directory it is started in
        if not os.path.isdir('metadata'):
            shutil.copytree(self.metadata_dir(), 'metadata')
        self.fn()(os.path.join(raw, 'in.csv'))
        os.replace('test.h5', out)

    def expect(self, s):
        cols = [('power', 'reactive'), ('power', 'apparent'), ('current', ''), ('frequency', ''), ('voltage', ''), ('power', 'active')]
        return {(1, 1): (cols, multi(rows(s['chans'][0], 6), 6))}


ALL = {c.name: c for c in [k() for k in (Redd, Ukdale, Refit, Greend, Hes, Iawe, Ampds, Combed, Eco, Dred, Smart, Ideal, Hipe, Dataport, Caxe)]}
