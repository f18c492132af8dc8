"""C19: a disaggregation written to a data store is complete, aligned with the mains, and a data set of its own."""
import copy
import itertools
import math
import os

import numpy as np
import pandas as pd

import bld as B
import c07
import core
import faults
import streams as S
import world as W
from c08 import resample

ID = 'C19'
RUNS = {'quick': 600, 'thorough': 9000}
RULE = ('a run trains 1-2 methods (CO, FHMM, Hart85 of nilmtk.legacy) on one window of a generated data set and disaggregates mains of drawn windows into new data stores, with exported and imported models and failing reads and writes in between; '
        'every table and the metadata of each output are compared with a direct computation; non-trivial when an output has several good sections or follows a fault or an import; distinct by histories, worlds and faults')
REAL = ['nilmtk.legacy.disaggregate', 'nilmtk.feature_detectors', 'ElecMeter and MeterGroup', 'HDFDataStore and CSVDataStore', 'DataSet on the output', 'scikit-learn', 'hmmlearn', 'pandas', 'PyTables', 'HDF5']
STUB = ['nilm_metadata']
ASSUME = ['mains are meter 1, as the output format has it', 'both mains of a split supply have samples at the same times', 'the last sample of a good section may be left out',
          'FHMM and Hart85 are trained on appliances which switch on and off']
PROBES = ['CO', 'FHMM', 'Hart85', 'several sections', 'short section', 'nothing to write', 'windowed', 'resampled', 'in parts', 'split mains', 'csv', 'read fault', 'write fault', 'import', 'export fault', 'two buildings in one store',
          'untrained building', 'two methods', 'states given', 'edges told apart', 'appliance without samples']
SHRINK = ('ops', 'meters', 'gaps')


def gen(rng, tier):
    step = rng.choice([6, 30, 60, 60])
    n = rng.randint(50, 160)
    tz = rng.choice(['UTC', 'Europe/London', 'America/New_York'])
    cols = rng.choice([['pa'], ['pa'], ['pp'], ['pa', 'pr']])
    blds = rng.choice([1, 1, 2])
    first = rng.choice([1, 1, 2, 5])
    w = B.gen_world(rng, n_sub=rng.randint(2, 3), n=n, cols=cols, step=step, tz=tz, blds=blds, kind='onoff', name='SIM', dtype=rng.choice(['float64', 'float32']))
    for k, b in enumerate(w['buildings']):
        b['i'] = first + k
        gaps = [[rng.randint(1, n - 1), step * rng.choice([2, 5, 30])] for _ in range(rng.randint(0, 3))]
        if rng.chance(.3):
            q = rng.randint(2, n - 9)
            gaps += [[q, step * 10], [q + rng.choice([1, 2, 5]), step * 10]]
        split = rng.chance(.25)
        for m in b['meters']:
            d = m['data']
            d['flip'] = rng.choice([.05, .1, .2])
            m['period'], m['max'] = step, step * rng.choice([1, 1, 2, 3])
            if m['i'] == 1:
                d['gaps'] = copy.deepcopy(gaps)
                d['kind'] = rng.choice(['onoff', 'onoff', 'rand'])
                d['level'] = rng.choice([120, 1500])
                mains = m
            else:
                d['level'] = [100, 400, 1500, 20][(m['i'] + k) % 4]
                d['gaps'] = d['gaps'][:1]
                d['kind'] = rng.choice(['onoff', 'onoff', 'steps'])
                if rng.chance(.2):
                    m['apps'].append([B.APPS[(m['i'] + 2) % len(B.APPS)], 2])
                if rng.chance(.08):
                    d['t0'] = 10 ** 6
                m['i'] += rng.choice([0, 10]) if m is b['meters'][-1] else 0
        if split:
            s = copy.deepcopy(mains)
            s['i'] = 9
            s['data']['vseed'] += 7
            b['meters'].append(s)
            for m in b['meters']:
                m['max'] = step
            w['hole'] = 1
    ops = []
    clfs = [rng.choice(['CO', 'CO', 'FHMM', 'Hart85']) for _ in range(rng.choice([1, 1, 2]))]
    if 'Hart85' in clfs:
        for m in w['buildings'][0]['meters']:
            m['data']['kind'] = 'onoff'
            if m['i'] in (1, 9):
                m['data']['flip'] = .1
    secs = W.seconds(w['buildings'][0]['meters'][0]['data'])
    own = rng.chance(.4)
    parts = rng.choice([7, 20, 33]) if own and rng.chance(.5) else None
    for k in range(len(clfs)):
        hart = clfs[k] == 'Hart85'
        ops.append({'k': 'train', 'c': k, 'b': first, 'win': None if hart else S.gen_window(rng, secs, p=.3), 'sp': None if hart else rng.choice([None, step, 60]), 'states': rng.chance(.2)})
    for _ in range(rng.randint(1, 4)):
        k = rng.weighted([('out', 4), ('again', 1)])
        op = {'k': k, 'c': rng.randint(0, len(clfs) - 1)}
        if k == 'out':
            op.update(b=rng.choice([first, first, first + blds - 1]), win=S.gen_window(rng, secs, p=.4), sp=step if own else rng.choice([None, 60, 120, step]), csv=rng.chance(.15), min=1 if parts else rng.choice([1, 4, 10, 20, 100]),
                      join=rng.chance(.3))
        if rng.chance(.3):
            op['fault'] = {'nth': rng.choice([1, 2, 3, 5, 8, 13, 21, 34, 55]), 'site': rng.choice(['*', '*', 'hdf.write', 'fs.write']), 'kind': rng.choice(['hdf', 'mem', 'intr', 'eio'])}
        ops.append(op)
    for op in ops:
        if op['k'] == 'train' and rng.chance(.15):
            op['fault'] = {'nth': rng.choice([1, 2, 3, 5, 8]), 'site': '*', 'kind': rng.choice(['hdf', 'mem', 'intr', 'eio'])}
    return {'world': w, 'clfs': clfs, 'ops': ops, 'parts': parts, 'iobuf': 256}


def valid(s):
    if not s['ops'] or not s['clfs'] or not s['world']['buildings']:
        return False
    bs = {b['i']: {m['i']: m for m in b['meters']} for b in s['world']['buildings']}
    for ms in bs.values():
        if 1 not in ms or not [i for i in ms if i not in (1, 9)]:
            return False
        if any(m['data']['n'] < 10 or m['data']['step'] not in (6, 30, 60) or m['period'] != m['data']['step'] or m['max'] < m['period'] or any(not 0 < x[0] < m['data']['n'] for x in m['data']['gaps']) for m in ms.values()):
            return False
        if 9 in ms and any(ms[9]['data'][k] != ms[1]['data'][k] for k in ('t0', 'n', 'step', 'gaps')):
            return False
        if 9 in ms and any(m['max'] != m['period'] for m in ms.values()):
            return False
        if len({m['period'] for m in ms.values()}) != 1:
            return False
    trained = set()
    for op in s['ops']:
        if op['c'] >= len(s['clfs']):
            return False
        if op['k'] == 'train':
            trained.add(op['c'])
        elif op['c'] not in trained:
            return False
        if op['k'] == 'train' and s['clfs'][op['c']] == 'Hart85' and (op['win'] is not None or op['sp'] is not None):
            return False
        if op.get('b') is not None and op['b'] not in bs:
            return False
        if op.get('sp') is not None and (op['sp'] <= 0 or 3600 % op['sp'] or op['sp'] not in (6, 30, 60, 120)):
            return False
        if s['parts'] is not None and op['k'] == 'out' and (op['sp'] != bs[op['b']][1]['period'] or op['min'] != 1):
            return False
    return True


# ---------------------------------------------------------------- reference

def col(m):
    return [c for c in ('pa', 'pp', 'pr') if c in m['data']['cols']][0]


def sections(ms, win, p, dtype):
    """Two readings of the end of a window; each: per good section of the mains, the admissible (times, values)"""
    mains = [ms[1]] + ([ms[9]] if 9 in ms else [])
    secs = W.seconds(ms[1]['data'])
    x = sum(W.frame(m['data'], dtype=dtype)[W.COLS[col(m)]].values.astype(float) for m in mains)
    out = []
    for inc in (False, True):
        out.append([])
        for q in c07.Ref(ms[1], win, inc).runs(None):
            v = []
            for last in (False, True):
                pos = S.rows_of(secs, S.clip(q + ([True] if last else []), win))
                if len(pos):
                    t, y = resample(secs[pos], x[pos][:, None], p, 'mean', int(math.ceil(ms[1]['max'] / p)))
                    v.append((t, y[:, 0]))
                else:
                    v.append((np.zeros(0), np.zeros(0)))
            out[-1].append(v)
    return out


def split(alts, least, t, v):
    """The chunks which the rows (t, v) consist of, or None"""
    for secs in alts:
        def rest(k, at):
            if k == len(secs):
                return [] if at == len(t) else None
            for a, b in secs[k]:
                n = len(a)
                if n < least or n < 1:
                    r = rest(k + 1, at)
                    if r is not None:
                        return r
                elif at + n <= len(t) and np.array_equal(a, t[at:at + n]) and (v is None or np.allclose(b, v[at:at + n], rtol=1e-5, atol=1e-3)):
                    r = rest(k + 1, at + n)
                    if r is not None:
                        return [(at, at + n, b)] + r
            return None
        r = rest(0, 0)
        if r is not None:
            return r
    return None


def pairs(ms):
    """Is something switched on for a while and then off, for Hart85 to learn from?"""
    x = sum(W.frame(m['data'])[W.COLS[col(m)]].values.astype(float) for i, m in ms.items() if i in (1, 9))
    segs = []
    for q in x:
        if segs and abs(q - segs[-1][-1]) <= 4:
            segs[-1].append(q)
        else:
            segs.append([q])
    return any(min(len(a), len(b), len(c)) >= 3 and b[0] - a[0] > 110 and abs(c[0] - a[0]) < 5 for a, b, c in zip(segs, segs[1:], segs[2:]))


def table(path, key, csv):
    """-> (seconds, column labels, values) of an output table, None when there is none"""
    if csv:
        f = os.path.join(path, key[1:] + '.csv')
        if not os.path.exists(f):
            return None
        df = pd.read_csv(f, header=[0, 1], index_col=0)
        df.index = pd.to_datetime(df.index, utc=True)
    else:
        with pd.HDFStore(path, 'r') as st:
            if key not in st:
                return None
            df = st[key]
    return S.instants(df).astype('int64'), [tuple(c) for c in df.columns], df.values.astype(float)


def new(kind):
    from nilmtk.legacy.disaggregate import CombinatorialOptimisation, FHMM
    from nilmtk.legacy.disaggregate.hart_85 import Hart85
    return {'CO': CombinatorialOptimisation, 'FHMM': FHMM, 'Hart85': Hart85}[kind]()


def warm():
    import nilmtk.legacy.disaggregate       # noqa
    import sklearn.cluster          # noqa
    import hmmlearn.hmm             # noqa


def energy(t, v, p):
    return sum(min(b - a, p) * x for a, b, x in zip(t, t[1:], v)) / 3.6e6


def train(clf, kind, ds, op, ms, scn):
    e = ds.buildings[op['b']].elec
    kw = {}
    if op['sp'] is not None:
        kw['sample_period'] = op['sp']
    np.random.seed(7)
    if kind == 'Hart85':
        clf.train(e.mains(), columns=[W.COLS[col(ms[1])]], **kw)
    else:
        if op['states']:
            kw['num_states_dict'] = {m: 2 for m in e.submeters().meters}
        clf.train(e, **kw)


def run(scn, ctx):
    from hmmlearn import hmm
    from nilmtk.datastore import HDFDataStore, CSVDataStore
    plane = faults.PLANE
    plane.start(ctx)
    w = scn['world']
    path = ctx.path('d.h5')
    W.write_hdf(w, path)
    bs = {b['i']: {m['i']: m for m in b['meters']} for b in w['buildings']}
    ctx.data_s = sum(int(W.seconds(m['data'])[-1] - W.seconds(m['data'])[0]) for d in bs.values() for m in d.values())
    ctx.begin()
    if scn['parts']:
        whole = HDFDataStore.load

        def load(self, key, *a, **k):
            k.setdefault('chunksize', scn['parts'])
            return whole(self, key, *a, **k)
    tds, ds = B.open_dataset(path), B.open_dataset(path)
    clfs = [None] * len(scn['clfs'])
    how = [None] * len(scn['clfs'])

    fitted = []
    own = hmm.GaussianHMM.fit

    def fit(self, *a, **k):
        r = own(self, *a, **k)
        fitted.append(image(self))
        return r
    hmm.GaussianHMM.fit = fit

    def window(d, win):
        d.set_window(*([None if x is None else S.ts(x, w['tz']).tz_localize(None) for x in win] if win is not None else [None, None]))

    def attempt(op, fn):
        for k in range(3):
            f = op.get('fault')
            plane.arm([dict(f)] if f and k == 0 else [])
            try:
                r = fn(k)
            except (core.SimFault, core.SimHDFFault, core.SimInterrupt, MemoryError):
                if not plane.fired:
                    raise
            except Exception:
                if not plane.fired:
                    raise
            else:
                fired = list(plane.fired)
                plane.disarm()
                return r, fired
            fired = list(plane.fired)
            plane.disarm()
            ctx.probe('write fault' if any(x[0] in ('hdf.write', 'hdf.create', 'fs.write') for x in fired) else 'read fault')
            ctx.step('failed', op['k'])
            ctx.nontrivial = True
        ctx.check(False, 'no-progress', repr(op))

    for num, op in enumerate(scn['ops']):
        kind = scn['clfs'][op['c']]
        clf = clfs[op['c']]
        if op['k'] == 'train':
            ms = bs[op['b']]
            window(tds, op['win'])

            def fn(k):
                c = new(kind)
                fitted.clear()
                train(c, kind, tds, op, ms, scn)
                return c
            known = {i: len(S.rows_of(W.seconds(m['data']), S.clip([None, None], op['win']))) for i, m in ms.items()}
            if known[1] < 2 or any(0 < n < 20 for n in known.values()) or not any(n for i, n in known.items() if i not in (1, 9)) or (kind == 'Hart85' and not pairs(ms)):
                ctx.step('nothing to learn', kind)
                return
            clfs[op['c']], _ = attempt(op, fn)
            how[op['c']] = op
            if kind == 'FHMM' and not all(np.allclose(h.transmat_.sum(axis=1), 1) for h in clfs[op['c']].individual.values()):
                # hmmlearn has learnt a state which is never left
                ctx.step('degenerate', kind)
                return
            learnt(kind, clfs[op['c']], op, ms, w['dtype'], fitted, ctx)
            if kind != 'Hart85' and len(meters_of(kind, clfs[op['c']])) < sum(i not in (1, 9) for i in ms):
                ctx.probe('appliance without samples')
            ctx.step('train', kind, op['b'], op['win'], op['sp'])
            continue
        if op['k'] == 'again':
            # the model goes through a file
            f = ctx.path('model%d' % num)
            before = state(kind, clf)

            def fn(k):
                if os.path.exists(f):
                    os.unlink(f)
                try:
                    clf.export_model(f)
                finally:
                    armed, plane.armed = plane.armed, []
                    ctx.check(state(kind, clf) == before, 'export-changes-model', repr(op))
                    ctx.check(all(hasattr(m.store, 'load') for m in meters_of(kind, clf)), 'export-loses-stores', repr(op))
                    plane.armed = armed
                c = new(kind)
                c.import_model(f)
                return c
            c, fired = attempt(op, fn)
            if op.get('fault') and not fired:
                ctx.probe('export fault')
            ctx.check(state(kind, c) == before, 'import-differs', lambda: '%r\nwas %r\nis  %r' % (op, before, state(kind, c)))
            ctx.check(all(hasattr(m.store, 'load') for m in meters_of(kind, c)), 'import-without-stores', repr(op))
            clfs[op['c']] = c
            ctx.probe('import')
            ctx.nontrivial = True
            ctx.step('again', kind)
            continue
        p = op['sp'] or 60
        window(ds, op['win'])
        todo = sorted(bs) if op['join'] else [op['b']]
        before = state(kind, clf)
        kw = {} if op['sp'] is None else {'sample_period': op['sp']}
        alts = {b: sections(bs[b], op['win'], p, w['dtype']) for b in todo}
        if kind != 'Hart85':
            clf.MIN_CHUNK_LENGTH = op['min']
        parts = scn['parts'] if scn['parts'] and all(m['max'] == m['period'] for b in todo for m in bs[b].values()) else None
        if parts:
            if any(9 in bs[b] for b in todo):
                kw['chunksize'] = parts
            else:
                HDFDataStore.load = load
            ctx.probe('in parts')

        def fn(k):
            f = ctx.path('out%d-%d%s' % (num, k, '' if op['csv'] else '.h5'))
            st = CSVDataStore(f) if op['csv'] else HDFDataStore(f, 'w')
            try:
                for b in todo:
                    clf.disaggregate(ds.buildings[b].elec.mains(), st, **kw)
            finally:
                st.close()
            return f
        try:
            f, fired = attempt(op, fn)
        finally:
            if parts:
                HDFDataStore.load = whole
        ctx.check(state(kind, clf) == before, 'model-changed', repr(op))
        ctx.step('out', kind, todo, op['win'], op['sp'], op['csv'], op['min'])
        ctx.probe(kind)
        for tag, c in (('windowed', op['win'] is not None), ('resampled', any(m['period'] != p for m in bs[todo[0]].values())), ('split mains', any(9 in bs[b] for b in todo)), ('csv', op['csv']), ('two buildings in one store', len(todo) > 1),
                       ('untrained building', any(b != how[op['c']]['b'] for b in todo)), ('two methods', len(scn['clfs']) > 1), ('states given', how[op['c']]['states'] and kind != 'Hart85')):
            if c:
                ctx.probe(tag)
        ex = output(kind, clf, f, op, todo, alts, bs, p, scn, ctx, parts)
        finished(kind, clf, f, op, ex, p, scn, ctx, bs)
    tds.store.close()
    ds.store.close()


def learnt(kind, clf, op, ms, dtype, fitted, ctx):
    """The states are those of the meter's own samples in the window"""
    names = {i for i in ms if i not in (1, 9)}
    if kind == 'Hart85':
        x = sum(W.frame(q['data'], dtype=dtype)[W.COLS[col(q)]].values.astype(float) for i, q in ms.items() if i in (1, 9))
        c = np.asarray(clf.centroids).ravel()
        ctx.check((c > 0).all() and (c <= x.max() - x.min() + 1).all(), 'learnt-other-states', lambda: '%r: %r' % (op, c))
        tr = list(zip([sec(x) for x in clf.transients.index], clf.transients.values[:, 0].tolist()))
        if 9 not in ms:
            want = edges(W.seconds(ms[1]['data']), x)
            ctx.check(len(tr) == len(want) and all(a[0] == b[0] and abs(a[1] - b[1]) < .1 for a, b in zip(tr, want)), 'other-edges', lambda: '%r\nfound    %r\nexpected %r' % (op, tr, want))
        paired(clf, tr, op, ctx)
        return
    got = [int(m.instance()) for m in meters_of(kind, clf)]
    ctx.check(len(set(got)) == len(got) and set(got) <= names and all(int(m.building()) == op['b'] for m in meters_of(kind, clf)), 'learnt-other-meters', lambda: '%r: %r' % (op, got))
    for k, i in enumerate(got):
        m = ms[i]
        secs, v = W.seconds(m['data']), W.frame(m['data'], dtype=dtype)[W.COLS[col(m)]].values.astype(float)
        ok = []
        c = S.clip([None, None], op['win'])
        for last in (False, True):
            pos = S.rows_of(secs, (c[0], c[1], last))
            x = v[pos]
            if op['sp'] is not None:
                x = resample(secs[pos], x[:, None], op['sp'], 'mean', int(math.ceil(m['max'] / op['sp'])))[1][:, 0] if len(pos) else x
                x = x[~np.isnan(x)]
            if kind == 'FHMM':
                s = list(clf.individual.values())[k].means_.ravel()
                h = list(clf.individual.values())[k]
                ok.append(len(x) and (s >= x.min() - 1e-2).all() and (s <= x.max() + 1e-2).all() and fits(h, fitted))
            else:
                s = np.asarray(clf.model[k]['states'], dtype=float)
                ok.append(centres(s, x[x > 10]))
        ctx.check(any(ok), 'learnt-other-states', lambda: '%r meter %d: %r' % (op, i, s))


def sec(t):
    return int(pd.Timestamp(t).tz_convert('UTC').timestamp()) - W.T0


def edges(t, x, threshold=15, noise=70):
    """Hart: differences between steady powers of a part, each at the start of the change"""
    out, level, since, first = [], 0.0, None, None
    segs = []                   # [start of the change, samples since the last jump]
    prev, jumped = 0.0, False
    for a, b in zip(t, x):
        jump = abs(b - prev) > threshold
        if jump and not jumped:
            segs.append([int(a), []])
        elif not segs:
            segs.append([int(t[0]), []])
        if jump:
            segs[-1][1] = []
        segs[-1][1].append(b)
        prev, jumped = b, jump
    for a, v in segs:
        m = float(np.mean(v))
        if abs(m - level) > noise:
            out.append((a, m - level, m))
        level = m
    if out and out[0][0] == t[0] and out[0][2] > noise:
        out = out[1:]
    return [q[:2] for q in out]


def paired(clf, tr, op, ctx):
    """Pairs consist of an edge up and a later edge down of the same size, none twice; nothing that fits is left over"""
    df = clf.pair_df
    rows = [(sec(a), float(b), sec(c), float(d)) for a, b, c, d in df.values.tolist()]
    tol = lambda a, b: 100 if max(abs(a), abs(b)) < 1000 else .035 * max(abs(a), abs(b))
    ends = [r[0] for r in rows] + [r[2] for r in rows]
    ctx.check(len(set(ends)) == len(ends) and all(b > 0 and c > a and abs(b + d) < tol(b, d) + 1e-6 for a, b, c, d in rows) and {r[:2] for r in rows} | {r[2:] for r in rows} <= set(tr), 'wrong-pairs', lambda: '%r: %r' % (op, rows))
    if len(tr) < 20:
        free = [q for q in tr if q[0] not in ends]
        left = [(p, q) for k, p in enumerate(free) for q in free[k + 1:] if p[1] > 0 and abs(p[1] + q[1]) < tol(p[1], q[1]) - 1e-6]
        ctx.check(not left, 'edges-not-paired', lambda: '%r: %r' % (op, left))


def states_of(clf, t, x):
    """The power of each appliance of a Hart85 model, NaN where it is not determined; None if an edge fits two appliances"""
    c = clf.centroids.values[:, 0]
    out = np.full((len(t), len(c)), np.nan)
    last = np.zeros(len(c))
    ev = {}
    for a, d in edges(t, x):
        q = np.sort(np.abs(c - abs(d)))
        if len(q) > 1 and q[1] - q[0] < 1:
            return None
        ev[a] = (int(np.abs(c - abs(d)).argmin()), d > 0)
    cur = np.full(len(c), np.nan)
    for k, a in enumerate(t):
        if a in ev:
            j, on = ev[a]
            cur[j] = c[j] if on else 0
        out[k] = cur
        if a in ev:
            out[k, ev[a][0]] = np.nan
    out[-1] = np.nan
    return out


def fits(h, fitted):
    """Is it one of the models hmmlearn fitted, with its states in another order?"""
    def numbers(g, q):
        return np.concatenate([g[0][q], g[1][q][:, q].ravel(), g[2][q].ravel(), g[3][q].ravel()])
    have = numbers(image(h), list(range(len(h.startprob_))))
    return any(np.array_equal(have, numbers(g, list(q))) for g in fitted if len(g[0]) == len(h.startprob_) for q in itertools.permutations(range(len(g[0]))))


def image(h):
    return [np.array(x) for x in (h.startprob_, h.transmat_, h.means_, h._covars_)]


def centres(s, x):
    """Are the states other than 0 the means of the samples nearest to them?"""
    if len(x) < 20:
        return list(s) == [0]
    c = s[s != 0]
    if 0 not in s or not len(c) or len(c) > 2:
        return False
    dist = np.abs(x[:, None] - c[None, :])
    if len(c) > 1:
        q = np.sort(dist, axis=1)
        if (q[:, 1] - q[:, 0] < 4).any():       # on the border
            return x.min() - 1 <= c.min() and c.max() <= x.max() + 1
    near = dist.argmin(axis=1)
    return all((near == j).any() and abs(x[near == j].mean() - c[j]) <= 1 for j in range(len(c)))


def meters_of(kind, clf):
    return [] if kind == 'Hart85' else [d['training_metadata'] for d in clf.model] if kind == 'CO' else list(clf.individual)


def state(kind, clf):
    """What the model knows, as plain values"""
    if kind == 'CO':
        return [[int(d['training_metadata'].instance()), int(d['training_metadata'].building())] + [float(x) for x in d['states']] for d in clf.model]
    if kind == 'FHMM':
        return [[int(m.instance()), int(m.building())] + [np.asarray(getattr(h, a)).ravel().tolist() for a in ('startprob_', 'transmat_', 'means_', '_covars_')] for m, h in clf.individual.items()] + [
            np.asarray(clf.model.means_).ravel().tolist(), np.asarray(clf.model.transmat_).ravel().tolist(), [int(m.instance()) for m in clf.meters]]
    return [np.asarray(clf.centroids).tolist(), [list(c) for c in clf.columns], clf.state_threshold, clf.noise_level]


def output(kind, clf, f, op, todo, alts, bs, p, scn, ctx, parts):
    """Checks the tables -> {building: {meter: (times, values)}}"""
    ex = {}
    for b in todo:
        label = W.COLS[col(bs[b][1])]
        key = '/building%d/elec/meter' % b
        ids = [int(m.instance()) for m in meters_of(kind, clf)] if kind != 'Hart85' else [int(k) + 2 for k in clf.centroids.index]
        tabs = {i: table(f, key + str(i), op['csv']) for i in [1] + ids}
        if any(x is None for x in tabs.values()):
            ctx.check(all(x is None for x in tabs.values()), 'missing-table', lambda: '%r building %d: %r' % (op, b, {i: x is not None for i, x in tabs.items()}))
            least = op['min'] if kind != 'Hart85' else 1
            ctx.check(any(all(any(len(t) < least or len(t) < 1 for t, _ in v) for v in secs) for secs in alts[b]), 'nothing-written', lambda: '%r building %d: nothing was written\nexpected %r' % (op, b, alts[b]))
            ctx.probe('nothing to write')
            continue
        for i, (t, c, v) in tabs.items():
            ctx.check(c == [label], 'wrong-measurement', lambda: '%r meter %d: %r' % (op, i, c))
            ctx.check(np.isfinite(v).all() or (kind == 'Hart85' and i == 1), 'not-a-number', lambda: '%r meter %d: %r' % (op, i, v))
        if kind == 'Hart85':
            t, v = tabs[ids[0]][0], None
            raw(tabs[1], b, op, bs, scn, ctx)
        else:
            t, v = tabs[1][0], tabs[1][2][:, 0]
        for i in ids:
            ctx.check(np.array_equal(tabs[i][0], t), 'other-times', lambda: '%r building %d: times of meter %d differ from those of the mains\nmeter %r\nmains %r' % (op, b, i, tabs[i][0].tolist(), t.tolist()))
        one, keep = t, slice(None)
        if parts:       # parts may overlap by one row
            keep = np.concatenate([[True], np.diff(t) != 0])
            if v is not None:
                ctx.check(all(v[k] == v[k - 1] for k in np.where(~keep)[0]), 'repeated-row-differs', lambda: repr(op))
        chunks = split(alts[b], op['min'] if kind != 'Hart85' else 1, t[keep], v[keep] if v is not None else None)
        ctx.check(chunks is not None, 'wrong-mains' if v is not None else 'wrong-times', lambda: '%r building %d\nwritten  %r\nexpected %r' % (op, b, list(zip(t.tolist(), v.tolist() if v is not None else t.tolist())), [[list(zip(*x[0])) for x in secs] for secs in alts[b][:1]]))
        if len(chunks) > 1:
            ctx.probe('several sections')
            ctx.nontrivial = True
        if kind != 'Hart85' and any(0 < len(x[0][0]) < op['min'] for x in alts[b][0]):
            ctx.probe('short section')
        pred = np.column_stack([tabs[i][2][:, 0] for i in ids])
        ctx.log(b, ids, len(t), B.canon(pred.sum(axis=0).tolist(), 5))
        if kind == 'CO':
            st = [np.asarray(d['states'], dtype=float) for d in clf.model]
            sums = np.array([0.0])
            for s in st:
                sums = np.add.outer(sums, s).ravel()
            for j, s in enumerate(st):
                ctx.check(np.isin(pred[:, j], s).all(), 'no-such-state', lambda: '%r meter %d: %r of %r' % (op, ids[j], sorted(set(pred[:, j])), s))
            miss = np.abs(pred.sum(axis=1) - v)
            best = np.abs(sums[None, :] - v[:, None]).min(axis=1)
            ctx.check((miss <= best + 1e-2).all(), 'not-nearest', lambda: '%r building %d: states %r\n%r' % (op, b, st, [(a, x.tolist()) for a, x, y, z in zip(v, pred, miss, best) if y > z + 1e-2]))
        elif kind == 'FHMM':
            ind = list(clf.individual.values())
            trans = np.ones((1, 1))
            for j, h in enumerate(ind):
                s = h.means_.round().ravel()
                ctx.check((np.diff(h.means_.ravel()) >= 0).all(), 'states-not-in-order', lambda: repr(s))
                ctx.check(np.isin(pred[:, j], s).all(), 'no-such-state', lambda: '%r meter %d: %r of %r' % (op, ids[j], sorted(set(pred[:, j])), s))
                trans = np.kron(trans, h.transmat_)
            ctx.check(np.allclose(trans, clf.model.transmat_), 'wrong-transitions', '')
            if not parts:
                for a, z, _ in chunks:
                    got = pred[a:z].sum(axis=1)
                    want = clf.model.means_.ravel()[clf.model.predict(v[a:z].reshape(-1, 1))]
                    ctx.check((np.abs(got - want) <= .5 * len(ind) + 1e-2).all(), 'not-the-decoded-state', lambda: '%r building %d rows %d-%d\nwritten %r\ndecoded %r' % (op, b, a, z, got.tolist(), want.tolist()))
        else:
            for j, s in enumerate(clf.centroids.values):
                s = [0.0, float(s[0]), float(int(s[0]))]
                ctx.check(all(min(abs(x - y) for y in s) < 1e-2 for x in pred[:, j]), 'no-such-state', lambda: '%r meter %d: %r of %r' % (op, ids[j], sorted(set(pred[:, j])), s))
            for a, z, x in chunks if not parts else []:
                want = states_of(clf, t[a:z], x)
                if want is not None:
                    ctx.probe('edges told apart')
                    ctx.check((np.isnan(want) | (np.abs(want - pred[a:z]) < 1.01)).all(), 'not-by-the-edges', lambda: '%r building %d rows %d-%d\nmains %r\nwritten %r\nby edges %r' % (op, b, a, z, x.tolist(), pred[a:z].tolist(), want.tolist()))
        ex[b] = {i: (tabs[i][0], tabs[i][2][:, 0]) for i in tabs}
    return ex


def raw(tab, b, op, bs, scn, ctx):
    """The copy of the mains which Hart85 makes: all readings of the window"""
    m = bs[b][1]
    secs = W.seconds(m['data'])
    x = sum(W.frame(q['data'], dtype=scn['world']['dtype'])[W.COLS[col(q)]].values.astype(float) for i, q in bs[b].items() if i in (1, 9))
    t, v = tab[0], tab[2][:, 0]
    ok = ~np.isnan(v)
    got = sorted(set(zip(t[ok].tolist(), v[ok].tolist())))
    cl = S.clip([None, None], op['win'])
    pos = S.rows_of(secs, cl)
    full = {int(secs[k]): float(x[k]) for k in S.rows_of(secs, (cl[0], cl[1], True))}
    need = {int(secs[k]) for k in pos[:-1]}
    have = dict(got)
    if 9 in bs[b]:      # a group is resampled and filled
        need = {q for q in need if q % m['period'] == 0}
        ctx.check(need <= set(have), 'mains-not-copied', lambda: '%r building %d: missing %r' % (op, b, sorted(need - set(have))))
        return
    ctx.check(len(have) == len(got) and need <= set(have) <= set(full) and all(abs(full[q] - y) < 1e-2 for q, y in got), 'mains-not-copied',
              lambda: '%r building %d\nwritten  %r\nexpected %r' % (op, b, got, sorted(full.items())))


def finished(kind, clf, f, op, ex, p, scn, ctx, bs):
    """The output is a data set"""
    if not op['csv']:
        with pd.HDFStore(f, 'r') as st:
            keys = sorted(st.keys())
        want = sorted('/building%d/elec/meter%d' % (b, i) for b in ex for i in ex[b])
        ctx.check(keys == want, 'other-tables', lambda: '%r: %r instead of %r' % (op, keys, want))
    if not ex:
        try:
            o = B.open_dataset(f, 'CSV' if op['csv'] else 'HDF')
        except Exception:
            return
        got = {b: [m.instance() for m in x.elec.all_meters()] for b, x in o.buildings.items()}
        o.store.close()
        ctx.check(not got, 'metadata-without-data', lambda: '%r: %r' % (op, got))
        return
    o = B.open_dataset(f, 'CSV' if op['csv'] else 'HDF')
    try:
        ctx.check(sorted(o.buildings) == sorted(ex), 'wrong-buildings', lambda: '%r: %r instead of %r' % (op, sorted(o.buildings), sorted(ex)))
        ctx.check(o.metadata.get('name') == {'CO': 'CO', 'FHMM': 'FHMM', 'Hart85': 'Hart85'}[kind], 'wrong-name', lambda: repr(o.metadata.get('name')))
        for b in ex:
            e = o.buildings[b].elec
            got = {m.instance(): m for m in e.all_meters()}
            ctx.check(sorted(got) == sorted(ex[b]), 'wrong-meters', lambda: '%r building %d: %r instead of %r' % (op, b, sorted(got), sorted(ex[b])))
            ctx.check([i for i, m in got.items() if m.is_site_meter()] == [1], 'wrong-mains', lambda: repr(op))
            for i, m in got.items():
                t, v = ex[b][i]
                ctx.check(m.sample_period() == p and m.device['max_sample_period'] == p, 'wrong-period', lambda: '%r meter %d: %r' % (op, i, m.device))
                if i != 1:
                    up = m.upstream_meter()
                    ctx.check(up is got[1] or up == got[1], 'wrong-wiring', lambda: '%r meter %d is below %r' % (op, i, up))
                have = sorted([a.identifier.type, a.identifier.instance] for a in m.appliances)
                if kind == 'Hart85':
                    want = [] if i == 1 else [['unknown', i - 1]]
                else:
                    src = {q['i']: q for q in bs[how_b(kind, clf)].values()}
                    want = [] if i == 1 else sorted([x[0], x[1]] for x in src[i]['apps'])
                ctx.check(have == want, 'wrong-appliances', lambda: '%r meter %d: %r instead of %r' % (op, i, have, want))
                ok = ~np.isnan(v)
                if len(t) < 2:
                    continue
                want = energy(t[ok], v[ok], p)
                z = m.total_energy()
                z = float(z.iloc[0]) if len(z) else 0.0
                ctx.check(abs(z - want) <= 1e-4 * max(1e-3, abs(want)), 'wrong-energy', lambda: '%r building %d meter %d: total energy %r instead of %r' % (op, b, i, z, want))
            tf = got[1].metadata['statistics']['timeframe']
            a, z = [int((pd.Timestamp(tf[k]).tz_convert('UTC') - pd.Timestamp(W.T0, unit='s', tz='UTC')).total_seconds()) for k in ('start', 'end')]
            t = [ex[b][i][0] for i in ex[b] if i != 1][0]
            ctx.check(t[0] <= a < t[0] + p and t[-1] <= z, 'wrong-timeframe', lambda: '%r building %d: %r to %r, written %r to %r' % (op, b, a, z, t[0], t[-1]))
    finally:
        o.store.close()


def how_b(kind, clf):
    return int(meters_of(kind, clf)[0].building())
