"""C11: an experiment trains and tests every method on exactly the data it was asked to use."""
import copy
import hashlib
import math

import numpy as np
import pandas as pd

import bld as B
import core
import faults
import streams as S
import world as W
from props.c08 import resample
from props.c09 import expect_part, extent

ID = 'C11'
RUNS = {'quick': 200, 'thorough': 4000}
RULE = ('a run is one experiment (nilmtk.api.API) over 1-2 generated datasets with 1-2 buildings, drawn windows, appliances, sample rate, chunk size, metrics and methods (Mean and recording methods of several kinds), some with a failing read after which it is repeated; '
        'every table handed to a method and every error reported is compared with a direct computation on the generated samples; non-trivial when a method was trained and tested on at least ten instants; distinct by experiment, world and faults')
REAL = ['nilmtk.api.API', 'nilmtk.losses', 'Mean', 'DataSet, MeterGroup, ElecMeter', 'HDFDataStore', 'pandas', 'PyTables', 'HDF5', 'scikit-learn metrics']
STUB = ['nilm_metadata', 'the recording methods (their predictions are a fixed function of the mains)', 'display of plots']
ASSUME = ['with a chunk size, all meters sample on the grid of the sample rate, which is their own period; instants which only filling has a value for may then be left out', 'methods do not change the data they are given', 'mains have a reading in the training and the test window']
PROBES = ['joint', 'chunks', 'several parts', 'artificial aggregate', 'several buildings', 'several datasets', 'split mains', 'appliance on two meters', 'second instance not used', 'two AC types', 'gaps dropped', 'read fault', 'repeated after failure', 'pretrained', 'epochs', 'method without chunks', 'site only', 'unknown metric',
          'appliance without data', 'nothing dropped', 'across clock change', 'period of a coarser grid']
SHRINK = ('gaps', 'meters', 'buildings', 'apps', 'metrics', 'methods', 'train', 'test')
METRICS = ['mae', 'rmse', 'f1score', 'relative_error', 'r2score', 'nde', 'nep']


class Method:
    """Remembers what it is given; predicts a fixed function of the mains."""

    def __init__(self, spec, apps, log):
        self.MODEL_NAME = spec['name']
        self.chunk_wise_training = spec.get('chunks', True)
        if spec.get('epochs'):
            self.n_epochs = spec['epochs']
        self.load_model_path = 'somewhere' if spec.get('pretrained') else None
        self.k = spec['k']
        self.apps = apps
        self.log = log

    def partial_fit(self, train_main, train_appliances, current_epoch=0, **kw):
        self.log.append(('fit', [x.copy() for x in train_main], [(a, [x.copy() for x in l]) for a, l in train_appliances], current_epoch))

    def disaggregate_chunk(self, test_mains):
        self.log.append(('test', [x.copy() for x in test_mains]))
        return [pd.DataFrame({a: predict(x.iloc[:, 0].values if x.shape[1] else np.zeros(len(x)), j, self.k) for j, a in enumerate(self.apps)}, index=x.index) for x in test_mains]


def predict(v, j, k):
    return np.round(np.nan_to_num(v) * ((j + 1) / 4.)) % (97 + 10 * k) + k


def gen(rng, tier):
    chunk = rng.choice([None, None, None, 7, 15, 25, 50])
    base = rng.choice([6, 10, 60])
    p = base if chunk else base * rng.choice([1, 1, 2, 5])
    nan_ok = not rng.chance(.15)
    tz = rng.choice(['UTC', 'UTC', 'Europe/London', 'America/New_York'])
    zero = rng.choice([0, 0, 3600, 7606800 - 20 * base])
    mains_cols = rng.choice([['pa'], ['pa'], ['pp', 'pa']])
    app_cols = rng.choice([['pa'], ['pa'], ['pa', 'v'], ['pa', 'pp']])
    napp = rng.randint(1, 3)
    wd = []
    for x in range(rng.choice([1, 1, 1, 2])):
        blds = []
        for b in range(1, rng.choice([1, 2]) + 1):
            ms = []
            nm = rng.choice([1, 1, 1, 2]) if nan_ok else 1
            ni = rng.randint(1, 2)
            types = [B.APPS[i] for i in range(napp)]
            for i in range(1, nm + napp + ni + 1):
                n = rng.randint(40, 90)
                step = base if chunk or not nan_ok else base * rng.choice([1, 1, 1, 2])
                gaps = [[rng.randint(1, n - 1), step * rng.choice([1, 2, 3, 10])] for _ in range(rng.randint(0, 3))] if nan_ok else []
                t0 = zero + (step * rng.choice([0, 0, 0, 4, 12]) if nan_ok else 0)
                t0 -= t0 % (base * 10) if not chunk and i <= nm and nm > 1 else 0
                m = {'i': i, 'period': step, 'max': step * rng.choice([1, 1, 2, 3]),
                     'data': {'t0': t0, 'n': n if nan_ok else 60, 'step': step, 'gaps': gaps, 'jit': 0, 'cols': mains_cols if i <= nm else app_cols, 'kind': rng.choice(['rand', 'rand', 'onoff']), 'vseed': rng.randint(1, 99), 'level': 100}}
                if i <= nm:
                    m['site'] = True
                else:
                    m['of'] = 1
                    j = i - nm - 1
                    if j < napp:
                        m['apps'] = [[types[j], 1]]
                    elif rng.chance(.5):
                        m['apps'] = [[types[0], 2]]
                    else:
                        m['apps'] = [['light', 9]]
                ms.append(m)
            bl = {'i': b, 'meters': ms}
            if nan_ok and rng.chance(.12):        # the last appliance is on two meters (two phases)
                ms[nm + napp - 1]['apps'] = []
                bl['multi'] = [[types[-1], 1, [ms[nm + napp - 1]['i'], ms[-1]['i']]]]
                ms[-1]['apps'] = []
            blds.append(bl)
        wd.append({'name': 'SIM%d' % x, 'tz': tz, 'dtype': rng.choice(['float64', 'float32']), 'buildings': blds})

    def windows(train):
        out = []
        for x, w in enumerate(wd):
            bs = []
            for b in w['buildings']:
                if rng.chance(.2) and (out or bs):
                    continue
                s = W.seconds(b['meters'][0]['data'])
                k = len(s)
                a, z = sorted(rng.sample(range(k), 2))
                if z - a < 15:
                    a, z = 0, k - 1
                win = [int(s[a]), int(s[z])]
                win[0] -= win[0] % (base * 10)
                if not chunk and rng.chance(.1):
                    win[1] += 1
                if rng.chance(.25):
                    win = rng.choice([[None, win[1]], [win[0], None], [None, None], [None, None]])
                bs.append([b['i'], win])
            rng.shuffle(bs)
            if bs:
                out.append([x, bs])
        rng.shuffle(out)
        return out
    methods = [{'kind': 'rec', 'name': 'Zeta', 'k': 1, 'chunks': rng.chance(.85), 'epochs': rng.choice([0, 0, 0, 2])}]
    if rng.chance(.5):
        methods.append({'kind': 'rec', 'name': 'Alpha', 'k': 2, 'chunks': rng.chance(.7), 'pretrained': rng.chance(.3)})
    if rng.chance(.4):
        methods.append({'kind': 'mean', 'name': 'Mean', 'k': 3})
    rng.shuffle(methods)
    f = None
    if rng.chance(.25):
        f = {'nth': rng.choice([1, 2, 3, 5, 8, 13, 21, 34, 55]), 'site': rng.choice(['*', '*', 'hdf.read']), 'kind': rng.choice(['hdf', 'mem', 'intr', 'eio'])}
    apps = [B.APPS[i] for i in range(napp)]
    rng.shuffle(apps)
    return {'worlds': wd, 'base': base, 'p': p, 'chunk': chunk, 'train': windows(True), 'test': windows(False), 'apps': apps, 'art': rng.chance(.2), 'drop': nan_ok, 'site': rng.chance(.06),
            'metrics': rng.some(METRICS + ['nonsense'], 1, 4), 'methods': methods, 'power': [rng.choice([['pa'], ['pp', 'pa'], ['pa', 'pp']]) if 'pp' in mains_cols else ['pa'], rng.choice([['pa'], ['pa', 'pp']]) if 'pp' in app_cols else ['pa']], 'fault': f}


def valid(s):
    if not (s['worlds'] and s['train'] and s['test'] and s['apps'] and s['metrics'] and s['methods']) or s['chunk'] == 0 or s['chunk'] == 1:
        return False
    if s['p'] % s['base'] or s['p'] < 1 or 3600 % s['p'] or s['base'] < 2 or (s['chunk'] and s['p'] != s['base']):
        return False
    for w in s['worlds']:
        if not w['buildings']:
            return False
        for b in w['buildings']:
            have = {tuple(a) for m in b['meters'] for a in m.get('apps', [])} | {(a[0], a[1]) for a in b.get('multi', [])}
            ids = {m['i'] for m in b['meters']}
            if not b['meters'] or not b['meters'][0].get('site') or any((a, 1) not in have for a in s['apps']) or any(len(a) != 3 or len(a[2]) != 2 or not set(a[2]) <= ids for a in b.get('multi', [])):
                return False
            if not s['drop'] and (b.get('multi') or sum(bool(m.get('site')) for m in b['meters']) > 1):
                return False       # tables which are not aligned anyway have to be of the same instants
            for m in b['meters']:
                d = m['data']
                if d['n'] < 30 or d['jit'] or m['period'] != d['step'] or m['max'] < d['step'] or d['step'] % s['base'] or d['t0'] % s['base'] or 3600 % d['step'] or not d['step'] or (s['chunk'] and d['step'] != s['base']):
                    return False
                if any(g[1] % s['base'] for g in d['gaps']) or (not s['drop'] and (d['gaps'] or d['n'] != 60 or m['period'] != s['base'])):
                    return False
                if not s['chunk'] and m.get('site') and d['t0'] % s['p'] and sum(bool(x.get('site')) for x in b['meters']) > 1:
                    return False
    for part in (s['train'], s['test']):
        for x, bs in part:
            if x >= len(s['worlds']) or not bs:
                return False
            for b, win in bs:
                if b not in [q['i'] for q in s['worlds'][x]['buildings']] or len(win) != 2:
                    return False
                if win[0] is not None and (win[0] % (s['base'] * 10)) or (None not in win and win[0] >= win[1]):
                    return False
    return True


# ---------------------------------------------------------------- the data which an experiment should use

def one(scn, m, win, col, firm):
    """{instant: value} of a meter; firm: the instants which have a sample of their own"""
    d = m['data']
    s = W.seconds(d)
    pos = S.rows_of(s, S.clip([None, None], win))
    if not len(pos) or col not in d['cols']:
        return {}
    v = W.frame(d, dtype='float64').values[pos][:, [d['cols'].index(col)]]
    t, x = resample(s[pos], v, scn['p'], 'mean', int(math.ceil(m['max'] / scn['p'])))
    firm &= {int(q) - int(q) % scn['p'] for q in s[pos]}
    return {int(q): float(y) for q, y in zip(t, x[:, 0]) if not math.isnan(y)}


def several(scn, ms, win, col, firm, parts):
    tree = [(0, m) for m in ms]
    ext = extent(tree, win)
    if ext is None:
        return {}
    w = {'win': win, 'world': {'dtype': 'float64'}}
    end = ext[1]
    if parts:
        ext[1] += scn['p']       # in parts, the last reading may be delivered too
    g, acc, _ = expect_part(w, tree, ext, scn['p'], [col])
    out = {int(q): float(y) for q, y in zip(g, acc[col]) if not math.isnan(y)}
    f = set.intersection(*({int(q) - int(q) % scn['p'] for q in W.seconds(m['data'])} for m in ms))
    firm &= {q for q in f if q < end}
    return out


def reference(scn, x, b, win, mcol, acol):
    """-> {instant: mains}, [{instant: power} per appliance], firm instants; mains and appliances before alignment"""
    bl = [q for q in scn['worlds'][x]['buildings'] if q['i'] == b][0]
    firm = []
    whole = []

    def take(ms, col):
        f = {q for m in ms for q in map(int, W.seconds(m['data']))}
        f = {q - q % scn['p'] for q in f}
        r = one(scn, ms[0], win, col, f) if len(ms) == 1 else several(scn, ms, win, col, f, bool(scn['chunk']))
        whole.append(r if len(ms) == 1 or not scn['chunk'] else several(scn, ms, win, col, set(), False))
        firm.append(f & set(r))
        return r
    mains = take([m for m in bl['meters'] if m.get('site')], mcol)
    apps = []
    for a in scn['apps']:
        ms = [m for m in bl['meters'] if [a, 1] in m.get('apps', [])]
        for t, i, ids in bl.get('multi', []):
            if t == a and i == 1:
                ms = [m for m in bl['meters'] if m['i'] in ids]
        apps.append(take(ms, acol))
    return mains, apps, set.intersection(*firm), whole[0], whole[1:]


def joined(scn, ref, site):
    """-> instants, mains, [appliance values]"""
    mains, apps = ref[:2]
    t = set(mains)
    if not site:
        for a in apps:
            t &= set(a)
    t = sorted(t)
    av = [[a.get(q) for q in t] for a in apps]
    mv = [mains[q] for q in t] if not scn['art'] or site else [sum(z) for z in zip(*av)] if t else []
    return t, mv, av


def numbers(metric, g, p):
    g, p = np.asarray(g, float), np.asarray(p, float)
    with np.errstate(all='ignore'):
        if metric == 'mae':
            return np.abs(g - p).mean()
        if metric == 'rmse':
            return math.sqrt(((g - p) ** 2).mean())
        if metric == 'nde':
            return np.sqrt(((g - p) ** 2).sum() / (g ** 2).sum())
        if metric == 'nep':
            return np.abs(g - p).sum() / g.sum()
        if metric == 'relative_error':
            return (np.abs(g - p) / (1 + p)).mean()
        if metric == 'f1score':
            a, b = g >= 10, p >= 10
            tp, fp, fn = (a & b).sum(), (~a & b).sum(), (a & ~b).sum()
            return 2 * tp / (2 * tp + fp + fn) if tp + fp + fn else 0.0
        if metric == 'r2score' and len(g) < 2:
            return float('nan')
        if metric == 'r2score':
            den = ((g - g.mean()) ** 2).sum()
            num = ((g - p) ** 2).sum()
            return 1 - num / den if den else (1.0 if not num else 0.0)


def warm():
    import nilmtk.api          # noqa
    import sklearn.metrics     # noqa


def run(scn, ctx):
    from nilmtk.api import API
    from nilmtk.disaggregate import Mean
    import matplotlib.pyplot as plt
    import tables
    plane = faults.PLANE
    plane.start(ctx)
    paths = []
    for x, w in enumerate(scn['worlds']):
        paths.append(ctx.path('d%d.h5' % x))
        W.write_hdf(w, paths[-1])
        ctx.data_s += sum(int(W.seconds(m['data'])[-1] - W.seconds(m['data'])[0]) for b in w['buildings'] for m in b['meters'])

    def content():
        return [hashlib.sha256(open(f, 'rb').read()).hexdigest() for f in paths]
    before = content()
    chunk, p = scn['chunk'], scn['p']
    site = scn['site']
    tzs = [w['tz'] for w in scn['worlds']]

    def part(spec):
        return {'SIM%d' % x: {'path': paths[x], 'buildings': {b: dict(zip(('start_time', 'end_time'), [None if t is None else S.ts(t, tzs[x]).tz_localize(None).strftime('%Y-%m-%d %H:%M:%S') for t in win])) for b, win in bs}} for x, bs in spec}

    for spec in (scn['train'], scn['test']):     # naive local times must name one instant
        for x, bs in spec:
            for b, win in bs:
                for t in win:
                    if t is not None:
                        try:
                            if S.ts(t, tzs[x]).tz_localize(None).tz_localize(tzs[x]) != S.ts(t, tzs[x]):
                                return
                        except Exception:
                            return
    # the windows must hold readings of the mains
    for spec in (scn['train'], scn['test']):
        for x, bs in spec:
            for b, win in bs:
                if len(reference(scn, x, b, win, scn['worlds'][x]['buildings'][0]['meters'][0]['data']['cols'][0], 'pa')[0]) < 3:
                    return
    if any(s['kind'] == 'mean' for s in scn['methods']):
        # Mean has nothing to say about an appliance which it has never seen
        for mcol in scn['power'][0]:
            for acol in scn['power'][1]:
                if not any(joined(scn, reference(scn, x, b, win, mcol, acol), False)[0][1:] for x, bs in scn['train'] for b, win in bs):
                    return
    ac = {'pa': 'active', 'pp': 'apparent'}
    ctx.begin()
    for attempt in range(3):
        logs = {}
        methods = {}
        for s in scn['methods']:
            if s['kind'] == 'mean':
                methods[s['name']] = Mean({})
            else:
                logs[s['name']] = []
                methods[s['name']] = Method(s, scn['apps'], logs[s['name']])
        params = {'power': {'mains': [ac[c] for c in scn['power'][0]], 'appliance': [ac[c] for c in scn['power'][1]]}, 'sample_rate': p, 'appliances': list(scn['apps']), 'methods': methods,
                  'train': {'datasets': part(scn['train'])}, 'test': {'datasets': part(scn['test']), 'metrics': list(scn['metrics'])}, 'DROP_ALL_NANS': scn['drop'], 'artificial_aggregate': scn['art']}
        if chunk:
            params['chunk_size'] = chunk
        if site:
            params['site_only'] = True
        given = copy.deepcopy({k: v for k, v in params.items() if k != 'methods'})
        plane.arm([dict(scn['fault'])] if scn['fault'] and attempt == 0 else [])
        try:
            api = API(params)
        except (core.SimFault, core.SimHDFFault, core.SimInterrupt, MemoryError):
            if not plane.fired:
                raise
            plane.disarm()
            ctx.probe('read fault')
            ctx.step('failed')
            continue
        except Exception:
            if not plane.fired:
                raise
            plane.disarm()
            ctx.step('failed')
            continue
        finally:
            plane.disarm()
            plt.close('all')
        break
    else:
        ctx.check(False, 'no-progress', 'the experiment fails without faults')
    if attempt:
        ctx.probe('repeated after failure')
    ctx.check({k: v for k, v in params.items() if k != 'methods'} == given and list(params['methods']) == [s['name'] for s in scn['methods']], 'parameters-changed', 'the experiment changed its parameters')
    for s in scn['methods']:
        if s.get('epochs'):
            ctx.check(methods[s['name']].n_epochs == s['epochs'], 'method-changed', lambda: 'n_epochs is %r' % methods[s['name']].n_epochs)
    ctx.step('experiment', chunk, p, scn['train'], scn['test'], scn['apps'], scn['art'], scn['drop'], site)
    ctx.probe('chunks' if chunk else 'joint')
    for tag, c in (('artificial aggregate', scn['art']), ('several datasets', len(scn['train']) > 1), ('several buildings', any(len(b) > 1 for _, b in scn['train'])), ('site only', site), ('two AC types', len(scn['power'][0]) > 1 or len(scn['power'][1]) > 1),
                   ('unknown metric', 'nonsense' in scn['metrics']), ('nothing dropped', not scn['drop']), ('period of a coarser grid', p > scn['base']), ('pretrained', any(s.get('pretrained') for s in scn['methods'])),
                   ('epochs', any(s.get('epochs') for s in scn['methods'])), ('method without chunks', chunk and any(s.get('chunks') is False for s in scn['methods'])),
                   ('split mains', any(m.get('site') for w in scn['worlds'] for b in w['buildings'] for m in b['meters'][1:])), ('appliance on two meters', any(b.get('multi') for w in scn['worlds'] for b in w['buildings'])),
                   ('second instance not used', any([scn['apps'][0], 2] in m.get('apps', []) for w in scn['worlds'] for b in w['buildings'] for m in b['meters'])),
                   ('across clock change', any(t is not None and tzs[x] == 'Europe/London' and t < 7606800 < 10 ** 9 for x, bs in scn['train'] for b, win in bs for t in win[:1]) and scn['worlds'][0]['buildings'][0]['meters'][0]['data']['t0'] > 10 ** 6)):
        if c:
            ctx.probe(tag)

    # ---- which of the requested AC types was used must not vary
    cand = [(a, b) for a in scn['power'][0] for b in scn['power'][1]]
    problems = []
    for mcol, acol in cand:
        try:
            verify(scn, ctx, api, logs, mcol, acol)
            break
        except core.Violation as v:
            problems.append(v)
    else:
        raise problems[0]
    ctx.check(content() == before, 'data-changed', 'the experiment changed the data set')
    left = [f for f in paths if any(getattr(h, 'filename', '') == f for h in list(tables.file._open_files.handlers))]
    if not attempt:
        ctx.check(not left, 'left-open', 'data sets are still open after the experiment')


def verify(scn, ctx, api, logs, mcol, acol):
    chunk, p, site = scn['chunk'], scn['p'], scn['site']
    test_refs = [(x, b, reference(scn, x, b, win, mcol, acol)) for x, bs in scn['test'] for b, win in bs]
    train_refs = [(x, b, reference(scn, x, b, win, mcol, acol)) for x, bs in scn['train'] for b, win in bs]

    def equal(a, b):
        return len(a) == len(b) and np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-5, atol=1e-3)

    def compare(what, mains, apps, ref, whole, siteonly=False):
        t, mv, av = joined(scn, ref, siteonly)
        if whole:        # loaded in one piece: without the reading at the end of a group
            t, mv, av = joined(scn, (ref[3], ref[4]) + ref[2:], siteonly)
        got = [int(q) for q in S.instants(mains)] if len(mains) else []
        ctx.check(mains.shape[1] == 1 or not got, 'wrong-columns', lambda: '%s: columns of the mains %r' % (what, list(mains.columns)))
        for a, df in apps or []:
            ctx.check([int(q) for q in S.instants(df)] == got if len(df) else not got, 'not-aligned', lambda: '%s: %s' % (what, a))
        if whole:
            ctx.check(got == t, 'wrong-instants', lambda: '%s: at %r, expected %r' % (what, got, t))
        pos = {q: i for i, q in enumerate(t)}
        ctx.check(all(q in pos for q in got) and got == sorted(set(got)), 'wrong-instants', lambda: '%s: at %r, of %r' % (what, got, t))
        use = [whole or q in ref[2] for q in got]     # in parts, what is filled may differ
        ix = [pos[q] for q, u in zip(got, use) if u]
        ctx.check(equal(mains.values.flatten()[use] if got else [], [mv[i] for i in ix]), 'wrong-mains', lambda: '%s: %r, expected %r' % (what, list(zip(got, mains.values.flatten().tolist())), [mv[i] for i in ix]))
        for j, (a, df) in enumerate(apps or []):
            ctx.check(equal(df.values.flatten()[use] if got else [], [av[j][i] for i in ix]), 'wrong-appliance', lambda: '%s, %s: %r, expected %r' % (what, a, list(zip(got, df.values.flatten().tolist())), [av[j][i] for i in ix]))
        return got

    def covered(what, used, ref, siteonly=False):
        t, _, _ = joined(scn, ref, siteonly)
        firm = (set(t) & ref[2]) if not siteonly else set(t) & ref[2]
        ctx.check(len(used) == len(set(used)), 'used-twice', lambda: '%s: %r' % (what, sorted(q for q in used if used.count(q) > 1)))
        miss = sorted(firm - set(used))
        ctx.check(not miss, 'data-lost', lambda: '%s: %d of %d instants not used: %r' % (what, len(miss), len(firm), miss))
        if len(t) >= 10:
            ctx.nontrivial = True

    def partitions(calls, refs, get, what, siteonly=False):
        """The ways to give each call to the building whose data it has, in the order of refs"""
        at = []
        for c in calls:
            df = get(c)[0]
            at.append([int(q) for q in S.instants(df)] if len(df) else [])
        err = {}

        def fits(i, j):
            if (i, j) not in err:
                try:
                    compare(what, *get(calls[i]), refs[j][2], False, siteonly)
                    err[i, j] = None
                except core.Violation as v:
                    err[i, j] = v
            return err[i, j] is None
        out, why = [], []

        def search(j, i, sofar):
            if len(out) >= 500:
                return
            if j == len(refs):
                if i == len(calls):
                    out.append(sofar)
                else:
                    why.append((i, core.Violation('used-twice', '%s: call %d of %d belongs to no building, its instants are %r' % (what, i, len(calls), at[i]))))
                return
            x, b, ref = refs[j]
            used = []
            k = i
            while True:
                try:
                    covered('%s on %d/%d' % (what, x, b), used, ref, siteonly)
                    search(j + 1, k, sofar + [(x, b, ref, used[:], calls[i:k])])
                except core.Violation as v:
                    why.append((k, v))
                if k == len(calls):
                    break
                if not fits(k, j):
                    why.append((k + .5, err[k, j]))
                    break
                if at[k] and used and at[k][0] <= used[-1]:
                    why.append((k + .5, core.Violation('used-twice', '%s on %d/%d: %r after %r' % (what, x, b, at[k], used))))
                    break
                used += at[k]
                k += 1
        search(0, 0, [])
        if not out:
            raise max(why, key=lambda w: w[0])[1]
        return out

    def errors(cs, s):
        keys, want = [], []
        for x, b, ref, used, mine in cs:
            t, mv, av = joined(scn, ref, False)
            pos = {q: i for i, q in enumerate(t)}
            for n, c in enumerate(mine):
                got = [int(q) for q in S.instants(c[1][0])] if len(c[1][0]) else []
                if not got:
                    continue
                for metric in scn['metrics']:
                    if metric == 'nonsense':
                        continue
                    keys.append('SIM%d_%d%s_%s' % (x, b, '_%d' % n if chunk else '', metric))
                    e = []
                    for j, a in enumerate(scn['apps']):
                        if chunk and any(q not in ref[2] for q in got):
                            e.append(None)          # some of the truth is filled
                            continue
                        g = np.asarray([av[j][pos[q]] for q in got], 'float32')
                        q = predict(c[1][0].values.flatten(), j, s['k'])
                        e.append(numbers(metric, g, q.astype('float32')))
                    want.append(e)
        ctx.check(api.errors_keys == keys, 'wrong-keys', lambda: '%r, expected %r' % (api.errors_keys, keys))
        for key, df, e in zip(keys, api.errors, want):
            ctx.check(list(df.columns) == [q['name'] for q in scn['methods']] and sorted(df.index) == sorted(scn['apps']), 'wrong-shape', lambda: repr(df))
            got = [float(df.loc[a, s['name']]) for a in scn['apps']]
            ctx.log(key, s['name'], B.canon(got, 5))
            ctx.check(all(y is None or np.isclose(x, y, rtol=2e-3, atol=1e-3, equal_nan=True) for x, y in zip(got, e)), 'wrong-error', lambda: '%s of %s: %r, expected %r' % (key, s['name'], got, e))

    for s in scn['methods']:
        if s['kind'] == 'mean':
            continue
        calls = logs[s['name']]
        fits = [c for c in calls if c[0] == 'fit']
        tests = [c for c in calls if c[0] == 'test']
        ctx.check(all(c[0] == 'fit' for c in calls[:len(fits)]), 'order', 'a method was tested before it was trained')
        if s.get('pretrained'):
            ctx.check(not fits, 'trained-although-pretrained', s['name'])
        elif chunk and s.get('chunks', True):
            ep = s.get('epochs') or 1
            for c in fits:
                ctx.check(len(c[1]) == 1 and [a for a, _ in c[2]] == scn['apps'] and all(len(l) == 1 for _, l in c[2]), 'wrong-shape', repr(c))
            for e in range(ep):
                mine = [c for c in fits if c[3] == e]
                for x, b, ref, used, cs in partitions(mine, train_refs, lambda c: (c[1][0], [(a, l[0]) for a, l in c[2]]), '%s trained, epoch %d' % (s['name'], e))[0]:
                    if len(cs) > 1:
                        ctx.probe('several parts')
            ctx.check(all(c[3] < ep for c in fits), 'wrong-epoch', repr([c[3] for c in fits]))
            ctx.log(s['name'], len(fits), [[int(q) for q in S.instants(c[1][0])] if len(c[1][0]) else [] for c in fits])
        else:
            ctx.check(len(fits) == 1, 'wrong-shape', '%d calls of partial_fit' % len(fits))
            _, mains, apps, _ = fits[0]
            ctx.check(len(mains) == len(train_refs) and [a for a, _ in apps] == scn['apps'] and all(len(l) == len(train_refs) for _, l in apps), 'wrong-shape', lambda: repr(fits))
            for k, (x, b, ref) in enumerate(train_refs):
                used = compare('%s trained on %d/%d' % (s['name'], x, b), mains[k], [(a, l[k]) for a, l in apps], ref, True)
                if len(used) < len(ref[0]):
                    ctx.probe('gaps dropped')
                if len(used) >= 10:
                    ctx.nontrivial = True
                if any(not a for a in ref[1]):
                    ctx.probe('appliance without data')
                ctx.log(s['name'], x, b, used, B.canon(mains[k].values.flatten(), 5))

        # tests: one call per building (or part of it)
        for c in tests:
            ctx.check(len(c[1]) == 1, 'wrong-shape', repr(c))
        if chunk:
            ways = partitions(tests, test_refs, lambda c: (c[1][0], None), '%s tested' % s['name'], site)
        else:
            ctx.check(len(tests) == len(test_refs), 'wrong-shape', '%d tests of %d buildings' % (len(tests), len(test_refs)))
            ways = [[]]
            for c, (x, b, ref) in zip(tests, test_refs):
                used = compare('%s tested on %d/%d' % (s['name'], x, b), c[1][0], None, ref, True, site)
                ways[0].append((x, b, ref, used, [c]))
        if site:
            continue
        for w in ways:
            try:
                errors(w, s)
                break
            except core.Violation as v:
                last = v
        else:
            raise last

    # Mean: its prediction is the average of what it was trained on
    for s in scn['methods']:
        if s['kind'] == 'mean' and not site and not chunk and api.pred_overall:
            pred = api.pred_overall.get('Mean')
            for j, a in enumerate(scn['apps']):
                v = [y for x, b, ref in train_refs for y in joined(scn, ref, False)[2][j]]
                if v and pred is not None and len(pred):
                    ctx.check(np.allclose(pred[a].values, np.mean(v), rtol=1e-4, atol=1e-3), 'wrong-mean', lambda: '%s: %r, expected %r' % (a, pred[a].values[0], np.mean(v)))
