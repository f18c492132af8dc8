"""C12: what a disaggregation method predicts for a table depends on its training and that table only."""
import json
import os

import numpy as np
import pandas as pd

import core
import faults

ID = 'C12'
RUNS = {'quick': 300, 'thorough': 8000}
RULE = ('a run is a seeded history of 5-16 operations (train, predict, save, load, restart, draws from the shared random number generator) interleaved over 1-4 instances of Mean, CO, FHMMExact and Hart85, with failing, torn and crashing writes of models; '
        'every prediction is compared with that of the same method alone in a process of its own, and with a direct computation; non-trivial when two predictions of a trained method were compared; distinct by history')
REAL = ['Mean, CO, FHMMExact, Hart85', 'feature_detectors.cluster, steady_states', 'utils.find_nearest', 'scikit-learn', 'hmmlearn', 'json model files']
STUB = ['readings are generated tables, not loaded from a store', 'text files at the level of open/write (torn and lost writes)']
ASSUME = ['training of a method starts from a given state of the random number generator', 'FHMM and Hart85 are trained on appliances which switch on and off']
PROBES = ['Mean', 'CO', 'FHMM', 'Hart85', 'several instances', 'several tables', 'empty table', 'missing readings', 'trained twice', 'split differently', 'saved and loaded', 'write fault', 'torn model refused', 'old model kept', 'crash', 'order of tables', 'no event', 'single reading', 'random numbers drawn', 'pretrained']
SHRINK = ('ops', 'tables', 'apps', 'nan', 't', 'insts')
KINDS = ['Mean', 'CO', 'FHMM', 'Hart85']
NAMES = ['fridge', 'kettle', 'television']


def gen(rng, tier):
    napp = rng.randint(1, 3)
    tables = []
    levels = rng.sample([150, 300, 600, 1100, 2000], napp)
    for x in range(rng.randint(3, 7)):
        n = rng.choice([0, 1, 2, 12, 40, 70, 70, 100])
        tables.append({'n': n, 't0': rng.randint(0, 50) * 60, 'step': rng.choice([6, 60]), 'flat': rng.choice([0, 0, 0, 0, 1, 30]), 'noise': rng.choice([0, 0, 3]), 'nan': rng.choice([0, 0, 0, 3, 5]), 'seed': rng.randint(0, 99),
                       'apps': [[levels[j] + rng.choice([0, 0, 5, 40]), rng.randint(3, 9), rng.randint(3, 9), rng.randint(0, 5)] for j in range(napp)]})
    tables.append({'n': 80, 't0': 0, 'step': 60, 'flat': 0, 'noise': 0, 'nan': 0, 'seed': 1, 'apps': [[levels[j], 4 + j, 5 + 2 * j, j] for j in range(napp)]})
    insts = [rng.choice(KINDS + ['Mean', 'CO']) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    ops = [{'o': 'fit', 'i': i, 't': [len(tables) - 1]} if k in ('FHMM', 'Hart85') or rng.chance(.5) else {'o': 'fit', 'i': i, 't': [rng.randrange(len(tables)) for _ in range(rng.randint(1, 3))]} for i, k in enumerate(insts)]
    rng.shuffle(ops)
    for _ in range(rng.randint(4, 13)):
        i = rng.randrange(len(insts))
        k = insts[i]
        o = rng.weighted([('pred', 6), ('fit', 1.5), ('noise', .7), ('save', 1.5 if k == 'Mean' else 0), ('load', 1.5 if k == 'Mean' else 0)])
        op = {'o': o, 'i': i}
        if o in ('pred', 'fit'):
            op['t'] = [rng.randrange(len(tables)) for _ in range(rng.choice([1, 1, 2, 3]))]
        if o == 'pred':
            op['split'] = rng.choice([0, 0, 0, 1, 5, 30])
        if o == 'noise':
            op['n'] = rng.randint(1, 50)
        if o == 'save':
            op['d'] = rng.randint(0, 1)
            if rng.chance(.5):
                op['fault'] = {'site': rng.choice(['*', 'fs.write', 'fs.open']), 'nth': rng.choice([1, 1, 2]), 'kind': rng.choice(['eio', 'enospc', 'crash', 'intr'])}
        if o == 'load':
            op['d'] = rng.randint(0, 1)
            if rng.chance(.2):
                op['fault'] = {'site': rng.choice(['fs.read', 'fs.open']), 'nth': 1, 'kind': rng.choice(['eio', 'intr'])}
        ops.append(op)
    return {'tables': tables, 'insts': insts, 'ops': ops, 'cut': rng.choice([0, 30, 70, 99]), 'iobuf': rng.choice([16, 64, 512]), 'auto': rng.chance(.25)}


def valid(s):
    if not s['tables'] or not s['insts']:
        return False
    k = {len(t['apps']) for t in s['tables']}
    if len(k) != 1 or k == {0} or any(a[1] < 3 or a[2] < 3 or a[0] < 150 or len(a) != 4 for t in s['tables'] for a in t['apps']):
        return False
    if any(abs(a[0] - b[0]) < 100 for t in s['tables'] for i, a in enumerate(t['apps']) for b in t['apps'][:i]):
        return False
    return all(o['i'] < len(s['insts']) and all(x < len(s['tables']) for x in o.get('t', [])) and (o['o'] not in ('fit', 'pred') or o['t']) for o in s['ops'])


def values(t, nan=False):
    """-> instants, readings of each appliance, mains"""
    i = np.arange(t['n'])
    a = np.array([np.where((i + p) % (on + off) < on, float(lv), 0.) for lv, on, off, p in t['apps']])
    if t['flat']:
        a = np.zeros_like(a)
    r = np.random.RandomState(t['seed'])
    m = a.sum(axis=0) + t['flat'] + (r.randint(0, t['noise'] + 1, t['n']) if t['noise'] else 0)
    if nan and t['nan']:
        a[:, ::t['nan']] = np.nan
    return t['t0'] + i * t['step'], a, m


def table(sec, v, cols=('power', 'active')):
    ix = pd.DatetimeIndex(pd.to_datetime(np.asarray(sec) + 1388534400, unit='s')).tz_localize('UTC')
    return pd.DataFrame(np.asarray(v, float).reshape(-1, 1), index=ix, columns=pd.MultiIndex.from_tuples([cols], names=['physical_quantity', 'type']))


def new(kind, params):
    from nilmtk.disaggregate import Mean, CO, FHMMExact, Hart85
    return {'Mean': Mean, 'CO': CO, 'FHMM': FHMMExact, 'Hart85': Hart85}[kind](params)


def names(s):
    return NAMES[:len(s['tables'][0]['apps'])]


def train_tables(s, kind, op):
    """What an operation trains on.  FHMM and Hart85 need appliances which switch; Hart85 learns from one table."""
    ts = [s['tables'][x] for x in op['t']]
    if kind in ('FHMM', 'Hart85'):
        ts = [t for t in ts if t['n'] >= 40 and not t['flat'] and not (kind == 'Hart85' and (t['n'] < 70 or t['noise'] or not pairs(t)))] or [s['tables'][-1]]
        if any(t['n'] < 40 or t['flat'] or (kind == 'Hart85' and not pairs(t)) for t in ts):
            return None
    out = [values(t, kind == 'Mean') for t in ts]
    return out[:1] if kind == 'Hart85' else out


def pairs(t):
    """Does an appliance switch on and off again with nothing else happening around either?"""
    _, a, _ = values(t)
    d = np.diff(a, axis=1)
    e = np.nonzero(d.any(axis=0))[0]
    for j in range(len(a)):
        on = False
        for i in np.nonzero(d[j])[0]:
            lone = np.sum(np.abs(e - i) <= 3) == 1 and 3 < i < t['n'] - 5
            if d[j, i] > 0:
                on = lone
            elif on and lone:
                return True
    return False


def fit(clf, s, kind, op):
    tr = train_tables(s, kind, op)
    if tr is None:
        return None
    np.random.seed(op['t'][0] + 1000 * len(op['t']))
    mains = [table(t, m) for t, a, m in tr]
    apps = [(n, [table(t, a[j]) for t, a, m in tr]) for j, n in enumerate(names(s))]
    keep = [x.copy() for x in mains], [(n, [x.copy() for x in l]) for n, l in apps]
    clf.partial_fit(mains, apps)
    same = all(x.equals(y) for x, y in zip(mains, keep[0])) and all(a == b and all(x.equals(y) for x, y in zip(l, q)) for (a, l), (b, q) in zip(apps, keep[1]))
    return same


def test_tables(s, op):
    out = []
    for x in op['t']:
        t, a, m = values(s['tables'][x])
        k = op.get('split') or 0
        cuts = list(range(0, len(t), k)) if k else [0]
        out += [(t[c:c + k], m[c:c + k]) if k else (t, m) for c in (cuts or [0])]
    return out


def predict(clf, s, op):
    """-> [[seconds, {appliance: values}]], [mains], were the tables left alone"""
    tt = test_tables(s, op)
    given = [table(t, m) for t, m in tt]
    keep = [x.copy() for x in given]
    res = clf.disaggregate_chunk(given)
    same = len(given) == len(keep) and all(x.equals(y) for x, y in zip(given, keep))
    return [[[int(q.timestamp()) - 1388534400 if hasattr(q, 'timestamp') else repr(q) for q in r.index], {str(c): [float(v) for v in r[c].values] for c in r.columns}] for r in res], [[int(q) for q in t] for t, _ in tt], same


def warm():
    import nilmtk.disaggregate      # noqa
    import sklearn.cluster          # noqa
    import hmmlearn.hmm             # noqa


def run(s, ctx):
    plane = faults.PLANE
    plane.start(ctx)
    apps = names(s)
    insts = {}
    hist = {}          # operations which made each instance what it is
    mean = {}          # what a Mean was trained on: {app: [readings]}
    disk = {0: [None], 1: [None]}     # what a model directory may hold: histories, None: nothing
    loose = set()
    todo = []          # comparisons with a process of its own
    for i, k in enumerate(s['insts']):
        insts[i] = new(k, {'save-model-path': ctx.path('auto%d' % i)} if s['auto'] and k == 'Mean' else {})
        hist[i] = []
        ctx.probe(k)
    if len(insts) > 1:
        ctx.probe('several instances')
    ctx.begin()
    for n, op in enumerate(s['ops']):
        i, o = op['i'], op['o']
        k, clf = s['insts'][i], insts[i]
        ctx.step(o, i, op.get('t'), op.get('split'), op.get('fault'))
        if o == 'noise':
            np.random.rand(op['n'])
            ctx.probe('random numbers drawn')
        elif o == 'fit':
            if train_tables(s, k, op) is None:
                continue
            same = fit(clf, s, k, op)
            ctx.check(same, 'input-changed', '%s changed the tables it was trained on' % k)
            if hist[i]:
                ctx.probe('trained twice')
            hist[i] = hist[i] + [op]
            if any(s['tables'][x]['nan'] for x in op['t']) and k == 'Mean':
                ctx.probe('missing readings')
        elif o == 'save':
            if not hist[i] or i in loose:
                continue
            d = ctx.path('model%d' % op['d'])
            plane.arm([op['fault']] if op.get('fault') else [])
            try:
                clf.save_model(d)
                ctx.check(not [f for f in plane.fired if f[1] != 'crash'], 'fault-swallowed', lambda: 'save_model reported success after %r' % plane.fired)
                if plane.dead:
                    raise core.SimCrash
                disk[op['d']] = [hist[i]]
            except (core.SimFault, core.SimInterrupt):
                ctx.check(plane.fired, 'exception', 'save_model')
                ctx.probe('write fault')
                disk[op['d']] = disk[op['d']] + [hist[i], 'torn']
            except core.SimCrash:
                ctx.probe('crash')
                disk[op['d']] = disk[op['d']] + [hist[i], 'torn']
                # the process is gone; what it knew is gone too
                plane.restart()
                for j, q in enumerate(s['insts']):
                    insts[j] = new(q, {})
                    hist[j] = []
                loose = set()
            plane.disarm()
        elif o == 'load':
            d = ctx.path('model%d' % op['d'])
            plane.arm([op['fault']] if op.get('fault') else [])
            try:
                clf = new('Mean', {'pretrained-model-path': d})
            except (core.SimFault, core.SimInterrupt):
                ctx.check(plane.fired, 'exception', 'load_model')
                plane.disarm()
                continue
            except Exception as e:
                plane.disarm()
                ctx.check('torn' in disk[op['d']] or None in disk[op['d']], 'model-lost', lambda: 'a saved model cannot be loaded: %r' % e)
                ctx.probe('torn model refused')
                disk[op['d']] = [x for x in disk[op['d']] if x in ('torn', None)]
                continue
            ctx.check(not plane.fired, 'fault-swallowed', lambda: 'load_model reported success after %r' % plane.fired)
            plane.disarm()
            cand = [x for x in disk[op['d']] if isinstance(x, list)]
            ctx.check(cand, 'wrong-model', 'a model was loaded which nobody saved')
            full = {'o': 'pred', 'i': i, 't': list(range(len(s['tables'])))}
            ok = []
            for x in cand:
                try:
                    direct('Mean', s, x, full, predict_or_none(clf, s, full), ctx)
                    ok.append(x)
                except core.Violation as v:
                    last = v
            if not ok:
                raise core.Violation('wrong-model', 'the model loaded is none of those saved: %s' % last.detail)
            insts[i] = clf
            hist[i] = ok[-1]
            disk[op['d']] = ok[-1:]
            ctx.probe('saved and loaded')
            ctx.probe('pretrained')
            if len(cand) > 1 and ok[0] is cand[0]:
                ctx.probe('old model kept')
        elif o == 'pred':
            if not hist[i]:
                continue
            try:
                got, tt, same = predict(clf, s, op)
            except ZeroDivisionError:
                if k == 'Mean' and unseen(s, hist[i]):
                    continue
                raise
            ctx.check(same, 'input-changed', '%s changed the mains' % k)
            ctx.check(len(got) == len(tt), 'wrong-number', lambda: '%s: %d predictions for %d tables' % (k, len(got), len(tt)))
            for (t, cols), want in zip(got, tt):
                ctx.check(t == want, 'wrong-index', lambda: '%s: %r, expected %r' % (k, t, want))
                ctx.check(sorted(cols) == sorted(apps), 'wrong-columns', lambda: '%s: %r' % (k, sorted(cols)))
            direct(k, s, hist[i], op, got, ctx, clf)
            todo.append((i, k, list(hist[i]), op, got))
            for x in op['t']:
                t = s['tables'][x]
                ctx.probe('empty table' if not t['n'] else 'single reading' if t['n'] == 1 else 'no event' if t['flat'] else 'several tables' if len(tt) > 1 else 'order of tables' if len(op['t']) > 1 else k)
            if op.get('split'):
                ctx.probe('split differently')
            ctx.log('answer', k, [[len(t), {c: np.round(v, 3).tolist()[:4] for c, v in sorted(cols.items())}] for t, cols in got])

    # ---- the same alone, in a process of its own, each table by itself
    for i, k, h, op, got in todo:
        def alone():
            clf = new(k, {})
            for x in h:
                fit(clf, s, k, x)
            out = []
            for t, m in test_tables(s, op):
                out += clf.disaggregate_chunk([table(t, m)])
            return [{str(c): [float(v) for v in r[c].values] for c in r.columns} for r in out]
        ref = core.in_fork(alone)
        ctx.check(ref[0] == 'ok', 'fails-alone', lambda: ref[-1])
        for x, ((t, cols), want) in enumerate(zip(got, ref[1])):
            ctx.check(sorted(cols) == sorted(want) and all(np.allclose(cols[c], want[c], rtol=1e-6, atol=1e-6) for c in cols), 'depends-on-history', lambda: '%s, table %d of %r: %r, alone %r' % (k, x, op, cols, want))
    if len(todo) >= 2:
        ctx.nontrivial = True


def predict_or_none(clf, s, op):
    try:
        return predict(clf, s, op)[0]
    except ZeroDivisionError:
        return None


def seen(s, h):
    acc = [[] for _ in names(s)]
    for op in h:
        for t, a, m in train_tables(s, 'Mean', op):
            for j in range(len(acc)):
                acc[j] += [v for v in a[j] if v == v]
    return acc


def unseen(s, h):
    return any(not v for v in seen(s, h))


def direct(k, s, h, op, got, ctx, clf=None):
    apps = names(s)
    tt = test_tables(s, op)
    if k == 'Mean':
        acc = seen(s, h)
        if got is None:
            ctx.check(any(not v for v in acc), 'wrong-prediction', 'Mean cannot predict')
            return
        for (t, cols), (_, m) in zip(got, tt):
            for j, a in enumerate(apps):
                ctx.check(np.allclose(cols[a], np.mean(acc[j]), rtol=1e-5, atol=1e-6), 'wrong-prediction', lambda: 'Mean of %s: %r, expected %r' % (a, cols[a][:3], np.mean(acc[j])))
    elif k == 'CO':
        states = {q['appliance_name']: np.asarray(q['states'], float) for q in clf.model}
        ctx.check(sorted(states) == sorted(apps) and all(0 in v for v in states.values()), 'wrong-model', lambda: repr(states))
        sums = np.zeros(1)
        for a in apps:
            sums = (sums[:, None] + states[a][None, :]).ravel()
        for (t, cols), (_, m) in zip(got, tt):
            tot = np.sum([cols[a] for a in apps], axis=0)
            ctx.check(all(np.isin(cols[a], states[a]).all() for a in apps), 'wrong-prediction', lambda: 'CO predicts %r, the states are %r' % (cols, states))
            best = np.min(np.abs(sums[None, :] - m[:, None]), axis=1) if len(m) else np.zeros(0)
            ctx.check(np.allclose(np.abs(tot - m), best, atol=1e-3), 'wrong-prediction', lambda: 'CO: %r for mains of %r, off by %r, possible %r' % (cols, list(m), list(np.abs(tot - m)), list(best)))
    elif k == 'FHMM':
        means = {a: np.sort(np.round(q.means_.flatten())) for a, q in clf.individual.items()}
        for (t, cols), (_, m) in zip(got, tt):
            if not len(m):
                continue
            ctx.check(all(np.isin(cols[a], means[a]).all() for a in apps), 'wrong-prediction', lambda: 'FHMM predicts %r, the states are %r' % (cols, means))
            st = clf.model.predict(np.asarray(m, float).reshape(-1, 1))
            tot = np.sum([cols[a] for a in apps], axis=0)
            want = clf.model.means_.flatten()[st]
            ctx.check(np.all(np.abs(tot - want) <= .51 * len(apps)), 'wrong-prediction', lambda: 'FHMM: %r, the combined state has %r' % (cols, list(want)))
    elif k == 'Hart85':
        cen = np.concatenate([[0], np.asarray(clf.centroids.values, float).ravel()])
        for (t, cols), (_, m) in zip(got, tt):
            ctx.check(all(np.min(np.abs(cen - int(v))) < 1 for a in apps for v in cols[a]), 'wrong-prediction', lambda: 'Hart85 predicts %r, the states are %r' % (cols, cen))
