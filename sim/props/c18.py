"""C18: metrics of a disaggregation compare what was predicted with what was measured, at the same instants."""
import copy
import itertools
import math

import numpy as np

import bld as B
import c07
import core
import faults
import streams as S
import world as W

ID = 'C18'
RUNS = {'quick': 500, 'thorough': 9000}
RULE = ('a run writes two data sets, predictions and ground truth, which share some meters but not gaps, extents, sample periods or limits, and asks 3-8 metrics of them, with windows set on either of them in between and some failing reads; '
        'each metric is compared with a direct computation on the generated samples; non-trivial when a metric compared at least two good sections or was limited by a window; distinct by queries, worlds and faults')
REAL = ['nilmtk metrics', 'MeterGroup', 'ElecMeter', 'good sections, energy and preprocessing', 'HDFDataStore', 'scikit-learn', 'pandas', 'PyTables', 'HDF5']
STUB = ['nilm_metadata']
ASSUME = ['each submeter of the predictions has samples and shares instants with the ground truth', 'a metric whose denominator is zero is not asked', 'whether the last sample of a good section counts is left open']
PROBES = ['energy', 'fraction', 'mne', 'rms', 'f1', 'several sections', 'short section', 'windowed', 'other period', 'fewer predictions', 'limits', 'read fault', 'no overlap in a section', 'sum over phases', 'parts']
SHRINK = ('ops', 'meters', 'gaps')


def gen(rng, tier):
    cols = rng.choice([['pa'], ['pa'], ['pp'], ['pa', 'pr'], ['pr', 'pp']])
    step = rng.choice([6, 60])
    n = rng.randint(12, 60)
    kind = rng.choice(['rand', 'onoff', 'onoff'])
    g = B.gen_world(rng, n_sub=rng.randint(1, 4), n=n, cols=cols, step=step, tz=rng.choice(['UTC', 'Europe/London', 'America/New_York']), t0s=(0, 0, step * 2), kind=kind, name='SIM')
    p = copy.deepcopy(g)
    p['name'] = 'CO'
    if rng.chance(.3):
        p['tz'] = rng.choice(['UTC', 'Asia/Kolkata'])
    rate = rng.choice([1, 1, 1, 2, 3]) if rng.chance(.4) else 1
    for m in g['buildings'][0]['meters']:
        if m['i'] > 1:
            m['apps'][0][2:] = [{'on_power_threshold': rng.choice([10, 50, 101, 700])}]
        if rng.chance(.2):
            m['hi'], m['lo'] = rng.choice([50, 500, 1000]), rng.choice([0, 10])
        m['period'] = step
        m['max'] = step * rng.choice([1, 1, 2, 5])
        if rate > 1:
            d = m['data']
            d['step'] = m['period'] = step // rate
            d['n'] = d['n'] * rate
            d['gaps'] = [[i * rate, e] for i, e in d['gaps']]
            m['max'] = m['period'] * rng.choice([1, 2])
    for m in p['buildings'][0]['meters']:
        d = m['data']
        if m['i'] > 1:
            m['apps'][0][2:] = [{'on_power_threshold': rng.choice([10, 50, 101, 700])}]
        d['vseed'] += rng.choice([0, 1, 100])
        d['level'] = rng.choice([20, 100, 1500])
        m['period'] = step
        m['max'] = step * rng.choice([1, 1, 1, 2, 5])
        if rng.chance(.6):
            d['gaps'] = [[rng.randint(1, d['n'] - 1), step * rng.choice([1, 3, 30])] for _ in range(rng.randint(0, 4))]
            if rng.chance(.5):
                k = rng.randint(2, d['n'] - 3)      # a good section of two samples
                d['gaps'] += [[k, step * 10], [k + 2, step * 10]]
        if rng.chance(.3):
            d['t0'] += step * rng.choice([1, 4])
            d['n'] = max(6, d['n'] - rng.randint(0, 10))
        if rng.chance(.1):
            m['hi'], m['lo'] = 500, 10
    ms = p['buildings'][0]['meters']
    if len(ms) > 2 and rng.chance(.3):
        ms.remove(rng.choice(ms[1:]))
    ops = []
    for _ in range(rng.randint(3, 8)):
        k = rng.weighted([('energy', 2), ('fraction', 1.5), ('mne', 2), ('rms', 2), ('f1', 2.5), ('window', 1)])
        op = {'k': k}
        if k == 'window':
            m = rng.choice((p if rng.chance(.6) else g)['buildings'][0]['meters'])
            op.update(on=rng.choice('pg'), win=S.gen_window(rng, W.seconds(m['data']), p=.9))
        else:
            op['whole'] = rng.chance(.5)
            if rng.chance(.12):
                op['fault'] = {'nth': rng.choice([1, 2, 3, 5, 8, 13, 21, 34]), 'site': '*', 'kind': rng.choice(['hdf', 'mem', 'intr', 'eio'])}
        ops.append(op)
    return {'p': p, 'g': g, 'ops': ops, 'parts': rng.choice([None, None, 5, 7, 20])}


def valid(s):
    a = {m['i']: m for m in s['p']['buildings'][0]['meters']}
    b = {m['i']: m for m in s['g']['buildings'][0]['meters']}
    if 1 not in a or 1 not in b or not set(a) <= set(b) or len(a) < 2 or not s['ops']:
        return False
    if any(m['data']['n'] < 4 or m['data']['step'] <= 0 or m['period'] != m['data']['step'] or m['max'] < m['period'] for m in list(a.values()) + list(b.values())):
        return False
    return all(a[i]['period'] % b[i]['period'] == 0 for i in a) and all(0 < x[0] < m['data']['n'] for m in list(a.values()) + list(b.values()) for x in m['data']['gaps'])


# ---------------------------------------------------------------- reference

def power(r):
    return r.v[:, r.cols.index([c for c in ('pa', 'pp', 'pr') if c in r.cols][0])]       # limits are applied to energies only


def good(r, how):
    g = r.runs(None)
    return [q + ([True] if how == 'all' or (how == 'last' and i == len(g) - 1) else []) for i, q in enumerate(g)]


def binned(secs, x, p):
    out = {}
    for s, v in zip(secs, x):
        out.setdefault(s - s % p, []).append(v)
    return {b: sum(v) / len(v) for b, v in out.items()}


def aligned(rp, rg, how, closed):
    """[(predicted, measured)] of each good section of the prediction, as dicts by instant"""
    out = []
    xp, xg = power(rp), power(rg)
    for q in good(rp, how):
        for _, pos in rp.sections([q]):
            if len(pos) < 2:
                continue
            a, b = int(rp.secs[pos[0]]), int(rp.secs[pos[-1]])
            o = [x for _, ps in rg.sections([[a, b, closed]]) for x in ps]
            if not o:
                continue
            out.append((pos, o, xp, xg))
    return out


def expect(op, refs, hp, hg):
    """All admissible answers, or None where nothing is promised"""
    ids = sorted(i for i in refs['p'][True] if i != 1)
    gids = sorted(i for i in refs['g'][True] if i != 1)
    out = []
    for inc, how, closed, den in itertools.product((True, False), ('all', 'last', 'none'), (True, False), ('slave', 'common')):
        P, G = refs['p'][inc], refs['g'][inc]
        ans = {}
        if op['k'] == 'fraction':
            e = {'p': {i: P[i].energy(None, c07.pick(P[i].cols, {'ac_type': 'best'})) for i in ids}, 'g': {i: G[i].energy(None, c07.pick(G[i].cols, {'ac_type': 'best'})) for i in gids}}
            if any(not x for d in e.values() for x in d.values()):
                return None
            e = {k: {i: max(v.values()) for i, v in d.items()} for k, d in e.items()}
            t = {k: sum(d.values()) for k, d in e.items()}
            if not t['p'] or not t['g']:
                return None
            ans = {'all': sum(min(e['p'][i] / t['p'], e['g'][i] / t['g']) for i in ids)}
        else:
            for i in ids:
                rp, rg = P[i], G[i]
                if op['k'] == 'energy':
                    g = good(rp, how)
                    if not g:
                        return None
                    ea, eb = rp.energy(g), rg.energy(g)
                    if not ea or not eb:
                        return None
                    for ac in ea:
                        if ac in eb:
                            ans['%d %s' % (i, ac)] = abs(eb[ac] - ea[ac])
                    continue
                pairs = aligned(rp, rg, how, closed)
                a = n = d = 0.0
                sq = 0.0
                scores = []
                common = 0
                for pos, o, xp, xg in pairs:
                    if op['k'] == 'f1':
                        if rp.period != rg.period:
                            return None
                        xp, xg = (xp >= hp[i]).astype(float), (xg >= hg[i]).astype(float)
                    bp = binned(rp.secs[pos], xp[pos], rp.period)
                    bg = binned(rg.secs[o], xg[o], rp.period)
                    both = sorted(set(bp) & set(bg))
                    common += len(both)
                    a += sum(abs(bp[t] - bg[t]) for t in both)
                    sq += sum((bp[t] - bg[t]) ** 2 for t in both)
                    n += len(both)
                    d += sum(bg.values()) if den == 'slave' else sum(bg[t] for t in both)
                    tp = sum(1 for t in both if bp[t] and bg[t])
                    er = sum(1 for t in both if bool(bp[t]) != bool(bg[t]))
                    scores.append((2 * tp / (2 * tp + er) if tp else 0.0, len(both)))
                if not common:
                    return None
                if op['k'] == 'mne':
                    if not d:
                        return None
                    ans[str(i)] = a / d
                elif op['k'] == 'rms':
                    ans[str(i)] = math.sqrt(sq / n)
                else:
                    ans[str(i)] = sum(s * k for s, k in scores) / n
        out.append(ans)
    return out


# ---------------------------------------------------------------- the real thing

def ask(op, p, g):
    from nilmtk import metrics
    a, b = p.buildings[1].elec, g.buildings[1].elec
    if not op['whole']:
        a, b = a.submeters(), b.submeters()
    k = op['k']
    if k == 'fraction':
        return {'all': float(metrics.fraction_energy_assigned_correctly(a, b))}
    x = {'energy': metrics.error_in_assigned_energy, 'mne': metrics.mean_normalized_error_power, 'rms': metrics.rms_error_power, 'f1': metrics.f1_score}[k](a, b)
    if k == 'energy':
        out = {}
        for i, v in x.items():
            for ac, y in (v.items() if hasattr(v, 'items') else [('active', v)]):
                if not math.isnan(y):
                    out['%d %s' % (i, ac)] = float(y)
        return out
    return {str(i): float(v) for i, v in x.items()}


def close(a, b):
    return set(a) == set(b) and all(abs(a[k] - b[k]) <= 1e-5 * max(1e-3, abs(a[k]), abs(b[k])) for k in a)


def run(scn, ctx):
    plane = faults.PLANE
    plane.start(ctx)
    paths = {}
    for k in 'pg':
        paths[k] = ctx.path(k + '.h5')
        W.write_hdf(scn[k], paths[k])
    ms = {k: {m['i']: m for m in scn[k]['buildings'][0]['meters']} for k in 'pg'}
    ctx.data_s = sum(int(W.seconds(m['data'])[-1] - W.seconds(m['data'])[0]) for d in ms.values() for m in d.values())
    hp, hg = [{i: m['apps'][0][2]['on_power_threshold'] for i, m in ms[k].items() if i != 1} for k in 'pg']
    win = {'p': None, 'g': None}
    ctx.begin()
    ds = {k: B.open_dataset(paths[k]) for k in 'gp'}
    parts = scn['parts'] if scn['parts'] and all(ms['p'][i]['max'] == ms['p'][i]['period'] == ms['g'][i]['period'] for i in ms['p']) else None
    if parts:
        from nilmtk.datastore import HDFDataStore
        whole = HDFDataStore.load

        def load(self, key, *a, **k):
            k.setdefault('chunksize', parts)
            return whole(self, key, *a, **k)
        HDFDataStore.load = load
        ctx.probe('parts')
    if any('hi' in m for d in ms.values() for m in d.values()):
        ctx.probe('limits')
    if any(ms['p'][i]['period'] != ms['g'][i]['period'] for i in ms['p']):
        ctx.probe('other period')
    if len(ms['p']) < len(ms['g']):
        ctx.probe('fewer predictions')
    for op in scn['ops']:
        if op['k'] == 'window':
            win[op['on']] = op['win']
            ctx.step('window', op['on'], op['win'])
            ds[op['on']].set_window(*([None if x is None else S.ts(x, scn[op['on']]['tz']).tz_localize(None) for x in op['win']] if op['win'] is not None else [None, None]))
            continue
        refs = {k: {inc: {i: c07.Ref(m, win[k], inc) for i, m in ms[k].items()} for inc in (True, False)} for k in 'pg'}
        want = None if parts and op['k'] == 'f1' else expect(op, refs, hp, hg)
        if want is None:
            ctx.step('skip', op['k'])
            continue
        for attempt in range(3):
            f = op.get('fault')
            plane.arm([dict(f)] if f and attempt == 0 else [])
            try:
                got = ask(op, ds['p'], ds['g'])
            except (core.SimFault, core.SimHDFFault, core.SimInterrupt, MemoryError):
                if not plane.fired:
                    raise
                plane.disarm()
                ctx.probe('read fault')
                ctx.step('failed', op['k'])
                continue
            except Exception:
                if not plane.fired:
                    raise
                plane.disarm()
                continue
            plane.disarm()
            break
        else:
            ctx.check(False, 'no-progress', repr(op))
        ctx.step(op['k'], op['whole'], win)
        ctx.log(B.canon(got, 7))
        ctx.probe(op['k'])
        runs = [refs['p'][True][i].runs(None) for i in ms['p'] if i != 1]
        if any(len(r) > 1 for r in runs):
            ctx.probe('several sections')
            ctx.nontrivial = True
        if any(b - a == ms['p'][i]['period'] for r, i in zip(runs, [i for i in ms['p'] if i != 1]) for a, b in r):
            ctx.probe('short section')
        if win['p'] is not None or win['g'] is not None:
            ctx.probe('windowed')
            ctx.nontrivial = True
        ctx.check(any(close(got, x) for x in want), op['k'], lambda: '%r windows %r\nanswer   %r\nexpected %s' % (op, win, got, ' or '.join(sorted({repr(x) for x in want}))))
