"""C10: the window decides what every query sees, and nothing but what queries see."""
import hashlib

import numpy as np

import bld as B
import core
import faults
import queries as Q
import streams as S
import world as W

ID = 'C10'
RUNS = {'quick': 260, 'thorough': 8000}
RULE = ('a run is a seeded history of 5-12 steps over 1-2 datasets opened from one generated file: moves of the window (also to nothing, half-open, refused ones, as text), queries of 39 kinds and failing reads; each answer is compared with the '
        'answer of a fresh process to the same query under the same window on a file which differs in everything outside the window; non-trivial when data outside the window differed and a query answered; distinct by steps, world and faults')
REAL = ['nilmtk (DataSet, meters, groups, statistics, cache)', 'HDFDataStore', 'CSVDataStore', 'pandas', 'PyTables', 'HDF5']
STUB = ['nilm_metadata']
ASSUME = ['the twelve rows on either side of the window keep their times (not their values), since good sections look ahead', 'whole hours between the timezone and UTC']
PROBES = ['two datasets', 'window moved', 'window reset', 'window refused', 'half-open window', 'window as text', 'no data in the window', 'read fault', 'csv', 'statistic asked under another window before', 'across clock change', 'all data read at the end']
SHRINK = ('ops', 'sections', 'gaps', 'meters')


def gen(rng, tier):
    tz = rng.choice(['UTC', 'UTC', 'Europe/London', 'America/New_York'])
    step = rng.choice([5, 6, 60])
    zero = rng.choice([0, 0, 3600, 7606800 - 60 * step])
    ms = []
    for i in range(1, rng.randint(2, 4) + 1):
        n = rng.randint(60, 160)
        m = B.gen_meter(rng, i, site=(i == 1 or (i == 2 and rng.chance(.15))), of=1, cols=rng.choice([['pa'], ['pa'], ['pa', 'pr'], ['ea'], ['ca', 'pa']]) if i > 1 else rng.choice([['pa'], ['pa', 'v'], ['pa', 'pp']]),
                        step=step, n=n, t0=zero + step * rng.choice([0, 0, 5, 40]), kind=rng.choice(['rand', 'onoff']))
        if 'site' not in m:
            m['apps'] = [[B.APPS[i], 1]]
        ms.append(m)
    w = {'name': 'SIM', 'tz': tz, 'dtype': rng.choice(['float64', 'float32']), 'buildings': [{'i': 1, 'meters': ms}]}
    lo = min(int(W.seconds(m['data'])[0]) for m in ms)
    hi = max(int(W.seconds(m['data'])[-1]) for m in ms)
    nds = rng.choice([1, 1, 2])
    ops = []
    for _ in range(rng.randint(5, 12)):
        d = rng.randint(0, nds - 1)
        if rng.chance(.3) or not ops:
            s = W.seconds(rng.choice(ms)['data'])
            k = rng.weighted([('both', 5), ('none', 1), ('start', 1), ('end', 1), ('out', .4), ('bad', .5)])
            a, b = sorted((int(rng.choice(s)), int(rng.choice(s))))
            if a == b:
                b += 7 * step
            off = rng.choice([0, 0, 1, step // 2])
            win = {'both': [a + off, b + rng.choice([0, 0, 1, 2])], 'none': [None, None], 'start': [a, None], 'end': [None, b], 'out': [hi + 10000, hi + 20000], 'bad': [b, a - 50]}[k]
            ops.append({'op': 'window', 'd': d, 'win': win, 'text': rng.chance(.3)})
        else:
            q = rng.choice(sorted(Q.QUERIES))
            i = rng.choice(ms)['i']
            op = {'op': 'q', 'd': d, 'q': q, 'b': 1, 'm': i, 'o': rng.choice(ms)['i'], 'p': rng.choice([None, None, step, step * 2, step * 10]), 'chunk': rng.choice([None, None, 7, 25]), 'sections': None}
            if rng.chance(.2):
                pts = sorted({lo + rng.randint(-3, (hi - lo) // step + 3) * step for _ in range(4)})
                sec = [[x, y] for x, y in zip(pts[::2], pts[1::2])]
                op['sections'] = sec or None
            if rng.chance(.12):
                op['fault'] = {'nth': rng.choice([1, 2, 3, 5, 8, 13]), 'site': '*', 'kind': rng.choice(['hdf', 'mem', 'intr', 'eio'])}
            ops.append(op)
    return {'world': w, 'n': nds, 'fmt': rng.weighted([('HDF', 5), ('CSV', 1)]), 'ops': ops}


def valid(s):
    w = s['world']
    ms = w['buildings'][0]['meters'] if w['buildings'] else []
    if not ms or not any(m.get('site') for m in ms) or not s['ops'] or s['n'] < 1:
        return False
    have = {m['i'] for m in ms}
    for m in ms:
        d = m['data']
        if d['n'] < 3 or d['step'] < 1 or 3600 % d['step'] or d['jit'] or m['max'] < m['period'] or m['period'] != d['step']:
            return False
    for o in s['ops']:
        if o['d'] >= s['n'] or (o['op'] == 'q' and (o['m'] not in have or o['o'] not in have or (o['p'] is not None and (o['p'] < 1 or 3600 % o['p'])) or (o['chunk'] is not None and o['chunk'] < 2))):
            return False
        if o['op'] == 'q' and o['sections'] is not None and (not o['sections'] or any(len(x) != 2 or x[0] >= x[1] for x in o['sections']) or any(b[0] <= a[1] for a, b in zip(o['sections'], o['sections'][1:]))):
            return False
    return True


def outside(win, spec):
    """An edit of a table that changes everything a query under this window must not see."""
    def edit(key, df):
        if win[0] is None and win[1] is None:
            return df
        t = S.instants(df)
        before = np.zeros(len(t), bool) if win[0] is None else t < win[0]
        after = np.zeros(len(t), bool) if win[1] is None else t > win[1]
        v = df.values.copy()
        r = np.arange(len(t))
        out = before | after
        v[out] = v[out] * 3 + 1017 + (r[out] % 5)[:, None] * 100
        new = df.copy()
        new[:] = v
        # of the rows far outside, half are missing (the first and the last one stay: the extent of the table is not the window's business)
        nb, na = int(before.sum()), int(after.sum())
        far = (r < nb - 12) | (r >= len(t) - na + 12)
        keep = ~far | (r % 2 == 0) | (r == 0) | (r == len(t) - 1)
        return new[keep]
    return edit


def run(scn, ctx):
    plane = faults.PLANE
    plane.start(ctx)
    w = scn['world']
    fmt = scn['fmt']
    tz = w['tz']
    ms = w['buildings'][0]['meters']
    write = W.write_hdf if fmt == 'HDF' else W.write_csv
    ext = '.h5' if fmt == 'HDF' else ''
    path = ctx.path('d' + ext)
    write(w, path)
    ctx.data_s = sum(int(W.seconds(m['data'])[-1] - W.seconds(m['data'])[0]) for m in ms)

    def content():
        import os
        h = hashlib.sha256()
        fs = [path] if fmt == 'HDF' else sorted(os.path.join(a, f) for a, _, b in os.walk(path) for f in b)
        for f in fs:
            with open(f, 'rb') as g:
                h.update(f.encode() + g.read())
        return h.hexdigest()

    before = content()
    ctx.begin()
    if fmt == 'CSV':
        ctx.probe('csv')
    ds = [B.open_dataset(path, fmt) for _ in range(scn['n'])]
    wins = [[None, None] for _ in ds]
    if scn['n'] > 1:
        ctx.probe('two datasets')
    files = {}
    answers = {}
    asked = set()

    def window(d, win, text=False):
        x = [None if s is None else S.ts(s, tz).tz_localize(None) for s in win]
        if text:
            x = [None if s is None else s.strftime('%Y-%m-%d %H:%M:%S') for s in x]
        d.set_window(start=x[0], end=x[1])

    def local_ok(win):      # naive local times must name one instant
        for s in win:
            if s is not None:
                try:
                    if S.ts(s, tz).tz_localize(None).tz_localize(tz) != S.ts(s, tz):
                        return False
                except Exception:
                    return False
        return True

    def fresh(op, win):
        key = repr((win, {k: v for k, v in sorted(op.items()) if k not in ('fault', 'd', '_path')}))
        if key not in answers:
            wk = repr(win)
            if wk not in files:
                files[wk] = ctx.path('o%d%s' % (len(files), ext))
                write(w, files[wk], outside(win, None))
            with Q.isolated():
                x = B.open_dataset(files[wk], fmt)
                window(x, win)
                answers[key] = Q.ask(x, op)
                x.store.close()
        return answers[key]

    for i, op in enumerate(scn['ops']):
        d = op['d']
        if op['op'] == 'window':
            win = op['win']
            if not local_ok(win):
                continue
            if win[0] is not None and win[1] is not None and win[0] >= win[1]:
                try:
                    window(ds[d], win, op['text'])
                except ValueError:
                    ctx.probe('window refused')
                    ctx.step('refused', d, win)
                else:
                    ctx.check(False, 'impossible-window-accepted', repr(win))
                continue
            window(ds[d], win, op['text'])
            wins[d] = win
            ctx.step('window', d, win, op['text'])
            ctx.probe('window moved' if win != [None, None] else 'window reset')
            if (win[0] is None) != (win[1] is None):
                ctx.probe('half-open window')
            if op['text']:
                ctx.probe('window as text')
            continue
        win = wins[d]
        op = dict(op, _path=ctx.path('script.h5'))
        if fmt == 'CSV':
            op['chunk'] = None
        want = fresh(op, win)
        cols = [m for m in ms if m['i'] == op['m']]
        ctx.step('q', d, op['q'], op['m'], op['o'], op['p'], op['chunk'], op['sections'], win)
        if (op['q'], repr(win)) not in asked and any(a == op['q'] for a, _ in asked):
            ctx.probe('statistic asked under another window before')
        asked.add((op['q'], repr(win)))
        for attempt in range(3):
            f = op.get('fault')
            plane.arm([dict(f)] if f and attempt == 0 else [])
            try:
                got = Q.ask(ds[d], op)
            except (core.SimFault, core.SimHDFFault, core.SimInterrupt, MemoryError):
                if not plane.fired:
                    raise
                plane.disarm()
                ctx.probe('read fault')
                ctx.step('failed')
                continue
            fired = list(plane.fired)
            plane.disarm()
            ctx.log(got)
            if fired and got[0] == 'error' and not Q.close(got, want):
                ctx.probe('read fault')
                continue
            ctx.check(Q.close(got, want), 'outside-visible', lambda: 'query %d %r\nwindow %r\nanswer               %s\nwith other data outside %s' % (i, op, win, str(got)[:3000], str(want)[:3000]))
            break
        else:
            ctx.check(False, 'no-progress', repr(op))
        if want[0] == 'ok' and win != [None, None]:
            ctx.nontrivial = True
        if win[0] is not None and win[0] > max(int(W.seconds(m['data'])[-1]) for m in ms):
            ctx.probe('no data in the window')
        if win[0] is not None and win[1] is not None and win[0] < 7606800 < win[1] and tz == 'Europe/London':
            ctx.probe('across clock change')
        # the samples of the window, all of them
        if op['q'] == 'load' and op['sections'] is None and not op['p'] and got[0] == 'ok':
            m = cols[0]
            s = W.seconds(m['data'])
            t = s[S.rows_of(s, S.clip([None, None], win))]
            have = sorted({x for part in got[1] for x in part[1]})
            ctx.check(have == [(W.T0 + int(x)) * 10 ** 9 for x in t] or len(t) <= 1, 'window-incomplete', lambda: 'meter %d, window %r: %d of %d samples' % (m['i'], win, len(have), len(t)))
    for x, d in enumerate(ds):       # without a window everything is there again
        d.set_window()
        for m in ms:
            parts = [p for p in d.buildings[1].elec.all_meters()[[y.instance() for y in d.buildings[1].elec.all_meters()].index(m['i'])].load() if len(p)]
            ctx.check(sum(map(len, parts)) == m['data']['n'], 'samples-lost', lambda: 'meter %d' % m['i'])
        d.store.close()
    ctx.probe('all data read at the end')
    ctx.check(content() == before, 'file-changed', 'queries under a window changed the data set on disk')
