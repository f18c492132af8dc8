"""C07: statistics are what the samples say, however the data are read."""
import math

import numpy as np

import bld as B
import core
import faults
import streams as S
import world as W

ID = 'C07'
RUNS = {'quick': 600, 'thorough': 9000}
RULE = ('a run asks 3-7 statistics (energy, good sections, dropout, uptime, average energy, shares of the mains, group energies) of one generated dataset with gaps, limits, several measurements '
        'and blank readings, with drawn sections, window, measurement selection and chunk size, some with a read failure, and compares each with a direct computation on the generated samples; '
        'non-trivial when at least one answer came from several parts or was limited by a window or sections; distinct by queries, world and faults')
REAL = ['nilmtk statistics and preprocessing nodes', 'ElecMeter', 'MeterGroup', 'HDFDataStore and CSVDataStore', 'pandas', 'PyTables', 'HDF5']
STUB = ['nilm_metadata']
ASSUME = ['requested sections are closed, do not overlap and hold no or at least two samples', 'blank readings only in power data which are read in one part',
          'dropout rates without chunks', 'chunked statistics of HDF5 stores only (the parts of a CSV file do not overlap)']
PROBES = ['chunked', 'windowed', 'sections', 'limits', 'one limit', 'blank readings', 'cumulative', 'energy column', 'nothing in window', 'read fault', 'group', 'shares', 'csv', 'good section cut', 'gap', 'clock change']
SHRINK = ('ops', 'sections', 'meters', 'gaps', 'nans')
JOULES = 3600000.0


def gen(rng, tier):
    cols = rng.choice([['pa'], ['pa'], ['pa', 'pr'], ['pa', 'pp'], ['pa', 'ea'], ['ca', 'pp'], ['pa', 'v'], ['ea'], ['pr', 'pp']])
    step = rng.choice([None, None, 6, 60])
    w = B.gen_world(rng, n_sub=rng.randint(1, 3), n=rng.randint(8, 60), cols=cols, step=step, tz=rng.choice(['UTC', 'UTC', 'Europe/London', 'America/New_York']),
                    t0s=(0, 0, 0, 600, 7606800 - 300), kind=rng.choice(['rand', 'rand', 'onoff']))
    csv = rng.chance(.15)
    blank = not csv and rng.chance(.2) and set(cols) <= {'pa', 'pp', 'pr'}
    for m in w['buildings'][0]['meters']:
        if rng.chance(.3):
            m['hi'] = rng.choice([50, 500, 1000])
            m['lo'] = rng.choice([0, 10])
            if rng.chance(.3):
                m[rng.choice(['hi', 'lo', 'lo'])] = None
        if rng.chance(.3):
            m['period'] = m['data']['step']
            m['max'] = m['data']['step'] * rng.choice([1, 2, 3, 31])
        if blank:
            m['data']['nans'] = rng.some(range(m['data']['n']), 0, 4)
            if rng.chance(.2):
                k = rng.randrange(m['data']['n'])
                m['data']['nans'] += list(range(k, min(m['data']['n'], k + 13)))
    wm = rng.choice(w['buildings'][0]['meters'])
    win = None if csv else S.gen_window(rng, W.seconds(wm['data']), p=.35)
    ops = []
    ms = w['buildings'][0]['meters']
    for _ in range(rng.randint(3, 7)):
        m = rng.choice(ms)
        s = W.seconds(m['data'])
        op = {'m': m['i'], 'stat': rng.weighted([('energy', 5), ('good', 4), ('dropout', 2), ('uptime', 1), ('average', 1), ('genergy', 1.5), ('permeter', 1), ('fraction', .7),
                                                  ('share', 1), ('submetered', .7), ('upstream', .7), ('gdropout', .7), ('topk', .5), ('rest', .7), ('gfull', .7), ('perup', .7)])}
        if op['stat'] in ('energy', 'good', 'dropout', 'genergy', 'permeter') and not (csv and op['stat'] in ('good', 'dropout')):
            p = S.gen_sections(rng, s, inc=False, opened=False)
            if p is not None:
                p = sorted(p)
                if any(b[0] < a[1] for a, b in zip(p, p[1:])):
                    p = None
            op['sections'] = p
        if op['stat'] in ('energy', 'good', 'genergy', 'uptime', 'average', 'share') and not csv and not blank:
            op['chunk'] = rng.choice([None, None, 2, 3, 5, 7, 20, 1000])
        if op['stat'] in ('energy', 'genergy'):
            op['sel'] = rng.weighted([(None, 4), ({'physical_quantity': 'power'}, 1), ({'ac_type': 'best'}, 1), ({'ac_type': 'active'}, 1)])
        if op['stat'] == 'dropout':
            op['gaps'] = rng.chance(.5)
            op['full'] = rng.chance(.3)
        if op['stat'] == 'perup':
            op['nest'] = rng.chance(.5)
        if op['stat'] == 'average':
            op['alias'] = rng.choice(['D', 'h'])
            op['up'] = rng.chance(.5)
        if rng.chance(.1):
            op['fault'] = {'nth': rng.choice([1, 2, 3, 5, 8, 13]), 'site': 'fs.read' if csv else '*', 'kind': rng.choice(['eio'] if csv else ['hdf', 'mem', 'intr', 'eio'])}
        ops.append(op)
    return {'world': w, 'csv': csv, 'win': win, 'ops': ops, 'iobuf': 256}


def valid(s):
    ms = {m['i']: m for m in s['world']['buildings'][0]['meters']}
    if 1 not in ms or not s['ops']:
        return False
    for o in s['ops']:
        if o['m'] not in ms or (o.get('chunk') is not None and o['chunk'] < 2):
            return False
        p = o.get('sections')
        if p is not None and (not p or any(len(x) != 2 or x[0] >= x[1] for x in p) or any(b[0] < a[1] for a, b in zip(p, p[1:]))):
            return False
    return all(m['data']['n'] >= 4 and m['data']['step'] > 0 for m in ms.values())


# ------------------------------------------------------------------ reference

class Ref:
    """One meter: its samples, as numbers."""

    def __init__(self, m, win, inc):
        self.m = m
        self.secs = W.seconds(m['data'])
        f = W.frame(m['data'])
        self.cols = m['data']['cols']
        self.v = f.values
        self.win = win
        self.inc = inc           # does a default section take the sample at the end of the window?
        self.maxp = m['max']
        self.period = m['period']

    def column(self, c):
        return np.clip(self.v[:, self.cols.index(c)], *W.limits(self.m))

    def sections(self, secs):
        """-> [(clipped section, positions)]"""
        if secs is None:
            secs = [[int(self.secs[0]), int(self.secs[-1]), True]]
            cl = S.clip(secs[0], self.win)
            if cl is None:
                return []
            if self.inc:
                cl = (cl[0], cl[1], True)
            out = [cl]
        else:
            out = [S.clip(x, self.win) for x in secs]
        return [(c, S.rows_of(self.secs, c)) for c in out if c is not None]

    def energy(self, secs, cols=None):
        """{ac type: kWh}"""
        out = {}
        for ac, prefs in (('active', ['ca', 'ea', 'pa']), ('apparent', ['pp']), ('reactive', ['pr'])):
            c = [x for x in prefs if x in self.cols and (cols is None or x in cols)]
            if not c:
                continue
            c = c[0]
            x = self.column(c)
            tot, seen = 0.0, False
            for _, pos in self.sections(secs):
                if len(pos) == 0:
                    continue
                seen = True
                if c == 'ca':
                    tot += x[pos[-1]] - x[pos[0]]
                elif c == 'ea':
                    tot += x[pos].sum()
                else:
                    p = [k for k in pos if not math.isnan(x[k])]
                    for a, b in zip(p, p[1:]):
                        tot += min(self.secs[b] - self.secs[a], self.maxp) * x[a] / JOULES
            if seen:
                out[ac] = tot
        return out

    def runs(self, secs):
        """Good sections [start, end] (closed, s)."""
        ok = [k for k in range(len(self.secs)) if not np.isnan(self.v[k]).any()]
        okset = set(ok)
        out = []
        open_ = None             # start of a run which goes on beyond the end of its section
        last_end = None
        for c, pos in self.sections(secs):
            p = [k for k in pos if k in okset]
            if open_ is not None and c[0] != last_end:
                out.append([open_, last_end])
                open_ = None
            if len(p) < 2:
                if open_ is not None:
                    out.append([open_, last_end])
                    open_ = None
                last_end = c[1]
                continue
            cur = open_ if open_ is not None else int(self.secs[p[0]])
            for a, b in zip(p, p[1:]):
                if self.secs[b] - self.secs[a] > self.maxp:
                    out.append([cur, int(self.secs[a])])
                    cur = int(self.secs[b])
            open_ = None
            la = self.secs[pos[-1] + 1:pos[-1] + 11]
            nxt = [k for k in range(pos[-1] + 1, min(pos[-1] + 11, len(self.secs))) if k in okset]
            if nxt and self.secs[nxt[0]] - self.secs[p[-1]] <= self.maxp:
                open_ = cur
            else:
                out.append([cur, int(self.secs[p[-1]])])
            last_end = c[1]
        if open_ is not None:
            out.append([open_, last_end])
        return [r for r in out if r[0] < r[1]]

    def dropout(self, secs, gaps):
        """gaps: leave them out"""
        if gaps:
            g = self.runs(secs)
            if not g:
                ss = []
            else:
                ss = [(tuple(r), S.rows_of(self.secs, S.clip([r[0], r[1], i == len(g) - 1], None))) for i, r in enumerate(g)]
                ss = [(r, S.rows_of(self.secs, S.clip([r[0], r[1], i == len(g) - 1], self.win if self.win and self.win[1] is not None and r[1] > self.win[1] else None)))
                      for i, (r, _) in enumerate(ss)]
        else:
            ss = self.sections(secs)
        tot = sum(len(p) for _, p in ss)
        if not tot:
            return None
        r = 0.0
        for _, p in ss:
            if len(p) >= 5:
                exp = round((self.secs[p[-1]] - self.secs[p[0]]) / self.period) + 1
                r += max(0.0, 1 - len(p) / exp) * len(p) / tot
        return r


def refs(scn, inc):
    return {m['i']: Ref(m, scn['win'], inc) for m in scn['world']['buildings'][0]['meters']}


def pick(cols, sel):
    if not sel:
        return None
    pq, ac = sel.get('physical_quantity'), sel.get('ac_type')
    if pq == 'power' and ac is None:
        return [c for c in cols if c[0] == 'p']
    if ac == 'active':
        return [c for c in cols if W.COLS[c][1] == 'active']
    if ac == 'best':      # for each physical quantity
        out = []
        for q in ('power', 'energy', 'cumulative energy'):
            c = [x for x in ('pa', 'pp', 'pr', 'ea', 'ca') if x in cols and W.COLS[x][0] == q]
            out += c[:1]
        return out
    raise ValueError(sel)


def add(ds):
    out = {}
    for d in ds:
        for k, v in d.items():
            out[k] = out.get(k, 0.0) + v
    return out


def share(mine, other, rs):
    """What part of the energy of the other meter falls to mine, in the good sections of the other."""
    a, b = rs[mine], rs[other]
    g = b.runs(None)
    if not g:
        return None
    g = [r + ([True] if i == len(g) - 1 else []) for i, r in enumerate(g)]
    ea, eb = a.energy(g), b.energy(g)
    tot = sum(eb.values())
    if tot == 0:
        return 'nan'
    if not ea:
        return 0.0
    sh = [k for k in eb if k in ea]
    if any(eb[k] == 0 for k in sh):
        return None
    return sum(ea[k] / eb[k] for k in sh) / len(sh)


def expect(scn, op, rs):
    """-> the answer, or None where nothing is promised"""
    r = rs[op['m']]
    st = op['stat']
    cols = r.cols
    secs = op.get('sections')
    if secs is not None and st in ('good', 'dropout'):
        if any(len(p) == 1 for _, p in r.sections(secs)):
            return None
        if any(c is None for c in (S.clip(x, scn['win']) for x in secs)):
            pass
    if st == 'energy':
        p = pick(cols, op['sel'])
        if p == []:
            return None
        return r.energy(secs, p)
    if st == 'good':
        return r.runs(secs)
    if st == 'uptime':
        return float(sum(b - a for a, b in r.runs(None)))
    if st == 'dropout':
        return r.dropout(secs, op['gaps'])
    if st == 'average':
        e = r.energy(None)
        per = {'D': 86400, 'h': 3600}[op['alias']]
        if op['up']:
            t = sum(b - a for a, b in r.runs(None))
        else:
            c = S.clip([int(r.secs[0]), int(r.secs[-1])], scn['win'])
            t = 0 if c is None else c[1] - c[0]
        if not t:
            return 'nan'
        return {k: v / (t / per) for k, v in e.items()}
    if st == 'genergy':
        p = pick(cols, op['sel'])
        if p == []:
            return None
        return add([x.energy(secs, p) for x in rs.values()])
    sub = [x for i, x in rs.items() if i != 1]
    if st == 'permeter':
        return {x.m['i']: x.energy(secs, pick(cols, {'ac_type': 'best'})) for x in sub}
    if st in ('fraction', 'topk'):
        e = {x.m['i']: x.energy(None, pick(cols, {'ac_type': 'best'})) for x in sub}
        if any(not v for v in e.values()):
            return None
        e = {k: max(v.values()) for k, v in e.items()}
        if st == 'topk':
            v = sorted(e.values(), reverse=True)
            if len(v) > 1 and v[0] == v[1]:
                return None
            return [max(e, key=lambda k: e[k])]
        t = sum(e.values())
        return {k: v / t for k, v in e.items()} if t else None
    if st == 'rest':
        e = {x.m['i']: x.energy(None, pick(cols, {'ac_type': 'best'})) for x in sub}
        b = rs[1].energy(None, pick(cols, {'ac_type': 'best'}))
        if len(b) != 1 or any(not v for v in e.values()):
            return None
        e = {k: sum(v.values()) for k, v in e.items()}
        e['rest'] = sum(b.values()) - sum(e.values())
        return e
    if st == 'gfull':
        p = [[0, 240], [240, 600], [600, 3000]]
        if scn['csv'] or any(not x.energy([q]) for x in rs.values() for q in p):
            return None
        return [add([x.energy([q]) for x in rs.values()]) for q in p]
    if st in ('share', 'upstream'):
        if op['m'] == 1:
            return None
        x = share(op['m'], 1, rs)
        if st == 'upstream':
            g = rs[1].runs(None)
            if not g or x == 'nan':
                return None
            g = [q + ([True] if i == len(g) - 1 else []) for i, q in enumerate(g)]
            ea, eb = rs[op['m']].energy(g), rs[1].energy(g)
            best = [k for k in ('active', 'apparent', 'reactive') if k in eb]
            if not ea or not best or not eb[best[0]]:
                return None
            return ea[best[0]] / eb[best[0]]
        return x
    if st == 'perup':
        b = rs[1]
        g = b.runs(None)
        if not g or not sub:
            return None
        g = [q + ([True] if i == len(g) - 1 else []) for i, q in enumerate(g)]
        eb = b.energy(g)
        best = [k for k in ('active', 'apparent', 'reactive') if k in eb]
        ids = sorted(x.m['i'] for x in sub)
        parts = ([tuple(ids[:2])] + [(i,) for i in ids[2:]]) if op['nest'] and len(ids) > 1 else [(i,) for i in ids]
        out = {}
        for q in parts:
            es = [rs[i].energy(g) for i in q]
            if not best or not eb[best[0]] or any(not e for e in es):
                return None
            out[repr(q)] = add(es)[best[0]] / eb[best[0]]
        return out
    if st == 'submetered':
        v = [share(x.m['i'], 1, rs) for x in sub]
        if not v or any(x is None or x == 'nan' for x in v):
            return None
        return sum(v)
    if st == 'gdropout':
        v = [x.dropout(None, True) for x in sub]
        if not v or any(x is None for x in v):
            return None
        return sum(v) / len(v)
    raise ValueError(st)


# ------------------------------------------------------------------ the real thing

def ask(ds, op, ctx):
    elec = ds.buildings[1].elec
    tz = ds.metadata['timezone']
    m = [x for x in elec.meters if x.instance() == op['m']][0]
    mains = [x for x in elec.meters if x.instance() == 1][0]
    kw = {}
    if op.get('sections') is not None:
        kw['sections'] = [S.tframe(x, tz) for x in op['sections']]
    if op.get('chunk') is not None:
        kw['chunksize'] = op['chunk']
    kw.update(op.get('sel') or {})
    st = op['stat']

    def ser(x):
        return {k: float(v) for k, v in x.items() if not math.isnan(v)}
    if st == 'energy':
        return ser(m.total_energy(**kw))
    if st == 'good':
        return [[int(t.start.value // 10 ** 9 - W.T0), int(t.end.value // 10 ** 9 - W.T0)] for t in m.good_sections(**kw)]
    if st == 'uptime':
        return m.uptime(**kw).total_seconds()
    if st == 'dropout':
        if op['full']:
            x = m.dropout_rate(ignore_gaps=op['gaps'], full_results=True, **kw).combined()
        else:
            x = m.dropout_rate(ignore_gaps=op['gaps'], **kw)
        return None if math.isnan(x) else float(x)
    if st == 'average':
        x = m.average_energy_per_period(offset_alias=op['alias'], use_uptime=op['up'], **kw)
        return 'nan' if isinstance(x, float) and math.isnan(x) else ser(x)
    if st == 'genergy':
        return ser(elec.total_energy(**kw))
    sub = elec.submeters()
    if st == 'permeter':
        df = sub.energy_per_meter(**kw)
        return {c.instance: ser(df[c]) for c in df.columns}
    if st == 'fraction':
        return {k.instance: float(v) for k, v in sub.fraction_per_meter().items()}
    if st == 'rest':
        x = sub.energy_per_meter(mains=mains)
        return {'rest' if isinstance(k, str) else k[0]: float(v) for k, v in x.items()}
    if st == 'gfull':
        x = elec.total_energy(sections=[S.tframe(q, tz) for q in ([0, 240], [240, 600], [600, 3000])], full_results=True).per_period()
        return [ser(x.drop(columns='end').iloc[i]) for i in range(len(x))]
    if st == 'topk':
        return [x.instance() for x in sub.select_top_k(k=1).meters]
    if st == 'share':
        x = m.proportion_of_energy(mains, **kw)
        return 'nan' if math.isnan(x) else float(x)
    if st == 'upstream':
        return float(m.proportion_of_upstream())
    if st == 'perup':
        from nilmtk import MeterGroup
        ms = sorted(sub.meters, key=lambda x: x.instance())
        x = MeterGroup([MeterGroup(ms[:2])] + ms[2:]) if op['nest'] and len(ms) > 1 else sub
        got = x.proportion_of_upstream_total_per_meter()
        return {repr(tuple(sorted(i.instance for i in k.meters)) if hasattr(k, 'meters') else (k[0],)): float(v) for k, v in got.items()}
    if st == 'submetered':
        return float(elec.proportion_of_energy_submetered())
    if st == 'gdropout':
        return float(sub.dropout_rate())
    raise ValueError(st)


def close(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-7 * max(1e-3, abs(a), abs(b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return a == b


def run(scn, ctx):
    plane = faults.PLANE
    plane.start(ctx)
    w = scn['world']
    path = ctx.path('d') if scn['csv'] else ctx.path('d.h5')
    (W.write_csv if scn['csv'] else W.write_hdf)(w, path)
    ms = w['buildings'][0]['meters']
    ctx.data_s = sum(int(W.seconds(m['data'])[-1] - W.seconds(m['data'])[0]) for m in ms)
    both = refs(scn, True), refs(scn, False)
    tz = w['tz']
    ctx.begin()
    ds = B.open_dataset(path, 'CSV' if scn['csv'] else 'HDF')
    if scn['win'] is not None:
        ds.set_window(*[None if x is None else S.ts(x, tz).tz_localize(None) for x in scn['win']])
        ctx.probe('windowed')
    for tag, c in (('csv', scn['csv']), ('limits', any('hi' in m for m in ms)), ('one limit', any(None in (m.get('hi', 1), m.get('lo', 1)) for m in ms)), ('blank readings', any(m['data'].get('nans') for m in ms)),
                   ('gap', any(m['data']['gaps'] for m in ms)), ('cumulative', 'ca' in ms[0]['data']['cols']), ('energy column', 'ea' in ms[0]['data']['cols']),
                   ('clock change', tz == 'Europe/London' and any(m['data']['t0'] > 10 ** 6 for m in ms))):
        if c:
            ctx.probe(tag)
    for i, op in enumerate(scn['ops']):
        want = [expect(scn, op, r) for r in both]
        if any(x is None for x in want):
            ctx.step('skip', op['stat'])
            continue
        for attempt in range(3):
            f = op.get('fault')
            plane.arm([dict(f)] if f and attempt == 0 else [])
            try:
                got = ask(ds, op, ctx)
            except (core.SimFault, core.SimHDFFault, core.SimInterrupt, MemoryError):
                if not plane.fired:
                    raise
                plane.disarm()
                ctx.probe('read fault')
                ctx.step('failed', op['stat'])
                continue
            except Exception:
                if not plane.fired:
                    raise
                plane.disarm()
                continue
            plane.disarm()
            break
        else:
            ctx.check(False, 'no-progress', repr(op))
        ctx.step(op['stat'], op['m'], op.get('sections'), op.get('chunk'), op.get('sel'), scn['win'])
        ctx.log(B.canon(got, 9))
        if op.get('chunk'):
            ctx.probe('chunked')
        if op.get('sections'):
            ctx.probe('sections')
        if scn['win'] is not None or op.get('chunk') or op.get('sections'):
            ctx.nontrivial = True
        if op['stat'] in ('genergy', 'permeter', 'fraction', 'gdropout', 'topk', 'rest', 'gfull', 'perup'):
            ctx.probe('group')
        if op['stat'] in ('share', 'upstream', 'submetered'):
            ctx.probe('shares')
        if op['stat'] == 'good' and (op.get('sections') or scn['win']):
            ctx.probe('good section cut')
        if op['stat'] == 'energy' and not want[0]:
            ctx.probe('nothing in window')
        ctx.check(any(close(got, x) for x in want), 'wrong-statistic', lambda: '%r window %r\nanswer   %r\nexpected %r%s' % (
            op, scn['win'], got, want[0], '' if close(want[0], want[1]) else ' or %r' % (want[1],)))
