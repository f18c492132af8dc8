"""C15: a query changes nothing of its caller, and what it returns belongs to the caller."""
import copy
import os

import numpy as np
import pandas as pd

import bld as B
import core
import faults
import queries as Q
import streams as S
import world as W

ID = 'C15'
RUNS = {'quick': 300, 'thorough': 9000}
RULE = ('a run is a seeded history of 6-16 steps over one dataset: queries of 40 kinds and streams which are advanced alternately, all given the same argument objects (sections, dictionaries for resampling, '
        'preprocessing nodes, lists of columns, of meters and of identifiers), failing reads, and callers that overwrite every result they got; each answer is compared with the answer of a fresh process '
        'with arguments of its own; non-trivial when an argument was used twice or a result was overwritten before another query; distinct by steps, world and faults')
REAL = ['nilmtk (DataSet, meters, groups, statistics, cache, preprocessing)', 'HDFDataStore', 'CSVDataStore', 'pandas', 'PyTables', 'HDF5']
STUB = ['nilm_metadata']
ASSUME = ['metadata dictionaries of datasets, buildings and meters are attributes and not results; the caller does not change arguments while a stream is being read']
PROBES = ['result overwritten', 'argument used again', 'preprocessing node used again', 'two streams with one argument', 'read fault', 'csv', 'group of a list', 'nested group',
          'group reversed', 'resample arguments', 'columns given']
SHRINK = ('ops', 'args', 'sections', 'gaps', 'meters')

LOADS = ['load', 'series', 'all', 'g load', 'g all', 'l load', 'l all']
STATS = ['energy', 'good', 'dropout', 'uptime', 'on', 'activations', 'g energy', 'g dropout', 'g good', 'g frame', 'l energy', 'l good', 'energy full', 'good full', 'dropout full']
PLAIN = ['extent', 'histogram', 'vampire', 'switches', 'correlation', 'share of mains', 'g extent', 'g per meter', 'g fraction', 'g top', 'g submetered', 'g split', 'g switches',
         'g correlation', 'g good', 'g wiring', 'g describe', 'describe', 'ds describe', 'average']
STRUCT = ['columns', 'quantities', 'ac types', 'downstream', 'submeters', 'select', 'select apps', 'select list', 'union', 'of list', 'from ids', 'labels', 'nested', 'appliances', 'all meters', 'groupby', 'item', 'matches', 'identifier',
          'values', 'remove one', 'sorted', 'select all', 'select mains', 'mains', 'union self', 'own ids', 'sub submeters']


def gen(rng, tier):
    tz = rng.choice(['UTC', 'UTC', 'Europe/London'])
    step = rng.choice([5, 6, 60])
    ms = []
    n_ms = rng.randint(3, 5)
    for i in range(1, n_ms + 1):
        n = rng.randint(40, 110)
        m = B.gen_meter(rng, i, site=(i == 1), of=1, cols=rng.choice([['pa'], ['pa'], ['pa', 'pr'], ['pa', 'v']]), step=step, n=n, t0=step * rng.choice([0, 0, 5, 20]), kind=rng.choice(['rand', 'onoff']))
        m['hi'] = rng.choice([1e9, 900])
        m['max'] = step * rng.choice([1, 2, 5, 20])
        if i > 1:
            m['apps'] = [[B.APPS[i], 1]]
        ms.append(m)
    multi = []
    if n_ms > 3 and rng.chance(.4):          # one appliance on two meters: a nested group
        ms[-1]['apps'] = []
        ms[-2]['apps'] = []
        multi = [[B.APPS[0], 1, [ms[-2]['i'], ms[-1]['i']]]]
    w = {'name': 'SIM', 'tz': tz, 'dtype': 'float64', 'buildings': [{'i': 1, 'meters': ms, 'multi': multi}]}
    lo = min(int(W.seconds(m['data'])[0]) for m in ms)
    hi = max(int(W.seconds(m['data'])[-1]) for m in ms)
    args = []
    for _ in range(rng.randint(2, 4)):
        a = {}
        if rng.chance(.5):
            pts = sorted({lo + rng.randint(-3, (hi - lo) // step + 3) * step for _ in range(4)})
            a['sections'] = [[x, y] for x, y in zip(pts[::2], pts[1::2])] or None
            a['tfg'] = rng.chance(.3)
        if rng.chance(.5):
            a['resample_kwargs'] = rng.choice([{}, {'how': 'max'}, {'how': 'sum'}, {'limit': 1}, {'fill_method': 'bfill'}, {'fill_method': None}])
        if rng.chance(.4):
            a['preprocessing'] = rng.choice([[], ['clip'], ['double'], ['clip', 'double'], ['double', 'clip']])
        k = rng.weighted([(None, 4), ('columns', 1), ('pq', 1), ('ac', 1), ('best', 1)])
        if k:
            a['what'] = k
        if rng.chance(.6):
            a['p'] = rng.choice([step, step * 2, step * 10])
        if rng.chance(.3):
            a['chunk'] = rng.choice([7, 25])
        a['meters'] = rng.some([m['i'] for m in ms], 1, n_ms)
        args.append(a)
    ops = []
    for _ in range(rng.randint(6, 16)):
        q = rng.choice(rng.weighted([(LOADS, 5), (STATS, 4), (PLAIN, 2), (STRUCT, 4)]))
        op = {'op': 'q', 'q': q, 'b': 1, 'm': rng.choice(ms)['i'], 'o': rng.choice(ms)['i'], 'a': rng.randrange(len(args)), 'wreck': rng.chance(.7)}
        if q in ('load', 'series') and rng.chance(.4):
            op['op'] = 'stream'
            op['m2'] = rng.choice(ms)['i']
            op['a2'] = op['a'] if rng.chance(.7) else rng.randrange(len(args))
            op['alt'] = [rng.randint(0, 1) for _ in range(rng.randint(2, 8))]
        if rng.chance(.1):
            op['fault'] = {'nth': rng.choice([1, 2, 3, 5, 8]), 'site': '*', 'kind': rng.choice(['hdf', 'mem', 'intr', 'eio'])}
        ops.append(op)
    return {'world': w, 'fmt': rng.weighted([('HDF', 6), ('CSV', 1)]), 'args': args, 'ops': ops}


def valid(s):
    ms = s['world']['buildings'][0]['meters'] if s['world']['buildings'] else []
    if not ms or not any(m.get('site') for m in ms) or not s['ops'] or not s['args']:
        return False
    have = {m['i'] for m in ms}
    if any(not set(x[2]) <= have for x in s['world']['buildings'][0].get('multi', [])):
        return False
    for m in ms:
        d = m['data']
        if d['n'] < 3 or d['step'] < 1 or 3600 % d['step'] or d['jit'] or m['max'] < m['period'] or m['period'] != d['step']:
            return False
        if len(d['cols']) < 1 or d['cols'][0] != 'pa':
            return False
    for a in s['args']:
        if not a['meters'] or not set(a['meters']) <= have:
            return False
        if a.get('sections') is not None and (not a['sections'] or any(len(x) != 2 or x[0] >= x[1] for x in a['sections']) or any(y[0] <= x[1] for x, y in zip(a['sections'], a['sections'][1:]))):
            return False
        if a.get('p') is not None and (a['p'] < 1 or 3600 % a['p']):
            return False
        if a.get('chunk') is not None and a['chunk'] < 2:
            return False
    for o in s['ops']:
        if not {o['m'], o['o'], o.get('m2', o['m'])} <= have or o['a'] >= len(s['args']) or o.get('a2', 0) >= len(s['args']):
            return False
    return True


def double(df):
    return df * 2


def leaf(ds, i):
    def walk(ms):
        for m in ms:
            if hasattr(m, 'meters'):
                yield from walk(m.meters)
            else:
                yield m
    return [m for m in walk(ds.buildings[1].elec.meters) if m.instance() == i][0]


def make_args(spec, ds):
    """The caller's objects"""
    from nilmtk.preprocessing import Apply, Clip
    from nilmtk.timeframegroup import TimeFrameGroup
    from nilmtk.elecmeter import ElecMeterID
    tz = ds.metadata['timezone']
    a = {}
    if spec.get('sections') is not None:
        a['sections'] = [S.tframe(x, tz) for x in spec['sections']]
        if spec.get('tfg'):
            a['sections'] = TimeFrameGroup(a['sections'])
    if spec.get('resample_kwargs') is not None:
        a['resample_kwargs'] = dict(spec['resample_kwargs'])
    if spec.get('preprocessing') is not None:
        a['preprocessing'] = [Clip() if n == 'clip' else Apply(func=double) for n in spec['preprocessing']]
    a.update({'columns': {'columns': [('power', 'active')]}, 'pq': {'physical_quantity': ['power']}, 'ac': {'ac_type': ['active']},
              'best': {'physical_quantity': 'power', 'ac_type': 'best'}}.get(spec.get('what'), {}))
    if spec.get('p'):
        a['sample_period'] = spec['p']
    if spec.get('chunk'):
        a['chunksize'] = spec['chunk']
    a['_meters'] = [leaf(ds, i) for i in spec['meters']]
    a['_ids'] = [ElecMeterID(i, 1, ds.metadata['name']) for i in spec['meters']]
    a['_key'] = {'instance': spec['meters'][0]}
    return a


def image(x, depth=0):
    """What the caller can see of an argument"""
    t = type(x).__name__
    if t in ('Clip', 'Apply'):
        return [t, id(x), sorted((k, id(v) if k in ('upstream', 'func', 'generator') else repr(v)) for k, v in vars(x).items())]
    if t == 'TimeFrame':
        return ['tf', id(x), repr(x.start), repr(x.end), bool(x.empty), bool(x.include_end)]
    if t == 'TimeFrameGroup':
        return ['tfg', id(x), [image(y) for y in x]]
    if t in ('ElecMeter', 'MeterGroup'):
        return [t, id(x)]
    if isinstance(x, dict):
        return ['dict', id(x), [[k, image(v)] for k, v in x.items()]]
    if isinstance(x, list):
        return ['list', id(x), [image(v) for v in x]]
    return repr(x)


def plain(im):
    """An image without addresses"""
    if isinstance(im, (list, tuple)):
        return [plain(v) for v in im]
    return '*' if isinstance(im, int) and not isinstance(im, bool) and im > 10 ** 6 else im


def wreck(x, depth=0):
    """The caller overwrites what it got"""
    from nilmtk import MeterGroup
    if depth > 4:
        return
    t = type(x).__name__
    if isinstance(x, pd.DataFrame):
        for n in ('timeframe', 'look_ahead'):
            v = getattr(x, n, None) if n in x.__dict__ or n in x.attrs else None
            if v is not None:
                wreck(v, depth + 1)
        for j in range(x.shape[1]):
            if x.dtypes.iloc[j].kind == 'f':
                x.iloc[:, j].values.flags.writeable and x.iloc[:, j].values.__setitem__(slice(None), -12345.0)
        x.drop(x.index[:len(x) // 2], inplace=True) if x.index.is_unique else None
    elif isinstance(x, pd.Series):
        if x.dtype.kind == 'f' and x.values.flags.writeable:
            x.values[:] = -12345.0
    elif isinstance(x, MeterGroup):
        del x.meters[:]
        del x.disabled_meters[:]
    elif t == 'TimeFrame':
        x.clear()
        x._empty = True
    elif t == 'DiGraph':
        x.clear()
    elif hasattr(x, '_data') and isinstance(getattr(x, '_data'), pd.DataFrame):
        wreck(x._data, depth + 1)
    elif isinstance(x, list):
        for v in x:
            if type(v).__name__ not in ('MeterGroup', 'ElecMeter'):
                wreck(v, depth + 1)
        del x[:]
    elif isinstance(x, dict):
        for v in list(x.values()):
            if type(v).__name__ not in ('MeterGroup', 'ElecMeter'):
                wreck(v, depth + 1)
        x.clear()
    elif isinstance(x, set):
        x.clear()


def names(ms):
    return [repr(Q.ids(m.identifier)) for m in ms]


def raw(ds, op, a, rev=False):
    """-> (the result as the caller gets it, what to compare)"""
    from nilmtk import MeterGroup
    q = op['q']
    keys = ['sections', 'chunksize']
    if q in LOADS:
        keys += ['sample_period', 'resample_kwargs', 'preprocessing', 'columns', 'physical_quantity', 'ac_type']
    k = {n: a[n] for n in keys if n in a}
    if q in LOADS and 'resample_kwargs' in k and 'sample_period' not in k:
        k['resample'] = True
    if q in ('dropout', 'g dropout', 'g frame') or q.endswith('full'):
        k.pop('chunksize', None)
    if q in ('series', 'all', 'g all', 'l all'):
        k.pop('columns', None)
        k.pop('physical_quantity', None)
    if q in ('g load', 'g all', 'l load', 'l all'):
        k.pop('resample', None)
    if q in ('series', 'all', 'g all', 'l all', 'load', 'g load', 'l load') and k.get('ac_type') == 'best' and 'physical_quantity' not in k:
        k.pop('ac_type')
    e = Q.elec(ds, op)
    m = leaf(ds, op['m'])
    if q[:2] == 'l ':
        lst = a['_meters']
        if rev:
            lst = lst[::-1]
        g = MeterGroup(lst)
        r = {'l load': lambda: list(g.load(**k)), 'l all': lambda: g.power_series_all_data(**k), 'l energy': lambda: g.total_energy(**k), 'l good': lambda: g.good_sections(**k)}[q]()
        return r, Q.ids(r)
    if rev:
        e = MeterGroup(e.meters[::-1])
    if q in LOADS or q in STATS:
        r = {'load': lambda: list(m.load(**k)), 'series': lambda: list(m.power_series(**k)), 'all': lambda: m.power_series_all_data(**k),
             'g load': lambda: list(e.load(**k)), 'g all': lambda: e.power_series_all_data(**k),
             'energy': lambda: m.total_energy(**k), 'good': lambda: m.good_sections(**k), 'dropout': lambda: m.dropout_rate(**k), 'uptime': lambda: m.uptime(**k),
             'energy full': lambda: m.total_energy(full_results=True, **k), 'good full': lambda: m.good_sections(full_results=True, **k), 'dropout full': lambda: m.dropout_rate(full_results=True, **k),
             'on': lambda: list(m.when_on(on_power_threshold=50, **k)), 'activations': lambda: m.get_activations(on_power_threshold=50, min_off_duration=20, min_on_duration=10, **k),
             'g energy': lambda: e.total_energy(**k), 'g dropout': lambda: e.dropout_rate(**k), 'g good': lambda: e.good_sections(**k), 'g frame': lambda: e.dataframe_of_meters(**k)}[q]()
        if q.endswith('full'):
            return r, Q.ids(r.simple())
        return r, Q.ids(list(r) if type(r).__name__ == 'TimeFrameGroup' else r)
    if q in Q.QUERIES:
        if q == 'g wiring':
            r = e.wiring_graph()
            return r, sorted([names([x])[0], names([y])[0]] for x, y in r.edges())
        keep = Q.meter
        Q.meter = lambda ds, op, k='m': leaf(ds, op[k])
        try:
            r = Q.QUERIES[q](ds, dict(op, sections=None, chunk=None, p=None))
        finally:
            Q.meter = keep
        return r, Q.ids(r)
    if q == 'remove one':             # a copy of a group is worked on
        from nilmtk import MeterGroup
        g = MeterGroup(e.meters)
        g.meters.pop()
        return None, names(g.meters)
    if q == 'sorted':
        g = MeterGroup(a['_meters'])
        g.sort_meters()
        return g, names(g.meters)
    r = {'columns': lambda: m.available_columns(), 'quantities': lambda: m.available_physical_quantities(), 'ac types': lambda: m.available_ac_types('power'),
         'downstream': lambda: e.meters_directly_downstream_of_mains(), 'submeters': lambda: e.submeters(), 'select': lambda: e.select(**a['_key']),
         'select apps': lambda: e.select_using_appliances(type=m.appliances[0].identifier.type if m.appliances else 'fridge'),
         'select list': lambda: e.select(instance=[op['m'], op['o']]), 'select all': lambda: e.select(building=1), 'select mains': lambda: e.select(site_meter=True), 'mains': lambda: e.mains(),
         'union self': lambda: e.union(e), 'own ids': lambda: e.from_list([x.identifier for x in e.meters]), 'sub submeters': lambda: e.submeters().submeters(),
         'union': lambda: e.union(MeterGroup(a['_meters'])), 'of list': lambda: MeterGroup(a['_meters']), 'from ids': lambda: e.from_list(a['_ids']),
         'labels': lambda: e.get_labels(a['_ids'], pretty=False), 'nested': lambda: e.nested_metergroups(), 'appliances': lambda: e.appliances, 'all meters': lambda: e.all_meters(),
         'groupby': lambda: e.submeters().groupby('type'), 'item': lambda: e[a['_ids'][0]], 'matches': lambda: e.matches(a['_key']),
         'identifier': lambda: e.identifier, 'values': lambda: e.submeters().values_for_appliance_metadata_key('type')}[q]()
    if isinstance(r, MeterGroup):
        c = names(r.meters)
        if q == 'item':
            r = None                  # a member, not a new group
    elif q in ('all meters', 'nested'):
        c = names(r)
    elif q == 'appliances':
        c = [repr(Q.ids(x.identifier)) for x in r]
    elif q in ('item', 'mains'):
        c, r = names([r]), None
    else:
        c = Q.ids(r) if not isinstance(r, dict) else sorted((repr(x), repr(y)) for x, y in r.items())
    return r, c


PASS = (core.SimFault, core.SimHDFFault, core.SimInterrupt, core.SimCrash, MemoryError, core.Violation)


def ask(ds, op, a, rev=False):
    try:
        r, c = raw(ds, op, a, rev)
        return r, ['ok', c]
    except PASS:
        raise
    except Exception as e:
        if os.environ.get('SIM_STDERR'):
            import traceback
            traceback.print_exc()
        return None, ['error', type(e).__name__]


def run(scn, ctx):
    from nilmtk import MeterGroup
    plane = faults.PLANE
    plane.start(ctx)
    w = scn['world']
    fmt = scn['fmt']
    path = ctx.path('d.h5' if fmt == 'HDF' else 'd')
    (W.write_hdf if fmt == 'HDF' else W.write_csv)(w, path)
    ms = w['buildings'][0]['meters']
    ctx.data_s = sum(int(W.seconds(m['data'])[-1] - W.seconds(m['data'])[0]) for m in ms)
    ctx.begin()
    if fmt == 'CSV':
        ctx.probe('csv')
    specs = [dict(a) for a in scn['args']]
    if fmt == 'CSV':
        for a in specs:
            a.pop('chunk', None)
    ds = B.open_dataset(path, fmt)
    pool = [make_args(a, ds) for a in specs]
    before = [image(a) for a in pool]
    if w['buildings'][0].get('multi'):
        ctx.probe('nested group')
    cache = {}

    def fresh(op, i, rev=False):
        key = repr((op['q'], op['m'], op['o'], i, rev))
        if key not in cache:
            with Q.isolated():
                x = B.open_dataset(path, fmt)
                cache[key] = ask(x, op, make_args(specs[i], x), rev)[1]
                x.store.close()
        return cache[key]

    def args_intact(what):
        for i, a in enumerate(pool):
            now = image(a)
            if now != before[i]:
                for k in a:
                    x, y = [dict((n, v) for n, v in im[2]) for im in (before[i], now)]
                    ctx.check(x.get(k) == y.get(k), 'argument-changed', lambda: '%s changed the %s of the caller:\n%s\nnow\n%s' % (what, k, plain(x.get(k)), plain(y.get(k))))
                ctx.check(False, 'argument-changed', lambda: '%s added arguments: %r' % (what, sorted(a)))

    used = set()
    wrecked = False
    for i, op in enumerate(scn['ops']):
        a = pool[op['a']]
        ctx.step(op['op'], op['q'], op['m'], op['o'], op['a'], op.get('m2'), op.get('a2'))
        if op['a'] in used:
            ctx.probe('argument used again')
            ctx.nontrivial = True
            if a.get('preprocessing') and op['q'] in LOADS:
                ctx.probe('preprocessing node used again')
        used.add(op['a'])
        if a.get('resample_kwargs') is not None and op['q'] in LOADS:
            ctx.probe('resample arguments')
        if 'columns' in a and op['q'] in LOADS:
            ctx.probe('columns given')
        if op['q'][:2] == 'l ':
            ctx.probe('group of a list')
        if wrecked:
            ctx.nontrivial = True
        if op['op'] == 'stream':
            # two streams, opened with the same arguments, and read alternately
            want = [fresh(op, op['a']), fresh(dict(op, m=op['m2']), op['a2'])]
            if op['a'] == op['a2']:
                ctx.probe('two streams with one argument')
            if want[0][0] != 'ok' or want[1][0] != 'ok':
                continue
            gens = []
            for mi, ai in ((op['m'], op['a']), (op['m2'], op['a2'])):
                x = pool[ai]
                k = {n: x[n] for n in ('sections', 'chunksize', 'sample_period', 'resample_kwargs', 'preprocessing', 'columns', 'physical_quantity', 'ac_type') if n in x}
                if 'resample_kwargs' in k and 'sample_period' not in k:
                    k['resample'] = True
                if op['q'] == 'series':
                    k.pop('columns', None)
                    k.pop('physical_quantity', None)
                if k.get('ac_type') == 'best' and 'physical_quantity' not in k:
                    k.pop('ac_type')
                m = leaf(ds, mi)
                gens.append((m.load if op['q'] == 'load' else m.power_series)(**k))
            parts = [[], []]
            live = [0, 1]
            j = 0
            while live:
                g = op['alt'][j % len(op['alt'])]
                j += 1
                g = g if g in live else live[0]
                try:
                    p = next(gens[g])
                except StopIteration:
                    live.remove(g)
                    continue
                parts[g].append(Q.ids(p))
                if op['wreck']:
                    wreck(p)
            for g in (0, 1):
                ctx.check(Q.close(parts[g], want[g][1]), 'stream', lambda: 'step %d: stream %d of %r, read alternately with another, args %r and %r\ngot  %s\nwant %s' % (
                    i, g, op, specs[op['a']], specs[op['a2']], str(parts[g])[:1500], str(want[g][1])[:1500]))
            args_intact('%s of two streams' % op['q'])
            continue
        want = fresh(op, op['a'])
        if op['q'] in ('g load', 'g all', 'l load', 'l all') and want[0] == 'ok':
            other = fresh(op, op['a'], True)
            ctx.probe('group reversed')
            ctx.check(Q.close(want, other), 'order-of-meters', lambda: 'step %d: %r with %r\nanswer                      %s\nwith the meters in reverse order %s' % (
                i, op, specs[op['a']], str(want)[:1500], str(other)[:1500]))
        for attempt in range(3):
            f = op.get('fault')
            plane.arm([dict(f)] if f and attempt == 0 else [])
            r = None
            try:
                r, got = ask(ds, op, a)
            except PASS[:3] + (MemoryError,):
                if not plane.fired:
                    raise
                plane.disarm()
                ctx.probe('read fault')
                args_intact('a failed %s' % op['q'])
                continue
            fired = list(plane.fired)
            plane.disarm()
            if fired and got[0] == 'error' and not Q.close(got, want):
                ctx.probe('read fault')
                args_intact('a failed %s' % op['q'])
                continue
            ctx.log(got)
            ctx.check(Q.close(got, want), 'answer', lambda: 'step %d: %r with %r\nanswer %s\nin a fresh process %s' % (i, op, specs[op['a']], str(got)[:2500], str(want)[:2500]))
            break
        else:
            ctx.check(False, 'no-progress', repr(op))
        args_intact(op['q'])
        if op['wreck'] and r is not None:
            wreck(r)
            wrecked = True
            ctx.probe('result overwritten')
            if op['q'] != 'sorted':
                args_intact('overwriting the result of %s' % op['q'])
    for m in ms:
        x = {'op': 'q', 'q': 'load', 'b': 1, 'm': m['i'], 'o': m['i'], 'a': 0}
        specs.append({'meters': [m['i']]})
        want = fresh(x, len(specs) - 1)
        got = ask(ds, x, make_args(specs[-1], ds))[1]
        ctx.check(Q.close(got, want), 'answer', lambda: 'at the end, meter %d reads differently' % m['i'])
    ds.store.close()
