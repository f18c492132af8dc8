"""C04: streams that are open at the same time do not disturb each other, nor do failures."""
import faults
import core
import bld as B
import streams as S
import world as W
from core import Violation

ID = 'C04'
RUNS = {'quick': 320, 'thorough': 9000}
RULE = ('a run opens 2-6 streams of drawn kinds (table, meter, resampled meter, power series, activity, group) over one dataset through one or two '
        'handles and lets a seeded scheduler decide which one advances, is abandoned, is hit by a read error or is overtaken by a whole-data query; '
        'non-trivial when the active stream changed at least three times between parts; distinct by schedule, requests and faults')
REAL = ['nilmtk data stores, meters, groups, preprocessing nodes and statistics', 'pandas', 'PyTables', 'HDF5']
STUB = ['nilm_metadata', 'the scheduler of the consumers: generators advanced one part at a time in an order drawn from the seed']
ASSUME = ['streams are consumed by one thread (PyTables is not thread safe); the window is not moved while a stream is open']
PROBES = ['switches', 'abandoned', 'read fault', 'restart after fault', 'query between parts', 'two handles', 'csv', 'same table twice']
SHRINK = ('sched', 'streams')
KINDS = ['store', 'meter', 'resampled', 'power', 'on', 'group', 'multi']


def gen(rng, tier):
    w = B.gen_world(rng, n_sub=rng.randint(1, 3), t0s=(0, 0, 600), cols=rng.choice([['pa'], ['pa', 'pr'], ['pa', 'v']]),
                    n=rng.choice([None, None, 30]))
    csv = rng.chance(.2)
    streams = []
    ms = [m['i'] for m in w['buildings'][0]['meters']]
    for _ in range(rng.randint(2, 6)):
        kind = rng.choice(KINDS)
        i = rng.choice(ms)
        m = B.meter_spec(w, 1, i)
        secs = W.seconds(m['data'])
        st = {'kind': kind, 'meter': i, 'chunk': rng.choice([1, 2, 3, 5, 10, 20, 50]), 'h': rng.choice([0, 0, 1])}
        if kind in ('group', 'multi'):
            st['chunk'] = rng.choice([10, 20, 50])
            st['sections'] = None
        else:
            st['sections'] = S.gen_sections(rng, secs, inc=False, opened=False) if rng.chance(.4) else None
        if kind == 'resampled':
            st['period'] = m['period'] * rng.choice([1, 2, 5])
        streams.append(st)
    sched = []
    for _ in range(rng.randint(6, 40)):
        r = rng.random()
        if r < .82:
            sched.append(['next', rng.randrange(len(streams))])
        elif r < .88:
            sched.append(['drop', rng.randrange(len(streams)), rng.choice(['close', 'forget'])])
        elif r < .94:
            sched.append(['query', rng.choice(ms), rng.choice(['energy', 'good', 'frame', 'extent', 'row'])])
        else:
            sched.append(['fault', rng.randrange(len(streams)), rng.choice([1, 1, 2]), rng.choice(['hdf', 'mem', 'intr', 'eio'])])
    return {'world': w, 'csv': csv, 'streams': streams, 'sched': sched}


def valid(s):
    ns = len(s['streams'])
    return ns and all(x[0] == 'query' or x[1] < ns for x in s['sched']) and all(
        st['chunk'] > 0 and st.get('period', 1) > 0 for st in s['streams'])


def run(scn, ctx):
    plane = faults.PLANE
    plane.start(ctx)
    w = scn['world']
    fmt = 'CSV' if scn['csv'] else 'HDF'
    path = ctx.path('d') if scn['csv'] else ctx.path('d.h5')
    (W.write_csv if scn['csv'] else W.write_hdf)(w, path)
    if scn['csv']:
        ctx.probe('csv')
    ctx.data_s = sum(int(W.seconds(m['data'])[-1]) for b in w['buildings'] for m in b['meters'])
    ctx.begin()
    ds = [B.open_dataset(path, fmt), None]

    def handle(h):
        if h and ds[1] is None:
            ds[1] = B.open_dataset(path, fmt)
            ctx.probe('two handles')
        return ds[h]

    def start(st):
        d = handle(st['h'])
        elec = d.buildings[1].elec
        kw = {'chunksize': st['chunk']}
        if st['sections'] is not None:
            kw['sections'] = [S.tframe(x) for x in st['sections']]
        k = st['kind']
        if k == 'store':
            return d.store.load('/building1/elec/meter%d' % st['meter'], **kw)
        if k == 'multi':
            sub = elec.submeters()
            return sub.load(chunksize=st['chunk'])
        if k == 'group':
            return elec.load(chunksize=st['chunk'])
        m = meter(elec, st['meter'])
        if k == 'meter':
            return m.load(**kw)
        if k == 'resampled':
            return m.load(sample_period=st['period'], **kw)
        if k == 'power':
            return m.power_series(**kw)
        if k == 'on':
            return m.when_on(on_power_threshold=50, **kw)
        raise ValueError(k)

    def item(x):
        tf = getattr(x, 'timeframe', None)
        return B.digest([x, tf])

    def query(i, q):
        elec = ds[0].buildings[1].elec
        m = meter(elec, i)
        if q == 'energy':
            return B.digest(m.total_energy())
        if q == 'good':
            return B.digest(m.good_sections())
        if q == 'frame':
            return B.digest(m.power_series_all_data())
        if q == 'extent':
            return B.digest(m.get_timeframe())
        return B.digest(ds[0].store['/building1/elec/meter%d' % i])

    # each request alone: what it delivers
    alone = [[item(x) for x in start(st)] for st in scn['streams']]
    seen = {}
    for st in scn['streams']:
        seen[st['meter']] = seen.get(st['meter'], 0) + 1
    if max(seen.values()) > 1:
        ctx.probe('same table twice')
    answers = {}
    for x in scn['sched']:
        if x[0] == 'query':
            answers[tuple(x[1:])] = query(*x[1:])
    core.fresh_process_state(ctx.dir)
    for d in ds:
        if d is not None:
            d.store.close()
    ds = [B.open_dataset(path, fmt), None]

    live = [None] * len(scn['streams'])
    pos = [0] * len(scn['streams'])
    last = None
    switches = 0
    pending = {}

    def advance(s):
        nonlocal last, switches
        st = scn['streams'][s]
        if live[s] is None:
            live[s] = start(st)
            pos[s] = 0
        if last is not None and last != s:
            switches += 1
        last = s
        f = pending.pop(s, None)
        plane.arm([{'site': '*', 'nth': f[0], 'kind': f[1]}] if f else [])
        try:
            x = next(live[s])
        except StopIteration:
            plane.disarm()
            ctx.check(pos[s] == len(alone[s]), 'stream-cut-short', lambda: 'stream %d (%s) ended after %d of %d parts' % (
                s, st['kind'], pos[s], len(alone[s])))
            live[s] = None
            ctx.log('end', s)
            return
        except (core.SimFault, core.SimHDFFault, core.SimInterrupt, MemoryError):
            if not plane.fired:
                raise
            plane.disarm()
            ctx.probe('read fault')
            ctx.step('failed', s)
            live[s] = None
            ctx.probe('restart after fault')
            return
        plane.disarm()
        d = item(x)
        ctx.log('part', s, pos[s], d)
        ctx.check(pos[s] < len(alone[s]), 'extra-part', lambda: 'stream %d (%s): part %d of %d' % (s, st['kind'], pos[s], len(alone[s])))
        ctx.check(d == alone[s][pos[s]], 'stream-disturbed', lambda: 'stream %d %r: part %d differs from what the same request gives alone:\n%s' % (
            s, st, pos[s], S.show(x) if len(x) else 'empty'))
        pos[s] += 1
        if len(x) and st['kind'] in ('store', 'meter'):
            x.iloc[:, :] = -7           # consumers may overwrite what they received

    for op in scn['sched']:
        ctx.step(*op)
        if op[0] == 'next':
            advance(op[1])
        elif op[0] == 'fault':
            pending[op[1]] = (op[2], op[3])
        elif op[0] == 'drop':
            if live[op[1]] is not None:
                if op[2] == 'close':
                    live[op[1]].close()
                live[op[1]] = None
                ctx.probe('abandoned')
        elif op[0] == 'query':
            got = query(op[1], op[2])
            ctx.check(got == answers[tuple(op[1:])], 'query-disturbed', lambda: repr(op))
            ctx.probe('query between parts')
    # faults have stopped: every stream gets to its end
    pending.clear()
    for s in range(len(live)):
        for _ in range(len(alone[s]) + 2):
            advance(s)
            if live[s] is None:
                break
        else:
            raise Violation('no-progress', 'stream %d' % s)
    ctx.probe('switches', switches)
    ctx.nontrivial = switches >= 3


def meter(elec, i):
    for m in elec.meters:
        if m.instance() == i:
            return m
    raise KeyError(i)
