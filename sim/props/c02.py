"""C02: a streamed read of an HDF store delivers exactly the samples asked for."""
import faults
import core
import streams as S
import world as W
from core import Violation

ID = 'C02'
RUNS = {'quick': 700, 'thorough': 14000}
RULE = ('a run reads a generated table (2-160 samples, thorough up to 3000; gaps, uneven spacing) several times with drawn chunk size, '
        'sections, window, columns and look ahead, and with read failures at drawn points; non-trivial when a '
        'stream had at least two parts with samples; distinct by table layout, request and faults')
REAL = ['nilmtk.datastore.HDFDataStore.load', 'nilmtk.TimeFrame', 'pandas HDFStore', 'PyTables', 'HDF5']
STUB = ['nilm_metadata (import stand-in)']
ASSUME = ['samples are in time order, at least two of them in the table', 'time zones are geographical or UTC']
PROBES = ['several parts', 'section without samples', 'section clipped by window', 'read fault', 'retry after fault',
          'look ahead', 'part boundary at section end', 'inclusive end', 'window excludes section', 'column subset', 'open section']
COLSETS = [['pa'], ['pa', 'pr'], ['pa', 'v'], ['pp', 'ea', 'v']]
SHRINK = ('reqs', 'sections', 'gaps')


def gen(rng, tier):
    cols = rng.choice(COLSETS)
    s = S.gen_series(rng, cols, big=(tier == 'thorough'))
    secs = W.seconds(s)
    reqs = []
    for _ in range(rng.randint(1, 4)):
        r = {'chunk': S.gen_chunk(rng, s['n']), 'sections': S.gen_sections(rng, secs), 'win': S.gen_window(rng, secs),
             'cols': rng.some(range(len(cols)), 1) if rng.chance(.4) else None,
             'la': rng.choice([0, 0, 0, 1, 3, 10]), 'key': rng.choice(['k', 'noslash', 'trail']),
             'fault': None}
        r['sections'] = S.unambiguous(secs, r['sections'], r['win'])
        if s['n'] // (r['chunk'] or 10 ** 6) > 300:
            r['chunk'] = s['n'] // 100
        if rng.chance(.25):
            r['fault'] = {'nth': rng.choice([1, 2, 3, 4, 6, 9]), 'kind': rng.choice(['hdf', 'mem', 'intr', 'eio'])}
        reqs.append(r)
    return {'tz': rng.choice(['UTC', 'Europe/London', 'US/Eastern']), 'dtype': rng.choice(['float32', 'float64']), 'series': s, 'reqs': reqs}


def valid(s):
    secs = W.seconds(s['series'])
    return s['series']['n'] >= 2 and all(r['sections'] is None or (
        r['sections'] == S.unambiguous(secs, r['sections'], r['win']) and
        all(x[0] is None or x[1] is None or x[0] < x[1] for x in r['sections'])) for r in s['reqs']) \
        and all(r['win'] is None or None in r['win'] or r['win'][0] < r['win'][1] for r in s['reqs']) \
        and all(r['chunk'] is None or r['chunk'] > 0 for r in s['reqs'])


def run(scn, ctx):
    from nilmtk.datastore import HDFDataStore
    from nilmtk import TimeFrame
    plane = faults.PLANE
    plane.start(ctx)
    tz = scn['tz']
    world = {'tz': tz, 'dtype': scn['dtype'], 'buildings': [{'i': 1, 'meters': [{'i': 1, 'site': True, 'data': scn['series']}]}]}
    key = '/building1/elec/meter1'
    df = W.write_hdf(world, ctx.path('d.h5'))[key]
    secs = S.instants(df)
    ctx.data_s = int(secs[-1] - secs[0])
    ctx.step('table', scn['series'], tz)
    ctx.begin()
    st = HDFDataStore(ctx.path('d.h5'))
    for req in scn['reqs']:
        ctx.step('load', req)
        st.window = S.tframe(req['win'], tz) if req['win'] else TimeFrame()
        tf = st.get_timeframe(key)
        cl = S.clip([int(secs[0]), int(secs[-1])], req['win'])
        if cl is None:
            ctx.check(tf.empty, 'wrong-extent', lambda: tf)
        else:
            ctx.check(not tf.empty and tf.start == S.ts(cl[0]) and tf.end == S.ts(cl[1]), 'wrong-extent',
                      lambda: '%s expected %s' % (tf, cl))
        kw = {}
        if req['chunk'] is not None:
            kw['chunksize'] = req['chunk']
        if req['sections'] is not None:
            kw['sections'] = [S.tframe(x, tz) for x in req['sections']]
        cols = None
        if req['cols'] is not None:
            kw['columns'] = [W.COLS[scn['series']['cols'][j]] for j in req['cols']]
            cols = [tuple('' if y is None else y for y in x) for x in kw['columns']]
            ctx.probe('column subset')
        if req['la']:
            kw['n_look_ahead_rows'] = req['la']
            ctx.probe('look ahead')
        k = {'k': key, 'noslash': key[1:], 'trail': key + '/'}[req['key']]
        for x in req['sections'] or []:
            c = S.clip(x, req['win'])
            n = len(S.rows_of(secs, c))
            if c is None:
                ctx.probe('window excludes section')
            elif n == 0:
                ctx.probe('section without samples')
            if c is not None and list(c[:2]) != x[:2]:
                ctx.probe('section clipped by window')
            if len(x) > 2:
                ctx.probe('inclusive end')
            if None in x[:2]:
                ctx.probe('open section')
        for attempt in range(2):
            chk = S.StreamCheck(df, secs, req['sections'], req['win'], columns=cols, look_ahead=req['la'],
                                chunksize=req['chunk'])
            f = req['fault'] if attempt == 0 else None
            plane.arm([{'site': 'hdf.read', 'nth': f['nth'], 'kind': f['kind']}] if f else [])
            try:
                for chunk in st.load(k, **kw):
                    chk.feed(chunk)
                    # the caller owns what he got
                    if len(chunk):
                        chunk.iloc[:, :] = -1
                plane.disarm()
                chk.finish()
                if chk.n_parts >= 2:
                    ctx.nontrivial = True
                    ctx.probe('several parts')
                ctx.log('parts', chk.n_parts)
                if plane.fired:
                    # a complete and correct stream in spite of the failure is fine too
                    ctx.log('fault without effect')
                break
            except (core.SimFault, core.SimHDFFault, core.SimInterrupt, MemoryError):
                if not plane.fired:
                    raise
                plane.disarm()
                ctx.probe('read fault')
                ctx.probe('retry after fault')
                ctx.step('failed after', chk.n_parts)
    st.close()
