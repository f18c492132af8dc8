"""C13: converting a raw dataset keeps every reading of every channel."""
import hashlib
import os

import faults
import core
import convs
from core import Violation

ID = 'C13'
RUNS = {'quick': 170, 'thorough': 4000}
RULE = ('a run generates the raw files of one dataset, in the layout its converter documents, with repeated, unordered and missing readings, and '
        'converts it twice: directories are listed, and worker processes finish, in two different drawn orders, and the second conversion may be hit by '
        'an I/O error, a full disk, a failed allocation, an interrupt or a crash at any read or write, after which it is repeated in a new process; '
        'non-trivial when at least three channels were converted; distinct by converter, raw files, orders and fault')
REAL = ['the nilmtk dataset converters (REDD, UK-DALE, REFIT, GREEND, HES, iAWE, AMPds, COMBED, ECO, DRED, SMART, IDEAL, HIPE, Dataport CSV, CAXE) with '
        'the metadata they ship', 'nilmtk data stores', 'pandas', 'PyTables', 'HDF5']
STUB = ['nilm_metadata', 'multiprocessing.Pool: jobs run one at a time in a drawn order, arguments and results are pickled',
        'os.listdir and os.scandir: drawn order']
ASSUME = ['the raw files are small; the two converters that need a network or a database (Dataport SQL, DEDDIAG) and the download helpers are left out',
          'a new process is simulated by closing every HDF5 file']
PROBES = ['repeated readings', 'out of order readings', 'fault hit the conversion', 'converted again after a fault', 'crash', 'workers out of order',
          'csv output'] + ['converter ' + n for n in sorted(convs.ALL)]
SHRINK = ('chans', 'houses', 'files', 'blocks', 'dups', 'swaps', 'gaps', 'null', 'faults')
WEIGHTS = {'eco': 1, 'iawe': 1, 'refit': 2}


def gen(rng, tier):
    name = rng.weighted([(n, WEIGHTS.get(n, 6)) for n in sorted(convs.ALL)])
    c = convs.ALL[name]
    s = {'conv': name, 'fmt': rng.choice(c.fmts), 'spec': c.gen(rng), 'orders': [[rng.randrange(1, 10 ** 6), rng.randrange(10 ** 6)] for _ in range(2)],
         'faults': []}
    if rng.chance(.6):
        s['faults'] = [{'at': rng.randint(0, 999), 'kind': rng.choice(['eio', 'eio', 'enospc', 'hdf', 'mem', 'intr', 'crash', 'crash'])}]
    s['cut'] = rng.choice([0, 50, 99])
    return s


def valid(s):
    sp = s['spec']
    if s['conv'] in ('refit',):
        return len(sp['chans']) == 20
    if s['conv'] in ('hipe', 'iawe'):
        return len(sp['chans']) == 11
    if s['conv'] == 'dred' or s['conv'] == 'caxe' or s['conv'] == 'ampds':
        return len(sp['chans']) >= 1 and (s['conv'] != 'ampds' or sp['chans'][0]['f'] == 'WHE')
    if s['conv'] == 'greend':
        return sp['houses'] and all(h['files'] and all(f['blocks'] for f in h['files']) for h in sp['houses'])
    if s['conv'] == 'dataport':
        return sp['files'] and all(sp['files'])
    if s['conv'] == 'hes':
        return set(c['h'] for c in sp['chans']) <= set(sp['houses'])
    if s['conv'] == 'smart':
        return len(sp['homes']) == 3
    if s['conv'] == 'eco':
        return len(sp['plugs']) == 3 and sp['days']
    return bool(sp['chans'])


def new_process():
    """All that a process holds open is gone."""
    import tables
    tables.file._open_files.close_all()


def digest(root):
    h = {}
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            p = os.path.join(d, f)
            with faults._real_open(p, 'rb') as fh:
                h[os.path.relpath(p, root)] = hashlib.sha256(fh.read()).hexdigest()
    return h


def has(x, key):
    if isinstance(x, dict):
        return bool(x.get(key)) or any(has(v, key) for v in x.values())
    return isinstance(x, list) and any(has(v, key) for v in x)


def run(scn, ctx):
    plane = faults.PLANE
    conv = convs.ALL[scn['conv']]
    sp = scn['spec']
    fmt = scn['fmt']
    raw = ctx.path('raw')
    for rel, data in conv.files(sp).items():
        p = os.path.join(raw, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode())
    before = digest(raw)
    ctx.probe('converter ' + conv.name)
    if has(sp, 'dups'):
        ctx.probe('repeated readings')
    if has(sp, 'swaps'):
        ctx.probe('out of order readings')
    if fmt == 'CSV':
        ctx.probe('csv output')
    import pandas as pd
    real_read = pd.read_csv

    def read_csv(*a, **k):
        if k.get('chunksize') and sp.get('rows'):
            k['chunksize'] = min(k['chunksize'], sp['rows'])
        return real_read(*a, **k)
    pd.read_csv = read_csv
    tmp = ctx.path('tmp')
    cwd = os.getcwd()

    def convert(i, out):
        scn['dirseed'], scn['poolseed'] = scn['orders'][i]
        os.chdir(cwd)
        conv.convert(ctx, sp, raw, out, fmt)

    def after(out, what):
        ctx.check(os.getcwd() == cwd, 'working-directory', lambda: '%s left the process in %s' % (conv.name, os.path.relpath(os.getcwd(), ctx.dir)))
        plane.on = False
        try:
            tabs = convs.read_back(out, fmt)
            ds, blds = convs.stored_metadata(out, fmt)
        finally:
            plane.on = True
        ctx.check(ds is not None and ds.get('meter_devices'), 'metadata', lambda: '%s: no dataset metadata' % conv.name)
        conv.verify(ctx, sp, tabs, ds, blds)
        if conv.static:
            import yaml
            want = {}
            for f in os.listdir(conv.metadata_dir()):
                if f.startswith('building'):
                    with open(os.path.join(conv.metadata_dir(), f)) as fh:
                        want[int(f[8:-5])] = yaml.safe_load(fh)
            ctx.check(sorted(want) == sorted(blds), 'metadata', lambda: '%s: buildings %r, shipped %r' % (conv.name, sorted(blds), sorted(want)))
            for b in want:
                ctx.check(sorted(want[b]['elec_meters']) == sorted(blds[b]['elec_meters']), 'metadata', lambda: '%s building %d' % (conv.name, b))
        ctx.check(digest(raw) == before, 'raw-files', lambda: '%s changed the raw files: %r' % (
            conv.name, sorted(set(digest(raw).items()) ^ set(before.items()))[:3]))
        # the result can be used straight away, by the process that converted it
        from nilmtk.utils import get_datastore
        st = get_datastore(out, fmt)
        for k in sorted(tabs)[:3]:
            n = sum(1 for _ in st.load('/building%d/elec/meter%d' % k))
            ctx.check(n >= 1 or len(tabs[k].ns) < 2, 'unreadable', lambda: '%s %r' % (conv.name, k))
        st.close()
        return {k: t.blob() for k, t in tabs.items()}, sorted((b, repr(sorted(md.items(), key=lambda x: str(x[0])))) for b, md in blds.items())

    def temps():
        return sorted(n for n in os.listdir(tmp) if not n.startswith('nilmtk-'))

    plane.start(ctx)
    ctx.begin()
    t0 = temps()
    plane.arm([])
    convert(0, ctx.path('a.h5' if fmt == 'HDF' else 'a'))
    total = plane.count.get('*', 0)
    ctx.step(conv.name, fmt, total)
    ctx.check(temps() == t0, 'temporary-files', lambda: '%s left %r in the temporary directory' % (conv.name, temps()))
    first = after(ctx.path('a.h5' if fmt == 'HDF' else 'a'), 'first')
    ctx.log('tables', sorted((k, hashlib.sha256(v[1] + v[2]).hexdigest()[:12]) for k, v in first[0].items()))
    ctx.data_s = int(sum((v and len(v[1]) // 8) or 0 for v in first[0].values()))
    ctx.nontrivial = len(first[0]) >= 3
    if conv.slow and not scn['faults']:
        return
    out = ctx.path('b.h5' if fmt == 'HDF' else 'b')
    failed = False
    if scn['faults'] and total:
        f = scn['faults'][0]
        plane.arm([{'site': '*', 'nth': 1 + f['at'] * total // 1000, 'kind': f['kind']}])
        try:
            convert(1, out)
        except BaseException as e:
            if isinstance(e, Violation) or not plane.fired:
                raise
            failed = True
            ctx.step('failed', type(e).__name__, plane.fired)
        if plane.fired:
            ctx.probe('fault hit the conversion')
        if failed:
            if plane.dead:
                ctx.probe('crash')
            plane.restart()
            new_process()
            for n in temps():
                if n not in t0:
                    t0 = sorted(t0 + [n])
    if failed or not scn['faults']:
        plane.arm([])
        convert(1, out)
        if failed:
            ctx.probe('converted again after a fault')
            ctx.step('again')
    plane.disarm()
    second = after(out, 'second')
    ctx.check(sorted(second[0]) == sorted(first[0]), 'listing-order', lambda: '%s: meters %r, then %r' % (conv.name, sorted(first[0]), sorted(second[0])))
    for k in sorted(first[0]):
        ctx.check(first[0][k] == second[0][k], 'listing-order',
                  lambda: '%s: meter %r differs when the directories are listed in another order' % (conv.name, k))
    ctx.check(first[1] == second[1], 'listing-order', lambda: '%s: the metadata differ when the directories are listed in another order' % conv.name)
