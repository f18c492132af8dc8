"""C17: the same question has the same answer in every process, down to the order of its parts."""
import json
import os
import select
import shutil
import signal
import socket
import subprocess
import sys
import types

import numpy as np
import pandas as pd

import bld as B
import c12
import convs
import core
import faults
import queries as Q
import world as W

ID = 'C17'
RUNS = {'quick': 240, 'thorough': 9000}
RULE = ('a run asks 3-9 questions (queries, structure, tables of metadata, trained methods, whole experiments, conversions) about one generated dataset in its own process and in one or two others, which differ in everything a process is given by chance: '
        'the seed of string hashes, the local timezone, the clock, the order in which directories are listed, the order of the questions, and the working directory; the answers must be equal bit for bit, including the order of columns, meters, '
        'labels and edges; non-trivial when three answers were compared; distinct by world, questions and processes')
REAL = ['nilmtk (DataSet, meters, groups, statistics, api, methods, converters)', 'HDFDataStore', 'CSVDataStore', 'pandas', 'PyTables', 'HDF5', 'processes with other hash seeds']
STUB = ['nilm_metadata', 'os.listdir and os.scandir: drawn order', 'time.time: shifted']
ASSUME = ['the random number generators are seeded by the caller', 'mathematical libraries use one thread']
PROBES = ['csv', 'nested group', 'several buildings', 'query', 'structure', 'method', 'experiment', 'conversion', 'other hash seed', 'other local timezone', 'clock shifted', 'questions in another order', 'directories in another order', 'saved metadata']
SHRINK = ('items', 'envs', 'gaps', 'meters')
SEEDS = [('1', 'IST-5:30'), ('4242', 'EST5EDT'), ('31337', 'NZST-12')]
STRUCT = ['members', 'edges', 'downstream', 'top', 'columns', 'quantities', 'ac types', 'group columns', 'appliances', 'labels', 'groupby', 'values', 'select', 'select category', 'select list', 'union', 'identifier', 'nested', 'metadata', 'repr', 'label',
          'save', 'devices', 'split', 'from ids', 'describe', 'all elecs', 'group label', 'building ids', 'energy of power', 'energy of group', 'load of power']


def gen(rng, tier):
    tz = rng.choice(['UTC', 'Europe/London', 'America/New_York'])
    step = rng.choice([6, 60])
    blds = []
    for b in sorted(rng.some([1, 2, 3, 11], 1, 2)):
        ms = []
        n = rng.randint(2, 6)
        ids = rng.sample(range(1, 13), n)
        for j, i in enumerate(ids):
            m = B.gen_meter(rng, i, site=(j == 0), of=rng.choice([0] + ids[1:j]) if j else 0, cols=rng.choice([['pa'], ['pa', 'pr'], ['pa', 'pp', 'v'], ['ea', 'pa'], ['ca', 'pa']]), step=step, n=rng.randint(30, 70), t0=step * rng.choice([0, 0, 5]),
                            kind=rng.choice(['rand', 'onoff']))
            if j:
                m['apps'] = [[t, rng.choice([1, 1, 2])] for t in rng.sample(B.APPS, rng.choice([1, 1, 2, 3]))]
            if rng.chance(.3):
                m['room'] = rng.choice(['kitchen', 'lounge'])
            ms.append(m)
        multi = []
        if n > 3 and rng.chance(.4):
            two = ms[-2:]
            for m in two:
                m['apps'] = []
            multi = [['electric oven', 1, [m['i'] for m in two]]]
        blds.append({'i': b, 'meters': ms, 'multi': multi})
    w = {'name': 'SIM', 'tz': tz, 'dtype': 'float64', 'buildings': blds}
    items = []
    for _ in range(rng.randint(3, 9)):
        k = rng.weighted([('query', 5), ('struct', 5), ('method', 1), ('api', .4), ('convert', .5)])
        b = rng.choice(blds)
        it = {'k': k}
        if k in ('query', 'struct'):
            it.update(q=rng.choice(sorted(set(Q.QUERIES) - {'g wiring', 'g top'})) if k == 'query' else rng.choice(STRUCT), b=b['i'], m=rng.choice(b['meters'])['i'], o=rng.choice(b['meters'])['i'], p=rng.choice([None, step, step * 10]),
                      chunk=rng.choice([None, 7, 25]), sections=None, t=rng.choice(B.APPS))
        elif k == 'method':
            it.update(kind=rng.choice(['Mean', 'CO', 'CO', 'FHMM', 'Hart85']), seed=rng.randint(0, 99), napp=rng.randint(1, 3))
        elif k == 'api':
            have = sorted({a[0] for m in blds[0]['meters'] for a in m.get('apps', []) if a[1] == 1})
            it.update(apps=rng.some(have, 1, 4) if have else ['fridge'], chunk=rng.choice([None, None, 40]), art=rng.chance(.3))
        else:
            name = rng.choice(sorted(set(convs.ALL) - {'eco', 'iawe'}))
            it.update(conv=name, fmt=rng.choice(convs.ALL[name].fmts), spec=convs.ALL[name].gen(rng))
        items.append(it)
    envs = [{'z': z, 'dirseed': rng.randint(0, 99), 'perm': rng.randint(0, 99), 'clock': rng.choice([0, 86400 * 3, -10 ** 8, 10 ** 9])} for z in rng.some(list(range(len(SEEDS))), 1, 2)]
    fmt = rng.weighted([('HDF', 5), ('CSV', 2)])
    for it in items:
        if fmt == 'CSV' and it.get('chunk') and it['k'] == 'query':
            it['chunk'] = None           # parts of a CSV file do not overlap: C06
    return {'world': w, 'fmt': fmt, 'items': items, 'envs': envs}


def valid(s):
    if not s['items'] or not s['envs'] or not s['world']['buildings']:
        return False
    for b in s['world']['buildings']:
        have = {m['i'] for m in b['meters']}
        if not any(m.get('site') for m in b['meters']) or any(not m.get('site') and m['of'] not in have | {0} for m in b['meters']) or any(not set(x[2]) <= have for x in b.get('multi', [])):
            return False
        for m in b['meters']:
            if m['data']['n'] < 3 or not m['data']['cols'] or m['max'] < m['period'] or m['period'] != m['data']['step']:
                return False
    bs = {b['i']: {m['i'] for m in b['meters']} for b in s['world']['buildings']}
    for i in s['items']:
        if 'b' in i and (i['b'] not in bs or not {i['m'], i['o']} <= bs[i['b']]):
            return False
        if i['k'] == 'api' and not i['apps']:
            return False
        if i['k'] == 'convert':
            import c13
            if not c13.valid({'conv': i['conv'], 'spec': i['spec']}):
                return False
    return True


# ---------------------------------------------------------------- answers

def strict(x, depth=0):
    """Everything about an answer, its order included, as JSON"""
    t = type(x).__name__
    if depth > 12:
        return t
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return repr(float(x))
    if x is pd.NaT or isinstance(x, (pd.Timestamp, pd.Timedelta)):
        return str(x)
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        return [t] + [strict(v, depth + 1) for v in x]
    if isinstance(x, pd.Index):
        return [str(x.dtype), [strict(n, depth + 1) for n in x.names]] + [strict(v, depth + 1) for v in x]
    if isinstance(x, pd.Series):
        return ['series', strict(x.name, depth + 1), str(x.dtype), strict(x.index, depth + 1), [strict(v, depth + 1) for v in x.values]]
    if isinstance(x, pd.DataFrame):
        return ['frame', strict(x.columns, depth + 1), strict(x.index, depth + 1)] + [[str(x.dtypes.iloc[j]), [strict(v, depth + 1) for v in x.iloc[:, j].values]] for j in range(x.shape[1])]
    if t in ('TimeFrame',):
        return ['tf', str(x.start), str(x.end), bool(x.empty)]
    if t == 'MeterGroup':
        return ['group', x.name, [strict(m, depth + 1) for m in x.meters], [strict(m, depth + 1) for m in x.disabled_meters]]
    if t == 'ElecMeter':
        return ['meter', strict(x.identifier), [strict(a) for a in x.appliances]]
    if t == 'Appliance':
        return ['appliance', strict(x.identifier), strict(x.metadata, depth + 1)]
    if t == 'DiGraph':
        return ['graph', [strict(n) for n in x.nodes()], [[strict(a), strict(b)] for a, b in x.edges()]]
    if isinstance(x, dict) or hasattr(x, 'items'):
        return ['dict'] + [[strict(k, depth + 1), strict(v, depth + 1)] for k, v in x.items()]
    if isinstance(x, (set, frozenset)):
        return ['set'] + sorted((strict(v, depth + 1) for v in x), key=repr)
    if isinstance(x, np.ndarray):
        return [str(x.dtype)] + [strict(v, depth + 1) for v in x]
    if isinstance(x, (list, tuple)) or hasattr(x, '__iter__'):
        return [strict(v, depth + 1) for v in x]
    return repr(x) if ' at 0x' not in repr(x) else t


def struct(ds, it, scratch):
    from nilmtk import MeterGroup
    e = ds.buildings[it['b']].elec
    m = [x for y in e.all_meters() for x in (y.meters if hasattr(y, 'meters') else [y]) if x.instance() == it['m']][0]
    q = it['q']
    if q == 'save':
        # what a copy of the metadata holds
        return strict([ds.metadata, [[b, x.metadata, [[y.identifier, {k: v for k, v in y.metadata.items() if k != 'device'}, y.device] for y in x.elec.all_meters() if not hasattr(y, 'meters')]] for b, x in ds.buildings.items()]])
    return {'members': lambda: e, 'edges': lambda: e.wiring_graph(), 'downstream': lambda: e.meters_directly_downstream_of_mains(), 'top': lambda: e.submeters().select_top_k(k=2), 'columns': lambda: m.available_columns(),
            'quantities': lambda: m.available_physical_quantities(), 'ac types': lambda: m.available_ac_types('power'), 'group columns': lambda: [e.available_physical_quantities(), e.available_ac_types('power'), e.available_ac_types(['power', 'energy'])],
            'appliances': lambda: e.appliances, 'labels': lambda: e.get_labels([x.identifier for x in e.meters if not hasattr(x, 'meters')], pretty=False), 'groupby': lambda: e.submeters().groupby('type'),
            'values': lambda: e.submeters().values_for_appliance_metadata_key('type', only_consider_dominant_appliance=False), 'select': lambda: e.select(building=it['b']), 'select category': lambda: e.select_using_appliances(category='small'),
            'select list': lambda: e.select_using_appliances(type=[it['t'], 'fridge', 'kettle']), 'union': lambda: e.union(MeterGroup([m])), 'identifier': lambda: [e.identifier, e.instance(), e.building(), e.dataset()], 'nested': lambda: e.nested_metergroups(),
            'metadata': lambda: [ds.metadata, ds.buildings[it['b']].metadata], 'repr': lambda: [repr(e), repr(m)], 'label': lambda: [m.label(), m.label(pretty=False)], 'devices': lambda: m.device,
            'split': lambda: e.train_test_split(.5), 'from ids': lambda: e.from_list([x.identifier for x in e.meters]), 'describe': lambda: ds.describe(), 'all elecs': lambda: ds.elecs(), 'group label': lambda: [e.submeters().label(), e.label(pretty=True)],
            'building ids': lambda: list(ds.buildings), 'energy of power': lambda: m.total_energy(physical_quantity='power'), 'energy of group': lambda: [e.total_energy(), e.submeters().energy_per_meter(), e.total_energy(physical_quantity='power')],
            'load of power': lambda: [list(x.load(physical_quantity=['power', 'energy'], sample_period=60)) for x in (m, e)]}[q]()


def method(it):
    lv = [150, 300, 600]
    apps = [[lv[j], 4 + j, 5 + 2 * j, j] for j in range(it['napp'])]
    s = {'tables': [{'n': 80, 't0': 0, 'step': 60, 'flat': 0, 'noise': 0, 'nan': 0, 'seed': it['seed'], 'apps': apps}]}
    np.random.seed(it['seed'])
    clf = c12.new(it['kind'], {})
    if c12.fit(clf, s, it['kind'], {'t': [0]}) is None:
        return None
    t, a, m = c12.values(s['tables'][0])
    return clf.disaggregate_chunk([c12.table(t, m), c12.table(t[20:50], m[20:50])])


def experiment(it, path, w):
    from nilmtk.api import API
    from nilmtk.disaggregate import Mean, CO
    import matplotlib.pyplot as plt
    np.random.seed(5)
    b = w['buildings'][0]['i']
    t = {'start_time': '2013-12-30', 'end_time': '2014-01-03'}
    part = {'datasets': {'D': {'path': path, 'buildings': {b: t}}}}
    p = {'power': {'mains': ['active'], 'appliance': ['active']}, 'sample_rate': w['buildings'][0]['meters'][0]['period'], 'appliances': list(it['apps']), 'methods': {'Mean': Mean({}), 'CO': CO({})}, 'train': part,
         'test': dict(part, metrics=['mae', 'rmse']), 'artificial_aggregate': it['art']}
    if it['chunk']:
        p['chunk_size'] = it['chunk']
    api = API(p)
    plt.close('all')
    return [api.errors, api.errors_keys, getattr(api, 'pred_overall', None), getattr(api, 'gt_overall', None)]


def convert(it, scratch, n):
    conv = convs.ALL[it['conv']]
    raw = os.path.join(scratch, 'raw%d' % n)
    out = os.path.join(scratch, 'out%d%s' % (n, '.h5' if it['fmt'] == 'HDF' else ''))
    for rel, data in conv.files(it['spec']).items():
        p = os.path.join(raw, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode())
    try:
        conv.convert(faults.PLANE.ctx, it['spec'], raw, out, it['fmt'])
    finally:
        import tables
        tables.file._open_files.close_all()
    tabs = convs.read_back(out, it['fmt'])
    ds, blds = convs.stored_metadata(out, it['fmt'])
    return [[[list(k), [list(c) for c in t.cols], [int(v) for v in t.ns], [[repr(float(x)) for x in r] for r in t.v]] for k, t in sorted(tabs.items())], strict(ds), strict(dict(sorted(blds.items())))]


def answers(req):
    """All answers of one process"""
    import random
    import time
    sc = req['scratch']
    os.makedirs(sc, exist_ok=True)
    env = req['env']
    core.fresh_process_state(sc)
    keep = os.getcwd(), faults.PLANE.ctx, faults.PLANE.on, time.time
    c = types.SimpleNamespace(scn={'dirseed': env['dirseed'], 'poolseed': env['dirseed'], 'iobuf': 4096}, probe=lambda *a: None, path=lambda n: os.path.join(sc, n), dir=os.path.dirname(req['path']))
    faults.PLANE.arm([])
    faults.PLANE.on = True               # for the order of directories: no fault is due
    faults.PLANE.ctx = c
    os.chdir(sc)
    if env['clock']:
        real = time.time
        time.time = lambda: real() + env['clock']
    out = {}
    order = list(range(len(req['items'])))
    if env['perm']:
        random.Random(env['perm']).shuffle(order)
    try:
        ds = B.open_dataset(req['path'], req['fmt'])
        for n in order:
            it = req['items'][n]
            try:
                k = it['k']
                if k == 'query':
                    r = Q.QUERIES[it['q']](ds, dict(it, _path=os.path.join(sc, 'script.h5')))
                elif k == 'struct':
                    r = [list(ds.buildings), struct(ds, it, sc)]
                elif k == 'method':
                    r = method(it)
                elif k == 'api':
                    if req['fmt'] != 'HDF':
                        continue
                    r = experiment(it, req['path'], req['world'])
                else:
                    continue
                r = ['ok', strict(r)]
            except Exception as e:
                if os.environ.get('SIM_STDERR'):
                    import traceback
                    traceback.print_exc()
                r = ['error', type(e).__name__]
            out[str(n)] = r
        ds.store.close()
        for n in order:              # a conversion ends with every file closed
            if req['items'][n]['k'] == 'convert':
                try:
                    out[str(n)] = ['ok', convert(req['items'][n], sc, n)]
                except Exception as e:
                    if os.environ.get('SIM_STDERR'):
                        import traceback
                        traceback.print_exc()
                    out[str(n)] = ['error', type(e).__name__]
    finally:
        os.chdir(keep[0])
        faults.PLANE.ctx, faults.PLANE.on, time.time = keep[1:]
    return out


# ---------------------------------------------------------------- other processes

def address(z):
    return '\0nilmsim-%s-%d' % (os.environ.get('SIM_ZPARENT', ''), z)


def warm():
    import nilmtk.api          # noqa
    import sklearn.metrics     # noqa
    if os.environ.get('SIM_ZYGOTE'):
        return
    os.environ['SIM_ZPARENT'] = '%d-%s' % (os.getpid(), os.path.basename(os.environ.get('SIM_BASE', '')))
    global PROCS
    PROCS = []
    for z, (seed, tz) in enumerate(SEEDS):
        env = dict(os.environ, PYTHONHASHSEED=seed, TZ=tz, SIM_ZYGOTE=str(z))
        PROCS.append(subprocess.Popen([sys.executable, '-c', 'import sys; sys.path.insert(0, %r); import driver; driver.load(%r).serve()' % (core.HERE, ID)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd='/'))
    for p in PROCS:
        assert p.stdout.readline() == b'ready\n', 'a process with another hash seed does not start'


def serve():
    """A warmed-up process which answers each request in a child, until its parent is gone."""
    s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    s.bind(address(int(os.environ['SIM_ZYGOTE'])))
    s.listen(32)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    print('ready', flush=True)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    if not os.environ.get('SIM_STDERR'):
        os.dup2(null, 2)
    while True:
        r, _, _ = select.select([s, 0], [], [])
        if 0 in r and not os.read(0, 1):
            os._exit(0)
        if s in r:
            c, _ = s.accept()
            if os.fork() == 0:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                try:
                    s.close()
                    buf = b''
                    while not buf.endswith(b'\n'):
                        d = c.recv(1 << 16)
                        if not d:
                            os._exit(1)
                        buf += d
                    try:
                        out = answers(json.loads(buf))
                    except BaseException as e:
                        out = {'harness': repr(e)}
                    c.sendall(json.dumps(out).encode())
                finally:
                    os._exit(0)
            c.close()


def ask(z, req):
    c = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    c.connect(address(z))
    c.sendall(json.dumps(req).encode() + b'\n')
    buf = b''
    while True:
        d = c.recv(1 << 16)
        if not d:
            break
        buf += d
    c.close()
    out = json.loads(buf)
    if 'harness' in out:
        raise RuntimeError('another process: ' + out['harness'])
    return out


def first_difference(a, b, path=''):
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_difference(x, y, '%s[%d]' % (path, i))
    return '%s: %s\nversus %s' % (path, str(a)[:700], str(b)[:700])


def run(scn, ctx):
    plane = faults.PLANE
    plane.start(ctx)
    w, fmt = scn['world'], scn['fmt']
    path = ctx.path('d.h5' if fmt == 'HDF' else 'd')
    (W.write_hdf if fmt == 'HDF' else W.write_csv)(w, path)
    ctx.begin()
    ctx.data_s = sum(int(W.seconds(m['data'])[-1] - W.seconds(m['data'])[0]) for b in w['buildings'] for m in b['meters'])
    if fmt == 'CSV':
        ctx.probe('csv')
    if any(b.get('multi') for b in w['buildings']):
        ctx.probe('nested group')
    if len(w['buildings']) > 1:
        ctx.probe('several buildings')
    items = json.loads(json.dumps(scn['items']))
    req = {'path': path, 'fmt': fmt, 'world': w, 'items': items}
    here = core.in_fork(lambda: answers(dict(req, scratch=ctx.path('here'), env={'dirseed': 0, 'perm': 0, 'clock': 0})))
    if here[0] != 'ok':
        raise RuntimeError(here[2])
    here = here[1]
    ok = sum(1 for r in here.values() if r[0] == 'ok')
    for n, it in enumerate(items):
        ctx.step(it['k'], it.get('q') or it.get('kind') or it.get('conv') or '-')
        if here.get(str(n), ['none'])[0] == 'ok':
            ctx.probe({'query': 'query', 'struct': 'structure', 'method': 'method', 'api': 'experiment', 'convert': 'conversion'}[it['k']])
        elif os.environ.get('SIM_STDERR'):
            print('ERR', it['k'], it.get('q') or it.get('kind') or it.get('conv') or '-', here.get(str(n)), file=sys.stderr)
        if it.get('q') == 'save':
            ctx.probe('saved metadata')
    for k, v in sorted(here.items()):
        ctx.log(k, v)
    for j, env in enumerate(scn['envs']):
        ctx.step('process', env['z'], env['dirseed'], env['perm'], env['clock'])
        there = ask(env['z'], dict(req, scratch=ctx.path('there%d' % j), env=env))
        ctx.probe('other hash seed')
        ctx.probe('other local timezone')
        for k, p in (('clock', 'clock shifted'), ('perm', 'questions in another order'), ('dirseed', 'directories in another order')):
            if env[k]:
                ctx.probe(p)
        for n, it in enumerate(items):
            a, b = here.get(str(n)), there.get(str(n))
            ctx.check(a == b, it.get('q') or it.get('kind') or it.get('conv') or it['k'], lambda: 'question %r\nin this process, and in one with hash seed %s, TZ=%s and %r, differ at %s' % (
                {k: v for k, v in it.items() if k != 'spec'}, SEEDS[env['z']][0], SEEDS[env['z']][1], env, first_difference(a, b)))
    ctx.nontrivial = ok >= 3
