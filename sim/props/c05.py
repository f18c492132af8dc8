"""C05: converting a dataset from one store to another copies everything, or fails loudly."""
import copy
import os

import numpy as np
import pandas as pd

import bld as B
import core
import faults
import streams as S
import world as W
from core import Violation

ID = 'C05'
RUNS = {'quick': 480, 'thorough': 9000}
RULE = ('a run converts a generated dataset (1-3 buildings, 1-4 meters each, gaps, blank readings, clock changes) along a drawn chain of '
        'formats, with a source that hands out its tables in parts of a drawn size, directory listings in a drawn order and failures at drawn reads '
        'and writes; non-trivial when some table arrived in several parts or a fault fired; distinct by dataset layout, chain, part size and faults')
REAL = ['nilmtk.datastore.convert_datastore', 'HDFDataStore', 'CSVDataStore', 'pandas', 'PyTables', 'PyYAML']
STUB = ['nilm_metadata', 'the default part size of the source (2**28 rows, out of reach) is replaced by a drawn one', 'order of directory listings']
ASSUME = ['every table has at least two samples in time order', 'a table does not begin with a sample that is blank in all columns',
          'metadata can be written as YAML']
PROBES = ['hdf to csv', 'csv to hdf', 'hdf to hdf', 'csv to csv', 'several parts', 'failed conversion', 'repeated after failure', 'cache in source', 'blank readings']
SHRINK = ('chain', 'faults', 'buildings', 'meters')


def gen(rng, tier):
    blds = rng.randint(1, 3)
    bi = sorted(rng.sample([1, 2, 3, 10, 11], blds))
    out = []
    for b in bi:
        ids = [1] + sorted(rng.sample([2, 3, 4, 10, 12], rng.randint(0, 3)))
        ms = []
        for i in ids:
            m = B.gen_meter(rng, i, site=i == 1, cols=rng.choice([['pa'], ['pa', 'pr'], ['pa', 'v'], ['pp', 'ea', 'v'], ['v', 'pa']]),
                            n=rng.choice([2, 3, rng.randint(4, 60)]), t0=rng.choice([0, 7600000, 7605000]), gaps=[[1, rng.choice([0, 3600])]],
                            kind='uniq')
            if rng.chance(.3):
                m['data']['nans'] = [rng.randint(1, 30) for _ in range(rng.randint(1, 3))]
            ms.append(m)
        out.append({'i': b, 'meters': ms})
    fmts = rng.choice([['HDF', 'CSV'], ['CSV', 'HDF'], ['HDF', 'HDF'], ['CSV', 'CSV'], ['HDF', 'CSV', 'HDF'], ['CSV', 'HDF', 'CSV']])
    fl = []
    if rng.chance(.45):
        for _ in range(rng.randint(1, 2)):
            fl.append({'leg': rng.randrange(len(fmts) - 1), 'site': rng.choice(['*', '*', 'fs.read', 'fs.write', 'hdf.read', 'hdf.write', 'hdf.flush', 'fs.open']),
                       'nth': rng.choice([1, 2, 3, 5, 8, 13, 21, 34]), 'kind': rng.choice(['eio', 'enospc', 'hdf', 'mem', 'intr'])})
    return {'world': {'name': 'CONV', 'tz': rng.choice(['UTC', 'Europe/London', 'US/Eastern']), 'dtype': rng.choice(['float64', 'float32']), 'buildings': out},
            'chain': fmts, 'faults': fl, 'chunk': rng.choice([None, 1, 2, 3, 7, 20]), 'cache': rng.chance(.3),
            'dirseed': rng.randint(1, 10 ** 6), 'iobuf': rng.choice([64, 512])}


def valid(s):
    return len(s['chain']) >= 2 and s['world']['buildings'] and all(
        m['data']['n'] >= 2 for b in s['world']['buildings'] for m in b['meters']) and (s['chunk'] is None or s['chunk'] > 0)


def read_back(fmt, path):
    """What is in a store, read without nilmtk. -> {key: frame}, dataset metadata, {building: metadata}"""
    import yaml
    tabs, blds = {}, {}
    if fmt == 'HDF':
        st = pd.HDFStore(path, 'r')
        try:
            for k in st.keys():
                tabs[k] = st[k]
            ds = copy.deepcopy(st.root._v_attrs.metadata)
            for c in st.root._v_children:
                blds[int(c[8:])] = copy.deepcopy(st.get_node('/' + c)._v_attrs.metadata)
        finally:
            st.close()
    else:
        for d, _, fs in os.walk(path):
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith('.csv'):
                    df = pd.read_csv(p, index_col=0, header=[0, 1])
                    df.index = pd.to_datetime(df.index, utc=True)
                    df.columns = pd.MultiIndex.from_tuples([tuple('' if x.startswith('Unnamed') else x for x in c) for c in df.columns])
                    tabs['/' + os.path.relpath(p, path)[:-4]] = df
                elif f.startswith('building'):
                    with open(p) as fh:
                        blds[int(f[8:-5])] = yaml.safe_load(fh)
        with open(os.path.join(path, 'metadata', 'dataset.yaml')) as fh:
            ds = yaml.safe_load(fh)
        with open(os.path.join(path, 'metadata', 'meter_devices.yaml')) as fh:
            ds['meter_devices'] = yaml.safe_load(fh)
    return tabs, ds, blds


def compare(ctx, got, want, where):
    gt, gd, gb = got
    wt, wd, wb = want
    ctx.check(set(gt) == set(wt), 'wrong-tables', lambda: '%s: %r expected %r' % (where, sorted(gt), sorted(wt)))
    for k in sorted(wt):
        ctx.check(S.frame_eq(gt[k], wt[k]), 'wrong-table', lambda: '%s %s:\n%s\nexpected\n%s' % (where, k, S.show(gt[k]), S.show(wt[k])))
    ctx.check(gd == wd, 'wrong-metadata', lambda: '%s: %r expected %r' % (where, gd, wd))
    ctx.check(gb == wb, 'wrong-metadata', lambda: '%s: %r expected %r' % (where, gb, wb))


def run(scn, ctx):
    from nilmtk.datastore import HDFDataStore, CSVDataStore
    from nilmtk.datastore.datastore import convert_datastore
    plane = faults.PLANE
    plane.start(ctx)
    w = scn['world']
    tr = (W.write_hdf if scn['chain'][0] == 'HDF' else W.write_csv)(w, ctx.path('s0'))
    wd, wb = W.metadata(w)
    want = (tr, wd, wb)
    ctx.data_s = sum(int(S.instants(x)[-1] - S.instants(x)[0]) for x in tr.values())
    if any(x.isna().values.any() for x in tr.values()):
        ctx.probe('blank readings')
    if scn['cache'] and scn['chain'][0] == 'HDF':
        st = pd.HDFStore(ctx.path('s0'), 'a')
        st.put('/building%d/elec/cache/meter1/total_energy' % w['buildings'][0]['i'],
               pd.DataFrame({'a': [1.0]}, index=pd.to_datetime([0], utc=True)), format='table')
        st.close()
        ctx.probe('cache in source')
    src0 = read_back(scn['chain'][0], ctx.path('s0'))
    parts = [0]

    def opened(fmt, path, role):
        st = (HDFDataStore(path, 'w' if role == 'out' else 'r') if fmt == 'HDF' else CSVDataStore(path))
        if role == 'in' and scn['chunk'] is not None:
            real = st.load

            def load(key, **kw):
                kw.setdefault('chunksize', scn['chunk'])
                for x in real(key, **kw):
                    parts[0] += 1
                    yield x
            st.load = load
        return st

    ctx.begin()
    n_tabs = len(tr)
    for leg, (a, b) in enumerate(zip(scn['chain'], scn['chain'][1:])):
        ctx.step('leg', a, b, [(m['i'], m['data']['n'], m['data']['cols']) for x in w['buildings'] for m in x['meters']], scn['chunk'])
        ctx.probe('%s to %s' % (a.lower(), b.lower()))
        fl = [f for f in scn['faults'] if f['leg'] == leg]
        for attempt in range(3):
            out = ctx.path('s%d%s' % (leg + 1, '' if attempt == 0 else '-again%d' % attempt))
            src = opened(a, ctx.path('s%d' % leg), 'in')
            dst = opened(b, out, 'out')
            plane.arm([{'site': f['site'], 'nth': f['nth'], 'kind': f['kind']} for f in (fl if attempt == 0 else [])])
            failed = False
            try:
                convert_datastore(src, dst)
            except (core.SimFault, core.SimHDFFault, core.SimInterrupt, MemoryError) as e:
                if not plane.fired:
                    raise
                failed = True
            fired = list(plane.fired)
            plane.restart()
            src.close()
            try:
                dst.close()
            except Exception:
                if not failed:
                    raise
            if fired:
                ctx.nontrivial = True
                ctx.step('fired', fired, failed)
            if failed:
                ctx.probe('failed conversion')
                continue
            if parts[0] > n_tabs:
                ctx.probe('several parts')
                ctx.nontrivial = True
            compare(ctx, read_back(b, out), want, '%s to %s' % (a, b))
            if attempt:
                ctx.probe('repeated after failure')
            os.rename(out, ctx.path('s%d' % (leg + 1))) if attempt and not os.path.exists(ctx.path('s%d' % (leg + 1))) else None
            if attempt:
                scn_path = ctx.path('s%d' % (leg + 1))
                if out != scn_path and os.path.exists(out):
                    import shutil
                    if os.path.isdir(scn_path):
                        shutil.rmtree(scn_path)
                    elif os.path.exists(scn_path):
                        os.remove(scn_path)
                    os.rename(out, scn_path)
            break
        else:
            raise Violation('no-progress', 'conversion fails although no fault is left')
    now = read_back(scn['chain'][0], ctx.path('s0'))
    ctx.check(set(now[0]) == set(src0[0]) and all(S.frame_eq(now[0][k], src0[0][k]) for k in now[0] if 'cache' not in k)
              and now[1:] == src0[1:], 'source-changed', '')
