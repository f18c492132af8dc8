"""Builds small datasets for the simulated runs, and the in-memory truth about them.

A world is a JSON document (it is part of the replay file), so that a run is a pure
function of it.  The files are written with pandas/PyTables/plain text directly, not
through nilmtk, so that the truth does not depend on the code under test.
"""
import os

import numpy as np
import pandas as pd
import yaml

LEVELS = ['physical_quantity', 'type']
T0 = 1388534400  # 2014-01-01T00:00:00Z

COLS = {
    'pa': ('power', 'active'), 'pp': ('power', 'apparent'), 'pr': ('power', 'reactive'),
    'ea': ('energy', 'active'), 'ca': ('cumulative energy', 'active'), 'v': ('voltage', None),
}


def cols_index(names):
    return pd.MultiIndex.from_tuples(
        [tuple('' if x is None else x for x in COLS[c]) for c in names], names=LEVELS)


def seconds(series):
    """Offsets (s) of the samples of a series spec.

    spec: {'t0': s, 'n': rows, 'step': s, 'gaps': [[i, extra_s]...], 'jit': seed or 0}
    """
    step = series['step']
    n = series['n']
    d = np.full(n, step, dtype='int64')
    if n:
        d[0] = 0
    for i, extra in series.get('gaps', []):
        if 0 < i < n:
            d[i] += extra
    off = np.cumsum(d)
    if series.get('jit'):
        r = np.random.RandomState(series['jit'])
        off = off + r.randint(0, max(1, step // 3), n)
    return series['t0'] + off


def values(series, ncols):
    """Deterministic values: multiples of 0.5, so that float32 and sums stay exact."""
    r = np.random.RandomState(series.get('vseed', 1))
    n = series['n']
    kind = series.get('kind', 'rand')
    if kind == 'rand':
        v = r.randint(0, 4000, (n, ncols)) * 0.5
    elif kind == 'onoff':
        st = np.cumsum(r.rand(n) < series.get('flip', 0.2)) % 2
        v = np.repeat((st * series.get('level', 100) + r.randint(0, 3, n))[:, None], ncols, 1)
        v = v.astype(float)
    elif kind == 'steps':     # off, low and high
        st = np.cumsum(r.rand(n) < series.get('flip', 0.2))
        st = np.array([0, 1, 2, 0, 2, 1])[st % 6]
        v = np.repeat((np.array([0, 1, 2.5])[st] * series.get('level', 100) + r.randint(0, 3, n))[:, None], ncols, 1)
    elif kind == 'uniq':      # every value unique
        v = np.arange(n * ncols).reshape(n, ncols) + series.get('vseed', 1) * 100000.0
    else:
        raise ValueError(kind)
    v = np.asarray(v, dtype='float64')
    for i in series.get('nans', []):
        if i < n:
            v[i, :] = np.nan
    return v


def frame(series, tz='UTC', dtype='float64'):
    cols = series['cols']
    idx = pd.to_datetime(T0 + seconds(series), unit='s', utc=True).tz_convert(tz)
    v = values(series, len(cols))
    for j, c in enumerate(cols):
        if c == 'ca':
            v[:, j] = np.cumsum(np.nan_to_num(v[:, j]))
    return pd.DataFrame(v, index=idx, columns=cols_index(cols)).astype(dtype)


def device(spec):
    """spec: {'period': s, 'max': s, 'cols': [...], 'hi': v, 'lo': v}"""
    ms = []
    for c in spec['cols']:
        pq, ac = COLS[c]
        m = {'physical_quantity': pq}
        for k, q, d in (('upper_limit', 'hi', 1e9), ('lower_limit', 'lo', -1e9)):
            if spec.get(q, d) is not None:
                m[k] = spec.get(q, d)
        if ac:
            m['type'] = ac
        ms.append(m)
    d = {'model': spec.get('model', 'M'), 'sample_period': spec['period'],
         'max_sample_period': spec['max'], 'measurements': ms, 'wireless': False}
    return d


def limits(m):
    """of a meter; None stands for a limit which its device does not state"""
    lo, hi = m.get('lo', -1e9), m.get('hi', 1e9)
    return -1e9 if lo is None else lo, 1e9 if hi is None else hi


def metadata(world):
    """-> dataset metadata, {building instance: building metadata}"""
    ds = {'name': world.get('name', 'SIM'), 'timezone': world.get('tz', 'UTC'), 'meter_devices': {}}
    blds = {}
    for b in world['buildings']:
        bi = b['i']
        md = {'instance': bi, 'dataset': ds['name'], 'original_name': 'house_%d' % bi,
              'timezone': ds['timezone'], 'elec_meters': {}, 'appliances': []}
        if b.get('unnamed'):
            del md['dataset']
        for m in b['meters']:
            dev = m.get('dev') or 'dev_%d_%d' % (bi, m['i'])
            s = m['data']
            ds['meter_devices'][dev] = device(dict(
                model=dev, period=m.get('period', s['step']), max=m.get('max', s['step']),
                cols=s['cols'], hi=m.get('hi', 1e9), lo=m.get('lo', -1e9)))
            em = {'device_model': dev, 'data_location': '/building%d/elec/meter%d' % (bi, m['i'])}
            if m.get('site'):
                em['site_meter'] = True
            else:
                em['submeter_of'] = m.get('of', 0)
            if m.get('disabled'):
                em['disabled'] = True
            if m.get('dominant'):
                em['dominant_appliance'] = m['dominant']
            for k in ('name', 'room'):
                if m.get(k):
                    em[k] = m[k]
            md['elec_meters'][m['i']] = em
            for a in m.get('apps', []):
                md['appliances'].append(dict({'type': a[0], 'instance': a[1], 'meters': [m['i']]}, **(a[2] if len(a) > 2 else {})))
        for a in b.get('multi', []):     # appliances on several meters
            md['appliances'].append(dict({'type': a[0], 'instance': a[1], 'meters': list(a[2])}, **(a[3] if len(a) > 3 else {})))
        blds[bi] = md
    if world.get('shuffle'):             # the same metadata, written down in another order
        import random
        r = random.Random(world['shuffle'])

        def mixed(d):
            ks = list(d)
            r.shuffle(ks)
            return {k: d[k] for k in ks}
        ds = mixed(ds)
        ds['meter_devices'] = mixed(ds['meter_devices'])
        for md in blds.values():
            md['elec_meters'] = mixed(md['elec_meters'])
            r.shuffle(md['appliances'])
        blds = mixed(blds)
    return ds, blds


def truth(world):
    """{key: DataFrame}"""
    out = {}
    for b in world['buildings']:
        for m in b['meters']:
            out['/building%d/elec/meter%d' % (b['i'], m['i'])] = frame(
                m['data'], world.get('tz', 'UTC'), world.get('dtype', 'float64'))
    return out


def write_hdf(world, path, edit=None):
    ds, blds = metadata(world)
    tr = truth(world)
    if edit:
        tr = {k: edit(k, df) for k, df in tr.items()}
    st = pd.HDFStore(path, 'w', complevel=9, complib='blosc')
    try:
        for k, df in tr.items():
            st.put(k, df, format='table', index=False)
            st.create_table_index(k, columns=['index'], kind='full', optlevel=9)
        st.root._v_attrs.metadata = ds
        for bi, md in blds.items():
            try:
                g = st.get_node('/building%d' % bi)
                assert g is not None
            except Exception:
                g = st._handle.create_group('/', 'building%d' % bi)
            g._f_setattr('metadata', md)
    finally:
        st.close()
    return tr


def write_csv(world, path, edit=None):
    ds, blds = metadata(world)
    tr = truth(world)
    if edit:
        tr = {k: edit(k, df) for k, df in tr.items()}
    os.makedirs(os.path.join(path, 'metadata'), exist_ok=True)
    for k, df in tr.items():
        fn = os.path.join(path, k[1:] + '.csv')
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        df.to_csv(fn)
    dd = dict(ds)
    md = dd.pop('meter_devices')
    for name, obj in [('dataset', dd), ('meter_devices', md)] + [('building%d' % i, x) for i, x in blds.items()]:
        with open(os.path.join(path, 'metadata', name + '.yaml'), 'w') as f:
            yaml.safe_dump(obj, f)
    return tr
