"""Generators of whole datasets, and digests of what queries return."""
import hashlib

import numpy as np
import pandas as pd

import streams as S
import world as W

APPS = ['fridge', 'kettle', 'television', 'light', 'washing machine', 'microwave']


def gen_meter(rng, i, site=False, of=0, cols=None, step=None, n=None, t0=None, kind=None, maxp=None, gaps=None, apps=None):
    step = step or rng.choice([1, 6, 10, 60])
    n = n or rng.randint(20, 120)
    if gaps is None:
        gaps = [[rng.randint(1, n - 1), step * rng.choice([1, 3, 30, 100])] for _ in range(rng.randint(0, 3))]
    m = {'i': i, 'period': step, 'max': maxp or step * rng.choice([1, 2, 5]),
         'data': {'t0': 0 if t0 is None else t0, 'n': n, 'step': step, 'gaps': gaps, 'jit': 0,
                  'cols': cols or ['pa'], 'kind': kind or rng.choice(['rand', 'onoff', 'uniq']), 'vseed': rng.randint(1, 30),
                  'level': rng.choice([20, 100, 1500])}}
    if site:
        m['site'] = True
    else:
        m['of'] = of
        m['apps'] = apps if apps is not None else [[APPS[(i - 2) % len(APPS)], 1]]
    return m


def gen_world(rng, n_sub=None, step=None, n=None, cols=None, t0s=(0,), name='SIM', tz='UTC', dtype='float64', blds=1, kind=None, gaps=None):
    out = []
    for b in range(1, blds + 1):
        ns = n_sub if n_sub is not None else rng.randint(1, 3)
        ms = [gen_meter(rng, 1, site=True, cols=cols, step=step, n=n, t0=rng.choice(t0s), kind=kind, gaps=gaps)]
        for i in range(2, 2 + ns):
            ms.append(gen_meter(rng, i, of=0, cols=cols, step=step, n=n, t0=rng.choice(t0s), kind=kind, gaps=gaps))
        out.append({'i': b, 'meters': ms})
    return {'name': name, 'tz': tz, 'dtype': dtype, 'buildings': out}


def meter_spec(world, b, i):
    for bb in world['buildings']:
        if bb['i'] == b:
            for m in bb['meters']:
                if m['i'] == i:
                    return m
    raise KeyError((b, i))


def app_type(name):
    from nilm_metadata import get_appliance_types
    return get_appliance_types()[name]


def open_dataset(path, fmt='HDF'):
    from nilmtk import DataSet
    return DataSet(path, format=fmt)


def canon(x, nd=6):
    """Something JSON-like that is equal for equal answers, whatever the order of labels."""
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return 'nan' if np.isnan(x) else float('%.*g' % (nd, float(x)))
    if isinstance(x, pd.Timestamp):
        return 'ts:%d' % x.value
    if isinstance(x, pd.Timedelta):
        return 'td:%d' % x.value
    if x is pd.NaT:
        return 'nat'
    t = type(x).__name__
    if t == 'TimeFrame':
        return ['tf', canon(x.start), canon(x.end), bool(x.empty)]
    if t == 'timedelta':
        return 'td:%r' % x.total_seconds()
    if isinstance(x, pd.Series):
        if isinstance(x.index, pd.DatetimeIndex):
            return ['series', [int(v) for v in x.index.asi8], [canon(v, nd) for v in x.values]]
        return ['map'] + sorted(([repr(k), canon(v, nd)] for k, v in x.items()), key=repr)
    if isinstance(x, pd.DataFrame):
        if isinstance(x.index, pd.DatetimeIndex) and len(x.index):
            idx = [int(v) for v in x.index.asi8]
        else:
            idx = [repr(v) for v in x.index]
        return ['frame', idx, sorted(([repr(c), [canon(v, nd) for v in x.iloc[:, j].values]] for j, c in enumerate(x.columns)), key=repr)]
    if isinstance(x, dict):
        return ['map'] + sorted(([repr(k), canon(v, nd)] for k, v in x.items()), key=repr)
    if isinstance(x, (set, frozenset)):
        return ['set'] + sorted((canon(v, nd) for v in x), key=repr)
    if isinstance(x, (list, tuple, np.ndarray)):
        return [canon(v, nd) for v in x]
    if isinstance(x, pd.Index):
        return [canon(v, nd) for v in x]
    return repr(x)


def digest(x):
    return hashlib.sha256(repr(canon(x)).encode()).hexdigest()[:12]
