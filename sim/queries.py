"""Every way to ask a dataset something, by name, for properties that hold for all of them.

QUERIES[name](ds, op) -> answer; op: {'q': name, 'b': building, 'm': meter, 'o': other meter, 'p': period or None, 'sections': ..., 'chunk': ...}
ids() turns an answer into something comparable: values to 6 digits, identifiers as plain tuples.
"""
import contextlib
import os

import pandas as pd

import bld as B
import streams as S


def meter(ds, op, k='m'):
    ms = ds.buildings[op['b']].elec.all_meters()
    return [x for x in ms if x.instance() == op[k]][0]


def elec(ds, op):
    return ds.buildings[op['b']].elec


def kw(ds, op, period=True, chunk=True):
    k = {}
    if op.get('sections') is not None:
        k['sections'] = [S.tframe(x, ds.metadata['timezone']) for x in op['sections']]
    if chunk and op.get('chunk'):
        k['chunksize'] = op['chunk']
    if period and op.get('p'):
        k['sample_period'] = op['p']
    return k


def labels(ms):
    return sorted([[m.building(), m.instance() if not isinstance(m.instance(), tuple) else list(m.instance())] for m in ms], key=repr)


def script(ds, op):
    """The activity script of the dataset, read back"""
    p = op['_path']
    ds.get_activity_script(p)
    st = pd.HDFStore(p, 'r')
    try:
        return {k: st[k] for k in st.keys()}
    finally:
        st.close()
        os.remove(p)


QUERIES = {
    # one meter
    'load': lambda ds, op: list(meter(ds, op).load(**kw(ds, op))),
    'series': lambda ds, op: list(meter(ds, op).power_series(**kw(ds, op))),
    'all': lambda ds, op: meter(ds, op).power_series_all_data(**kw(ds, op)),
    'energy': lambda ds, op: meter(ds, op).total_energy(**kw(ds, op, False)),
    'good': lambda ds, op: list(meter(ds, op).good_sections(**kw(ds, op, False))),
    'dropout': lambda ds, op: meter(ds, op).dropout_rate(**kw(ds, op, False, False)),
    'dropout all': lambda ds, op: meter(ds, op).dropout_rate(ignore_gaps=False, **kw(ds, op, False, False)),
    'uptime': lambda ds, op: meter(ds, op).uptime(**kw(ds, op, False)),
    'extent': lambda ds, op: meter(ds, op).get_timeframe(),
    'average': lambda ds, op: meter(ds, op).average_energy_per_period('H', use_uptime=False),
    'average up': lambda ds, op: meter(ds, op).average_energy_per_period('H'),
    'on': lambda ds, op: list(meter(ds, op).when_on(on_power_threshold=50, **kw(ds, op))),
    'activations': lambda ds, op: meter(ds, op).get_activations(on_power_threshold=50, min_off_duration=20, min_on_duration=10, **kw(ds, op)),
    'histogram': lambda ds, op: meter(ds, op).activity_histogram(bin_duration='H', on_power_threshold=50),
    'vampire': lambda ds, op: meter(ds, op).vampire_power(),
    'switches': lambda ds, op: meter(ds, op).switch_times(30),
    'share of mains': lambda ds, op: meter(ds, op).proportion_of_energy(elec(ds, op).mains()),
    'share of upstream': lambda ds, op: meter(ds, op).proportion_of_upstream(),
    'correlation': lambda ds, op: meter(ds, op).correlation(meter(ds, op, 'o')),
    # groups
    'g load': lambda ds, op: list(elec(ds, op).load(**kw(ds, op))),
    'g all': lambda ds, op: elec(ds, op).power_series_all_data(**kw(ds, op)),
    'g frame': lambda ds, op: elec(ds, op).dataframe_of_meters(**kw(ds, op, chunk=False)),
    'g energy': lambda ds, op: elec(ds, op).total_energy(**kw(ds, op, False)),
    'g dropout': lambda ds, op: elec(ds, op).dropout_rate(**kw(ds, op, False, False)),
    'g extent': lambda ds, op: elec(ds, op).get_timeframe(),
    'g per meter': lambda ds, op: elec(ds, op).submeters().energy_per_meter(),
    'g remainder': lambda ds, op: elec(ds, op).submeters().energy_per_meter(mains=elec(ds, op).mains()),
    'g fraction': lambda ds, op: elec(ds, op).submeters().fraction_per_meter(),
    'g top': lambda ds, op: labels(elec(ds, op).submeters().select_top_k(k=2).meters),
    'g submetered': lambda ds, op: elec(ds, op).proportion_of_energy_submetered(),
    'g of upstream': lambda ds, op: elec(ds, op).submeters().proportion_of_upstream_total_per_meter(),
    'g split': lambda ds, op: elec(ds, op).train_test_split(.5),
    'g switches': lambda ds, op: elec(ds, op).simultaneous_switches(30),
    'g correlation': lambda ds, op: elec(ds, op).submeters().pairwise_correlation(),
    'g sum correlation': lambda ds, op: elec(ds, op).correlation_of_sum_of_submeters_with_mains(),
    'g good': lambda ds, op: list(elec(ds, op).good_sections(**kw(ds, op, False))),
    'g wiring': lambda ds, op: sorted([labels([a])[0], labels([b])[0]] for a, b in elec(ds, op).wiring_graph().edges()),
    'g describe': lambda ds, op: elec(ds, op).describe(),
    'describe': lambda ds, op: ds.buildings[op['b']].describe(),
    'ds describe': lambda ds, op: ds.describe(),
    'script': script,
}
STATIC = {'g wiring'}       # do not depend on the samples


def ids(x):
    """Identifiers, and whatever contains them, as plain tuples"""
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        return tuple(ids(v) for v in x)
    if isinstance(x, pd.Series) and not isinstance(x.index, pd.DatetimeIndex):
        return ['map'] + sorted(([repr(ids(k)), B.canon(ids(v))] for k, v in x.items()), key=repr)
    if isinstance(x, pd.DataFrame):
        rows = [int(v) for v in x.index.asi8] if isinstance(x.index, pd.DatetimeIndex) else [repr(ids(v)) for v in x.index]
        cols = [[repr(tuple(ids(c)) if isinstance(c, tuple) else ids(c)), [B.canon(ids(v)) for v in x.iloc[:, j].values]] for j, c in enumerate(x.columns)]
        if rows and not isinstance(x.index, pd.DatetimeIndex):
            o = sorted(range(len(rows)), key=lambda i: rows[i])
            rows, cols = [rows[i] for i in o], [[c, [v[i] for i in o]] for c, v in cols]
        return ['frame', rows, sorted(cols, key=repr)]
    if isinstance(x, dict):
        return ['map'] + sorted(([repr(ids(k)), B.canon(ids(v))] for k, v in x.items()), key=repr)
    if isinstance(x, (list, tuple)):
        return [ids(v) for v in x]
    return B.canon(x)


def ask(ds, op):
    """-> ['ok', canonical answer] or ['error', class]; simulated faults pass through"""
    import core
    try:
        return ['ok', ids(QUERIES[op['q']](ds, op))]
    except (core.SimFault, core.SimHDFFault, core.SimInterrupt, core.SimCrash, MemoryError, core.Violation):
        raise
    except Exception as e:
        if os.environ.get('SIM_STDERR'):
            import traceback
            traceback.print_exc()
        return ['error', type(e).__name__]


def close(a, b, rtol=2e-5, atol=1e-6):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        return a == b or abs(a - b) <= atol + rtol * max(abs(a), abs(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, rtol, atol) for x, y in zip(a, b))
    return a == b


@contextlib.contextmanager
def isolated():
    """As in a process of its own: no cached statistics, no other meters or devices known."""
    import nilmtk
    from nilmtk import TmpDataStore, MeterGroup
    keep = nilmtk.STATS_CACHE, nilmtk.global_meter_group, nilmtk.ElecMeter.meter_devices
    nilmtk.STATS_CACHE, nilmtk.global_meter_group, nilmtk.ElecMeter.meter_devices = TmpDataStore(), MeterGroup(), {}
    try:
        yield
    finally:
        nilmtk.STATS_CACHE.close()
        nilmtk.STATS_CACHE, nilmtk.global_meter_group, nilmtk.ElecMeter.meter_devices = keep
