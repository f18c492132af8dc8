from copy import deepcopy
from os import listdir
from os.path import isdir, isfile, join, splitext
from sys import stderr

import pandas as pd
import yaml


class NilmMetadataError(Exception):
    pass


def _building_files(yaml_dir):
    return [f for f in listdir(yaml_dir)
            if f.startswith('building') and f.endswith('.yaml')]


def _load_file(yaml_dir, yaml_filename):
    full = join(yaml_dir, yaml_filename)
    if isfile(full):
        with open(full, 'rb') as fh:
            return yaml.safe_load(fh)
    print(full, "not found.", file=stderr)


def _prepare(building_metadata, building):
    meters = building_metadata['elec_meters']
    for i, meter in list(meters.items()):
        meter = deepcopy(meter)
        meter['data_location'] = '/{:s}/elec/meter{:d}'.format(building, i)
        meters[i] = meter
    return building_metadata


def convert_yaml_to_hdf5(yaml_dir, hdf_filename):
    assert isdir(yaml_dir)
    store = pd.HDFStore(hdf_filename, 'a')
    try:
        metadata = _load_file(yaml_dir, 'dataset.yaml')
        metadata['meter_devices'] = _load_file(yaml_dir, 'meter_devices.yaml')
        store.root._v_attrs.metadata = metadata
        for fname in _building_files(yaml_dir):
            building = splitext(fname)[0]
            try:
                group = store._handle.create_group('/', building)
            except Exception:
                group = store._handle.get_node('/' + building)
            group._f_setattr('metadata', _prepare(_load_file(yaml_dir, fname), building))
    finally:
        store.close()


def save_yaml_to_datastore(yaml_dir, store):
    assert isdir(yaml_dir)
    metadata = _load_file(yaml_dir, 'dataset.yaml')
    metadata['meter_devices'] = _load_file(yaml_dir, 'meter_devices.yaml')
    store.save_metadata('/', metadata)
    for fname in _building_files(yaml_dir):
        building = splitext(fname)[0]
        store.save_metadata('/' + building, _prepare(_load_file(yaml_dir, fname), building))
    store.close()
