import os
from copy import deepcopy
from os.path import isdir, isfile, join, splitext
from sys import stderr

import pandas as pd
import yaml


def _load_file(yaml_dir, yaml_filename):
    path = join(yaml_dir, yaml_filename)
    if isfile(path):
        with open(path, 'rb') as fh:
            return yaml.safe_load(fh)
    print(path, "not found.", file=stderr)


def _building_metadatas(yaml_dir):
    names = sorted(f for f in os.listdir(yaml_dir)
                   if f.startswith('building') and f.endswith('.yaml'))
    for fname in names:
        building = splitext(fname)[0]
        md = _load_file(yaml_dir, fname)
        meters = md['elec_meters']
        for instance, meter in list(meters.items()):
            meters[instance] = deepcopy(meter)
        for instance in meters:
            meters[instance]['data_location'] = '/{}/elec/meter{:d}'.format(
                building, instance)
        yield building, md


def convert_yaml_to_hdf5(yaml_dir, hdf_filename):
    assert isdir(yaml_dir)
    store = pd.HDFStore(hdf_filename, 'a')
    metadata = _load_file(yaml_dir, 'dataset.yaml')
    metadata['meter_devices'] = _load_file(yaml_dir, 'meter_devices.yaml')
    store.root._v_attrs.metadata = metadata
    for building, md in _building_metadatas(yaml_dir):
        try:
            group = store._handle.create_group('/', building)
        except Exception:
            group = store._handle.get_node('/' + building)
        group._f_setattr('metadata', md)
    store.close()


def save_yaml_to_datastore(yaml_dir, store):
    assert isdir(yaml_dir)
    metadata = _load_file(yaml_dir, 'dataset.yaml')
    metadata['meter_devices'] = _load_file(yaml_dir, 'meter_devices.yaml')
    store.save_metadata('/', metadata)
    for building, md in _building_metadatas(yaml_dir):
        store.save_metadata('/' + building, md)
