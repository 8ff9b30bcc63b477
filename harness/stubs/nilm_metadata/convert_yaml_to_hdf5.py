from copy import deepcopy
from os import listdir
from os.path import isdir, isfile, join, splitext
import yaml
import pandas as pd


class NilmMetadataError(Exception):
    pass


def _load_file(yaml_dir, yaml_filename):
    path = join(yaml_dir, yaml_filename)
    if not isfile(path):
        raise NilmMetadataError("{} not found.".format(path))
    with open(path, 'rb') as fh:
        return yaml.safe_load(fh)


def _deep_copy_meters(elec_meters):
    for k in list(elec_meters):
        elec_meters[k] = deepcopy(elec_meters[k])


def _set_data_location(elec_meters, building):
    for meter_instance in elec_meters:
        elec_meters[meter_instance]['data_location'] = (
            '/{}/elec/meter{:d}'.format(building, meter_instance))


def _buildings(yaml_dir):
    return sorted(f for f in listdir(yaml_dir)
                  if f.startswith('building') and f.endswith('.yaml'))


def _load_all(yaml_dir):
    assert isdir(yaml_dir), yaml_dir
    metadata = _load_file(yaml_dir, 'dataset.yaml')
    metadata['meter_devices'] = _load_file(yaml_dir, 'meter_devices.yaml')
    out = []
    for fname in _buildings(yaml_dir):
        building = splitext(fname)[0]
        md = _load_file(yaml_dir, fname)
        _deep_copy_meters(md['elec_meters'])
        _set_data_location(md['elec_meters'], building)
        out.append((building, md))
    return metadata, out


def convert_yaml_to_hdf5(yaml_dir, hdf_filename):
    metadata, buildings = _load_all(yaml_dir)
    store = pd.HDFStore(hdf_filename, 'a')
    try:
        store.root._v_attrs.metadata = metadata
        for building, md in buildings:
            try:
                group = store._handle.create_group('/', building)
            except Exception:
                group = store._handle.get_node('/' + building)
            group._v_attrs.metadata = md
    finally:
        store.close()


def save_yaml_to_datastore(yaml_dir, store):
    metadata, buildings = _load_all(yaml_dir)
    store.save_metadata('/', metadata)
    for building, md in buildings:
        store.save_metadata('/' + building, md)
