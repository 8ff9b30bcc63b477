"""Generated datasets: a JSON spec -> a real data store with metadata."""
from hypothesis import strategies as st

from support import frame, fresh_path, nk
from props.storegen import COLSETS, to_df, values


def measurements(cols):
    out = []
    for pq, ac in cols:
        m = {'physical_quantity': pq}
        if ac:
            m['type'] = ac
        if pq == 'power':
            m['upper_limit'], m['lower_limit'] = 100000, 0
        out.append(m)
    return out


def device(name, cols, sp, msp, limits=None):
    d = {'model': name, 'sample_period': sp, 'max_sample_period': msp, 'measurements': measurements(cols)}
    if limits is not None:
        for m in d['measurements']:
            if m['physical_quantity'] == 'power':
                m['lower_limit'], m['upper_limit'] = limits
    return d


def table_df(t, tz='UTC', dtype='float32'):
    if 'vals' in t:
        return frame(t['secs'], t.get('columns') or COLSETS[t['cols']], t['vals'], tz, dtype)
    return to_df(t, tz, dtype)


def root_metadata(spec):
    devs = {}
    for b in spec['buildings']:
        for m in b['meters']:
            devs.setdefault(m['dev']['model'], m['dev'])
    md = {'name': spec['name'], 'long_name': 'generated', 'meter_devices': devs}
    if spec.get('tz'):
        md['timezone'] = spec['tz']
    return md


def building_metadata(b, name):
    meters = {}
    for m in b['meters']:
        e = {'device_model': m['dev']['model'], 'data_location': '/building%d/elec/meter%d' % (b['i'], m['m'])}
        if m.get('up') is None:
            e['site_meter'] = True
        else:
            e['submeter_of'] = m['up']
        e.update(m.get('extra', {}))
        meters[m['m']] = e
    return {'instance': b['i'], 'dataset': name, 'elec_meters': meters,
            'appliances': [dict(a) for a in b.get('apps', [])], 'original_name': 'house_%d' % b['i'], **b.get('extra', {})}


def write(spec, kind='hdf', data_tz=None, dtype='float32'):
    """Returns the path of a new store."""
    path = fresh_path('.h5' if kind == 'hdf' else '')
    store = nk.HDFDataStore(path, 'w') if kind == 'hdf' else nk.CSVDataStore(path)
    store.save_metadata('/', root_metadata(spec))
    for b in spec['buildings']:
        for m in b['meters']:
            if m.get('t') is not None:
                store.put('/building%d/elec/meter%d' % (b['i'], m['m']),
                          table_df(m['t'], data_tz or ('UTC' if kind == 'csv' else spec.get('tz') or 'UTC'), dtype))
        store.save_metadata('/building%d' % b['i'], building_metadata(b, spec['name']))
    store.close()
    return path


def open_dataset(spec, kind='hdf', **kw):
    path = write(spec, kind, **kw)
    return nk.DataSet(path, format='HDF' if kind == 'hdf' else 'CSV')


def one_meter(t, sp=6, msp=30, limits=None, tz='UTC', kind='hdf', apps=None, extra=None, dtype='float32', cols=None):
    """A dataset with a single site meter holding table t; returns (dataset, meter)."""
    cols = cols or t.get('columns') or COLSETS[t['cols']]
    b = {'i': 1, 'meters': [{'m': 1, 'dev': device('dev', cols, sp, msp, limits), 'up': None, 't': t,
                             'extra': extra or {}}], 'apps': apps or []}
    ds = open_dataset({'name': 'gen', 'tz': tz, 'buildings': [b]}, kind, dtype=dtype)
    return ds, ds.buildings[1].elec.meters[0]
