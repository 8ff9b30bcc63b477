"""Small helpers for the demonstrations (copied beside each demo.py)."""
import os
import sys
import tempfile

import numpy as np
import pandas as pd
import nilmtk
from nilmtk import TimeFrame, HDFDataStore, CSVDataStore, DataSet  # noqa

assert os.path.realpath(nilmtk.__file__).startswith(os.path.realpath(os.environ['PYTHONPATH'].split(':')[0])), nilmtk.__file__
DIR = tempfile.mkdtemp()
_n = [0]


def path(suffix=''):
    _n[0] += 1
    return os.path.join(DIR, 'f%d%s' % (_n[0], suffix))


def expect(cond, msg=''):
    if not cond:
        print('DEMO FAILED', msg)
        sys.stdout.flush()
        os._exit(1)


def done():
    """Leave without the exit handlers of the code under test."""
    print('demo ok')
    sys.stdout.flush()
    os._exit(0)


def T(s, tz='UTC'):
    return (pd.Timestamp('2014-01-01', tz='UTC') + pd.Timedelta(seconds=s)).tz_convert(tz)


def frame(secs, cols=(('power', 'active'),), vals=None, tz='UTC', dtype='float64'):
    n = len(secs)
    if vals is None:
        vals = [[float(i + 1000 * j) for i in range(n)] for j in range(len(cols))]
    df = pd.DataFrame(np.array(vals, dtype='float64').T.astype(dtype),
                      index=pd.DatetimeIndex([T(s, tz) for s in secs]).as_unit('ns'))
    df.columns = pd.MultiIndex.from_tuples(list(cols), names=['physical_quantity', 'type'])
    return df


def device(cols=(('power', 'active'),), sp=6, msp=30, lim=(0, 100000)):
    ms = []
    for pq, ac in cols:
        m = {'physical_quantity': pq}
        if ac:
            m['type'] = ac
        if pq == 'power' and lim is not None:
            m['lower_limit'], m['upper_limit'] = lim
        ms.append(m)
    return {'model': 'dev', 'sample_period': sp, 'max_sample_period': msp, 'measurements': ms}


def dataset(buildings, tz='UTC', name='demo', dev=None, devices=None, kind='hdf'):
    """buildings: {i: {'meters': {m: (frame, metadata)}, 'appliances': [...]}}"""
    p = path('.h5' if kind == 'hdf' else '')
    store = HDFDataStore(p, 'w') if kind == 'hdf' else CSVDataStore(p)
    store.save_metadata('/', {'name': name, 'timezone': tz, 'meter_devices': devices or {'dev': dev or device()}})
    for i, b in buildings.items():
        meters = {}
        for m, (df, md) in b['meters'].items():
            key = '/building%d/elec/meter%d' % (i, m)
            if df is not None:
                store.put(key, df)
            meters[m] = dict({'device_model': 'dev', 'data_location': key}, **md)
        store.save_metadata('/building%d' % i, {'instance': i, 'dataset': name, 'elec_meters': meters,
                                                'appliances': b.get('appliances', [])})
    store.close()
    return DataSet(p, format='HDF' if kind == 'hdf' else 'CSV')


def one_meter(df, dev=None, **kw):
    ds = dataset({1: {'meters': {1: (df, {'site_meter': True})}}}, dev=dev or device(list(df.columns)), **kw)
    return ds, ds.buildings[1].elec.meters[0]
