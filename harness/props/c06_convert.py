"""C06: convert_datastore copies a dataset completely, whatever the formats."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from engine import Sub
from support import ensure, fresh_path, nk, ns
from props.datasets import building_metadata, device, root_metadata, write
from props.storegen import COLSETS, check_frame, expected_rows, interval, mk_tf, table

ID = 'C06'
RULE = ('generated datasets of 1-3 buildings (numbers up to 11) with 1-4 meters (tables of 2-12 rows, 1-3 '
        'columns, NaNs, sub-second times) and their metadata, converted HDF->CSV, CSV->HDF, HDF->HDF, CSV->CSV or there and '
        'back, with or without a window on the source; every table, listing and metadata dict of the result '
        'is compared with the spec. `zones`: the same over changes of the clocks. Non-trivial: more than one meter in all.')
FORMATS = [['hdf', 'csv'], ['csv', 'hdf'], ['hdf', 'hdf'], ['csv', 'csv'], ['hdf', 'csv', 'hdf'], ['csv', 'hdf', 'csv']]


@st.composite
def case(draw):
    bs = []
    for i in sorted(draw(st.sets(st.sampled_from([1, 2, 3, 10, 11]), min_size=1, max_size=3))):
        meters = []
        for m in sorted(draw(st.sets(st.sampled_from([1, 2, 3, 9, 10, 12]), min_size=1, max_size=4))):
            t = draw(table(max_rows=12, ms=True))
            t['off'] = 100 * i + m
            up = None if not meters or draw(st.integers(0, 3)) == 0 else meters[0]['m']
            meters.append({'m': m, 'dev': device('d%d' % t['cols'], COLSETS[t['cols']], 6, 30), 'up': up, 't': t})
        apps = [{'type': 'fridge', 'instance': 1, 'meters': [meters[-1]['m']]}] if draw(st.booleans()) else []
        bs.append({'i': i, 'meters': meters, 'apps': apps})
    t0 = bs[0]['meters'][0]['t']['secs']
    return {'spec': {'name': 'gen', 'tz': 'UTC', 'buildings': bs}, 'chain': draw(st.integers(0, len(FORMATS) - 1)),
            'win': draw(st.one_of(st.none(), st.none(), interval(t0, inc=False)))}


def check(c):
    spec = c['spec']
    conv = nk('nilmtk.datastore.datastore').convert_datastore
    chain = FORMATS[c['chain']]

    def opener(kind, path, mode):
        return nk.HDFDataStore(path, mode) if kind == 'hdf' else nk.CSVDataStore(path)

    path = write(spec, chain[0], data_tz='UTC')
    win = c['win'] or [None, None, False]
    full = [None, None, False]
    rows = {}
    for b in spec['buildings']:
        for m in b['meters']:
            rows[(b['i'], m['m'])] = expected_rows(m['t'], win, full)
    if any(len(r) < 2 for r in rows.values()):
        win = full                     # a window without data for a meter: not representable in a store
        for b in spec['buildings']:
            for m in b['meters']:
                rows[(b['i'], m['m'])] = list(range(len(m['t']['secs'])))
    for step in range(1, len(chain)):
        src = opener(chain[step - 1], path, 'r')
        if step == 1:
            src.window = mk_tf(win)
        out = fresh_path('.h5' if chain[step] == 'hdf' else '')
        dst = opener(chain[step], out, 'w')
        conv(src, dst)
        src.close()
        dst.close()
        path = out
    dst = opener(chain[-1], path, 'r')
    what = '->'.join(chain)
    ensure(sorted(dst.elements_below_key('/')) == sorted('building%d' % b['i'] for b in spec['buildings']),
           '%s: buildings %r', what, dst.elements_below_key('/'))
    got = dst.load_metadata('/')
    ensure(got == root_metadata(spec), '%s: dataset metadata %r, expected %r', what, got, root_metadata(spec))
    n = 0
    for b in spec['buildings']:
        key = '/building%d' % b['i']
        exp = building_metadata(b, spec['name'])
        got = dst.load_metadata(key)
        ensure(got == exp, '%s: metadata of %s is %r, expected %r', what, key, got, exp)
        ms = sorted(dst.elements_below_key(key + '/elec'))
        ensure(ms == sorted('meter%d' % m['m'] for m in b['meters']), '%s: meters of %s are %r', what, key, ms)
        for m in b['meters']:
            n += 1
            r = rows[(b['i'], m['m'])]
            check_frame(dst['%s/elec/meter%d' % (key, m['m'])], m['t'], r, COLSETS[m['t']['cols']],
                        '%s: %s/elec/meter%d' % (what, key, m['m']), 'UTC')
            got = list(dst.load('%s/elec/meter%d' % (key, m['m'])))
            ensure(len(got) == 1, '%s: converted table loads in %d pieces', what, len(got))
            check_frame(got[0], m['t'], r, COLSETS[m['t']['cols']], '%s: load(meter%d)' % (what, m['m']), 'UTC')
    dst.close()
    return (n > 1, [what] + (['window'] if win != full else []))


# -- tables in zones with daylight saving
ZONES = [('Europe/London', '2014-03-30 01:00'), ('America/New_York', '2014-11-02 06:00'), ('Europe/Berlin', '2014-07-01'), ('Asia/Kathmandu', '2014-01-01')]


@st.composite
def zone_case(draw):
    z = lambda: draw(st.lists(st.sampled_from([1, 6, 900, 3600, 7200]), min_size=1, max_size=10))
    ms = [{'m': m, 'gaps': z(), 'back': draw(st.integers(0, 20000))} for m in sorted(draw(st.sets(st.integers(1, 12), min_size=1, max_size=3)))]
    return {'ms': ms, 'zone': draw(st.integers(0, len(ZONES) - 1)), 'chain': draw(st.integers(0, len(FORMATS) - 1))}


def check_zone(c):
    zone, change = ZONES[c['zone']]
    conv = nk('nilmtk.datastore.datastore').convert_datastore
    chain = FORMATS[c['chain']]
    cols = COLSETS[0]
    spec = {'name': 'gen', 'tz': zone, 'buildings': [{'i': 3, 'apps': [], 'meters': [{'m': m['m'], 'dev': device('d', cols, 6, 30), 'up': None, 't': None} for m in c['ms']]}]}

    def opener(kind, path, mode):
        return nk.HDFDataStore(path, mode) if kind == 'hdf' else nk.CSVDataStore(path)

    path = fresh_path('.h5' if chain[0] == 'hdf' else '')
    src = opener(chain[0], path, 'w')
    frames = {}
    for m in c['ms']:
        secs = np.concatenate([[0], np.cumsum(m['gaps'])]) - m['back']
        index = (pd.Timestamp(change, tz='UTC') + pd.to_timedelta(secs, unit='s')).tz_convert(zone)
        df = pd.DataFrame(m['m'] * 100. + np.arange(len(index) * len(cols)).reshape(-1, len(cols)), index=index,
                          columns=pd.MultiIndex.from_tuples([tuple(x) for x in cols], names=['physical_quantity', 'type']))
        frames[m['m']] = df
        src.put('/building3/elec/meter%d' % m['m'], df)
    src.save_metadata('/', root_metadata(spec))
    src.save_metadata('/building3', building_metadata(spec['buildings'][0], 'gen'))
    src.close()
    for step in range(1, len(chain)):
        src = opener(chain[step - 1], path, 'r')
        path = fresh_path('.h5' if chain[step] == 'hdf' else '')
        dst = opener(chain[step], path, 'w')
        conv(src, dst)
        src.close()
        dst.close()
    dst = opener(chain[-1], path, 'r')
    what = '->'.join(chain)
    for m, df in frames.items():
        got = dst['/building3/elec/meter%d' % m]
        ensure(isinstance(got.index, pd.DatetimeIndex) and got.index.tz is not None, '%s: index %s', what, got.index.dtype)
        ensure(list(ns(got.index)) == list(ns(df.index)), '%s: meter %d at %r, expected %r', what, m, list(got.index)[:5], list(df.index)[:5])
        ensure(list(got.columns) == list(df.columns) and (got.values == df.values).all(), '%s: meter %d holds %r', what, m, got.values[:3].tolist())
        if set(chain) == {'hdf'}:
            ensure(str(got.index.tz) == zone, '%s: zone %s instead of %s', what, got.index.tz, zone)
    dst.close()
    return (True, [what, zone] + ['changes'] * any(len({x.utcoffset() for x in df.index}) > 1 for df in frames.values()))


SUBS = [Sub('convert', case(), check, quick=240, thorough=4000, shards=8),
        Sub('zones', zone_case(), check_zone, quick=160, thorough=2500, shards=8)]
