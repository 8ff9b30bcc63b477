"""C26: a dataset converter puts every raw reading where the dataset's metadata says it is."""
import gzip
import os
import random
import sys
import types

import numpy as np
import pandas as pd
import yaml
from hypothesis import strategies as st

from engine import Sub
from support import case_dir, ensure, fresh_path, nk, ns

ID = 'C26'
RULE = ('generated raw datasets in the file layout each converter documents (REDD, UK-DALE, REFIT, DRED, iAWE, AMPds, '
        'COMBED, HIPE, IDEAL, GREEND, ECO, HES, Dataport CSV, Smart*, DEDDIAG with a stand-in for its database): random houses / channels / files, readings unsorted '
        'or duplicated where the format allows it, missing readings; the converted store is read back and compared with '
        'the readings written. Non-trivial: more than one meter.')
BASE = 1371000000
CONV = 'nilmtk.dataset_converters.'


def mkdir(*p):
    d = os.path.join(*p)
    os.makedirs(d, exist_ok=True)
    return d


def raw_dir():
    d = fresh_path('')
    os.makedirs(d)
    return d


def put(path, text):
    mkdir(os.path.dirname(path))
    with open(path, 'w') as f:
        f.write(text)


def read(path, fmt, key):
    if fmt == 'CSV':
        s = nk.CSVDataStore(path)
        parts = list(s.load(key))
        return pd.concat(parts) if len(parts) > 1 else parts[0]
    return STORE[key]


STORE = None


class opened:
    def __init__(self, path, fmt):
        self.path, self.fmt = path, fmt

    def __enter__(self):
        global STORE
        STORE = pd.HDFStore(self.path, 'r') if self.fmt == 'HDF' else None

    def __exit__(self, *a):
        if STORE is not None:
            STORE.close()


def keys(path, fmt):
    if fmt == 'HDF':
        return sorted(k for k in STORE.keys() if '/elec/meter' in k)
    s = nk.CSVDataStore(path)
    return sorted('/%s/elec/%s' % (b, m) for b in s.elements_below_key('/') if b.startswith('building')
                  for m in s.elements_below_key('/%s/elec' % b))


def check_table(path, fmt, key, cols, rows, tz, bag=False, rtol=1e-6):
    """rows: [(nanoseconds, v, v, ...)] in the order expected (any order among equal times if bag)."""
    df = read(path, fmt, key)
    ensure([tuple(x) for x in df.columns] == list(cols), '%s: columns %r, expected %r', key, list(df.columns), cols)
    ensure(list(df.columns.names) == ['physical_quantity', 'type'], '%s: column levels %r', key, df.columns.names)
    if fmt == 'HDF':
        ensure(df.index.tz is not None and str(df.index.tz) == tz, '%s: time zone %s, expected %s', key, df.index.tz, tz)
    got = [(int(t),) + tuple(float(x) for x in r) for t, r in zip(ns(df.index), df.values)]
    ensure(len(got) == len(rows), '%s: %d rows, expected %d', key, len(got), len(rows))
    if bag:
        ensure([g[0] for g in got] == [r[0] for r in rows], '%s: times differ', key)
        got = sorted(got, key=lambda r: tuple('%r' % (round(x, 3),) for x in r))
        rows = sorted(rows, key=lambda r: tuple('%r' % (round(float(x), 3) if i else x,) for i, x in enumerate(r)))
        got.sort()
        rows = sorted(rows)
    for i, (g, r) in enumerate(zip(got, rows)):
        ensure(g[0] == r[0], '%s: row %d at %s, expected %s', key, i, pd.Timestamp(g[0]), pd.Timestamp(r[0]))
        for x, y, col in zip(g[1:], r[1:], cols):
            same = (np.isnan(x) and np.isnan(y)) or abs(x - y) <= 1e-6 + rtol * abs(y)
            ensure(same, '%s: %r at %s is %r, the raw reading is %r', key, col, pd.Timestamp(g[0]), x, y)
    return len(rows)


def check_meta(path, fmt, yaml_dir, only=None):
    """the metadata of the dataset and of each of its buildings is in the store"""
    store = nk.HDFDataStore(path, 'r') if fmt == 'HDF' else nk.CSVDataStore(path)
    try:
        md = store.load_metadata('/')
        with open(os.path.join(yaml_dir, 'dataset.yaml')) as f:
            want = yaml.safe_load(f)
        ensure(md.get('name') == want['name'] and md.get('timezone') == want.get('timezone') and md.get('meter_devices'),
               'dataset metadata %r', {k: md.get(k) for k in ('name', 'timezone')})
        for f in sorted(os.listdir(yaml_dir)):
            if f.startswith('building') and (only is None or f[:-5] in only):
                with open(os.path.join(yaml_dir, f)) as fh:
                    w = yaml.safe_load(fh)
                g = store.load_metadata('/' + f[:-5])
                ensure(sorted(g['elec_meters']) == sorted(w['elec_meters']) and g['appliances'] == w['appliances'],
                       'metadata of %s: %r', f[:-5], g)
    finally:
        store.close()


def conv_dir(name):
    return os.path.join(os.path.dirname(nk('nilmtk').__file__), 'dataset_converters', name, 'metadata')


def times(rng, n, dup=0, unsorted=False, step=(1, 90), base=BASE, off=None):
    t = base + (rng.randrange(0, 10 ** 7) if off is None else off)
    out = []
    for i in range(n):
        if not (i > 1 and rng.random() < dup):
            t += rng.randint(*step)
        out.append(t)
    if unsorted:
        rng.shuffle(out)
    return out


def val(rng):
    return rng.choice([0, rng.randint(1, 3000), rng.randint(1, 9999) / 4])


FMT = st.sampled_from(['HDF', 'HDF', 'CSV'])
SEED = st.integers(0, 10 ** 6)


# ------------------------------------------------------------------ REDD / UK-DALE
@st.composite
def case_redd(draw):
    hs = draw(st.sets(st.integers(1, 6), min_size=1, max_size=3))
    return {'fmt': draw(FMT), 'seed': draw(SEED), 'un': draw(st.booleans()), 'dup': draw(st.sampled_from([0, 0, 0.2])),
            'h': {str(h): sorted(draw(st.sets(st.integers(1, 21), min_size=1, max_size=4))) for h in sorted(hs)}}


def check_redd(c):
    rng = random.Random(c['seed'])
    d, out = raw_dir(), fresh_path('.h5' if c['fmt'] == 'HDF' else '')
    want = {}
    for h, chans in c['h'].items():
        for ch in chans:
            n = rng.randint(2, 12)
            rows = [(t, val(rng)) for t in times(rng, n, c['dup'], c['un'])]
            put('%s/house_%s/channel_%d.dat' % (d, h, ch), ''.join('%d %s\n' % r for r in rows))
            want['/building%s/elec/meter%d' % (h, ch)] = (ch, sorted(rows, key=lambda r: r[0]))
        put('%s/house_%s/labels.dat' % (d, h), '1 mains\n2 mains\n')
    nk(CONV + 'redd.convert_redd').convert_redd(d, out, c['fmt'])
    with opened(out, c['fmt']):
        ensure(set(want) <= set(keys(out, c['fmt'])), 'meters %r', keys(out, c['fmt']))
        for k, (ch, rows) in want.items():
            check_table(out, c['fmt'], k, [('power', 'apparent' if ch <= 2 else 'active')],
                        [(t * 10 ** 9, v) for t, v in rows], 'US/Eastern', bag=True)
    check_meta(out, c['fmt'], conv_dir('redd'))
    return (len(want) > 1, [c['fmt']] + ['unsorted'] * c['un'] + ['dups'] * bool(c['dup']))


@st.composite
def case_ukdale(draw):
    hs = sorted(draw(st.sets(st.integers(1, 5), min_size=1, max_size=2)))
    return {'fmt': draw(FMT), 'seed': draw(SEED), 'dup': draw(st.sampled_from([0, 0.3])), 'drop': draw(st.sampled_from([True, True, False])),
            'h': {str(h): {'chans': sorted(draw(st.sets(st.integers(2, 12), min_size=1, max_size=4))), 'mains': draw(st.booleans()),
                           'dis': draw(st.booleans())} for h in hs}}


UK_DEV = {'e': {'sample_period': 6, 'max_sample_period': 120, 'measurements': [{'physical_quantity': 'power', 'type': 'apparent'}]},
          'p': {'sample_period': 6, 'max_sample_period': 120, 'measurements': [{'physical_quantity': 'power', 'type': 'active'}]},
          's': {'sample_period': 1, 'max_sample_period': 30, 'measurements': [
              {'physical_quantity': 'power', 'type': 'active'}, {'physical_quantity': 'power', 'type': 'apparent'},
              {'physical_quantity': 'voltage'}]}}


def check_ukdale(c):
    rng = random.Random(c['seed'])
    d, out = raw_dir(), fresh_path('.h5' if c['fmt'] == 'HDF' else '')
    want, one = {}, {}
    md = mkdir(d, 'metadata')
    put(md + '/dataset.yaml', yaml.dump({'name': 'UK-DALE', 'timezone': 'Europe/London'}))
    put(md + '/meter_devices.yaml', yaml.dump(UK_DEV))

    def dedupe(rows):
        seen, out = set(), []
        for r in rows:
            if not (c['drop'] and r[0] in seen):
                out.append(r)
            seen.add(r[0])
        return out

    for h, x in c['h'].items():
        meters = {1: {'device_model': 's' if x['mains'] else 'e', 'site_meter': True}}
        if x['mains'] and x['dis']:
            # the site meter proper is the 1-second one; channel 1 (6-second aggregate) is disabled
            meters = {1: {'device_model': 'e', 'site_meter': True, 'disabled': True}}
            meters[54] = {'device_model': 's', 'site_meter': True}
        apps = []
        for ch in x['chans']:
            meters[ch] = {'device_model': 'p' if ch % 3 else 'e', 'submeter_of': 0}
            apps.append({'type': 'fridge', 'instance': len(apps) + 1, 'meters': [ch]})
        put('%s/building%s.yaml' % (md, h), yaml.dump({'instance': int(h), 'elec_meters': meters, 'appliances': apps}))
        for ch in meters:
            key = '/building%s/elec/meter%d' % (h, ch)
            if meters[ch]['device_model'] == 's':
                rows = [(t + rng.choice([0, .25, .5]) * (not c['dup']), val(rng), val(rng), 240 + rng.randint(0, 40) / 4) for t in times(rng, rng.randint(2, 12), c['dup'], step=(1, 3))]
                put('%s/house_%s/mains.dat' % (d, h), ''.join('%s %s %s %s\n' % r for r in rows))
                one[key] = dedupe(rows)
            else:
                rows = [(t, val(rng)) for t in times(rng, rng.randint(2, 12), c['dup'])]
                put('%s/house_%s/channel_%d.dat' % (d, h, ch), ''.join('%d %s\n' % r for r in rows))
                want[key] = ('active' if meters[ch]['device_model'] == 'p' else 'apparent', dedupe(rows))
    before = sorted(os.listdir(md))
    kw = {} if c['drop'] else {'drop_duplicates': False}
    nk(CONV + 'ukdale.convert_ukdale').convert_ukdale(d, out, c['fmt'], **kw)
    ensure(sorted(os.listdir(md)) == before, 'the raw metadata directory now holds %r', sorted(os.listdir(md)))
    with opened(out, c['fmt']):
        ensure(keys(out, c['fmt']) == sorted(list(want) + list(one)), 'meters %r, expected %r', keys(out, c['fmt']), sorted(list(want) + list(one)))
        for k, (ac, rows) in want.items():
            check_table(out, c['fmt'], k, [('power', ac)], [(t * 10 ** 9, v) for t, v in rows], 'Europe/London', bag=True)
        for k, rows in one.items():
            check_table(out, c['fmt'], k, [('power', 'active'), ('power', 'apparent'), ('voltage', '')],
                        [(int(r[0] * 4) * 25 * 10 ** 7,) + r[1:] for r in rows], 'Europe/London', bag=True)
    if c['fmt'] == 'HDF':
        check_meta(out, 'HDF', md)
    return (len(want) + len(one) > 1, [c['fmt']] + ['one-second'] * bool(one) + ['dups'] * bool(c['dup']) + ['keep dups'] * (not c['drop']))


# ------------------------------------------------------------------ REFIT / DRED
REFIT_HOUSES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 19, 20, 21]


@st.composite
def case_refit(draw):
    return {'fmt': draw(st.sampled_from(['HDF', 'HDF', 'CSV'])), 'seed': draw(SEED), 'un': draw(st.booleans()), 'clean': draw(st.booleans()),
            'hole': draw(st.one_of(st.none(), st.none(), st.none(), st.sampled_from(REFIT_HOUSES)))}


def check_refit(c):
    rng = random.Random(c['seed'])
    d, out = raw_dir(), fresh_path('.h5' if c['fmt'] == 'HDF' else '')
    cols = ['Aggregate'] + ['Appliance%d' % i for i in range(1, 10)]
    want = {}
    for i, h in enumerate(REFIT_HOUSES, 1):
        ts = times(rng, rng.randint(2, 6))
        rows = [(t,) + tuple(rng.randint(0, 3000) for _ in cols) for t in ts]
        want[i] = list(rows)
        if c['un']:
            rng.shuffle(rows)
        if h != c['hole']:
            put('%s/%s' % (d, 'CLEAN_House%d.csv' % h if c['clean'] else 'House_%d.csv' % h),
                'Time,Unix,' + ','.join(cols) + ',Issues\n' + ''.join(
                    '%s,%s,0\n' % (pd.Timestamp(r[0], unit='s'), ','.join(map(str, r))) for r in rows))
    conv = nk(CONV + 'refit.convert_refit').convert_refit
    if c['hole'] is not None:
        try:
            conv(d, out, c['fmt'])
        except RuntimeError:
            return (True, ['incomplete'])
        ensure(False, 'REFIT without house %d was converted without a word', c['hole'])
    conv(d, out, c['fmt'])
    with opened(out, c['fmt']):
        ensure(len(keys(out, c['fmt'])) == 200, '%d meters', len(keys(out, c['fmt'])))
        for b, rows in want.items():
            for m in range(10):
                check_table(out, c['fmt'], '/building%d/elec/meter%d' % (b, m + 1), [('power', 'active')],
                            [(r[0] * 10 ** 9, r[m + 1]) for r in rows], 'Europe/London')
    check_meta(out, c['fmt'], conv_dir('refit'))
    return (True, [c['fmt'], 'clean' if c['clean'] else 'raw names'])


@st.composite
def case_dred(draw):
    return {'fmt': draw(FMT), 'seed': draw(SEED), 'n': draw(st.integers(2, 20)), 'un': draw(st.booleans()), 'nan': draw(st.booleans())}


def check_dred(c):
    rng = random.Random(c['seed'])
    out = fresh_path('.h5' if c['fmt'] == 'HDF' else '')
    f = fresh_path('.csv')
    ts = times(rng, c['n'])
    rows = [(t,) + tuple(float('nan') if c['nan'] and rng.random() < .2 else val(rng) for _ in range(13)) for t in ts]
    want = list(rows)
    if c['un']:
        rng.shuffle(rows)
    put(f, 'DRED\nelectricity\nTimestamp,mains\n' + ''.join(
        '%s,%s\n' % (pd.Timestamp(r[0], unit='s'), ','.join('' if np.isnan(x) else str(x) for x in r[1:])) for r in rows))
    nk(CONV + 'dred.convert_dred').convert_dred(f, out, c['fmt'])
    with opened(out, c['fmt']):
        ensure(len(keys(out, c['fmt'])) == 13, '%d meters', len(keys(out, c['fmt'])))
        for m in range(13):
            check_table(out, c['fmt'], '/building1/elec/meter%d' % (m + 1), [('power', 'apparent')],
                        [(r[0] * 10 ** 9, r[m + 1]) for r in want], 'Europe/Amsterdam')
    check_meta(out, c['fmt'], conv_dir('dred'))
    return (True, [c['fmt']] + ['nan'] * c['nan'] + ['unsorted'] * c['un'])


# ------------------------------------------------------------------ iAWE / AMPds / COMBED
IAWE_COLS = [('W', ('power', 'active')), ('VAR', ('power', 'reactive')), ('VA', ('power', 'apparent')), ('f', ('frequency', '')),
             ('VLN', ('voltage', '')), ('PF', ('pf', '')), ('A', ('current', ''))]


@st.composite
def case_iawe(draw):
    return {'seed': draw(SEED), 'dup': draw(st.sampled_from([0, 0.2])), 'un': draw(st.booleans()), 'na': draw(st.booleans()),
            'edge': draw(st.booleans())}


def check_iawe(c):
    rng = random.Random(c['seed'])
    d, out = raw_dir(), fresh_path('.h5')
    t0, t1 = (int(pd.Timestamp(x, tz='UTC').timestamp()) for x in ('2013-07-13', '2013-08-04'))
    want = {}
    for ch in range(1, 12):
        cols = IAWE_COLS[:rng.randint(1, len(IAWE_COLS))]
        rng.shuffle(cols)
        lo = t0 - 600 if c['edge'] else t0 + rng.randrange(0, 86400 * 20)
        ts = times(rng, rng.randint(4, 30), c['dup'], step=(1, 100), base=lo, off=0)
        if rng.random() < .5:
            k = rng.randint(1, len(ts) - 1)              # a gap of some minutes
            ts = ts[:k] + [t + 60 * rng.randint(3, 200) for t in ts[k:]]
        rows = [[t] + [float(val(rng)) for _ in cols] for t in ts]
        if c['un']:
            rng.shuffle(rows)
        if c['na']:
            for r in rows[1:]:
                if rng.random() < .2:
                    r[rng.randint(1, len(cols))] = None
        put('%s/electricity/%d.csv' % (d, ch), ','.join(['timestamp'] + [x for x, _ in cols]) + '\n' + ''.join(
            ','.join('\\N' if x is None else repr(x) for x in r) + '\n' for r in rows))
        seen, kept = set(), []
        for r in rows:
            if r[0] not in seen and None not in r:
                kept.append(r)
            seen.add(r[0])
        want[ch] = ([m for _, m in cols], kept)
    nk(CONV + 'iawe.convert_iawe').convert_iawe(d, out)
    n = int((t1 - t0) // 60) + 1
    with opened(out, 'HDF'):
        ensure(len(keys(out, 'HDF')) == 11, '%d meters', len(keys(out, 'HDF')))
        for ch, (cols, rows) in want.items():
            key = '/building1/elec/meter%d' % ch
            df = STORE[key]
            ensure([tuple(x) for x in df.columns] == cols, '%s: columns %r, expected %r', key, list(df.columns), cols)
            ensure(str(df.index.tz) == 'Asia/Kolkata' and len(df) == n, '%s: %d rows in %s', key, len(df), df.index.tz)
            ensure((np.array(ns(df.index)) == (t0 + 60 * np.arange(n, dtype=np.int64)) * 10 ** 9).all(), '%s: not the minutes of the period', key)
            mins = {}
            for r in rows:
                mins.setdefault(r[0] // 60, []).append(r[1:])
            means = {m: np.mean(np.array(x, dtype=float), axis=0) for m, x in mins.items()}
            for i, col in enumerate(cols):
                v = df.iloc[:, i].values.astype(float)
                # the median of the minutes that hold readings (all of them, also outside the period)
                fill = 0.0 if col[0] == 'power' else float(np.median([m[i] for m in means.values()]))
                for j in range(n):
                    m = (t0 + 60 * j) // 60
                    if m in means:
                        ensure(abs(v[j] - means[m][i]) <= 1e-3 + 1e-5 * abs(means[m][i]), '%s: %r is %r in minute %s, the mean of the readings is %r',
                               key, col, v[j], pd.Timestamp(m * 60, unit='s'), means[m][i])
                        v[j] = fill
                ensure((np.abs(v - fill) <= 1e-3 + 1e-5 * abs(fill)).all(), '%s: %r in minutes without readings is not %r', key, col, fill)
    check_meta(out, 'HDF', conv_dir('iawe'))
    return (True, ['dups'] * bool(c['dup']) + ['unsorted'] * c['un'] + ['missing'] * c['na'] + ['edge'] * c['edge'])


AMP = [('V', ('voltage', '')), ('I', ('current', '')), ('f', ('frequency', '')), ('DPF', ('power factor', 'real')),
       ('APF', ('power factor', 'apparent')), ('P', ('power', 'active')), ('Pt', ('energy', 'active')), ('Q', ('power', 'reactive')),
       ('Qt', ('energy', 'reactive')), ('S', ('power', 'apparent')), ('St', ('energy', 'apparent'))]


@st.composite
def case_ampds(draw):
    return {'seed': draw(SEED), 'na': draw(st.booleans()),
            'files': sorted(draw(st.sets(st.sampled_from(['B1E', 'B2E', 'BME', 'CDE', 'CWE', 'DNE', 'FGE', 'WOE', 'ZZZ', 'aux', '10E']), min_size=1, max_size=5)))}


def check_ampds(c):
    rng = random.Random(c['seed'])
    d, out = raw_dir(), fresh_path('.h5')
    names = c['files'] + ['WHE']
    rng.shuffle(names)
    data = {}
    for f in names:
        cols = AMP if rng.random() < .5 else rng.sample(AMP, rng.randint(2, 10))
        rows = [[t] + [val(rng) for _ in cols] for t in times(rng, rng.randint(2, 15), step=(60, 60))]
        if c['na']:
            for r in rows[1:]:
                if rng.random() < .2:
                    r[rng.randint(1, len(cols))] = None
        pad = (lambda x: '%8s' % x) if rng.random() < .5 else str
        put('%s/%s.csv' % (d, f), ','.join(pad(x) for x in ['TS'] + [k for k, _ in cols]) + '\n' + ''.join(
            ','.join('' if x is None else pad(x) for x in r) + '\n' for r in rows))
        data[f] = ([m for _, m in cols], [(r[0] * 10 ** 9,) + tuple(r[1:]) for r in rows if None not in r])
    put(d + '/README.txt', 'x')
    nk(CONV + 'ampds.convert_ampds').convert_ampds(d, out)
    order = ['WHE'] + sorted(c['files'], key=lambda f: f + '.csv')
    with opened(out, 'HDF'):
        ensure(len(keys(out, 'HDF')) == len(order), '%d meters', len(keys(out, 'HDF')))
        for i, f in enumerate(order, 1):
            check_table(out, 'HDF', '/building1/elec/meter%d' % i, data[f][0], data[f][1], 'America/Vancouver')
    check_meta(out, 'HDF', conv_dir('ampds'))
    return (True, ['missing'] * c['na'])


COMBED = {1: {'Building Total Mains': {'0': 1}, 'Lifts': {'0': 2}, 'Floor Total': {'1': 3, '2': 4, '3': 5, '4': 6, '5': 7},
              'AHU': {'0': 8, '1': 9, '2': 10, '5': 11}, 'Light': {'3': 12}, 'Power Sockets': {'3': 13}, 'UPS Sockets': {'3': 14}},
          2: {'Building Total Mains': {'0': 1}, 'Floor Total': {'0': 2, '1': 3, '2': 4}, 'AHU': {'1': 5, '2': 6, '3': 7}}}
COMBED_PLACES = [(b, load, p, m) for b, x in COMBED.items() for load, y in x.items() for p, m in y.items()]


@st.composite
def case_combed(draw):
    return {'seed': draw(SEED), 'deep': draw(st.booleans()), 'w': sorted(draw(st.sets(st.integers(0, len(COMBED_PLACES) - 1), min_size=0, max_size=6))),
            'shift': draw(st.booleans()), 'ms': draw(st.booleans())}


def check_combed(c):
    rng = random.Random(c['seed'])
    d, out = raw_dir(), fresh_path('.h5')
    want = {}
    for i in c['w']:
        b, load, p, m = COMBED_PLACES[i]
        where = '%s%s/%s/%s/%s' % (d, '/iiitd' if c['deep'] else '', {1: 'Academic Block', 2: 'Lecture Block'}[b], load, p)
        ts = [t * 1000 + (rng.randint(0, 999) if c['ms'] else 0) for t in times(rng, rng.randint(2, 15))]
        tab = {}
        for j, a in enumerate(('Power', 'Energy', 'Current')):
            own = [t for k, t in enumerate(ts) if not (c['shift'] and k % (j + 3) == 1)]
            vals = {t: val(rng) for t in own}
            put('%s/%s.csv' % (where, a), ''.join('%d,%s\n' % (t, v) for t, v in vals.items()))
            tab[a] = vals
        rows = [(t * 10 ** 6,) + tuple(tab[a].get(t, float('nan')) for a in ('Power', 'Energy', 'Current')) for t in ts]
        want['/building%d/elec/meter%d' % (b, m)] = [r for r in rows if not all(np.isnan(x) for x in r[1:])]
    conv = nk(CONV + 'combed.convert_combed').convert_combed
    if not want:
        try:
            conv(d, out)
        except RuntimeError:
            return (False, ['empty'])
        ensure(False, 'COMBED: an empty directory was converted without a word')
    conv(d, out)
    with opened(out, 'HDF'):
        ensure(keys(out, 'HDF') == sorted(want), 'meters %r, expected %r', keys(out, 'HDF'), sorted(want))
        for k, rows in want.items():
            check_table(out, 'HDF', k, [('power', 'active'), ('energy', 'active'), ('current', '')], rows, 'Asia/Kolkata')
    check_meta(out, 'HDF', conv_dir('combed'))
    return (len(want) > 1, ['own times'] * c['shift'] + ['milliseconds'] * c['ms'])


# ------------------------------------------------------------------ HIPE / IDEAL / GREEND
HIPE = ['MainTerminal', 'ChipPress', 'ChipSaw', 'HighTemperatureOven', 'PickAndPlaceUnit', 'ScreenPrinter', 'SolderingOven', 'VacuumOven',
        'VacuumPump1', 'VacuumPump2', 'WashingMachine']


@st.composite
def case_hipe(draw):
    return {'fmt': draw(FMT), 'seed': draw(SEED), 'un': draw(st.booleans()), 'neg': draw(st.booleans())}


def check_hipe(c):
    rng = random.Random(c['seed'])
    d, out = raw_dir(), fresh_path('.h5' if c['fmt'] == 'HDF' else '')
    want = {}
    for i, n in enumerate(HIPE, 1):
        rows = [(t, (rng.choice([1, -1]) if c['neg'] else 1) * rng.randint(0, 9999) / 1000) for t in times(rng, rng.randint(2, 12))]
        rows = [(t * 1000 + (rng.randint(0, 999) if c['seed'] % 2 else 0), v) for t, v in rows]
        want[i] = [(t * 10 ** 6, abs(v) * 1000) for t, v in rows]
        if c['un']:
            rng.shuffle(rows)
        put('%s/%s_PhaseCount_2_geq_2017-10-23_lt_2017-10-30.csv' % (d, n), 'Machine,SensorDateTime,P_kW,Q_kvar\n' + ''.join(
            '%s,%s,%s,%s\n' % (n, pd.Timestamp(t, unit='ms', tz='UTC').tz_convert('Europe/Berlin').isoformat(timespec='milliseconds' if c['seed'] % 2 else 'auto'), v, v / 3) for t, v in rows))
    nk(CONV + 'hipe.convert_hipe').convert_hipe(d, out, c['fmt'])
    with opened(out, c['fmt']):
        ensure(len(keys(out, c['fmt'])) == 11, '%d meters', len(keys(out, c['fmt'])))
        for i, rows in want.items():
            check_table(out, c['fmt'], '/building1/elec/meter%d' % i, [('power', 'apparent' if i == 1 else 'active')], rows, 'Europe/Berlin')
    check_meta(out, c['fmt'], conv_dir('hipe'))
    return (True, [c['fmt']] + ['unsorted'] * c['un'] + ['negative'] * c['neg'])


@st.composite
def case_ideal(draw):
    hs = sorted(draw(st.sets(st.sampled_from([61, 62, 63, 105, 328, 9]), min_size=1, max_size=4)))
    return {'fmt': draw(FMT), 'seed': draw(SEED), 'un': draw(st.booleans()),
            'h': {str(h): [draw(st.integers(0, 3)) > 0, draw(st.integers(0, 3)), draw(st.booleans())] for h in hs}}


def check_ideal(c):
    rng = random.Random(c['seed'])
    d, out = raw_dir(), fresh_path('.h5' if c['fmt'] == 'HDF' else '')
    hd, rd = mkdir(d, 'household_sensordata'), mkdir(d, 'rooms_appliance_sensordata')
    want = {}

    def table(path, key, cols, keep):
        ts = times(rng, rng.randint(2, 12))
        rows = [(t, rng.randint(0, 3000)) for t in ts]
        if keep:
            want[key] = (cols, [(t * 10 ** 9, v) for t, v in rows])
        if c['un']:
            rng.shuffle(rows)
        with gzip.open(path, 'wt') as f:
            f.write(''.join('%s,%d\n' % (pd.Timestamp(t, unit='s'), v) for t, v in rows))

    sensor = 1000
    for h, (mains, n, comb) in c['h'].items():
        keep = mains and n > 0
        if mains:
            sensor += 3
            s = '%dc%d' % (sensor, sensor + 1) if comb else str(sensor)
            table('%s/home%s_hall7_sensor%s_electric-mains_electric-combined.csv.gz' % (hd, h, s),
                  '/building%s/elec/meter%d' % (h, sensor), [('power', 'apparent')], keep)
        for i in range(n):
            sensor += 3
            table('%s/home%s_kitchen%d_sensor%d_electric-appliance_kettle.csv.gz' % (rd, h, 40 + i, sensor),
                  '/building%s/elec/meter%d' % (h, sensor), [('power', 'active')], keep)
        sensor += 3
        with gzip.open('%s/home%s_kitchen9_sensor%d_room_temperature.csv.gz' % (rd, h, sensor), 'wt') as f:
            f.write('2017-01-01 00:00:00,201\n')
    nk(CONV + 'ideal.convert_ideal').convert_ideal(d, out, c['fmt'])
    with opened(out, c['fmt']):
        ensure(keys(out, c['fmt']) == sorted(want), 'meters %r, expected %r', keys(out, c['fmt']), sorted(want))
        for k, (cols, rows) in want.items():
            check_table(out, c['fmt'], k, cols, rows, 'Europe/London')
    check_meta(out, c['fmt'], conv_dir('ideal'))
    return (len(want) > 1, [c['fmt']] + ['unsorted'] * c['un'] + ['partial homes'] * any(not (m and n) for m, n, _ in c['h'].values()))


@st.composite
def case_greend(draw):
    return {'seed': draw(SEED), 'houses': draw(st.integers(1, 3)), 'days': draw(st.integers(1, 3)), 'blocks': draw(st.integers(1, 3)),
            'rep': draw(st.booleans()), 'junk': draw(st.booleans()), 'dup': draw(st.sampled_from([0, 0.2])), 'mp': draw(st.integers(0, 7)) == 5}


def check_greend(c):
    rng = random.Random(c['seed'])
    d, out = raw_dir(), fresh_path('.h5')
    want = {}
    for h in range(c['houses']):
        tab, order = {}, []
        t = BASE + 86400 * 7
        pool = ['000D6F00029C%04d' % rng.randint(0, 9999) for _ in range(4)]
        for day in range(c['days']):
            text = ''
            prev = None
            for b in range(c['blocks']):
                cols = pool[:rng.randint(1, 4)] if rng.random() < .6 else rng.sample(pool, rng.randint(1, 4))
                cols = list(dict.fromkeys(cols))
                head = 'timestamp,' + ','.join(cols)
                if head == prev and not c['rep']:
                    cols = list(reversed(pool))
                    head = 'timestamp,' + ','.join(cols)
                prev = head
                text += ('1415605814.541311,0.0,NULL,NU' if c['junk'] and text and rng.random() < .3 else '') + head + '\n'
                for x in cols:
                    if x not in order:
                        order.append(x)
                for _ in range(rng.randint(1, 5)):
                    if not (len(tab) > 1 and rng.random() < c['dup']):
                        t += rng.randint(1, 30)
                    vals = [None if rng.random() < .15 else val(rng) for _ in cols]
                    if not any(v is not None for v in vals):
                        vals[0] = 1.5
                    line = '%d.5,%s\n' % (t, ','.join('NULL' if v is None else str(v) for v in vals))
                    text += ('\0\0' if c['junk'] and rng.random() < .2 else '') + line
                    if t not in tab:
                        tab[t] = dict(zip(cols, vals))
                    else:
                        tab[t] = tab[t] if tab[t].get('many') else {'many': [tab[t], dict(zip(cols, vals))]}
            put('%s/building%d/dataset_2013-12-%02d.csv' % (d, h, 7 + day), text)
            t += 86400
        put('%s/building%d/notes.txt' % (d, h), 'x')
        want[h + 1] = (order, tab)
    put(d + '/readme.txt', 'x')
    nk(CONV + 'greend.convert_greend').convert_greend(d, out, use_mp=c['mp'])
    with opened(out, 'HDF'):
        exp = sorted('/building%d/elec/meter%d' % (h, i + 1) for h, (o, _) in want.items() for i in range(len(o)))
        ensure(keys(out, 'HDF') == exp, 'meters %r, expected %r', keys(out, 'HDF'), exp)
        for h, (order, tab) in want.items():
            for i, col in enumerate(order):
                key = '/building%d/elec/meter%d' % (h, i + 1)
                rows = []
                df = STORE[key]
                got = dict(zip(ns(df.index), df.values[:, 0]))
                for t in sorted(tab):
                    n = t * 10 ** 9 + 5 * 10 ** 8
                    if tab[t].get('many'):
                        v = float(got.get(n, -1))           # one of the readings of that instant
                        v0 = [float('nan') if x.get(col) is None else x[col] for x in tab[t]['many']]
                        ensure(any((np.isnan(v) and np.isnan(x)) or v == x for x in v0) or len(v0) > 1, '%s: %r at %d, not one of %r', key, v, t, v0)
                        rows.append((n, v))
                    else:
                        v = tab[t].get(col)
                        rows.append((n, float('nan') if v is None else v))
                check_table(out, 'HDF', key, [('power', 'active')], rows, 'CET')
    check_meta(out, 'HDF', conv_dir('greend'))
    return (True, ['mp'] * c['mp'] + ['junk'] * c['junk'] + ['dups'] * bool(c['dup']))


# ------------------------------------------------------------------ ECO
@st.composite
def case_eco(draw):
    return {'seed': draw(SEED), 'b': draw(st.integers(1, 6)), 'days': draw(st.integers(1, 2)), 'plugs': sorted(draw(st.sets(st.integers(1, 12), min_size=3, max_size=4))),
            'deep': draw(st.booleans()), 'tz': draw(st.sampled_from(['Europe/Zurich', 'UTC']))}


def check_eco(c):
    r = np.random.RandomState(c['seed'])
    d, out = raw_dir(), fresh_path('.h5')
    n = 86400
    days = ['2012-%02d-%02d' % (m, dd) for m, dd in [(7, 31), (8, 1)][:c['days']]]
    sm, plug = {}, {p: [] for p in c['plugs']}
    for day in days:
        a = np.full((n, 16), 0, dtype=np.int64)
        rows = np.sort(r.choice(n, 40, replace=False))
        a[rows] = r.randint(0, 900, size=(40, 16))
        a[rows[:20], 13:16] = r.randint(-80, -1, size=(20, 3))        # leading current: a negative angle
        miss = r.choice(n, 25, replace=False)
        a[miss, :] = -1
        a[r.choice(n, 9, replace=False), r.randint(1, 4)] = -1       # one phase missing
        a[:, 13:16] = np.where(a[:, 13:16] > 80, 30, a[:, 13:16])
        p = mkdir(d, '%02d_sm_csv' % c['b'], '%02d' % c['b'])
        np.savetxt('%s/%s.csv' % (p, day), a, fmt='%d', delimiter=',')
        sm[day] = a
        for k in c['plugs']:
            v = np.zeros(n)
            v[r.choice(n, 30, replace=False)] = r.randint(1, 8000, size=30) / 4
            v[r.choice(n, 20, replace=False)] = -1
            p = mkdir(d, '%02d_plugs_csv' % c['b'], '%02d' % c['b'], '%02d' % k) if c['deep'] else mkdir(d, '%02d_plugs_csv' % c['b'], '%02d' % k)
            np.savetxt('%s/%s.csv' % (p, day), v, fmt='%g')
            plug[k].append(v)
    put(d + '/readme.txt', 'x')
    nk(CONV + 'eco.convert_eco').convert_eco(d, out, c['tz'])
    base = {day: int(pd.Timestamp(day, tz='UTC').timestamp()) for day in days}

    def cmp(key, cols, t, v):
        df = STORE[key]
        ensure([tuple(x) for x in df.columns] == cols, '%s: columns %r', key, list(df.columns))
        ensure(str(df.index.tz) == c['tz'], '%s: zone %s', key, df.index.tz)
        g = np.array(ns(df.index), dtype=np.int64)
        ensure(len(g) == len(t) and (g == t).all(), '%s: %d rows at other instants than the %d measured', key, len(g), len(t))
        bad = ~(np.abs(df.values - v) <= 1e-2 + 1e-4 * np.abs(v))
        ensure(not bad.any(), '%s: %r, expected %r', key, df.values[bad][:3].tolist(), v[bad][:3].tolist())

    with opened(out, 'HDF'):
        exp = sorted('/building%d/elec/meter%d' % (c['b'], m) for m in [1, 2, 3] + [3 + k for k in c['plugs']])
        ensure(keys(out, 'HDF') == exp, 'meters %r, expected %r', keys(out, 'HDF'), exp)
        for ph in (1, 2, 3):
            t, v = [], []
            for day in days:
                a = sm[day]
                keep = a[:, ph] != -1
                t.append((base[day] + np.nonzero(keep)[0].astype(np.int64)) * 10 ** 9)
                x = a[keep][:, [ph, 4 + ph, 7 + ph, 12 + ph]].astype(float)
                v.append(np.column_stack([x, x[:, 0] * np.tan(np.radians(x[:, 3]))]))
            cmp('/building%d/elec/meter%d' % (c['b'], ph), [('power', 'active'), ('current', ''), ('voltage', ''), ('phase_angle', ''), ('power', 'reactive')],
                np.concatenate(t), np.concatenate(v))
        for k in c['plugs']:
            t, v = [], []
            for day, x in zip(days, plug[k]):
                keep = x != -1
                t.append((base[day] + np.nonzero(keep)[0].astype(np.int64)) * 10 ** 9)
                v.append(x[keep])
            cmp('/building%d/elec/meter%d' % (c['b'], 3 + k), [('power', 'active')], np.concatenate(t), np.concatenate(v)[:, None])
    check_meta(out, 'HDF', conv_dir('eco'))
    return (True, ['days %d' % c['days']] + ['deep'] * c['deep'])


# ------------------------------------------------------------------ HES
@st.composite
def case_hes(draw):
    hs = sorted(draw(st.sets(st.integers(100000, 100020), min_size=1, max_size=3)))
    return {'seed': draw(SEED), 'houses': hs, 'apps': {str(h): sorted(draw(st.sets(st.sampled_from([1, 5, 26, 145, 182, 194, 240, 208, 252]), min_size=1, max_size=5))) for h in hs},
            'files': sorted(draw(st.sets(st.sampled_from(['1a', '1b', '2', '3']), min_size=1, max_size=2))), 'mix': draw(st.booleans())}


def check_hes(c):
    rng = random.Random(c['seed'])
    d, out = raw_dir(), fresh_path('.h5')
    ids = list(c['houses']) + [100099]
    rng.shuffle(ids)
    put(d + '/anonhes/ipsos-anonymised-corrected_310713.csv', 'Household,Q1\n' + ''.join('%d,x\n' % i for i in ids))
    want, lines, clock = {}, {f: [] for f in c['files']}, {}
    for k, f in enumerate(c['files']):
        for h in c['houses']:
            for a in c['apps'][str(h)]:
                for t in times(rng, rng.randint(1, 5), step=(120, 1200), off=0, base=BASE + k * 10 ** 6):
                    v = rng.randint(0, 500)
                    when = pd.Timestamp(t, unit='s')
                    lines[f].append((h, a, '2,%d,%d,%s,%d,%s' % (h, a, when.strftime('%Y-%m-%d'), v, when.strftime('%H:%M:%S'))))
                    want.setdefault((h, a), []).append((t * 10 ** 9, v * 10))
        if c['mix']:
            rng.shuffle(lines[f])
        put('%s/agd-%s/appliance_group_data-%s.csv' % (d, f, f), '\n'.join(x[2] for x in lines[f]) + '\n')
    nk(CONV + 'hes.convert_hes').convert_hes(d, out)
    store = nk.HDFDataStore(out, 'r')
    seen = {}
    for b in store.elements_below_key('/'):
        if b.startswith('building'):
            m = store.load_metadata('/' + b)
            seen[m['original_name']] = (b, m)
    store.close()
    ensure(sorted(seen) == c['houses'], 'houses %r, expected %r', sorted(seen), c['houses'])
    lookup = pd.read_csv(os.path.join(os.path.dirname(conv_dir('hes')), 'hes_to_nilmtk_appliance_lookup.csv'))
    names = dict(zip(lookup.Code, lookup.Name))
    with opened(out, 'HDF'):
        used = set()
        for h in c['houses']:
            b, m = seen[h]
            left = {a: sorted(want[(h, a)]) for a in c['apps'][str(h)]}
            metered = [a for a in left if not (a in (240, 241) or a in range(251, 256) or a in list(range(208, 218)) + [222])]
            ensure(sorted(x['original_name'] for x in m['appliances']) == sorted(names[a] for a in metered),
                   'house %d: appliances %r, recorded %r', h, [x['original_name'] for x in m['appliances']], [names[a] for a in metered])
            for x in m['appliances']:
                a = [k for k in metered if names[k] == x['original_name']][0]
                ensure(len(x['meters']) == 1 and x['meters'][0] in m['elec_meters'], 'house %d: %r on meters %r', h, x, sorted(m['elec_meters']))
                key = '/%s/elec/meter%d' % (b, x['meters'][0])
                used.add(key)
                df = STORE[key]
                ensure(len(df) == len(left[a]), 'house %d, %s: %d readings, recorded %d', h, x['original_name'], len(df), len(left[a]))
                check_table(out, 'HDF', key, [('power', 'active')], left[a], 'UTC', bag=True)
        ensure(len(keys(out, 'HDF')) == len(want), '%d tables for %d recorded channels', len(keys(out, 'HDF')), len(want))
        total = sum(len(STORE[k]) for k in keys(out, 'HDF'))
        ensure(total == sum(len(v) for v in want.values()), '%d readings stored, %d recorded', total, sum(len(v) for v in want.values()))
    return (len(want) > 1, ['mixed'] * c['mix'] + ['files %d' % len(c['files'])] + ['mains'] * any(240 in a for a in c['apps'].values()))


# ------------------------------------------------------------------ Dataport
@st.composite
def case_dataport(draw):
    n = draw(st.integers(1, 3))
    return {'seed': draw(SEED), 'n': n, 'files': draw(st.integers(1, 2)), 'chunk': draw(st.sampled_from([3, 7, 1000])), 'solar': draw(st.integers(0, 3)),
            'skip': draw(st.booleans()), 'drop': draw(st.booleans())}


APPS = ['air1', 'air2', 'refrigerator1', 'bedroom1', 'drye1', 'oven1', 'lights_plugs1', 'lights_plugs2']
DP_TYPE = {'air1': 'air conditioner', 'air2': 'air conditioner', 'refrigerator1': 'fridge', 'bedroom1': 'sockets', 'drye1': 'spin dryer', 'oven1': 'oven',
           'lights_plugs1': 'light', 'lights_plugs2': 'light'}


def check_dataport(c):
    rng = random.Random(c['seed'])
    d, out = raw_dir(), fresh_path('.h5')
    ids = rng.sample(range(20, 9000), c['n'] + 2)
    good = ids[:c['n']]
    meta = 'dataid,building_type,city,state,house_construction_year,grid,egauge_1s_data_availability\nid,t,c,s,y,g,a\n'
    for i in ids:
        meta += '%d,Single-Family,Austin,Texas,1999,%s,%s\n' % (i, 'no' if i == ids[-1] else 'yes', '50%' if i == ids[-2] else rng.choice(['97%', '98%', '99%', '100%']))
    put(d + '/metadata.csv', meta)
    cols = ['grid', 'solar', 'solar2'] + APPS + ['battery1']
    head = 'dataid,localminute,' + ','.join(cols) + '\n'
    has = {i: ['grid'] + ['solar'] * (c['solar'] in (1, 3)) + ['solar2'] * (c['solar'] in (2, 3)) + sorted(rng.sample(APPS, rng.randint(1, 5))) for i in ids}
    want, files = {}, []
    for f in range(c['files']):
        rows = []
        for i in ids:
            if c['skip'] and f == 1 and i == good[0]:
                continue
            n = rng.randint(1, 6)
            own = list(has[i])
            if c['drop'] and f == 1 and len(own) > 2:
                own.remove([x for x in own if x not in ('grid', 'solar', 'solar2')][0])      # no reading of that appliance in this file
            for t in times(rng, n, step=(1, 60), off=0, base=BASE + 10 ** 6 * f):
                v = {x: rng.randint(0, 4000) / 1000 for x in own}
                v['battery1'] = 1.0
                when = pd.Timestamp(t, unit='s', tz='UTC').tz_convert('US/Central').strftime('%Y-%m-%d %H:%M:%S%z')[:-2]
                rows.append('%d,%s,%s\n' % (i, when, ','.join(str(v[x]) if x in v else '' for x in cols)))
                if i in good:
                    use = v['grid'] + v.get('solar', 0) + v.get('solar2', 0)
                    want.setdefault(i, {}).setdefault('use', []).append((t * 10 ** 9, use * 1000))
                    for x in own:
                        if x in APPS:
                            want[i].setdefault(x, []).append((t * 10 ** 9, v[x] * 1000))
        rng.shuffle(rows)
        name = '%s/1s_data_austin_file%d.csv' % (d, f + 1)
        put(name, head + ''.join(rows))
        files.append(name)
    rng.shuffle(files)
    nk(CONV + 'dataport.csv_converter').convert_dataport(files, d + '/metadata.csv', out, chunksize=c['chunk'])
    store = nk.HDFDataStore(out, 'r')
    seen = {}
    for b in store.elements_below_key('/'):
        if b.startswith('building'):
            m = store.load_metadata('/' + b)
            seen[m['original_name']] = (b, m)
    store.close()
    ensure(sorted(seen) == sorted(want), 'buildings %r, expected %r', sorted(seen), sorted(want))
    ensure([seen[i][0] for i in sorted(want)] == ['building%d' % (k + 1) for k in range(len(want))], 'building numbers %r', {i: seen[i][0] for i in seen})
    with opened(out, 'HDF'):
        for i, tabs in want.items():
            b, m = seen[i]
            site = [k for k, x in m['elec_meters'].items() if x.get('site_meter')]
            ensure(len(site) == 1, '%d: site meters %r', i, site)
            apps = m['appliances']
            ensure(sorted(x['original_name'] for x in apps) == sorted(x for x in tabs if x != 'use'),
                   '%d: appliances %r, recorded %r', i, [x['original_name'] for x in apps], sorted(tabs))
            pairs = sorted((x['type'], x['instance']) for x in apps)
            count = {}
            for x in sorted(DP_TYPE[x] for x in tabs if x != 'use'):
                count[x] = count.get(x, 0) + 1
            ensure(pairs == sorted((t, k) for t in count for k in range(1, count[t] + 1)), '%d: appliances %r', i, pairs)
            place = {x['original_name']: x['meters'][0] for x in apps}
            place['use'] = site[0]
            ensure(len(set(place.values())) == len(place) and sorted(place.values()) == sorted(m['elec_meters']), '%d: meters %r', i, place)
            for x, rows in tabs.items():
                key = '/%s/elec/meter%d' % (b, place[x])
                df = STORE[key]
                # an appliance without a reading in some file may be stored as missing there
                got = [(int(t), float(v)) for t, v in zip(ns(df.index), df.values[:, 0]) if not np.isnan(v)]
                ensure(len(got) == len(rows), '%d %s: %d readings stored, %d recorded', i, x, len(got), len(rows))
                for g, r in zip(sorted(got), sorted(rows)):
                    ensure(g[0] == r[0] and abs(g[1] - r[1]) < 0.01, '%d %s: %r stored, %r recorded', i, x, g, r)
                ensure(bool(df.index.is_monotonic_increasing) and str(df.index.tz) == 'US/Central', '%d %s: index %r', i, x, df.index)
    return (True, ['files %d' % c['files'], 'chunk %d' % c['chunk']] + ['solar'] * bool(c['solar']) + ['gap'] * (c['drop'] and c['files'] > 1))


# ------------------------------------------------------------------ Smart* / DEDDIAG
@st.composite
def case_smart(draw):
    return {'fmt': draw(FMT), 'seed': draw(SEED), 'years': [draw(st.integers(1, 3)) for _ in range(3)], 'two': draw(st.booleans()), 'rel': draw(st.booleans()),
            'coarse': draw(st.booleans())}


def check_smart(c):
    rng = random.Random(c['seed'])
    d, out = raw_dir(), fresh_path('.h5' if c['fmt'] == 'HDF' else '')
    want = {}
    for b, home in enumerate('ABC', 1):
        chans = {}
        years = list(range(2014, 2014 + c['years'][b - 1]))
        apps = [['%s%d%d [kW]' % (home, k, i) for i in range(rng.randint(1, 3))] for k in range(1 + c['two'])]
        use = rng.choice(['use [kW]', 'Usage [kW]'])
        for y in rng.sample(years, len(years)):
            n = rng.randint(2, 6)
            t0 = int(pd.Timestamp(year=y, month=1, day=1).timestamp())
            ts = [t0 + 1800 * i for i in range(n)]
            for k, names in enumerate(apps):
                head = ['Date & Time'] + ([use, 'gen [kW]'] if k == 0 else []) + names
                rows = [[rng.randint(0, 9999) / 1000 for _ in head[1:]] for _ in ts]
                where = '%s/Home%s/%d' % (d, home, y)
                put('%s/Home%s-meter%d_%d.csv' % (where, home, k + 2, y), ','.join(head) + '\n' + ''.join(
                    '%s,%s\n' % (pd.Timestamp(t, unit='s'), ','.join(map(str, r))) for t, r in zip(ts, rows)))
                put('%s/Home%s-meter%d.txt' % (where, home, k + 2), 'Home%s-meter%d\nreadings\nevery 30 minutes\nend\n' % (home, k + 2))
                for j, name in enumerate(head[1:]):
                    if name == use:
                        chans.setdefault('use', []).extend((t * 10 ** 9, r[j] * 1000) for t, r in zip(ts, rows))
                    elif name in names:
                        chans.setdefault(name, []).extend((t * 10 ** 9, r[j] * 1000) for t, r in zip(ts, rows))
            if c['coarse']:
                put('%s/Home%s-meter1_%d.csv' % (where, home, y), 'Date & Time,x [kW]\n2014-01-01 00:00:00,1\n')
                put('%s/Home%s-meter1.txt' % (where, home), 'Home%s-meter1\nreadings\nevery 1 minute\nend\n' % home)
        for i, name in enumerate(['use'] + [a for x in apps for a in x], 1):
            want['/building%d/elec/meter%d' % (b, i)] = sorted(chans[name])
    cwd = os.getcwd()
    try:
        if c['rel']:
            os.chdir(os.path.dirname(d))
        nk(CONV + 'smart.convert_smart').convert_smart(os.path.basename(d) if c['rel'] else d, out, c['fmt'])
        if c['rel']:
            ensure(os.path.realpath(os.getcwd()) == os.path.realpath(os.path.dirname(d)), 'Smart*: the working directory is now %s', os.getcwd())
    finally:
        os.chdir(cwd)
    with opened(out, c['fmt']):
        ensure(keys(out, c['fmt']) == sorted(want), 'meters %r, expected %r', keys(out, c['fmt']), sorted(want))
        for k, rows in want.items():
            check_table(out, c['fmt'], k, [('power', 'active')], rows, 'US/Eastern')
    check_meta(out, c['fmt'], conv_dir('smart'))
    return (True, [c['fmt']] + ['two meters'] * c['two'] + ['relative'] * c['rel'])


@st.composite
def case_deddiag(draw):
    return {'fmt': draw(FMT), 'seed': draw(SEED), 'un': draw(st.booleans()), 'own': draw(st.booleans())}


def check_deddiag(c):
    rng = random.Random(c['seed'])
    out = fresh_path('.h5' if c['fmt'] == 'HDF' else '')
    asked, data = [], {}

    class MeasurementsExpanded:
        def __init__(self, item, start, end):
            asked.append((item, str(start), str(end)))
            self.item = item

        def request(self, connection):
            rows = [(t, val(rng)) for t in times(rng, rng.randint(2, 10))]
            data[self.item] = [(t * 10 ** 9, v) for t, v in rows]
            if c['un']:
                rng.shuffle(rows)
            return pd.DataFrame({'item_id': [self.item] * len(rows), 'time': pd.to_datetime([t for t, _ in rows], unit='s', utc=True),
                                 'value': [float(v) for _, v in rows]})

    mod = types.ModuleType('deddiag_loader')
    mod.Connection = mod.Items = object
    mod.MeasurementsExpanded = MeasurementsExpanded
    name = CONV + 'deddiag.convert_deddiag'
    sys.modules.pop(name, None)
    sys.modules['deddiag_loader'] = mod
    try:
        m = nk(name)
        kw = {'start_date': pd.Timestamp('2017-11-01'), 'end_date': pd.Timestamp('2017-12-01')} if c['own'] else {}
        m.convert_deddiag(None, out, c['fmt'], **kw)
    finally:
        sys.modules.pop('deddiag_loader', None)
        sys.modules.pop(name, None)
    with opened(out, c['fmt']):
        exp = [24, 26, 27, 28, 35, 51, 52, 53, 59]
        ensure(keys(out, c['fmt']) == sorted('/building8/elec/meter%d' % i for i in exp), 'meters %r', keys(out, c['fmt']))
        lim = ('2017-11-01 00:00:00', '2017-12-01 00:00:00') if c['own'] else ('2017-10-21 00:00:00', '2018-01-18 23:59:59')
        ensure(sorted(asked) == [(i,) + lim for i in exp], 'asked the database for %r', asked)
        for i, rows in data.items():
            check_table(out, c['fmt'], '/building8/elec/meter%d' % i, [('power', 'active')], rows, 'Europe/Berlin')
    check_meta(out, c['fmt'], conv_dir('deddiag'))
    return (True, [c['fmt']] + ['unsorted'] * c['un'])


SUBS = [Sub('redd', case_redd(), check_redd, quick=60, thorough=600, shards=2),
        Sub('ukdale', case_ukdale(), check_ukdale, quick=60, thorough=600, shards=2),
        Sub('refit', case_refit(), check_refit, quick=8, thorough=60, shards=2),
        Sub('dred', case_dred(), check_dred, quick=30, thorough=300, shards=1),
        Sub('iawe', case_iawe(), check_iawe, quick=10, thorough=100, shards=2),
        Sub('ampds', case_ampds(), check_ampds, quick=60, thorough=600, shards=1),
        Sub('combed', case_combed(), check_combed, quick=60, thorough=600, shards=1),
        Sub('hipe', case_hipe(), check_hipe, quick=24, thorough=200, shards=1),
        Sub('ideal', case_ideal(), check_ideal, quick=40, thorough=300, shards=2),
        Sub('greend', case_greend(), check_greend, quick=60, thorough=600, shards=2),
        Sub('eco', case_eco(), check_eco, quick=4, thorough=24, shards=1),
        Sub('hes', case_hes(), check_hes, quick=60, thorough=600, shards=2),
        Sub('dataport', case_dataport(), check_dataport, quick=60, thorough=600, shards=2),
        Sub('smart', case_smart(), check_smart, quick=40, thorough=400, shards=1),
        Sub('deddiag', case_deddiag(), check_deddiag, quick=24, thorough=300, shards=1)]
