"""C05: a data store holds exactly what its history of operations put there."""
import copy
import os

from hypothesis import strategies as st

from engine import Sub
from support import ensure, frame, fresh_path, nk, raises, ts_ns, ts
from props.storegen import COLSETS

ID = 'C05'
RULE = ('histories of 1-14 operations (put, append, remove of tables or whole buildings, save and reload of '
        'dataset / building metadata, close and reopen, new store object on the same file) over 3 buildings '
        'x 3 meters in an HDF, CSV or temporary store; after every operation the touched key, and at the end '
        'every key, listing and metadata is compared with a dict model. Non-trivial: at least three '
        'mutating operations, one of which overwrites, extends or removes existing content. Sub-check '
        '`keys`: Key/join_key round trips over generated building and meter numbers.')

OPS = ['put', 'append', 'append', 'append', 'remove', 'remove_b', 'meta_root', 'meta_b', 'reopen', 'renew', 'mutate']


@st.composite
def history(draw):
    kind = draw(st.sampled_from(['hdf', 'csv', 'tmp']))
    nops = draw(st.integers(1, 14))
    ops = []
    for _ in range(nops):
        op = draw(st.sampled_from(OPS))
        b, m = draw(st.sampled_from([1, 2, 11])), draw(st.sampled_from([1, 2, 10]))
        rows = draw(st.integers(1, 5))
        ops.append([op, b, m, rows, draw(st.integers(0, len(COLSETS) - 1)), draw(st.integers(0, 99))])
    return {'kind': kind, 'tz': draw(st.sampled_from(['UTC', 'UTC', None])), 'ops': ops}


def meta_for(b, x):
    return {'instance': b, 'original_name': 'house_%d_%d' % (b, x), 'rooms': [{'name': 'kitchen', 'instance': x}],
            'elec_meters': {1: {'site_meter': True, 'device_model': 'dev%d' % x, 'data_location': '/building%d/elec/meter1' % b},
                            2 + x % 3: {'submeter_of': 1, 'device_model': 'd', 'data_location': '/building%d/elec/meter%d' % (b, 2 + x % 3)}},
            'appliances': [{'type': 'fridge', 'instance': 1, 'meters': [2 + x % 3]}]}


def root_for(x):
    return {'name': 'ds%d' % x, 'timezone': 'Europe/London', 'subject': 'x' * (x % 7),
            'meter_devices': {'dev%d' % x: {'model': 'dev%d' % x, 'sample_period': x + 1,
                                           'measurements': [{'physical_quantity': 'power', 'type': 'active'}]}}}


def check(c):
    kind, tz = c['kind'], c['tz']
    HDF, CSV, TMP = nk.HDFDataStore, nk.CSVDataStore, nk('nilmtk.datastore').TmpDataStore
    if kind == 'csv':
        path = fresh_path('')
        store = CSV(path)
    elif kind == 'hdf':
        path = fresh_path('.h5')
        store = HDF(path, 'w')
    else:
        store = TMP()
        path = store.full_path
        ensure(os.path.isfile(path), 'TmpDataStore has no file')
    model = {}            # key -> (cols, [(sec, [values])])
    bmeta, rmeta = {}, None
    clock = [0]
    labels = set()
    nmut = 0

    def verify(key):
        what = '%s after %r: %s' % (kind, done, key)
        if key not in model:
            ensure(raises(KeyError, lambda: store[key]), '%s: is not there, yet store[key] gives data', what)
            ensure(raises(KeyError, lambda: list(store.load(key))), '%s: is not there, yet load works', what)
            return
        k, rows = model[key]
        got = store[key]
        cols = COLSETS[k]
        ensure([tuple(x) for x in got.columns] == [tuple(x) for x in cols], '%s: columns %r', what, list(got.columns))
        ensure([ts_ns(x) for x in got.index] == [ts_ns(ts(s)) for s, _ in rows], '%s: rows %r, expected %r', what,
               [str(x) for x in got.index], [s for s, _ in rows])
        ensure([[float(v) for v in r] for r in got.values] == [v for _, v in rows], '%s: values %r, expected %r', what,
               got.values.tolist(), [v for _, v in rows])
        if len(rows) > 1:
            tf = store.get_timeframe(key)
            ensure((ts_ns(tf.start), ts_ns(tf.end)) == (ts_ns(ts(rows[0][0])), ts_ns(ts(rows[-1][0]))),
                   '%s: get_timeframe %r', what, tf)
            n = sum(len(x) for x in store.load(key))
            ensure(n == len(rows), '%s: load gives %d of %d rows', what, n, len(rows))

    def verify_all():
        for b in (1, 2, 11):
            for m in (1, 2, 10):
                verify('/building%d/elec/meter%d' % (b, m))
        # listings
        have = {}
        for key in model:
            p = key.strip('/').split('/')
            have.setdefault(p[0], set()).add(p[2])
        top = set(store.elements_below_key('/'))
        ensure(set(have) <= top, '%s after %r: buildings %r not all listed in %r', kind, done, sorted(have), sorted(top))
        allowed = set(have) | {'building%d' % x for x in touched}
        ensure(top <= allowed, '%s after %r: never-written elements listed: %r', kind, done, sorted(top - allowed))
        for b, ms in have.items():
            ensure('elec' in store.elements_below_key(b), '%s after %r: elec not listed below %s', kind, done, b)
            for prefix in ('', '/'):
                got = sorted(store.elements_below_key(prefix + b + '/elec'))
                ensure(got == sorted(ms), '%s after %r: meters of %s are %r, expected %r', kind, done, b, got, sorted(ms))
        # metadata
        if rmeta is not None:
            got = store.load_metadata('/')
            ensure(got == rmeta, '%s after %r: dataset metadata %r, expected %r', kind, done, got, rmeta)
            got2 = store.load_metadata()
            ensure(got2 == rmeta, '%s: load_metadata() differs', kind)
        for b, md in bmeta.items():
            got = store.load_metadata('/building%d' % b)
            ensure(got == md, '%s after %r: metadata of building %d %r, expected %r', kind, done, b, got, md)

    done = []
    touched = set()
    for op, b, m, n, k, x in c['ops']:
        key = '/building%d/elec/meter%d' % (b, m)
        if op == 'append' and key in model:
            k = model[key][0]
        if op in ('put', 'append'):
            secs = []
            for _ in range(n):
                clock[0] += 1 + x % 5
                secs.append(clock[0])
            vals = [[float((x * 7 + i * 3 + j * 100) % 1000) for j in range(len(COLSETS[k]))] for i in range(n)]
            df = frame(secs, COLSETS[k], [list(col) for col in zip(*vals)], tz)
            arg = key if x % 4 else key[1:]
            before = df.copy()
            getattr(store, op)(arg, df)
            ensure(df.equals(before) and list(df.columns) == list(before.columns), '%s changed the caller\'s frame', op)
            new = list(zip(secs, vals))
            if key in model:
                labels.add('overwrite' if op == 'put' else 'extend')
            model[key] = (k, new if op == 'put' or key not in model else model[key][1] + new)
            touched.add(b)
            nmut += 1
            done.append([op, key, n])
            verify(key)
        elif op == 'remove':
            if key not in model:
                continue
            store.remove(key)
            del model[key]
            labels.add('remove')
            nmut += 1
            done.append([op, key])
            verify(key)
        elif op == 'remove_b':
            pre = '/building%d' % b
            if not any(q.startswith(pre + '/') for q in model):
                continue
            store.remove(pre if kind == 'csv' or x % 2 else pre)
            for q in [q for q in model if q.startswith(pre + '/')]:
                del model[q]
            touched.discard(b)
            if kind != 'csv':
                bmeta.pop(b, None)     # HDF keeps building metadata in the group
            else:
                pass
            labels.add('remove')
            nmut += 1
            done.append([op, pre])
            ensure('building%d' % b not in store.elements_below_key('/'), '%s: %s is still listed after remove', kind, pre)
        elif op == 'meta_root':
            rmeta = root_for(x)
            given = copy.deepcopy(rmeta)
            store.save_metadata('/', given)
            ensure(given == rmeta, '%s: the metadata given to save_metadata became %r', kind, given)
            done.append([op])
        elif op == 'meta_b':
            bmeta[b] = meta_for(b, x)
            given = copy.deepcopy(bmeta[b])
            store.save_metadata('/building%d' % b, given)
            ensure(given == bmeta[b], '%s: the metadata given to save_metadata became %r', kind, given)
            touched.add(b)
            done.append([op, b])
            nmut += 1
        elif op == 'mutate':
            # what load_metadata returns is the caller's to change
            if b in bmeta:
                md = store.load_metadata('/building%d' % b)
                md['elec_meters'].clear()
                md['instance'] = -1
            if rmeta is not None:
                store.load_metadata('/')['meter_devices'].clear()
        elif op == 'reopen':
            if kind == 'tmp':
                continue
            store.close()
            store.open()
            done.append([op])
        elif op == 'renew':
            if kind == 'tmp':
                continue
            store.close()
            store = CSV(path) if kind == 'csv' else HDF(path, 'a' if x % 2 else 'r+')
            done.append([op])
            labels.add('reopened')
    verify_all()
    if kind != 'tmp':
        store.close()
        store = CSV(path) if kind == 'csv' else HDF(path, 'r')
        done.append(['reopen for reading'])
        verify_all()
        store.close()
    else:
        store.close()
        ensure(not os.path.exists(path), 'TmpDataStore.close left its file behind')
    return (nmut >= 3 and bool(labels & {'overwrite', 'extend', 'remove'}), sorted(labels | {kind}))


@st.composite
def keys(draw):
    return {'b': draw(st.integers(1, 3000)), 'm': draw(st.one_of(st.none(), st.integers(1, 3000))),
            'bad': draw(st.integers(0, 5)),
            'parts': draw(st.lists(st.sampled_from(['building1', '/building2/', 'elec', '/elec', 'meter3/', '', '/', 7]), max_size=5))}


def check_keys(c):
    Key = nk('nilmtk.datastore.key').Key
    jk = nk('nilmtk.datastore.datastore').join_key
    b, m = c['b'], c['m']
    k = Key(building=b, meter=m)
    s = str(k)
    exp = '/building%d' % b + ('' if m is None else '/elec/meter%d' % m)
    ensure(s == exp, 'Key(building=%r, meter=%r) prints as %r', b, m, s)
    for form in (s, s[1:], s + '/'):
        k2 = Key(form)
        ensure((k2.building, k2.meter) == (b, m), 'Key(%r) is building %r meter %r', form, k2.building, k2.meter)
        ensure(str(k2) == s, 'Key(%r) prints as %r', form, str(k2))
        ensure(k2.utility == (None if m is None else 'elec'), 'Key(%r).utility is %r', form, k2.utility)
    k3 = Key(s + '/elec') if m is None else Key(s)
    ensure(k3.building == b and k3.utility == 'elec' and k3.meter == m, 'Key of %r/elec', s)
    bad = ['house%d' % b, 'building', 'building%d/elec/m%d' % (b, b), 'building0', 'buildingx/elec/meter1', 'building%d/elec/meter0' % b][c['bad']]
    ensure(raises((AssertionError, ValueError), lambda: Key(bad)), 'Key(%r) is accepted', bad)
    j = jk(*c['parts'])
    flat = [str(p).strip('/') for p in c['parts']]
    exp = '/' + '/'.join(p for p in flat if p)
    ensure(j == exp, 'join_key(%r) is %r, expected %r', c['parts'], j, exp)
    ensure(jk(j) == j and jk(j, '') == j, 'join_key is not idempotent on %r', j)
    return (m is not None and len([p for p in flat if p]) > 1, ['bad%d' % c['bad']])


SUBS = [Sub('history', history(), check, quick=700, thorough=12000, shards=7),
        Sub('keys', keys(), check_keys, quick=300, thorough=3000, shards=1)]
