"""C07: DataSet presents the whole dataset, and set_window bounds all of it."""
import pandas as pd
from hypothesis import strategies as st

from engine import Sub
from support import ensure, nk, raises, ts, ts_ns
from props.datasets import device, open_dataset, building_metadata
from props.storegen import COLSETS, check_frame, expected_rows, table

ID = 'C07'
RULE = ('generated datasets (HDF and CSV) of 1-3 buildings with 1-4 meters, appliances on one or several '
        'meters and disabled meters, in 4 time zones; a sequence of set_window calls with naive local times '
        '(str, Timestamp or datetime) and None, after each of which every meter is loaded and compared with the '
        'rows of the spec inside the window. Non-trivial: several meters and a window which cuts off rows of '
        'one of them.')
TZS = ['UTC', 'Europe/London', 'America/New_York', 'Asia/Tokyo']
TYPES = ['fridge', 'kettle', 'toaster', 'light', 'television']


@st.composite
def case(draw):
    bs = []
    base = None
    for i in sorted(draw(st.sets(st.sampled_from([1, 2, 3, 10]), min_size=1, max_size=3))):
        meters = []
        for m in sorted(draw(st.sets(st.sampled_from([1, 2, 3, 9, 10]), min_size=1, max_size=4))):
            t = draw(table(max_rows=10))
            t['off'] = 10 * i + m
            base = base or t['secs']
            up = None if not meters or draw(st.integers(0, 3)) == 0 else meters[0]['m']
            e = {'m': m, 'dev': device('d%d' % t['cols'], COLSETS[t['cols']], 6, 30), 'up': up, 't': t}
            meters.append(e)
        ids = [m['m'] for m in meters]
        apps = []
        free = list(ids)
        cnt = {}
        for _ in range(draw(st.integers(0, 3))):
            typ = draw(st.sampled_from(TYPES))
            cnt[typ] = cnt.get(typ, 0) + 1
            multi = len(free) >= 2 and draw(st.integers(0, 3)) == 0
            if multi:
                on = free[:2]
                free = free[2:]
            elif free:
                k = draw(st.integers(0, len(free) - 1))
                on = [free[k]]
                if draw(st.booleans()):
                    free.pop(k)
            else:
                break
            apps.append({'type': typ, 'instance': cnt[typ], 'meters': on})
        # an appliance on one of the meters of a multi-meter appliance is outside nilmtk's assumptions
        taken = set(x for a in apps if len(a['meters']) > 1 for x in a['meters'])
        apps = [a for a in apps if len(a['meters']) > 1 or a['meters'][0] not in taken]
        if not taken and draw(st.integers(0, 2)) == 2:          # wired straight to the mains
            apps.insert(draw(st.integers(0, len(apps))), {'type': 'lift', 'instance': 1, 'meters': [0]})
        for m in meters:
            if m['m'] not in taken and draw(st.integers(0, 7)) == 0:
                m['extra'] = {'disabled': True}
        bs.append({'i': i, 'meters': meters, 'apps': apps})
    wins = []
    for _ in range(draw(st.integers(1, 3))):
        a = draw(st.one_of(st.none(), st.sampled_from(base), st.integers(-10, 3000)))
        b = draw(st.one_of(st.none(), st.sampled_from(base), st.integers(-10, 3000)))
        if a is not None and b is not None:
            a, b = min(a, b), max(a, b)
            if a == b:
                b += 1
        wins.append([a, b, draw(st.sampled_from(['str', 'ts', 'dt']))])
    return {'spec': {'name': draw(st.sampled_from(['REDD', 'gen'])), 'tz': draw(st.sampled_from(TZS)), 'buildings': bs},
            'kind': draw(st.sampled_from(['hdf', 'hdf', 'csv'])), 'wins': wins}


def local(sec, tz, form):
    if sec is None:
        return None
    t = ts(sec, tz).tz_localize(None)
    return {'str': str(t), 'ts': t, 'dt': t.to_pydatetime()}[form]


def check(c):
    spec, kind = c['spec'], c['kind']
    ds = open_dataset(spec, kind)
    get = nk('nilmtk.utils').get_datastore
    for args in [(None,), (None, 'HDF'), ('nowhere.dat',), ('nowhere.h5', 'XML')]:
        ensure(raises(ValueError, get, *args), 'get_datastore%r does not raise a ValueError', args)
    ensure(list(sorted(ds.buildings)) == [b['i'] for b in spec['buildings']], 'buildings are %r', list(ds.buildings))
    ensure(ds.metadata.get('name') == spec['name'] and ds.metadata.get('timezone') == spec['tz'], 'dataset metadata %r', ds.metadata)
    MeterGroup = nk.MeterGroup
    ElecMeterID = nk('nilmtk.elecmeter').ElecMeterID
    found = {}
    for b in spec['buildings']:
        elec = ds.buildings[b['i']].elec
        ensure(ds.buildings[b['i']].identifier.instance == b['i'] and ds.buildings[b['i']].identifier.dataset == spec['name'],
               'building identifier %r', ds.buildings[b['i']].identifier)
        groups = sorted(sorted(a['meters']) for a in b['apps'] if len(a['meters']) > 1)
        single = sorted(m['m'] for m in b['meters'] if not any(m['m'] in g for g in groups) and not m.get('extra'))
        ensure(sorted(m.instance() for m in elec.meters if not isinstance(m, MeterGroup)) == single,
               'building %d has meters %r, expected %r', b['i'], elec.meters, single)
        ensure(sorted(sorted(x.instance() for x in m.meters) for m in elec.meters if isinstance(m, MeterGroup)) == groups,
               'building %d has groups %r, expected %r', b['i'], elec.meters, groups)
        ensure(sorted(m.instance() for m in elec.disabled_meters) == sorted(m['m'] for m in b['meters'] if m.get('extra')),
               'disabled meters of building %d are %r', b['i'], elec.disabled_meters)
        flat = []
        for m in elec.meters:
            flat += list(m.meters) if isinstance(m, MeterGroup) else [m]
        flat += elec.disabled_meters
        for m in flat:
            ensure(m.identifier == ElecMeterID(m.instance(), b['i'], spec['name']), 'identifier %r in building %d', m.identifier, b['i'])
            found[(b['i'], m.instance())] = m
        for m in b['meters']:
            em = found[(b['i'], m['m'])]
            exp = sorted((a['type'], a['instance']) for a in b['apps'] if m['m'] in a['meters'] or a['meters'] == [0] and m.get('up') is None)
            got = sorted((a.identifier.type, a.identifier.instance) for a in em.appliances)
            ensure(got == exp, 'appliances on meter %d of building %d: %r, expected %r', m['m'], b['i'], got, exp)
            ensure(bool(em.is_site_meter()) == (m.get('up') is None), 'is_site_meter of %r', em)
            ensure(em.device == m['dev'], 'device of %r is %r', em, em.device)
            d = em.device              # a copy of its own
            d['sample_period'] = -1
            d['measurements'] = d['measurements'][:0]
            ensure(em.device == m['dev'], 'device of %r is %r after the caller changed the dict it was given', em, em.device)
            ensure(em.sample_period() == m['dev']['sample_period'], 'sample period of %r', em)
    cut = False
    for a, b_, form in [[None, None, 'str']] + c['wins']:
        ds.set_window(local(a, spec['tz'], form), local(b_, spec['tz'], form))
        win = [a, b_, False]
        for b in spec['buildings']:
            for m in b['meters']:
                rows = expected_rows(m['t'], win, [None, None, False])
                cut = cut or len(rows) < len(m['t']['secs'])
                em = found[(b['i'], m['m'])]
                what = 'meter %d of building %d with window %r (%s)' % (m['m'], b['i'], win, form)
                dfs = list(em.load(columns=[tuple(x) for x in COLSETS[m['t']['cols']]]))
                ensure(len(dfs) == 1, '%s: %d chunks', what, len(dfs))
                if rows:
                    check_frame(dfs[0], m['t'], rows, COLSETS[m['t']['cols']], what, 'UTC')
                else:
                    ensure(len(dfs[0]) == 0, '%s: rows outside the window: %r', what, dfs[0])
                tf = em.get_timeframe()
                lo, hi = m['t']['secs'][0], m['t']['secs'][-1]
                lo = lo if a is None else max(lo, a)
                hi = hi if b_ is None else min(hi, b_)
                if lo >= hi:
                    ensure(tf.empty, '%s: get_timeframe is %r', what, tf)
                else:
                    ensure((ts_ns(tf.start), ts_ns(tf.end)) == (ts_ns(ts(lo)), ts_ns(ts(hi))), '%s: get_timeframe is %r', what, tf)
    # without a time zone local times mean nothing
    tz = ds.metadata.pop('timezone')
    ensure(raises(RuntimeError, lambda: ds.set_window('2012-01-01')), 'set_window of a dataset without time zone is accepted')
    ds.metadata['timezone'] = tz
    ensure(raises(RuntimeError, lambda: nk.DataSet().set_window('2012-01-01')), 'set_window of a dataset without store is accepted')
    # the window is not destructive
    ds.set_window()
    for b in spec['buildings']:
        for m in b['meters']:
            em = found[(b['i'], m['m'])]
            df = pd.concat(list(em.load(columns=[tuple(x) for x in COLSETS[m['t']['cols']]])))
            check_frame(df, m['t'], list(range(len(m['t']['secs']))), COLSETS[m['t']['cols']], 'after set_window()', 'UTC')
    ds.store.close()
    return (len(found) > 1 and cut, [kind, spec['tz']])


SUBS = [Sub('dataset', case(), check, quick=320, thorough=5000, shards=8)]
