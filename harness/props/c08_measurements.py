"""C08: ElecMeter.load gives exactly the measurements asked for."""
import pandas as pd
from hypothesis import strategies as st

from engine import Sub
from support import ensure, nk, raises
from props.datasets import one_meter
from props.storegen import check_frame

ID = 'C08'
RULE = ('meters with 1-6 of 11 measurement columns (power / energy / cumulative energy by AC type, voltage, '
        'current, frequency ...) and requests by physical_quantity (one or list), ac_type (one, list, "best"), both, or '
        'explicit columns, valid or not; the oracle selects by set comprehension over the declared '
        'measurements and demands exactly those columns with the stored values, or MeasurementError. '
        'Non-trivial: the request is a proper non-empty subset of the columns, or an error.')
ALL = [('power', 'active'), ('power', 'apparent'), ('power', 'reactive'), ('energy', 'active'), ('energy', 'apparent'),
       ('energy', 'reactive'), ('cumulative energy', 'active'), ('cumulative energy', 'reactive'), ('voltage', ''), ('current', ''),
       ('frequency', '')]
ACS = ['active', 'apparent', 'reactive']           # the documented order of preference
PQS = ['power', 'energy', 'cumulative energy', 'voltage', 'current', 'frequency', 'pf', 'state']


@st.composite
def case(draw):
    idx = sorted(draw(st.sets(st.integers(0, len(ALL) - 1), min_size=1, max_size=6)))
    cols = [list(ALL[i]) for i in idx]
    n = draw(st.integers(2, 6))
    secs = [6 * i for i in range(n)]
    vals = [[float(1 + i + 10 * j) for i in range(n)] for j in range(len(cols))]
    pq = draw(st.one_of(st.none(), st.sampled_from(PQS[:6]), st.sampled_from(PQS + ['temperature']),
                        st.lists(st.sampled_from(PQS[:6]), min_size=1, max_size=3, unique=True)))
    ac = draw(st.one_of(st.none(), st.just('best'), st.sampled_from(ACS + ['imaginary']),
                        st.lists(st.sampled_from(ACS), min_size=1, max_size=3, unique=True)))
    ex = None
    if draw(st.integers(0, 3)) == 0:
        ex = draw(st.lists(st.sampled_from([list(x) for x in ALL] if draw(st.booleans()) else cols), min_size=1, max_size=3, unique_by=tuple))
    perm = draw(st.permutations(range(len(cols))))
    return {'cols': cols, 'secs': secs, 'vals': vals, 'pq': pq, 'ac': ac, 'ex': ex, 'kind': draw(st.sampled_from(['hdf', 'hdf', 'csv'])),
            'perm': list(perm), 'avail': draw(st.lists(st.sampled_from(ACS), max_size=3, unique=True)),
            'mains': draw(st.one_of(st.none(), st.lists(st.sampled_from(ACS), max_size=3, unique=True)))}


def expected(cols, pq, ac):
    """set of columns, or None for MeasurementError."""
    cols = [tuple(c) for c in cols]
    if pq is None and ac is None:
        return set(cols)
    pqs = None if pq is None else (pq if isinstance(pq, list) else [pq])
    if pqs is not None and any(p not in PQS + ['power factor', 'phase angle'] for p in pqs):
        return None
    if ac == 'best':
        out = set()
        for p in pqs if pqs is not None else {c[0] for c in cols}:
            have = [c[1] for c in cols if c[0] == p and c[1]]
            for a in ACS:
                if a in have:
                    out.add((p, a))
                    break
        return out or None
    acs = None if ac is None else (ac if isinstance(ac, list) else [ac])
    if acs is not None and any(a not in ACS for a in acs):
        return None
    out = {c for c in cols if (pqs is None or c[0] in pqs) and (acs is None or c[1] in acs)}
    return out or None


def check(c):
    cols = [tuple(x) for x in c['cols']]
    t = {'secs': c['secs'], 'vals': c['vals'], 'columns': c['cols'], 'nan': []}
    declared = [c['cols'][i] for i in c['perm']]       # the order of the metadata need not be that of the table
    ds, meter = one_meter(t, kind=c['kind'], cols=declared)
    ME = nk('nilmtk.exceptions').MeasurementError
    data = {col: [float(v) for v in c['vals'][j]] for j, col in enumerate(cols)}
    what = 'load(physical_quantity=%r, ac_type=%r) of a meter with %r' % (c['pq'], c['ac'], cols)

    def same(dfs, exp, what):
        ensure(len(dfs) == 1, '%s: %d chunks', what, len(dfs))
        df = dfs[0]
        got = [tuple(x) for x in df.columns]
        ensure(set(got) == set(exp) and len(got) == len(set(got)), '%s gives columns %r, expected %r', what, got, sorted(exp))
        for col in got:
            ensure(df[col].tolist() == data[col], '%s: column %r is %r, expected %r', what, col, df[col].tolist(), data[col])

    kw = {}
    if c['pq'] is not None:
        kw['physical_quantity'] = c['pq']
    if c['ac'] is not None:
        kw['ac_type'] = c['ac']
    labels = []
    exp = expected(cols, c['pq'], c['ac'])
    if exp is None:
        ensure(raises(ME, lambda: list(meter.load(**dict(kw)))), '%s is accepted', what)
        labels.append('error')
    else:
        same(list(meter.load(**dict(kw))), exp, what)
    if c['ex'] is not None:
        ex = [tuple(x) for x in c['ex']]
        w2 = 'load(columns=%r) of a meter with %r' % (ex, cols)
        if set(ex) <= set(cols):
            same(list(meter.load(columns=list(ex))), ex, w2)
            if kw:
                ensure(raises(ValueError, lambda: list(meter.load(columns=list(ex), **dict(kw)))), '%s together with %r is accepted', w2, kw)
        else:
            ensure(raises(ME, lambda: list(meter.load(columns=list(ex)))), '%s is accepted', w2)
    # power_series: the best AC type of power
    best = expected(cols, 'power', 'best')
    if best is None:
        ensure(raises(ME, lambda: list(meter.power_series())), 'power_series of a meter with %r gives data', cols)
    else:
        s = list(meter.power_series())
        ensure(len(s) == 1 and s[0].tolist() == data[list(best)[0]], 'power_series of a meter with %r is %r, expected %r',
               cols, s[0].tolist() if s else None, data[list(best)[0]])
        ensure(tuple(s[0].name) == list(best)[0], 'power_series is called %r', s[0].name)
    # load_series sums over the AC types of one physical quantity
    for pq in sorted({x[0] for x in cols}):
        sel = [x for x in cols if x[0] == pq]
        s = list(meter.load_series(physical_quantity=pq))[0]
        ensure(s.tolist() == [sum(v) for v in zip(*[data[x] for x in sel])], 'load_series(%r) is %r', pq, s.tolist())
    # availability queries
    ensure(set(meter.available_columns()) == set(cols), 'available_columns %r', meter.available_columns())
    ensure(set(meter.available_physical_quantities()) == {x[0] for x in cols}, 'available_physical_quantities %r', meter.available_physical_quantities())
    for pq in PQS[:6]:
        ensure(set(meter.available_ac_types(pq)) == {x[1] for x in cols if x[0] == pq and x[1]}, 'available_ac_types(%r) = %r', pq, meter.available_ac_types(pq))
    ensure(set(meter.available_ac_types(PQS[:6])) == {x[1] for x in cols if x[1]}, 'available_ac_types(list) = %r', meter.available_ac_types(PQS[:6]))
    ensure(raises(ValueError, lambda: meter.available_ac_types('temperature')), 'available_ac_types accepts unknown quantities')
    # a table header
    mc = nk('nilmtk.measurement').measurement_columns
    hd = mc([tuple(x) for x in declared])
    ensure([tuple(x) for x in hd] == [tuple(x) for x in declared] and list(hd.names) == ['physical_quantity', 'type'], 'measurement_columns(%r) = %r', declared, hd)
    for bad in (('temperature', ''), ('power', 'imaginary'), ('energy', ''), ('cumulative energy', 'total')):
        ensure(raises(ME, lambda: mc([tuple(x) for x in declared] + [bad])), 'measurement_columns accepts %r', bad)
    # preference order
    sel = nk('nilmtk.measurement').select_best_ac_type
    av, mains = c['avail'], c['mains']
    pref = [a for a in ACS if a in av and (mains is None or a in mains)] or [a for a in ACS if a in av]
    if pref:
        ensure(sel(av, mains) == pref[0], 'select_best_ac_type(%r, %r) = %r', av, mains, sel(av, mains))
    else:
        ensure(raises(KeyError, lambda: sel(av, mains)), 'select_best_ac_type(%r, %r) finds something', av, mains)
    ds.store.close()
    return (exp is None or len(exp) < len(cols), labels + [c['kind']])


SUBS = [Sub('columns', case(), check, quick=600, thorough=9000, shards=8)]
