"""C04: CSVDataStore gives back what was written, filtered exactly."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from engine import Sub
from support import ensure, fresh_path, nk, ns, raises, ts, ts_ns
from props.storegen import (COLSETS, check_frame, expected_rows, interval, mk_tf, table, to_df)

ID = 'C04'
RULE = ('the tables, windows, sections, chunk sizes, column subsets and look-ahead of C03, written to a '
        'CSV store by put, or by put/append in several pieces; naive or UTC timestamps, and tables across a change of the offset from UTC; oracle: direct '
        'filter of the written rows. Non-trivial: rows excluded, or several chunks, or appended pieces, '
        'and at least one row returned.')
ASSUMPTIONS = ['a zone is only kept as offset from UTC: tables with daylight saving come back with their instants, in UTC where the offset changes']
KEY = '/building2/elec/meter13'


@st.composite
def case(draw):
    t = draw(table(max_rows=25, ms=True))
    cols = COLSETS[t['cols']]
    sel = None
    if draw(st.booleans()):
        sel = draw(st.permutations(range(len(cols))))[:draw(st.integers(1, len(cols)))]
    nsec = draw(st.sampled_from([0, 1, 1, 2, 3]))
    n = len(t['secs'])
    return {'t': t, 'tz': draw(st.sampled_from([None, 'UTC'])),
            'cuts': sorted(draw(st.lists(st.integers(1, n - 1), max_size=3, unique=True))),
            'first': draw(st.sampled_from(['put', 'append'])), 'turn': draw(st.integers(0, 3)) == 3,
            'win': draw(st.one_of(st.just([None, None, False]), interval(t['secs']))),
            'win_off': draw(st.integers(0, 9)) == 9,
            'sections': [draw(interval(t['secs'])) for _ in range(nsec)] if nsec else None,
            'chunk': draw(st.one_of(st.none(), st.integers(1, 8), st.integers(1, 30))),
            'sel': sel, 'la': draw(st.sampled_from([0, 0, 1, 2, 5]))}


def check(c):
    t, tz = c['t'], c['tz']
    n = len(t['secs'])
    cols = COLSETS[t['cols']]
    sel = cols if c['sel'] is None else [cols[i] for i in c['sel']]
    store = nk.CSVDataStore(fresh_path('csv'))
    df = to_df(t, tz)
    edges = [0] + c['cuts'] + [n]
    for k, (a, b) in enumerate(zip(edges, edges[1:])):
        if k == 0 and c['first'] == 'put':
            store.put(KEY, df.iloc[a:b])
        elif k and c.get('turn'):                  # the same columns in another order
            store.append(KEY, df.iloc[a:b, ::-1])
        else:
            store.append(KEY, df.iloc[a:b])
    win = c['win']
    w = mk_tf(win, tz)
    if c['win_off']:
        w.enabled = False
        win = [None, None, False]
    store.window = w
    kw = {}
    if c['sel'] is not None:
        kw['columns'] = [tuple(x) for x in sel]
    if c['chunk'] is not None:
        kw['chunksize'] = c['chunk']
    if c['la']:
        kw['n_look_ahead_rows'] = c['la']
    labels = set()
    flat = []
    secs = c['sections'] if c['sections'] is not None else [[None, None, False]]
    for sec in secs:
        args = dict(kw)
        if c['sections'] is not None:
            args['sections'] = [mk_tf(sec, tz)]
        chunks = list(store.load(KEY, **args))
        rows = expected_rows(t, win, sec)
        what = 'csv load(section=%r, window=%r, chunksize=%r)' % (sec, win, c['chunk'])
        if not rows:
            ensure(len(chunks) == 1 and len(chunks[0]) == 0,
                   '%s: no row qualifies, expected one empty frame, got lengths %r', what, [len(x) for x in chunks])
            flat.append(0)
            continue
        pos = 0
        last_end = None
        for k, d in enumerate(chunks):
            m = len(d)
            ensure(m >= 1 and (c['chunk'] is None or m <= c['chunk']), '%s: chunk of %d rows', what, m)
            got = rows[pos:pos + m]
            check_frame(d, t, got, sel, '%s: chunk %d' % (what, k), tz)
            pos += m
            flat.append(m)
            s, e = ts_ns(d.timeframe.start), ts_ns(d.timeframe.end)
            ensure(s is not None and e is not None and s <= ts_ns(d.index[0]) and ts_ns(d.index[-1]) <= e,
                   '%s: chunk %d outside its timeframe %r', what, k, d.timeframe)
            ensure(last_end is None or s >= last_end, '%s: overlapping timeframes', what)
            last_end = e
            if c['la']:
                nxt = list(range(got[-1] + 1, min(n, got[-1] + 1 + c['la'])))
                if nxt:
                    check_frame(d.look_ahead, t, nxt, sel, '%s: look-ahead of chunk %d' % (what, k), tz)
                    labels.add('look-ahead')
                else:
                    ensure(len(d.look_ahead) == 0, '%s: look-ahead beyond the table', what)
        ensure(pos == len(rows), '%s: rows %r were not delivered', what, rows[pos:])
        if len(chunks) > 1:
            labels.add('chunked')
        if len(rows) < n:
            labels.add('partial')
    if c['sections'] is not None:
        alls = [len(x) for x in store.load(KEY, sections=[mk_tf(s, tz) for s in secs], **kw)]
        ensure(alls == flat, 'all sections at once: chunk lengths %r, one by one %r', alls, flat)
    tf = store.get_timeframe(KEY)
    lo, hi = ts_ns(ts(t['secs'][0])), ts_ns(ts(t['secs'][-1]))
    lo = lo if win[0] is None else max(lo, ts_ns(ts(win[0])))
    hi = hi if win[1] is None else min(hi, ts_ns(ts(win[1])))
    if lo >= hi:
        ensure(tf.empty, 'get_timeframe of a window beside the data is %r', tf)
    else:
        ensure((ts_ns(tf.start), ts_ns(tf.end)) == (lo, hi), 'get_timeframe is %r with window %r', tf, win)
    ensure(raises(KeyError, lambda: list(store.load('/building1/elec/meter9', **kw))), 'unknown key loads')
    ensure(raises(KeyError, lambda: store['/building1/elec/meter9']), 'unknown key found')
    check_frame(store[KEY], t, list(range(n)), cols, 'store[key]', tz)
    if c['cuts']:
        labels.add('appended')
    return (bool(labels & {'chunked', 'partial', 'appended'}), sorted(labels))


# -- tables in zones with daylight saving: the offset from UTC changes within the table
ZONES = [('Europe/London', '2014-03-30 01:00'), ('Europe/London', '2014-10-26 01:00'), ('America/New_York', '2014-03-09 07:00'),
         ('Australia/Lord_Howe', '2014-10-04 15:30'), ('Asia/Kathmandu', '2014-07-01')]


@st.composite
def zone_case(draw):
    gaps = draw(st.lists(st.sampled_from([1, 6, 60, 1800, 3600, 7200]), min_size=1, max_size=16))
    return {'zone': draw(st.integers(0, len(ZONES) - 1)), 'gaps': gaps, 'back': draw(st.integers(0, sum(gaps))), 'cut': draw(st.integers(0, len(gaps))),
            'chunk': draw(st.one_of(st.none(), st.integers(1, 8))), 'la': draw(st.sampled_from([0, 0, 1, 3])),
            'secs': draw(st.lists(st.tuples(st.integers(0, len(gaps)), st.integers(1, 8)), max_size=2)), 'win': draw(st.one_of(st.none(), st.integers(0, len(gaps))))}


def check_zone(c):
    zone, change = ZONES[c['zone']]
    secs = np.concatenate([[0], np.cumsum(c['gaps'])]) - c['back']
    index = (pd.Timestamp(change, tz='UTC') + pd.to_timedelta(secs, unit='s')).tz_convert(zone)
    n = len(index)
    vals = np.arange(n) * 3.5
    df = pd.DataFrame({('power', 'active'): vals}, index=index)
    df.columns = pd.MultiIndex.from_tuples([('power', 'active')], names=['physical_quantity', 'type'])
    store = nk.CSVDataStore(fresh_path('csv'))
    for part in (df.iloc[:c['cut']], df.iloc[c['cut']:]):
        if len(part):
            store.append(KEY, part)
    offsets = {x.utcoffset() for x in index}

    def same(d, rows, what):
        ensure(isinstance(d.index, pd.DatetimeIndex) and d.index.tz is not None, '%s: index of type %s, %s', what, type(d.index).__name__, d.index.dtype)
        got = [int(x) for x in ns(d.index)]
        ensure(got == [ts_ns(index[i]) for i in rows], '%s: %r, expected rows %r of %r', what, list(d.index)[:8], rows, list(index)[:8])
        ensure(d.values[:, 0].tolist() == [vals[i] for i in rows], '%s: values %r', what, d.values[:5].tolist())

    lo = 0
    if c['win'] is not None:
        lo = c['win']
        store.window = nk.TimeFrame(index[lo], None)
    kw = {}
    if c['chunk']:
        kw['chunksize'] = c['chunk']
    if c['la']:
        kw['n_look_ahead_rows'] = c['la']
    spans = [(a, min(n - 1, a + k)) for a, k in c['secs'] if a < n - 1]
    for a, b in spans or [(0, n)]:
        args = dict(kw)
        if spans:
            args['sections'] = [nk.TimeFrame(index[a], index[b])]
        rows = list(range(max(a, lo), b))
        pos = 0
        for k, d in enumerate(store.load(KEY, **args)):
            if not len(d):
                continue
            what = '%s, rows %d to %d, chunk %d' % (zone, a, b, k)
            same(d, rows[pos:pos + len(d)], what)
            pos += len(d)
            ensure(ts_ns(d.timeframe.start) <= ts_ns(d.index[0]) and ts_ns(d.index[-1]) <= ts_ns(d.timeframe.end), '%s: timeframe %r', what, d.timeframe)
            nxt = list(range(rows[pos - 1] + 1, min(n, rows[pos - 1] + 1 + c['la'])))
            if nxt:
                same(d.look_ahead, nxt, what + ', look-ahead')
        ensure(pos == len(rows), '%s: %d rows of %d', zone, pos, len(rows))
    tf = store.get_timeframe(KEY)
    if lo < n - 1:
        ensure((ts_ns(tf.start), ts_ns(tf.end)) == (ts_ns(index[lo]), ts_ns(index[-1])), 'get_timeframe is %r', tf)
    same(store[KEY], list(range(n)), 'store[key]')
    return (n > 2, ['changes'] * (len(offsets) > 1) + ['chunked'] * bool(c['chunk']) + [zone])


SUBS = [Sub('load', case(), check, quick=500, thorough=8000, shards=8),
        Sub('zones', zone_case(), check_zone, quick=300, thorough=4000, shards=8)]
