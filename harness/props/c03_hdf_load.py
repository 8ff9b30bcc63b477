"""C03: HDFDataStore.load delivers exactly the rows asked for."""
from hypothesis import strategies as st

from engine import Sub
from support import ensure, fresh_path, nk, raises, ts, ts_ns
from props.storegen import (COLSETS, check_frame, expected_rows, interval, iv_cut, iv_empty,
                            mk_tf, table, to_df)

ID = 'C03'
RULE = ('tables of 2-40 rows with regular, gappy and sub-second timestamps, NaNs and 1-3 columns, '
        'in a naive, UTC or DST timezone; loaded through a store window (open, bounded, inclusive or '
        'disabled) and 0-4 sections whose bounds sit on, beside or outside rows, with every '
        'chunksize from 1 up, column subsets in any order and 0-5 look-ahead rows; the oracle filters '
        'the written rows directly. Non-trivial: some rows are excluded or the load is chunked, and '
        'at least one row is returned.')
KEY = '/building1/elec/meter1'


@st.composite
def case(draw):
    t = draw(table(ms=True))
    cols = COLSETS[t['cols']]
    if draw(st.booleans()):
        sel = draw(st.permutations(range(len(cols))))[:draw(st.integers(1, len(cols)))]
    else:
        sel = None
    nsec = draw(st.sampled_from([0, 1, 1, 2, 3, 4]))
    return {'t': t, 'tz': draw(st.sampled_from([None, 'UTC', 'Europe/London', 'America/New_York'])),
            'win': draw(st.one_of(st.just([None, None, False]), st.just([None, None, False]), interval(t['secs']))),
            'win_off': draw(st.integers(0, 9)) == 9,
            'sections': [draw(interval(t['secs'])) for _ in range(nsec)] if nsec else None,
            'grp': draw(st.booleans()),
            'chunk': draw(st.one_of(st.none(), st.integers(1, 8), st.integers(1, 45))),
            'sel': sel, 'la': draw(st.sampled_from([0, 0, 1, 2, 5])), 'noslash': draw(st.booleans())}


def check(c):
    t, tz = c['t'], c['tz']
    n = len(t['secs'])
    cols = COLSETS[t['cols']]
    sel = cols if c['sel'] is None else [cols[i] for i in c['sel']]
    store = nk.HDFDataStore(fresh_path('.h5'), 'w')
    store.put(KEY, to_df(t, tz))
    win = c['win']
    w = mk_tf(win, tz)
    if c['win_off']:
        w.enabled = False
        win = [None, None, False]
    store.window = w
    kw = {}
    if c['sel'] is not None:
        kw['columns'] = [tuple(x) for x in sel]
    if c['chunk'] is not None:
        kw['chunksize'] = c['chunk']
    if c['la']:
        kw['n_look_ahead_rows'] = c['la']
    key = KEY[1:] if c['noslash'] else KEY
    chunk = c['chunk'] or 10 ** 9
    labels = set()
    flat = []
    multi = False
    secs = c['sections'] if c['sections'] is not None else [[None, None, False]]
    for sec in secs:
        args = dict(kw)
        if c['sections'] is not None:
            args['sections'] = [mk_tf(sec, tz)]
        chunks = list(store.load(key, **args))
        rows = expected_rows(t, win, sec)
        what = 'load(section=%r, window=%r, chunksize=%r)' % (sec, win, c['chunk'])
        lens = []
        if not rows:
            ensure(len(chunks) == 1 and len(chunks[0]) == 0,
                   '%s: no row qualifies, expected one empty frame, got lengths %r', what, [len(x) for x in chunks])
            ensure(getattr(chunks[0], 'timeframe', None) is not None, '%s: empty frame without timeframe', what)
            tf = chunks[0].timeframe
            lo = max([x[0] for x in (win, sec) if x[0] is not None], default=-10 ** 12)
            hi = min([x[1] for x in (win, sec) if x[1] is not None], default=10 ** 12)
            if not tf.empty and lo < hi:
                for a, b in (win[:2], sec[:2]):
                    ensure((a is None or tf.start is not None and ts_ns(tf.start) >= ts_ns(ts(a))) and (b is None or tf.end is not None and ts_ns(tf.end) <= ts_ns(ts(b))),
                           '%s: the time frame %r of the empty frame goes beyond the section or the window', what, tf)
            flat.append([])
            labels.add('no-rows')
            continue
        a, b = iv_cut(win, sec)
        pos = 0                       # index into rows of the next row not yet seen
        prev_end = None
        for k, df in enumerate(chunks):
            m = len(df)
            ensure(m >= 1, '%s: empty chunk %d among %r', what, k, [len(x) for x in chunks])
            ensure(m <= chunk + 1, '%s: chunk of %d rows', what, m)
            first = ts_ns(df.index[0])
            start = pos
            if k and pos and first == ts_ns(ts(t['secs'][rows[pos - 1]])):
                start = pos - 1       # chunks of one section share their boundary row
            got = rows[start:start + m]
            check_frame(df, t, got, sel, '%s: chunk %d' % (what, k), tz, 'float32')
            pos = start + m
            flat.append(got)
            tf = df.timeframe
            s, e = ts_ns(tf.start), ts_ns(tf.end)
            if not (len(rows) == 1 and (s is None or e is None)):
                ensure(s is not None and e is not None, '%s: chunk %d has open timeframe %r', what, k, tf)
                ensure(s <= first and ts_ns(df.index[-1]) <= e, '%s: chunk %d spills out of its timeframe %r', what, k, tf)
                lo = ts_ns(ts(t['secs'][rows[0]])) if a is None else ts_ns(ts(a))
                hi = ts_ns(ts(t['secs'][rows[-1]])) if b is None else ts_ns(ts(b))
                if k == 0:
                    ensure(s == lo, '%s: first timeframe starts at %s, not at the section/window/data start', what, tf.start)
                else:
                    ensure(s == prev_end, '%s: timeframes of consecutive chunks do not meet: %r', what, [x.timeframe for x in chunks])
                if k == len(chunks) - 1:
                    ensure(e == hi, '%s: last timeframe ends at %s, not at the section/window/data end', what, tf.end)
                prev_end = e
            if c['la']:
                nxt = list(range(got[-1] + 1, min(n, got[-1] + 1 + c['la'])))
                la = df.look_ahead
                if nxt:
                    check_frame(la, t, nxt, sel, '%s: look-ahead of chunk %d' % (what, k), tz)
                    labels.add('look-ahead')
                else:
                    ensure(len(la) == 0, '%s: look-ahead beyond the table: %r', what, la)
        ensure(pos == len(rows), '%s: rows %r were not delivered', what, rows[pos:])
        if len(rows) <= chunk:
            ensure(len(chunks) == 1, '%s: %d rows came in %d chunks', what, len(rows), len(chunks))
        if len(chunks) > 1:
            labels.add('chunked')
            multi = True
        if len(rows) < n:
            labels.add('partial')
        if len(rows) == 1:
            labels.add('single-row')
    if c['sections'] is not None:
        frames = [mk_tf(s, tz) for s in secs]
        if c['grp']:
            frames = nk('nilmtk.timeframegroup').TimeFrameGroup(frames)
        alls = list(store.load(key, sections=frames, **kw))
        ensure([len(x) for x in alls] == [len(x) for x in flat], 'loading all sections at once gives chunk '
               'lengths %r, one by one %r', [len(x) for x in alls], [len(x) for x in flat])
        for df, rows in zip(alls, flat):
            if rows:
                check_frame(df, t, rows, sel, 'load(all sections)', tz)
        ensure(bool(store.all_sections_smaller_than_chunksize) == (not multi),
               'all_sections_smaller_than_chunksize=%r but multi-chunk sections: %r',
               store.all_sections_smaller_than_chunksize, multi)
    tf = store.get_timeframe(KEY)
    a, b = win[0], win[1]
    lo, hi = ts_ns(ts(t['secs'][0])), ts_ns(ts(t['secs'][-1]))
    lo = lo if a is None else max(lo, ts_ns(ts(a)))
    hi = hi if b is None else min(hi, ts_ns(ts(b)))
    if lo >= hi:
        ensure(tf.empty, 'get_timeframe of a window beside the data is %r', tf)
    else:
        ensure((ts_ns(tf.start), ts_ns(tf.end)) == (lo, hi) and not tf.empty,
               'get_timeframe is %r with window %r and data %s..%s', tf, win, ts(t['secs'][0]), ts(t['secs'][-1]))
    ensure(raises(KeyError, lambda: list(store.load('/building1/elec/meter9', **kw))), 'unknown key loads')
    whole = store[KEY]
    check_frame(whole, t, list(range(n)), cols, 'store[key]', tz, 'float32')
    store.close()
    return (bool(labels & {'chunked', 'partial'}), sorted(labels))


SUBS = [Sub('load', case(), check, quick=900, thorough=16000, shards=8)]
