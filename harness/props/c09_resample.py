"""C09: resampled and concatenated loads of one meter."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from engine import Sub
from support import ensure, ensure_array, nk, ts, ts_ns
from props.datasets import one_meter
from props.storegen import COLSETS, check_frame, expected_rows, interval, mk_tf, table, values

ID = 'C09'
RULE = ('meters with irregular timestamps, gaps, duplicate-free NaNs, 1-3 columns, any sample period / max sample period, four '
        'time zones, optionally across a DST change (also at midnight, Havana and Sao Paulo); loaded with sample_period, resample=True or neither, '
        'whole or in sections; oracle: bins computed by integer arithmetic, mean (or max/min) of the values in each '
        'bin, forward fill limited to ceil(max_sample_period / sample_period) bins. `all_data`: '
        'power_series_all_data and when_on under every chunksize. Non-trivial: some bin holds several samples or '
        'is filled or stays empty.')
# seconds from the generator's epoch to a change of the clocks at midnight: ambiguous in Havana, missing in Sao Paulo
MIDNIGHT = {'America/Havana': 18041880, 'America/Sao_Paulo': 15615480}
DST = 16817880 - 4000          # seconds from the generator's epoch to shortly before the end of BST in 2011


@st.composite
def case(draw):
    dst = draw(st.integers(0, 4)) == 0
    mid = draw(st.sampled_from([None, None, None, None, 'America/Havana', 'America/Sao_Paulo']))
    start = MIDNIGHT[mid] + draw(st.integers(-30000, 30000)) if mid else (DST + draw(st.integers(0, 5000))) if dst else None
    t = draw(table(max_rows=25, ms=draw(st.booleans()), start=start))
    span = t['secs'][-1] - t['secs'][0]
    sps = [p for p in (1, 2, 3, 5, 6, 10, 30, 60, 300, 900) if span / p < 4000]
    msp = draw(st.sampled_from([1, 6, 10, 30, 60, 600, 7200]))
    nsec = draw(st.sampled_from([0, 0, 1, 2]))
    return {'t': t, 'tz': mid or draw(st.sampled_from(['UTC', 'Europe/London', 'America/New_York', 'Asia/Tokyo'])),
            'dev_sp': draw(st.sampled_from(sps)), 'msp': msp,
            'p': draw(st.one_of(st.none(), st.sampled_from(sps))), 'how': draw(st.sampled_from([None, None, None, 'max', 'min', 'mean'])),
            'limit': draw(st.one_of(st.none(), st.none(), st.integers(1, 5))), 'own': draw(st.sampled_from([None, None, None, 3, 2])),
            'sections': [draw(interval(t['secs'])) for _ in range(nsec)] if nsec else None}


def ref_resample(t, rows, p, how, limit, own=None):
    data = values(t)
    if own:
        data = [[None if v is None else v % own for v in col] for col in data]
    bins = {}
    for i in rows:
        b = ts_ns(ts(t['secs'][i])) // (p * 10 ** 9)
        bins.setdefault(b, []).append(i)
    lo, hi = min(bins), max(bins)
    out = []
    for col in data:
        res, last, age = [], None, 0
        for b in range(lo, hi + 1):
            vals = [col[i] for i in bins.get(b, []) if col[i] is not None]
            if vals:
                v = {'mean': sum(vals) / len(vals), 'max': max(vals), 'min': min(vals)}[how]
                last, age = v, 0
            else:
                age += 1
                v = last if last is not None and age <= limit else None
            res.append(v)
        out.append(res)
    return [b * p * 10 ** 9 for b in range(lo, hi + 1)], out, bins


def check(c):
    t, tz = c['t'], c['tz']
    cols = [tuple(x) for x in COLSETS[t['cols']]]
    ds, meter = one_meter(t, c['dev_sp'], c['msp'], tz=tz)
    kw = {}
    if c['p'] is None:
        kw['resample'] = True
        p = c['dev_sp']
    else:
        kw['sample_period'] = c['p']
        p = c['p']
    rk = {}
    if c['how']:
        rk['how'] = c['how']
    if c['limit']:
        rk['limit'] = c['limit']
    if rk:
        kw['resample_kwargs'] = rk
    limit = c['limit'] or math.ceil(c['msp'] / p)
    if c['sections'] is not None:
        kw['sections'] = [mk_tf(s, tz) for s in c['sections']]
    own = c.get('own')
    if own:                    # a node of the user sees the samples as they are stored
        nodes = kw['preprocessing'] = [nk('nilmtk.preprocessing').Apply(func=lambda df: df % own)]
    dfs = list(meter.load(**kw))
    if own:
        ensure(kw['preprocessing'] is nodes and len(nodes) == 1, 'load changed the list of nodes it was given: %r', nodes)
    secs = c['sections'] or [[None, None, False]]
    ensure(len(dfs) == len(secs), 'load(%r) gives %d frames', kw, len(dfs))
    labels = set()
    for df, sec in zip(dfs, secs):
        rows = expected_rows(t, [None, None, False], sec)
        what = 'load(p=%r, how=%r, limit=%r, section=%r, own=%r)' % (p, c['how'], limit, sec, own)
        if not rows:
            ensure(len(df) == 0, '%s: no data expected, got %r', what, df)
            continue
        idx, exp, bins = ref_resample(t, rows, p, c['how'] or 'mean', limit, own)
        ensure([ts_ns(x) for x in df.index] == idx, '%s: index %r, expected %r', what,
               [str(x) for x in df.index][:20], [str(pd.Timestamp(x)) for x in idx][:20])
        ensure(set(tuple(x) for x in df.columns) == set(cols), '%s: columns %r', what, list(df.columns))
        for j, col in enumerate(cols):
            ensure_array(df[col].values, [np.nan if v is None else v for v in exp[j]], '%s: column %r' % (what, col), rtol=1e-4, atol=1e-3)
        ensure(df.timeframe is not None, '%s: no timeframe', what)
        if any(len(v) > 1 for v in bins.values()):
            labels.add('averaged')
        if len(bins) < len(idx):
            labels.add('filled')
        if any(v is None for col in exp for v in col):
            labels.add('gap')
    # without resampling parameters the rows come unchanged
    raw = list(meter.load(columns=cols))
    ensure(len(raw) == 1, 'raw load gives %d frames', len(raw))
    check_frame(raw[0], t, list(range(len(t['secs']))), cols, 'load()', tz)
    ds.store.close()
    return (bool(labels), sorted(labels))


@st.composite
def case_all(draw):
    t = draw(table(max_rows=30))
    return {'t': t, 'chunk': draw(st.one_of(st.integers(1, 6), st.integers(1, 40))), 'thr': draw(st.integers(0, 30)),
            'kind': draw(st.sampled_from(['hdf', 'hdf', 'csv'])),
            'app': draw(st.sampled_from([None, 'fridge', 'kettle', 'toaster'])), 'own': draw(st.one_of(st.none(), st.integers(1, 30)))}


def check_all(c):
    t = c['t']
    cols = COLSETS[t['cols']]
    apps = None
    if c['app']:
        a = {'type': c['app'], 'instance': 1, 'meters': [1]}
        if c['own']:
            a['on_power_threshold'] = c['own']
        apps = [a]
    ds, meter = one_meter(t, 6, 30, kind=c['kind'], apps=apps)
    data = [np.nan if v is None else v for v in values(t)[0]]
    n = len(data)
    s = meter.power_series_all_data(chunksize=c['chunk'])
    ensure([ts_ns(x) for x in s.index] == [ts_ns(ts(x)) for x in t['secs']],
           'power_series_all_data(chunksize=%d) has %d rows at %r, expected %d rows', c['chunk'], len(s), [str(x) for x in s.index][:40], n)
    ensure_array(s.values, data, 'power_series_all_data(chunksize=%d)' % c['chunk'])
    thr = c['thr']
    on = list(meter.when_on(on_power_threshold=thr))
    ensure(len(on) == 1 and [bool(x) for x in on[0]] == [v >= thr for v in data], 'when_on(%r) is %r for %r', thr, on, data)
    # default threshold: the appliance's own, its type's, or 10 W
    types = nk('nilmtk.appliance').Appliance.appliance_types
    if not c['app']:
        exp = 10
    elif c['own']:
        exp = c['own']
    else:
        exp = types[c['app']].get('on_power_threshold', 10)
    ensure(meter.on_power_threshold() == exp, 'on_power_threshold is %r, expected %r', meter.on_power_threshold(), exp)
    on = list(meter.when_on())
    ensure([bool(x) for x in on[0]] == [v >= exp for v in data], 'when_on() with threshold %r is %r for %r', exp, on, data)
    fin = [v for v in data if not np.isnan(v)]
    if fin:
        ensure(meter.vampire_power() == min(fin), 'vampire_power %r', meter.vampire_power())
    ds.store.close()
    return (c['chunk'] < n, [c['kind']])


SUBS = [Sub('resample', case(), check, quick=500, thorough=8000, shards=6),
        Sub('all_data', case_all(), check_all, quick=200, thorough=3000, shards=2)]
