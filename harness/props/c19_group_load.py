"""C19: the data of a MeterGroup are the sum of the data of its meters."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from engine import Sub
from support import ensure, ensure_array, nk, ts, ts_ns
from props.c09_resample import DST
from props.datasets import device, open_dataset
from props.storegen import mk_tf

ID = 'C19'
RULE = ('groups of 1-4 meters (some of them in a nested group) with different sample periods, offsets, gaps, NaN, AC types and voltage, in four '
        'time zones, some across a DST change (also at midnight); load with or without sample_period, sections, chunksize, AC type; oracle: bins by integer '
        'arithmetic, sum over the meters which have a value (mean for voltage, frequency, power factor and phase angle), NaN where none has. `frame`: dataframe_of_meters and '
        'power series of the group. `window`: store windows and sections without duration. Non-trivial: some bin has values of two meters.')
COLSETS = [[['power', 'active']], [['power', 'apparent']], [['power', 'active'], ['power', 'apparent']],
           [['power', 'active'], ['voltage', '']], [['power', 'apparent'], ['voltage', '']],
           [['power', 'active'], ['phase angle', '']], [['power', 'active'], ['current', ''], ['frequency', ''], ['power factor', '']]]
ADDED = ('power', 'current')        # every other quantity above is averaged
# changes of the clocks at midnight: ambiguous in Havana, missing in Sao Paulo
MIDNIGHT = {'America/Havana': 18041880, 'America/Sao_Paulo': 15615480}
TZS = ['UTC', 'Europe/London', 'America/New_York', 'Asia/Tokyo']


@st.composite
def meter(draw, start, cols, n=14):
    dev_sp = draw(st.sampled_from([6, 6, 10, 2]))
    secs, x = [], start + draw(st.sampled_from([0, 0, 0, 3, 6, 30, 60, 120]))
    for _ in range(draw(st.integers(2, n))):
        secs.append(x)
        x += draw(st.sampled_from([dev_sp, dev_sp, dev_sp, dev_sp, 7, 30, 45, 100]))
    nan = draw(st.integers(0, 3)) == 0
    vals = [[None if nan and draw(st.integers(0, 5)) == 0 else float(draw(st.integers(0, 3000 if pq == 'power' else 250))) for _ in secs] for pq, _ in cols]
    return {'secs': secs, 'vals': vals, 'columns': cols, 'sp': dev_sp, 'msp': draw(st.sampled_from([10, 30, 60]))}


@st.composite
def case(draw):
    tz = draw(st.sampled_from(TZS))
    start = 600 * draw(st.integers(0, 5)) if draw(st.integers(0, 3)) else 60 * ((DST + draw(st.integers(0, 8000))) // 60)
    mid = draw(st.sampled_from([None] * 6 + sorted(MIDNIGHT)))
    if mid:
        tz, start = mid, 60 * (MIDNIGHT[mid] // 60 + draw(st.integers(-400, 400)))
    n = draw(st.integers(1, 4))
    same = draw(st.sampled_from(COLSETS)) if draw(st.booleans()) else None
    ms = [draw(meter(start, same or draw(st.sampled_from(COLSETS)))) for _ in range(n)]
    nest = n >= 3 and draw(st.integers(0, 2)) == 0
    p = draw(st.one_of(st.none(), st.sampled_from([2, 6, 10, 30, 60])))
    P = p or max(m['sp'] for m in ms)
    lo, hi = min(m['secs'][0] for m in ms), max(m['secs'][-1] for m in ms)
    sections = None
    k = draw(st.integers(0, 2))
    if k:
        # seconds relative to the start, each section at least one bin long
        cuts = sorted(set(draw(st.lists(st.one_of(st.integers(-1, 40).map(lambda i: lo - lo % 60 + P * i), st.integers(lo - 20, hi + 70)), min_size=2, max_size=2 * k))))
        sections = [[a, b, False] for a, b in zip(cuts[::2], cuts[1::2])] or None
    chunk = draw(st.one_of(st.none(), st.none(), st.integers(1, 8), st.integers(3, 60)))
    if chunk and sections:
        sections = [[P * (a // P), P * (b // P) + P, False] for a, b, _ in sections]
        sections = [s for i, s in enumerate(sections) if i == 0 or s[0] >= sections[i - 1][1]]
    if sections is None and chunk:
        chunk = None
    types = [set(c[1] for c in m['columns'] if c[0] == 'power') for m in ms]
    common = sorted(set.intersection(*types))
    arg = draw(st.sampled_from([None, None, 'power', 'best'] + common))
    kind = 'csv' if tz == 'UTC' and draw(st.integers(0, 3)) == 3 else 'hdf'
    return {'tz': tz, 'kind': kind, 'ms': ms, 'nest': nest, 'p': p, 'sections': sections, 'chunk': chunk, 'arg': arg}


def build(c):
    ms = [{'m': i + 1, 'dev': device('dev%d' % i, t['columns'], t['sp'], t['msp']), 'up': None, 't': t} for i, t in enumerate(c['ms'])]
    ds = open_dataset({'name': 'gen', 'tz': c['tz'], 'buildings': [{'i': 1, 'meters': ms, 'apps': []}]}, c.get('kind', 'hdf'), dtype='float64')
    m = sorted(ds.buildings[1].elec.meters, key=lambda x: x.instance())
    tree = list(range(len(m)))
    if c.get('nest'):
        g = nk.MeterGroup([nk.MeterGroup(m[:2])] + m[2:])
        tree = [[0, 1]] + tree[2:]
    else:
        g = nk.MeterGroup(m)
    return ds, g, tree


def cols_of(t, arg):
    cols = [tuple(x) for x in t['columns']]
    if arg is None:
        return cols
    cols = [x for x in cols if x[0] == 'power']
    if arg == 'power':
        return cols
    if arg == 'best':
        return [min(cols, key=lambda x: ['active', 'apparent', 'reactive'].index(x[1]))]
    return [x for x in cols if x[1] == arg]


def ref_meter(t, p, sec, arg):
    """{column: {bin: (value, filled)}} of the rows in sec (None, or [a, b))"""
    rows = [i for i, s in enumerate(t['secs']) if sec is None or sec[0] <= s < sec[1]]
    out = {}
    if not rows:
        return out
    bins = {}
    for i in rows:
        bins.setdefault(ts_ns(ts(t['secs'][i])) // (p * 10 ** 9), []).append(i)
    limit = math.ceil(t['msp'] / p)
    for j, col in enumerate([tuple(x) for x in t['columns']]):
        if col not in cols_of(t, arg):
            continue
        res, last, age = {}, None, 0
        for b in range(min(bins), max(bins) + 1):
            v = [t['vals'][j][i] for i in bins.get(b, []) if t['vals'][j][i] is not None]
            if v:
                last, age = sum(v) / len(v), 0
                res[b] = (last, False)
            else:
                age += 1
                if last is not None and age <= limit:
                    res[b] = (last, True)
        out[col] = res
    return out


def ref(tree, tables, p, sec, arg):
    parts = [ref(x, tables, p, sec, arg) if isinstance(x, list) else ref_meter(tables[x], p, sec, arg) for x in tree]
    out = {}
    for col in set(k for q in parts for k in q):
        res = {}
        for b in set(b for q in parts for b in q.get(col, {})):
            vs = [q[col][b] for q in parts if b in q.get(col, {})]
            v = sum(x for x, _ in vs)
            if col[0] not in ADDED:
                v /= len(vs)
            res[b] = (v, any(f for _, f in vs), len(vs))
        out[col] = {b: x[:2] for b, x in res.items()}
        out.setdefault('n', 0)
        out['n'] = max([out['n']] + [x[2] for x in res.values()])
    out.pop('n') if sec == 'x' else None
    n = out.pop('n', 0)
    ref.overlap = max(ref.overlap, n)
    return out


ref.overlap = 0


def bin_of(x, p):
    return ts_ns(x) // (p * 10 ** 9)


def check(c):
    ds, g, tree = build(c)
    p = c['p'] or max(m['sp'] for m in c['ms'])
    ref.overlap = 0
    kw = {}
    if c['p']:
        kw['sample_period'] = c['p']
    if c['arg']:
        kw['physical_quantity'] = 'power'
    if c['arg'] and c['arg'] != 'power':
        kw['ac_type'] = c['arg']
    if c['sections']:
        kw['sections'] = [mk_tf(s, c['tz']) for s in c['sections']]
    if c['chunk']:
        kw['chunksize'] = c['chunk']
    lo, hi = min(m['secs'][0] for m in c['ms']), max(m['secs'][-1] for m in c['ms'])
    secs = c['sections'] or [[lo, hi, False]]
    dfs = list(g.load(**kw))
    what = 'load(%r) of the group %r' % ({k: v for k, v in kw.items() if k != 'sections'}, tree)
    cols = set(x for t in c['ms'] for x in cols_of(t, c['arg']))
    done = []
    for df in dfs:
        ensure(set(tuple(x) for x in df.columns) == cols and len(df.columns) == len(cols), '%s: columns %r, expected %r', what, list(df.columns), cols)
        if c['chunk']:
            ensure(len(df) <= c['chunk'], '%s: a chunk of %d rows', what, len(df))
    if c['chunk']:
        # which chunks belong to which section
        it = iter(dfs)
        frames = []
        for s in secs:
            want = -(-(s[1] - s[0]) // p)
            got = []
            while sum(len(x) for x in got) < want:
                df = next(it, None)
                ensure(df is not None, '%s: too few chunks', what)
                got.append(df)
            frames.append(pd.concat(got))
        ensure(next(it, None) is None, '%s: too many chunks', what)
    else:
        ensure(len(dfs) == len(secs), '%s: %d chunks for %d sections', what, len(dfs), len(secs))
        frames = dfs
    for s, df in zip(secs, frames):
        w = '%s, section %r' % (what, s)
        a, b = bin_of(ts(s[0]), p), ts_ns(ts(s[1]))
        idx = []
        x = a
        while x * p * 10 ** 9 < b:
            idx.append(x)
            x += 1
        ensure([ts_ns(x) for x in df.index] == [x * p * 10 ** 9 for x in idx], '%s: index %r, expected %d bins from %s', w, [str(x) for x in df.index][:30], len(idx), ts(s[0]))
        ensure(str(df.index.tz) == c['tz'] or len(df) == 0, '%s: time zone %r', w, df.index.tz)
        inside = [x for t in c['ms'] for x in t['secs'] if s[0] <= x < s[1]]
        if inside and not c['chunk']:
            f = df.timeframe
            ensure(f is not None and f.start is not None and f.end is not None and ts_ns(f.start) <= ts_ns(ts(min(inside))) and ts_ns(ts(max(inside))) <= ts_ns(f.end),
                   '%s: time frame %r of a chunk with samples from %s to %s', w, f, ts(min(inside)), ts(max(inside)))
        exp = ref(tree, c['ms'], p, s, c['arg'])
        for col in cols:
            e = exp.get(col, {})
            got = df[col].values
            for k, (x, v) in enumerate(zip(idx, got)):
                if c['sections'] is None and x == idx[-1]:
                    continue           # whether the last instant belongs to the group's time frame is not specified
                y = e.get(x)
                if c['chunk'] and y is not None and y[1]:
                    continue           # a fill may end at the border of a chunk
                if y is None:
                    ensure(np.isnan(v), '%s: column %r at %s is %r, expected NaN: no meter has a value', w, col, df.index[k], v)
                else:
                    ensure(abs(v - y[0]) <= 1e-3 + 1e-5 * abs(y[0]), '%s: column %r at %s is %r, expected %r', w, col, df.index[k], v, y[0])
        done.append(len(idx))
    ds.store.close()
    return (ref.overlap > 1, ['%d meters' % len(c['ms']), 'nested' if c['nest'] else 'flat', 'chunked' if c['chunk'] else 'whole', str(c['arg']), c.get('kind', 'hdf')])


@st.composite
def case_f(draw):
    c = draw(case())
    c['chunk'] = None
    c['arg'] = None
    if c['sections'] and draw(st.booleans()):      # no meter has data in the first section
        lo = min([m['secs'][0] for m in c['ms']] + [s[0] for s in c['sections']])
        c['sections'] = [[lo - 900, lo - 300, False]] + c['sections']
    return c


def check_f(c):
    ds, g, tree = build(c)
    p = c['p'] or max(m['sp'] for m in c['ms'])
    ref.overlap = 0
    kw = {}
    if c['p']:
        kw['sample_period'] = c['p']
    if c['sections']:
        kw['sections'] = [mk_tf(s, c['tz']) for s in c['sections']]
    secs = c['sections'] or [None]
    if c['nest'] and not c['sections']:
        ds.store.close()
        return False
    df = g.dataframe_of_meters(**dict(kw))
    if not len(df):
        ensure(not any(ref([x], c['ms'], p, s, 'best') for x in tree for s in secs), 'dataframe_of_meters(%r) is empty', kw)
        ds.store.close()
        return False
    names = [plain(x) for x in df.columns]
    overlap = False
    rows = {}
    for k, x in enumerate(df.index):
        rows.setdefault(bin_of(x, p), []).append(k)
    for i, x in enumerate(tree):
        name = plain(g.meters[i].identifier)
        for s in secs:
            parts = ref([x], c['ms'], p, s, 'best')
            for b in set(b for q in parts.values() for b in q):
                if not all(b in q for q in parts.values()) or any(q[b][1] for q in parts.values()):
                    continue
                exp = sum(q[b][0] for q in parts.values())
                if isinstance(x, list) and s is not None and b * p * 10 ** 9 < ts_ns(ts(s[0])):
                    pass
                ensure(name in names, 'dataframe_of_meters: no column for %r: %r', name, names)
                col = names.index(name)
                got = [df.iloc[k, col] for k in rows.get(b, [])]
                got = [v for v in got if not np.isnan(v)]
                ensure(any(abs(v - exp) <= 1e-3 + 1e-5 * abs(exp) for v in got), 'dataframe_of_meters(%r): meter %r in bin %d is %r, expected %r', kw, name, b, got, exp)
                overlap = True
        ensure(all(n in [plain(m.identifier) for m in g.meters] for n in names) and len(set(names)) == len(names), 'dataframe_of_meters: columns %r', names)
    # the power series of the group
    for s, ser in zip(secs, g.power_series(**dict(kw))):
        if s is None:
            continue
        exp = ref(tree, c['ms'], p, s, 'best')
        types = sorted(set(y[1] for t in c['ms'] for y in cols_of(t, 'best')))
        ensure(ser.name[0] == 'power' and sorted(ser.name[1].split('+')) == types, 'power_series: name %r, expected %r', ser.name, types)
        for x, v in zip(ser.index, ser.values):
            q = [exp.get(('power', a), {}).get(bin_of(x, p)) for a in types]
            if any(y is None for y in q):
                ensure(np.isnan(v), 'power_series of the group at %s is %r, expected NaN', x, v)
            else:
                e = sum(y[0] for y in q)
                ensure(abs(v - e) <= 1e-3 + 1e-5 * abs(e), 'power_series of the group at %s is %r, expected %r', x, v, e)
    ds.store.close()
    return (overlap and len(tree) > 1, ['%d meters' % len(c['ms']), 'nested' if c['nest'] else 'flat'])


@st.composite
def case_w(draw):
    c = draw(case())
    c['chunk'], c['arg'], c['p'] = None, None, None
    lo, hi = min(m['secs'][0] for m in c['ms']), max(m['secs'][-1] for m in c['ms'])
    a, b = sorted(draw(st.lists(st.one_of(st.integers(lo - 50, hi + 50), st.sampled_from([m['secs'][i] for m in c['ms'] for i in (0, -1)])), min_size=2, max_size=2, unique=True)))
    c['win'] = draw(st.sampled_from([[a, b], [a, None], [None, b], [hi + 100, hi + 200]]))
    c['empties'] = draw(st.lists(st.integers(0, 3), max_size=2))
    return c


def check_w(c):
    ds, g, tree = build(c)
    w = c['win']
    ds.store.window = mk_tf(w + [False], c['tz'])
    spans = []
    for t in c['ms']:
        a = t['secs'][0] if w[0] is None else max(t['secs'][0], w[0])
        b = t['secs'][-1] if w[1] is None else min(t['secs'][-1], w[1])
        if a < b:
            spans.append((a, b))
    tf = g.get_timeframe()
    if not spans:
        ensure(tf.empty, 'get_timeframe of a group without data in the window %r is %r', w, tf)
    else:
        exp = (min(a for a, _ in spans), max(b for _, b in spans))
        ensure(not tf.empty and (ts_ns(tf.start), ts_ns(tf.end)) == (ts_ns(ts(exp[0])), ts_ns(ts(exp[1]))),
               'get_timeframe of a group of meters with %r in the window %r is %r, expected %s to %s', [t['secs'] for t in c['ms']], w, tf, ts(exp[0]), ts(exp[1]))
    # sections without any duration are left out
    secs = [s for s in c['sections'] or []]
    nothing = mk_tf([0, 10, False], c['tz']).intersection(mk_tf([20, 30, False], c['tz']))
    frames = [mk_tf(s, c['tz']) for s in secs]
    for k in c['empties']:
        frames.insert(min(k, len(frames)), nothing)
    if frames:
        dfs = list(g.load(sections=frames))
        cols = set(tuple(x) for t in c['ms'] for x in t['columns'])
        if not secs:
            ensure(len(dfs) == 1 and len(dfs[0]) == 0 and set(tuple(x) for x in dfs[0].columns) == cols, 'load of nothing but empty sections gives %r', dfs)
        else:
            ensure(len(dfs) == len(secs), 'load of the sections %r and %d empty ones gives %d chunks', secs, len(c['empties']), len(dfs))
            p = max(m['sp'] for m in c['ms'])
            for s, df in zip(secs, dfs):
                a = s[0] if w[0] is None else max(s[0], w[0])
                b = s[1] if w[1] is None else min(s[1], w[1])
                exp = ref(tree, c['ms'], p, [a, b], None) if a < b else {}
                for col in cols:
                    for x, v in zip(df.index, df[col].values):
                        y = exp.get(col, {}).get(bin_of(x, p))
                        if y is None:
                            ensure(np.isnan(v), 'window %r, section %r: column %r at %s is %r, expected NaN', w, s, col, x, v)
                        else:
                            ensure(abs(v - y[0]) <= 1e-3 + 1e-5 * abs(y[0]), 'window %r, section %r: column %r at %s is %r, expected %r', w, s, col, x, v, y[0])
    ds.store.close()
    return (len(spans) > 1, ['cut' if spans else 'beside', '%d empty' % len(c['empties'])])


def plain(i):
    if hasattr(i, 'meters'):
        return tuple(plain(y) for y in i.meters)
    if isinstance(i, tuple) and len(i) == 1 and isinstance(i[0], tuple):
        return tuple(plain(y) for y in i[0])
    return tuple(i)


SUBS = [Sub('load', case(), check, quick=420, thorough=7000, shards=6),
        Sub('window', case_w(), check_w, quick=160, thorough=2500, shards=2),
        Sub('frame', case_f(), check_f, quick=160, thorough=2500, shards=2)]
