"""C16: activations, switch events and activity histograms."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from engine import Sub
from support import ensure, ensure_array, frame, fresh_path, nk, ns, ts, ts_ns
from props.datasets import device, one_meter, open_dataset
from props.storegen import mk_tf

ID = 'C16'
RULE = ('`function`: get_activations of power series with generated on/off patterns, values exactly at the threshold, NaN, irregular '
        'times and durations around min_on / min_off; oracle: run-length model. `meter`: the same through a meter of 0-3 appliances '
        'with thresholds and durations from metadata, resampling and sections. `switches`: switch_times. `activity`: '
        'activity_histogram by bins of the day; power histograms over chunks. `script`: the activity script of a dataset against the activations of its submeters. Non-trivial: at least one activation kept and one run dropped or merged.')
COLS = [['power', 'active']]


@st.composite
def pattern(draw, gaps=(6,), nan=True):
    n = draw(st.integers(2, 40))
    secs, vals, x = [], [], draw(st.integers(0, 30)) * 6
    on = draw(st.booleans())
    for _ in range(n):
        secs.append(x)
        x += draw(st.sampled_from(gaps))
        if draw(st.integers(0, 2)) == 0:
            on = not on
        v = draw(st.sampled_from([20.0, 20.5, 100.0, 2000.0])) if on else draw(st.sampled_from([0.0, 5.0, 19.0, 19.5]))
        if nan and draw(st.integers(0, 24)) == 0:
            v = None
        vals.append(v)
    return secs, vals


@st.composite
def case_f(draw):
    secs, vals = draw(pattern(gaps=draw(st.sampled_from([(6,), (6, 6, 6, 12, 60), (1, 2, 6)]))))
    return {'secs': secs, 'vals': vals, 'thr': draw(st.sampled_from([20, 20, 20, 100, 5, 20.25])),
            'off': draw(st.sampled_from([0, 0, 6, 12, 13, 18, 60])), 'on': draw(st.sampled_from([0, 0, 6, 12, 13, 18, 60])),
            'border': draw(st.sampled_from([0, 1, 1, 2, 5]))}


def ref_activations(secs, vals, thr, off, on, border):
    """[(first rows allowed, end)] and the numbers of runs dropped and merged"""
    n = len(vals)
    state = [v is not None and v >= thr for v in vals]
    runs = []
    i = 0
    while i < n:
        if state[i]:
            j = i
            while j < n and state[j]:
                j += 1
            if i > 0 and j < n:
                runs.append([i, j])
            i = j
        else:
            i += 1
    total = len(runs)
    merged = []
    for r in runs:
        if merged and off > 0 and secs[r[0]] - secs[merged[-1][1]] < off:
            merged[-1][1] = r[1]
        else:
            merged.append(list(r))
    kept = [r for r in merged if not secs[r[1]] - secs[r[0]] < on]
    return kept, total


def compare(got, secs, vals, kept, border, what):
    """each kept run is one activation: its rows with `border` rows (one more is tolerated before) around it; one with a NaN is dropped"""
    n = len(vals)
    it = iter(got)
    out = []
    g = next(it, None)
    used = 0
    for a, b in kept:
        end = min(n, b + border)
        choices = []
        for extra in (0, 1):
            lo = max(0, a - border - extra)
            choices.append(None if any(v is None for v in vals[lo:end]) else (lo, end))
        if g is not None:
            at = [ts_ns(x) for x in g.index]
            hit = [c for c in choices if c is not None and at == [ts_ns(ts(s)) for s in secs[c[0]:c[1]]]]
            if hit:
                lo, hi = hit[0]
                ensure_array(g.values, vals[lo:hi], what)
                out.append(g)
                used += 1
                g = next(it, None)
                continue
        if None in choices:
            continue
        ensure(False, '%s: expected an activation of rows %d..%d (on from %s until %s), got %r; all: %r', what, choices[0][0], end - 1,
               ts(secs[a]), ts(secs[b]), None if g is None else (g.index[0], g.index[-1]), [(x.index[0], x.index[-1]) for x in got])
    ensure(g is None, '%s: an activation too many: %r', what, g)
    return used


def check_f(c):
    f = nk('nilmtk.electric').get_activations
    secs, vals = c['secs'], c['vals']
    s = frame(secs, COLS, [vals], dtype='float64').iloc[:, 0]
    before = s.copy()
    got = f(s, min_off_duration=c['off'], min_on_duration=c['on'], border=c['border'], on_power_threshold=c['thr'])
    kept, total = ref_activations(secs, vals, c['thr'], c['off'], c['on'], c['border'])
    what = 'get_activations(off=%r, on=%r, border=%r, threshold=%r) of %r at %r' % (c['off'], c['on'], c['border'], c['thr'], vals, secs)
    n = compare(got, secs, vals, kept, c['border'], what)
    ensure(s.equals(before), '%s: changed its input', what)
    return (n > 0 and total > len(kept), ['kept'] if n else [])


APPS = [None, 'fridge', 'kettle', 'washing machine', 'dish washer', 'toaster', 'light', 'television', 'computer']


@st.composite
def case_m(draw):
    secs, vals = draw(pattern(gaps=draw(st.sampled_from([(6,), (6, 6, 6, 6, 12, 60, 300)])), nan=False))
    apps = draw(st.lists(st.sampled_from(APPS[1:]), max_size=3, unique=True))
    own = draw(st.one_of(st.none(), st.none(), st.sampled_from([20, 50])))
    nom = draw(st.one_of(st.none(), st.none(), st.sampled_from([19, 100])))
    cut = None
    if draw(st.integers(0, 2)) == 0:
        k = draw(st.integers(0, len(secs) - 1))
        cut = secs[k] + draw(st.sampled_from([0, 3, -3]))
    return {'secs': secs, 'vals': vals, 'apps': apps, 'own': own, 'nom': nom, 'cut': cut,
            'thr': draw(st.one_of(st.none(), st.sampled_from([20, 100]))),
            'off': draw(st.one_of(st.none(), st.sampled_from([0, 12, 60]))), 'on': draw(st.one_of(st.none(), st.sampled_from([0, 12, 60]))),
            'border': draw(st.sampled_from([None, 0, 1, 3]))}


def check_m(c):
    secs, vals = c['secs'], c['vals']
    apps = []
    for i, a in enumerate(c['apps']):
        d = {'type': a, 'instance': 1, 'meters': [1]}
        if i == 0 and c['own']:
            d['on_power_threshold'] = c['own']
        if i == 1 and c['nom']:
            d['nominal_consumption'] = {'on_power': c['nom']}
        apps.append(d)
    t = {'secs': secs, 'vals': [vals], 'columns': COLS, 'nan': []}
    ds, meter = one_meter(t, 6, 12, apps=apps, dtype='float64')
    types = nk('nilm_metadata').get_appliance_types()
    thrs = []
    for d in apps:
        if 'on_power_threshold' in d:
            thrs.append(d['on_power_threshold'])
        elif 'nominal_consumption' in d:
            thrs.append(d['nominal_consumption']['on_power'])
        else:
            thrs.append(types[d['type']].get('on_power_threshold', 10))
    thr = min(thrs) if thrs else 10
    ensure(meter.on_power_threshold() == thr, 'on_power_threshold() of appliances %r is %r, expected %r', apps, meter.on_power_threshold(), thr)
    moff = max([types[a].get('min_off_duration') for a in c['apps'] if types[a].get('min_off_duration') is not None] or [0])
    mon = max([types[a].get('min_on_duration') for a in c['apps'] if types[a].get('min_on_duration') is not None] or [0])
    ensure(meter.min_off_duration() == moff, 'min_off_duration() of %r is %r, expected %r', c['apps'], meter.min_off_duration(), moff)
    ensure(meter.min_on_duration() == mon, 'min_on_duration() of %r is %r, expected %r', c['apps'], meter.min_on_duration(), mon)
    kw = {}
    if c['thr'] is not None:
        kw['on_power_threshold'] = thr = c['thr']
    if c['off'] is not None:
        kw['min_off_duration'] = moff = c['off']
    if c['on'] is not None:
        kw['min_on_duration'] = mon = c['on']
    border = 1
    if c['border'] is not None:
        kw['border'] = border = c['border']
    secs_q = [[None, None, False]]
    if c['cut'] is not None:
        secs_q = [[-100, c['cut'], False], [c['cut'], None, False]]
        kw['sections'] = [mk_tf(x) for x in secs_q]
    got = meter.get_activations(**kw)
    # all times are multiples of 6 s: the resampled series is a regular grid, gaps of at most 2 samples filled
    exp = []
    n = total = 0
    rest = list(got)
    for a, b, _ in secs_q:
        rows = [i for i, s in enumerate(secs) if (a is None or s >= a) and (b is None or s < b)]
        if not rows:
            continue
        grid, gv, last, age = [], [], None, 0
        at = {secs[i]: vals[i] for i in rows}
        for s in range(secs[rows[0]], secs[rows[-1]] + 1, 6):
            if s in at:
                last, age = at[s], 0
            else:
                age += 1
            grid.append(s)
            gv.append(last if age <= 2 else None)
        kept, tot = ref_activations(grid, gv, thr, moff, mon, border)
        total += tot
        lo, hi = ts_ns(ts(grid[0])), ts_ns(ts(grid[-1]))
        mine = [g for g in rest if lo <= ts_ns(g.index[0]) <= hi]
        rest = [g for g in rest if not lo <= ts_ns(g.index[0]) <= hi]
        n += compare(mine, grid, gv, kept, border, 'get_activations(%r) of section %r of a meter with appliances %r' % (kw, [a, b], apps))
    ensure(not rest, 'activations outside the data: %r', rest)
    ds.store.close()
    return (n > 0, ['sections'] if c['cut'] is not None else [])


@st.composite
def case_s(draw):
    n = draw(st.integers(2, 20))
    secs, x = [], 0
    for _ in range(n):
        secs.append(x)
        x += draw(st.sampled_from([1, 6, 6, 600]))
    return {'secs': secs, 'vals': [None if draw(st.integers(0, 12)) == 0 else float(draw(st.sampled_from([0, 10, 40, 41, 50, 80, 81, 500, 40.25, 80.75]))) for _ in range(n)],
            'thr': draw(st.sampled_from([None, 10, 40, 41, 0, 40.5])), 'bins': draw(st.sampled_from([None, 5, 17])),
            'chunk': draw(st.integers(1, 9)), 'range': draw(st.sampled_from([[0, 600], [10, 100], [None, 200], [5, None], None]))}


def check_s(c):
    secs, vals = c['secs'], c['vals']
    t = {'secs': secs, 'vals': [vals], 'columns': COLS, 'nan': []}
    ds, meter = one_meter(t, 6, 12, dtype='float64')
    kw = {} if c['thr'] is None else {'threshold': c['thr']}
    thr = 40 if c['thr'] is None else c['thr']
    got = meter.switch_times(**kw)
    exp = [secs[i] for i in range(1, len(secs)) if vals[i] is not None and vals[i - 1] is not None and abs(vals[i] - vals[i - 1]) > thr]
    ensure([int(pd.Timestamp(x).value) for x in got] == [ts_ns(ts(s)) for s in exp], 'switch_times(%r) of %r at %r: %r, expected %r',
           kw, vals, secs, [pd.Timestamp(x) for x in got], [ts(s) for s in exp])
    # histogram accumulated over pieces is that of the whole, when the range is given
    h = nk('nilmtk.stats.histogram').histogram_from_generator
    fin = [v for v in vals if v is not None]
    if fin:
        k = c['chunk']
        pieces = [pd.Series(fin[i:i + k]) for i in range(0, len(fin), k)]
        r = c['range']
        lo = (min(fin[:k]) if r is None or r[0] is None else r[0])
        hi = (max(fin[:k]) if r is None or r[1] is None else r[1])
        nb = c['bins'] or int(hi - lo)
        if hi > lo and nb >= 1:
            got, edges = h(iter(pieces), bins=c['bins'], range=None if r is None else tuple(r))
            exp, e2 = np.histogram(fin, bins=nb, range=(lo, hi))
            ensure_array(got, exp, 'histogram_from_generator(bins=%r, range=%r) of %r in pieces of %d' % (c['bins'], r, fin, k))
            ensure_array(edges, e2, 'edges of histogram_from_generator')
    ds.store.close()
    return (bool(exp is not None) and any(v is not None for v in vals), [])


@st.composite
def case_h(draw):
    n = draw(st.integers(2, 40))
    dst = draw(st.integers(0, 3)) == 3          # across the end of summer time, UTC 2011-10-30 01:00
    secs, x = [], draw(st.integers(0, 48)) * 1800
    x += 16817880 - 90120 if dst else 0
    for _ in range(n):
        secs.append(x)
        x += draw(st.sampled_from([600, 600, 1800, 3600, 7200, 40000]))
    return {'secs': secs, 'vals': [float(draw(st.sampled_from([0, 0, 9, 10, 500]))) for _ in range(n)],
            'pb': draw(st.sampled_from([['D', 'h'], ['D', 'h'] if dst else ['D', '6h'], ['D', '30min'], ['h', '15min'], ['D', '7h'], ['h', '25min']])),
            'tz': 'Europe/London' if dst else draw(st.sampled_from(['UTC', 'Asia/Tokyo'])), 'thr': draw(st.sampled_from([None, 9, 100]))}


SEC = {'D': 86400, 'h': 3600, '6h': 21600, '30min': 1800, '15min': 900, '7h': 25200, '25min': 1500}


def check_h(c):
    secs, vals = c['secs'], c['vals']
    t = {'secs': secs, 'vals': [vals], 'columns': COLS, 'nan': []}
    ds, meter = one_meter(t, 600, 600, dtype='float64', tz=c['tz'])
    period, binw = SEC[c['pb'][0]], SEC[c['pb'][1]]
    kw = {} if c['thr'] is None else {'on_power_threshold': c['thr']}
    thr = 10 if c['thr'] is None else c['thr']
    if period % binw:
        try:
            meter.activity_histogram(period=c['pb'][0], bin_duration=c['pb'][1], **kw)
        except ValueError:
            ds.store.close()
            return (True, ['refused'])
        ensure(False, 'activity_histogram%r was not refused', tuple(c['pb']))
    got = meter.activity_histogram(period=c['pb'][0], bin_duration=c['pb'][1], **kw)
    off = 9 * 3600 if c['tz'] == 'Asia/Tokyo' else 0
    local = [ts_ns(ts(s)) // 10 ** 9 + off for s in secs]
    bins = {}
    for l, v in zip(local, vals):
        bins.setdefault(l // binw, []).append(v)
    limit = math.ceil(600 / binw)
    hist = [0] * (period // binw)
    lo, hi = min(bins), max(bins)
    last, age = None, 0
    rows = 0
    for b in range(lo, hi + 1):
        rows += 1
        if b in bins:
            last, age = max(bins[b]), 0
        else:
            age += 1
        if age <= limit and last >= thr:
            if c['tz'] == 'Europe/London':
                wall = ts_ns(pd.Timestamp(b * binw, unit='s', tz='UTC').tz_convert(c['tz']).tz_localize(None)) // 10 ** 9
                hist[wall // binw % len(hist)] += 1
            else:
                hist[b % len(hist)] += 1
    ensure(len(got) == len(hist), 'activity_histogram%r has %d bins', tuple(c['pb']), len(got))
    if rows >= 5:
        ensure_array(got, hist, 'activity_histogram(%r, threshold=%r) of %r at %r s' % (c['pb'], thr, vals, secs))
    ds.store.close()
    return (rows >= 5 and sum(hist) > 0, ['%s/%s' % tuple(c['pb'])])


# -------------------------------------------------------------------- script
@st.composite
def case_script(draw):
    return {'b': [[draw(pattern(gaps=(6, 6, 6, 12, 60), nan=False)) for _ in range(draw(st.integers(2, 4)))] for _ in range(draw(st.integers(1, 2)))],
            'apps': draw(st.permutations(APPS[1:])), 'inst': draw(st.integers(1, 2)), 'more': draw(st.booleans()), 'tz': draw(st.sampled_from(['UTC', 'Europe/London']))}


def check_script(c):
    dev = device('dev', COLS, 6, 30)
    bs = []
    for i, tabs in enumerate(c['b']):
        ms = [{'m': j + 1, 'dev': dev, 'up': 1 if j else None, 't': {'secs': s, 'vals': [v], 'columns': COLS}} for j, (s, v) in enumerate(tabs)]
        # the same appliance twice in a building
        apps = [{'type': c['apps'][0] if j == 1 or (j == 2 and c['inst'] == 2) else c['apps'][j % len(c['apps'])], 'instance': c['inst'] if j == 2 else 1, 'meters': [j + 1]}
                for j in range(1, len(tabs))]
        # the meter of another appliance, too: the dominant one counts
        more = [{'type': 'freezer', 'instance': 1, 'meters': [2]}] if c.get('more') else []
        if more:
            apps[0]['dominant_appliance'] = True
        bs.append({'i': i + 1, 'meters': ms, 'apps': more + apps, 'own': apps})
    ds = open_dataset({'name': 'gen', 'tz': c['tz'], 'buildings': bs}, dtype='float64')
    path = fresh_path('.h5')
    ds.get_activity_script(path)
    exp = {}
    for b in bs:
        for a in b['own']:
            acts = ds.buildings[b['i']].elec[a['meters'][0]].get_activations()
            exp['/building%d/%s__%d' % (b['i'], a['type'].replace(' ', '_'), a['instance'])] = sorted(
                [(ts_ns(x.index[0]), True) for x in acts] + [(ts_ns(x.index[-1]), False) for x in acts])
    with pd.HDFStore(path, 'r') as s:
        ensure(sorted(s.keys()) == sorted(exp), 'activity script has the keys %r, expected %r', s.keys(), sorted(exp))
        for k, e in exp.items():
            got = [(ts_ns(t), bool(v)) for t, v in s[k].items()] if len(s[k]) else []
            ensure([t for t, _ in got] == [t for t, _ in e] and sorted(got) == e, 'activity script of %s: %r, expected %r', k, got, e)
    ds.store.close()
    return (any(len(e) > 2 for e in exp.values()), [c['tz']])


SUBS = [Sub('function', case_f(), check_f, quick=900, thorough=12000, shards=2),
        Sub('meter', case_m(), check_m, quick=300, thorough=5000, shards=3),
        Sub('switches', case_s(), check_s, quick=150, thorough=3000, shards=1),
        Sub('activity', case_h(), check_h, quick=200, thorough=3000, shards=2),
        Sub('script', case_script(), check_script, quick=120, thorough=2000, shards=2)]
