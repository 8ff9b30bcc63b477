"""C29: plots show the data of their meters."""
import cmath
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from engine import Sub
from support import ensure, ensure_array, ensure_close, nk, raises, ts, ts_ns
from props.datasets import device, open_dataset

ID = 'C29'
RULE = ('`meter`: one plot (power over time in W or kW at a generated width / time frame, lag plot, spectrum, autocorrelation, power or '
        'activity histogram, dropout rates, good sections) of a meter with generated values and gaps, on given or own axes; oracle: the '
        'drawn lines, bars, rectangles and scatter points against loops over the generated rows. `group`: separate lines, sum, area, '
        'energy bar, Sankey, when-on, good-sections, multiple and data-set plots of generated buildings; oracle: the artists, tick '
        'labels, legends and titles by meter. `series`: plot_series, pairwise heatmap, latexify, format_axes. Every case checks that the data loads '
        'unchanged afterwards. Non-trivial: the artists cannot be told from another meter\'s by count alone (several distinct values).')
TYPES = ['fridge', 'kettle', 'toaster', 'television', 'washing machine']
TZS = ['UTC', 'Europe/London', 'America/New_York', 'Asia/Tokyo']
SP, MSP = 6, 30


def plt():
    import matplotlib.pyplot as p
    p.close('all')
    return p


@st.composite
def times(draw, lo=5, hi=40, gaps=True):
    n = draw(st.integers(lo, hi))
    out, x = [], draw(st.sampled_from([0, 0, 6, 60, 3, 3600, 40000]))
    step = draw(st.sampled_from([6, 6, 6, 12, 30]))
    for _ in range(n):
        out.append(x)
        x += step if not gaps else draw(st.sampled_from([step] * 9 + [7, 30, 31, 100, 700]))
    return out


@st.composite
def watts(draw, n):
    hi = draw(st.sampled_from([30, 300, 3000]))
    return [float(draw(st.integers(0, hi))) for _ in range(n)]


def table(secs, vals):
    return {'secs': secs, 'vals': [vals], 'columns': [['power', 'active']]}


def local(x, tz):
    """wall-clock time in ns of a plotted x value or a time in ns (UTC)"""
    if isinstance(x, pd.Period):
        return x.to_timestamp().value
    if isinstance(x, (int, np.integer)):
        x = pd.Timestamp(int(x), tz='UTC')
    x = pd.Timestamp(x)
    if x.tz is None:
        return ts_ns(x)
    return ts_ns(x.tz_convert(tz).tz_localize(None))


def points(line, tz):
    y = np.ma.filled(np.ma.masked_invalid(np.asarray(line.get_ydata(), dtype=float)), np.nan)
    return [local(x, tz) for x in line.get_xdata()], list(y)


def binned(secs, vals, p, tz, msp=MSP):
    """mean per bin of p seconds, filled forward for ceil(msp / p) bins"""
    bins = {}
    for s, v in zip(secs, vals):
        bins.setdefault(ts_ns(ts(s)) // (p * 10 ** 9), []).append(v)
    xs, ys, last, age = [], [], None, 0
    for b in range(min(bins), max(bins) + 1):
        if b in bins:
            last, age = sum(bins[b]) / len(bins[b]), 0
            ys.append(last)
        else:
            age += 1
            ys.append(last if age <= math.ceil(msp / p) else np.nan)
        xs.append(local(b * p * 10 ** 9, tz))
    return xs, ys


def upto(exp, secs, p, tz):
    """the bins before that of the last but one row: the last row need not belong to the time frame"""
    last = local(ts_ns(ts(secs[-2])) // (p * 10 ** 9) * p * 10 ** 9, tz)
    return [(x, y) for x, y in zip(*exp) if x < last]


def same(a, b):
    return len(a) == len(b) and all((math.isnan(x) and math.isnan(y)) or abs(x - y) <= 1e-5 * max(1.0, abs(y)) for x, y in zip(a, b))


def check_line(line, secs, vals, p, tz, what, scale=1.0, extra=()):
    """the line holds the binned data; the last row of the time frame may or may not count"""
    got = points(line, tz)
    if 3600 % p:
        y = [v for v in got[1] if not math.isnan(v)]
        ensure(bool(y) and all(min(vals) * scale - 1e-3 <= v <= max(vals) * scale + 1e-3 for v in y), '%s: values %r outside the data %r', what, y, vals)
        gaps = set(b - a for a, b in zip(got[0], got[0][1:]))
        ensure(gaps <= {p * 10 ** 9}, '%s: points are %r ns apart, expected %d s', what, sorted(gaps), p)
        return
    cands = [binned(secs, vals, p, tz)]
    if len(secs) > 1:
        cands.append(binned(secs[:-1], vals[:-1], p, tz))
    for e in extra:
        cands += [binned(e[0], e[1], p, tz)]
    for xs, ys in cands:
        if got[0] == xs and same(got[1], [v * scale for v in ys]):
            return
    xs, ys = cands[0]
    ensure(False, '%s: line is %r, expected %r', what, [(str(pd.Timestamp(a)), b) for a, b in zip(*got)][:40],
           [(str(pd.Timestamp(a)), b * scale) for a, b in zip(xs, ys)][:40])


def boxes(ax):
    """rectangles as (x0, y0, x1, y1), x in days (UTC)"""
    out = []
    for r in ax.patches:
        out.append(tuple(float(v) for v in r.get_bbox().extents))
    return out


def days(t):
    import matplotlib.dates as md
    return md.date2num(pd.Timestamp(t).tz_convert('UTC').to_pydatetime())


def same_boxes(got, exp, what):
    got, exp = sorted(got), sorted(exp)
    ensure(len(got) == len(exp), '%s: %d rectangles, expected %d', what, len(got), len(exp))
    for g, e in zip(got, exp):
        ensure(all(abs(a - b) < t for a, b, t in zip(g, e, (1e-7, 1e-9, 1e-7, 1e-9))), '%s: rectangle %r, expected %r', what, g, e)


def legend(ax):
    l = ax.get_legend()
    return None if l is None else [t.get_text() for t in l.get_texts()]


def filled(ax):
    """heights of the single filled histogram on the axes, by left edge"""
    ensure(len(ax.collections) == 1, '%d filled areas on the axes', len(ax.collections))
    v = ax.collections[0].get_paths()[0].vertices
    out = {}
    for x, y in v:
        out.setdefault(round(float(x), 6), []).append(float(y))
    return {x: max(ys) for x, ys in out.items()}


def check_hist(ax, vals, bins, lo, hi, what):
    cnt, edges = np.histogram(vals, bins=bins, range=(lo, hi))
    got = filled(ax)
    exp = {round(float(x), 6): float(c) for x, c in zip(edges[:-1], cnt)}
    ensure(sorted(got) == sorted(exp), '%s: bins at %r, expected %r', what, sorted(got), sorted(exp))
    ensure(got == exp, '%s: counts %r, expected %r', what, got, exp)


# --- one meter
@st.composite
def case_meter(draw):
    secs = draw(times())
    n = len(secs)
    long = draw(st.integers(0, 4)) == 4
    if long:          # more than a day
        k = draw(st.integers(1, n - 1))
        far = draw(st.sampled_from([86400, 90000, 100000, 200000]))
        secs = [x + (far if i >= k else 0) for i, x in enumerate(secs)]
    a = draw(st.integers(0, n - 2))
    return {'secs': secs, 'vals': draw(watts(n)), 'tz': draw(st.sampled_from(TZS)), 'app': draw(st.sampled_from([None] + TYPES)),
            'plot': draw(st.sampled_from(['power', 'power', 'power', 'lag', 'spectrum', 'auto', 'hist', 'hist', 'activity', 'dropout', 'good'])),
            'unit': draw(st.sampled_from(['W', 'kW'])), 'p': draw(st.sampled_from([300, 600, 1800, 3600] if long else [None, 1, 2, 5, 6, 10, 30, 60])),
            'tf': None if long else draw(st.sampled_from([None, None, (a, draw(st.integers(a + 1, n - 1)))])), 'lag': draw(st.integers(1, 4)),
            'ax': draw(st.booleans()), 'legend': draw(st.booleans()), 'bins': draw(st.integers(1, 12)),
            'range': draw(st.sampled_from([None, 'top', 'both'])), 'y': draw(st.integers(0, 3)), 'gap': draw(st.sampled_from([0, 0.05, 0.2])),
            'kw': draw(st.sampled_from([None, {}, {'linewidth': 2}, {'label': 'mine'}]))}


def check_meter(c):
    p = plt()
    secs, vals, tz = c['secs'], c['vals'], c['tz']
    apps = [{'type': c['app'], 'instance': 1, 'meters': [2]}] if c['app'] else []
    ds = open_dataset({'name': 'gen', 'tz': tz, 'buildings': [{'i': 1, 'meters': [
        {'m': 1, 'dev': device('dev', [['power', 'active']], SP, MSP), 'up': None, 't': table(secs, [v + 1 for v in vals])},
        {'m': 2, 'dev': device('dev', [['power', 'active']], SP, MSP), 'up': 1, 't': table(secs, vals)}], 'apps': apps}]}, dtype='float64')
    m = ds.buildings[1].elec[2]
    label = (c['app'][0].upper() + c['app'][1:]) if c['app'] else ''
    fig, axes = p.subplots(2)
    given, other = axes[0], axes[1]
    ax = given if c['ax'] else None
    kind = c['plot']
    target = given if c['ax'] else other          # the current axes are the last made
    if kind == 'power':
        kw = {'unit': c['unit'], 'plot_legend': c['legend']}
        rows = list(range(len(secs)))
        if c['tf']:
            a, b = c['tf']
            kw['timeframe'] = nk.TimeFrame(ts(secs[a], tz), ts(secs[b], tz))
            rows = list(range(a, b + 1))
        dur = secs[rows[-1]] - secs[rows[0]]
        if c['p']:
            kw['width'] = max(1, round(dur / c['p']))
        period = max(1, int(round(dur / kw.get('width', 800))))
        if len({secs[i] // period for i in rows[:-1]}) < 2:
            return False              # pandas makes 10^8 ticks for the line of a single bin
        pk = None if c['kw'] is None else dict(c['kw'])
        if pk is not None:
            kw['plot_kwargs'] = pk
        got = m.plot(ax=ax, **kw)
        ensure(pk == c['kw'], 'plot changed the plot_kwargs %r to %r', c['kw'], pk)
        if ax is not None:
            ensure(got is given, 'plot(ax=...) returned other axes')
            ensure(not other.lines and legend(other) is None, 'plot(ax=...) drew on other axes')
        ensure(len(got.lines) == 1, 'plot drew %d lines', len(got.lines))
        check_line(got.lines[0], [secs[i] for i in rows], [vals[i] for i in rows], period, tz, 'plot(%r)' % kw, 1e-3 if c['unit'] == 'kW' else 1.0)
        ensure(got.get_ylabel() == 'Power (%s)' % c['unit'], 'y label is %r', got.get_ylabel())
        want = (pk or {}).get('label') or label
        if c['legend']:
            if want:
                ensure(legend(got) == [want], 'legend is %r, expected %r', legend(got), want)
        else:
            ensure(legend(got) is None, 'a legend %r although plot_legend=False', legend(got))
    elif kind == 'lag':
        got = m.plot_lag(c['lag'], ax=ax)
        ensure(got is target, 'plot_lag returned other axes')
        offs = [tuple(map(float, x)) for x in target.collections[0].get_offsets()]
        exp = list(zip(vals, vals[c['lag']:]))
        ensure(offs == exp, 'plot_lag(%d): points %r, expected %r', c['lag'], offs, exp)
    elif kind == 'spectrum':
        got = m.plot_spectrum(ax=ax)
        ensure(got is target and len(got.lines) == 1, 'plot_spectrum')
        n = len(vals)
        x, y = [np.asarray(v, dtype=float) for v in (got.lines[0].get_xdata(), got.lines[0].get_ydata())]
        ensure_array(x, [k / (n * SP) for k in range(n // 2)], 'frequencies of plot_spectrum')
        exp = [abs(sum(v * cmath.exp(-2j * cmath.pi * k * i / n) for i, v in enumerate(vals))) / n for k in range(n // 2)]
        ensure_array(y, exp, 'amplitudes of plot_spectrum', rtol=1e-5, atol=1e-3)
    elif kind == 'auto':
        n = len(vals)
        mu = sum(vals) / n
        c0 = sum((v - mu) ** 2 for v in vals)
        if c0 == 0:
            p.close('all')
            ds.store.close()
            return (False, ['constant'])
        got = m.plot_autocorrelation(ax=ax)
        ensure(got is target, 'plot_autocorrelation returned other axes')
        y = np.asarray(got.lines[-1].get_ydata(), dtype=float)
        exp = [sum((vals[i] - mu) * (vals[i + h] - mu) for i in range(n - h)) / c0 for h in range(1, n + 1)]
        ensure_array(y, exp, 'plot_autocorrelation', rtol=1e-5, atol=1e-5)
    elif kind == 'hist':
        thr = m.on_power_threshold()
        top = max(vals)
        rng = None if c['range'] is None else (None, top + 5) if c['range'] == 'top' else (1, top + 2)
        lo, hi = {None: (thr, top), 'top': (thr, top + 5), 'both': (1, top + 2)}[c['range']]
        if hi > lo:
            pk = {'alpha': 0.5}
            got = m.plot_power_histogram(ax=ax, bins=c['bins'], range=rng, plot_kwargs=pk)
            ensure(pk == {'alpha': 0.5}, 'plot_power_histogram changed the plot_kwargs to %r', pk)
            ensure(got is target, 'plot_power_histogram returned other axes')
            check_hist(got, vals, c['bins'], lo, hi, 'plot_power_histogram(bins=%d, range=%r)' % (c['bins'], rng))
    elif kind == 'activity':
        exp = m.activity_histogram(period='D', bin_duration='h')
        pk = {'alpha': 0.5}
        got = m.plot_activity_histogram(ax=ax, period='D', bin_duration='h', plot_kwargs=pk)
        ensure(pk == {'alpha': 0.5}, 'plot_activity_histogram changed the plot_kwargs to %r', pk)
        ensure(got is target, 'plot_activity_histogram returned other axes')
        b = sorted(boxes(got))
        ensure([x[3] - x[1] for x in b] == [float(v) for v in exp], 'plot_activity_histogram: bars %r, expected %r', [x[3] for x in b], list(exp))
        ensure([(x[0] + x[2]) / 2 for x in b] == list(range(24)), 'plot_activity_histogram: bars at %r', [x[0] for x in b])
    elif kind == 'dropout':
        a = len(secs) // 2
        sect = [nk.TimeFrame(ts(secs[0], tz), ts(secs[a], tz)), nk.TimeFrame(ts(secs[a], tz), ts(secs[-1] + 1, tz))]
        res = m.dropout_rate(full_results=True, sections=sect)
        res.plot(ax=ax)
        rows = [(i, r['end'], r['dropout_rate']) for i, r in res._data.iterrows()]
        got, exp = boxes(target), [(days(s), 0.0, days(e), d) for s, e, d in rows]
        ensure(len(got) == len(exp), 'plot of dropout rates: %d rectangles for %d sections', len(got), len(exp))
        same_boxes([g for g in got if not math.isnan(g[3])], [x for x in exp if not math.isnan(x[3])], 'plot of dropout rates')
    else:
        good = m.good_sections()
        got = m.good_sections(full_results=True).plot(ax=ax, y=c['y'], gap=c['gap'])
        ensure(got is target, 'plot of good sections returned other axes')
        same_boxes(boxes(target), [(days(s.start), c['y'] + c['gap'], days(s.end), c['y'] + 1 - c['gap']) for s in good], 'plot of good sections')
    p.close('all')
    raw = pd.concat(list(m.power_series()))
    ensure([ts_ns(x) for x in raw.index] == [ts_ns(ts(s)) for s in secs] and list(raw.values) == vals, 'after the %s plot the meter loads %r', kind, raw)
    ds.store.close()
    return (len(set(vals)) > 2, [kind])


# --- groups
@st.composite
def case_group(draw):
    plot = draw(st.sampled_from(['separate', 'separate', 'sum', 'area', 'bar', 'sankey', 'when_on', 'good', 'good', 'multiple', 'wiring', 'dataset', 'kind']))
    shared = draw(times(hi=30, gaps=False)) if plot in ('sum', 'area') else None
    n = draw(st.integers(2, 4))
    tabs = []
    for _ in range(n + 1):
        secs = shared or draw(times(hi=25))
        tabs.append((secs, draw(watts(len(secs)))))
    ids = list(draw(st.permutations([2, 3, 4, 5, 6])))[:n]
    return {'plot': plot, 'tabs': tabs, 'ids': ids, 'types': list(draw(st.permutations(TYPES)))[:n], 'tz': draw(st.sampled_from(TZS)),
            'p': draw(st.sampled_from([None, 1, 6, 10, 30])), 'unit': draw(st.sampled_from(['W', 'kW'])), 'ax': draw(st.booleans()),
            'legend': draw(st.booleans()), 'thr': draw(st.sampled_from([None, 10, 100])), 'mains': draw(st.booleans()),
            'dis': draw(st.booleans()), 'kw': draw(st.sampled_from([None, {'linewidth': 2}])),
            'label_func': draw(st.sampled_from(['instance', 'label'])), 'gap': draw(st.sampled_from([0, 0.1])),
            'sec': draw(st.sampled_from([None, [-5.5, 200.5], [3000.5, 50000.5]])), 'sparse': draw(st.integers(0, 3)) == 3,
            'keys': draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3, unique=True)), 'houses': draw(st.sampled_from([1, 1, 2]))}


def cap(s):
    return s[0].upper() + s[1:]


def check_group(c):
    p = plt()
    tz, kind = c['tz'], c['plot']
    dev = device('dev', [['power', 'active']], SP, MSP)
    tabs = {1: c['tabs'][0]}
    if kind == 'bar':         # the remainder is positive
        tabs[1] = (tabs[1][0], [v + 20000.0 for v in tabs[1][1]])
    if kind == 'sankey':
        c['tabs'] = [(s, [v + 5 for v in vs]) for s, vs in c['tabs']]
    for i, t in zip(c['ids'], c['tabs'][1:]):
        tabs[i] = t
    if c.get('sparse') and kind == 'good':          # a meter without good sections
        i = c['ids'][0]
        tabs[i] = ([100 * k for k in range(len(tabs[i][0]))], tabs[i][1])
    typ = dict(zip(c['ids'], c['types']))
    names = {i: cap(typ[i]) if i in typ else 'Site meter' for i in tabs}
    ms = [{'m': i, 'dev': dev, 'up': None if i == 1 else 1, 't': table(*tabs[i])} for i in tabs]
    off = None
    if c['dis'] and kind == 'good':
        off = c['ids'][-1]
        ms[-1]['extra'] = {'disabled': True}
    apps = [{'type': typ[i], 'instance': 1, 'meters': [i]} for i in c['ids']]
    bs = [{'i': 1, 'meters': ms, 'apps': apps}]
    if kind == 'dataset' and c['houses'] == 2:
        bs.append({'i': 2, 'meters': [dict(m, t=table(tabs[m['m']][0], [v + 7 for v in tabs[m['m']][1]])) for m in ms[:2]], 'apps': []})
    ds = open_dataset({'name': 'gen', 'tz': tz, 'buildings': bs}, dtype='float64')
    el = ds.buildings[1].elec
    fig, axes = p.subplots(2)
    given, other = axes
    ax = given if c['ax'] else None
    labels = [kind]

    def on_given(a):
        if ax is not None:
            ensure(a is given and not other.lines and not other.patches and not other.collections and legend(other) is None,
                   '%s plot with ax= drew on other axes', kind)

    def period(dur):
        w = max(1, round(dur / c['p'])) if c['p'] else 800
        return ({'width': w} if c['p'] else {}), max(1, int(round(dur / w)))
    if kind == 'separate':
        kw = {'unit': c['unit'], 'plot_legend': c['legend']}
        if c['kw'] is not None:
            kw['plot_kwargs'] = dict(c['kw'])
        if c['p']:
            kw['width'] = c['p'] * 20
        a = el.plot(ax=ax, **kw)
        on_given(a)
        ensure(len(a.lines) == len(tabs), '%d lines for %d meters', len(a.lines), len(tabs))
        got = {l.get_label(): l for l in a.lines}
        ensure(set(got) == set(names.values()), 'lines are labelled %r, expected %r', sorted(got), sorted(names.values()))
        for i, (s, v) in tabs.items():
            per = max(1, int(round((s[-1] - s[0]) / kw.get('width', 800))))
            check_line(got[names[i]], s, v, per, tz, 'plot(%r), meter %d' % (kw, i), 1e-3 if c['unit'] == 'kW' else 1.0)
        if c['legend']:
            ensure(sorted(legend(a) or []) == sorted(names.values()), 'legend %r, expected %r', legend(a), sorted(names.values()))
        else:
            ensure(legend(a) is None, 'a legend although plot_legend=False')
    elif kind in ('sum', 'area'):
        sub = el.submeters()
        secs = c['tabs'][0][0]
        kw, per = period(secs[-1] - secs[0])
        kw['unit'] = c['unit']
        sc = 1e-3 if c['unit'] == 'kW' else 1.0
        if kind == 'sum':
            a = sub.plot(kind='sum', ax=ax, plot_legend=c['legend'], **kw)
            on_given(a)
            ensure(len(a.lines) == 1, '%d lines for the sum', len(a.lines))
            tot = [sum(tabs[i][1][j] for i in c['ids']) for j in range(len(secs))]
            got = points(a.lines[0], tz)
            if 3600 % per == 0:
                exp = binned(secs, tot, per, tz)
                d = dict(zip(*got))
                for x, y in upto(exp, secs, per, tz):
                    ensure(x in d and same([d[x]], [y * sc]), 'plot(kind=sum, %r): %r at %s, expected %r', kw, d.get(x), pd.Timestamp(x), y * sc)
                ensure(set(d) - set(exp[0]) <= {exp[0][-1] + per * 10 ** 9}, 'plot(kind=sum): points outside the data')
        else:
            pk = {'alpha': 0.5} if c['kw'] else None
            a, df = sub.plot(kind='area', ax=ax, threshold=c['thr'], plot_kwargs=pk, **kw)
            on_given(a)
            ensure(pk in (None, {'alpha': 0.5}), 'area plot changed the plot_kwargs to %r', pk)
            ensure(sorted(df.columns) == sorted(names[i] for i in c['ids']), 'area plot: columns %r', list(df.columns))
            if 3600 % per == 0:
                idx = [local(x, tz) for x in df.index]
                stack = np.zeros(len(df))
                ensure(len(a.lines) == len(c['ids']), 'area plot: %d lines', len(a.lines))
                for col, line in zip(df.columns, a.lines):
                    i = [k for k in c['ids'] if names[k] == col][0]
                    xs, ys = binned(secs, tabs[i][1], per, tz)
                    if c['thr'] is not None:
                        ys = [0.0 if y <= c['thr'] else y for y in ys]
                    d = dict(zip(idx, df[col].values))
                    for x, y in upto((xs, ys), secs, per, tz):
                        ensure(x in d and same([d[x]], [y * sc]), 'area plot %r of %s: %r at %s, expected %r', kw, col, d.get(x), pd.Timestamp(x), y * sc)
                    stack = stack + df[col].fillna(0).values
                    gx, gy = points(line, tz)
                    ensure(gx == idx and same(gy, list(stack)), 'area plot: the line of %s is %r, expected %r', col, gy[:20], list(stack)[:20])
    elif kind == 'bar':
        sub = el.submeters()
        mains = el.mains() if c['mains'] else None
        a = sub.plot(kind='energy bar', ax=ax, mains=mains)
        on_given(a)
        e = sub.energy_per_meter(per_period='D', use_meter_labels=True, mains=mains)
        e = {k: float(v) for k, v in (e if mains is not None else e.sum()).items()}
        ensure(set(e) == set(names[i] for i in c['ids']) | (set(['Remainder']) if c['mains'] else set()), 'energy_per_meter: %r', e)
        vals = sorted(e.values(), reverse=True)
        b = sorted(boxes(a), key=lambda r: (r[1], r[3]))
        acc, exp = 0.0, []
        for v in vals:
            exp.append((acc, acc + v))
            acc += v
        if all(v > 0 for v in vals):
            ensure_array([r[1] for r in b] + [r[3] for r in b], [x[0] for x in exp] + [x[1] for x in exp], 'bars of the energy bar plot')
        ensure(len(a.texts) == len(vals), 'energy bar plot: %d texts for %d entries', len(a.texts), len(vals))
        left = dict(e)
        for t, (y0, y1) in zip(a.texts, exp):
            name = t.get_text().rsplit(' (', 1)[0]
            ensure(name in left and t.get_text() == '%s (%.2f)' % (name, left[name]), 'energy bar plot: text %r of energies %r', t.get_text(), e)
            ensure_close(left.pop(name), y1 - y0, 'energy bar plot: position of %s in the order' % name, rtol=1e-6, atol=1e-9)
            ensure_close(t.xy[1], (y0 + y1) / 2, 'energy bar plot: height of the text of %s' % name, rtol=1e-6, atol=1e-9)
    elif kind == 'sankey':
        sub = el.submeters()
        fr = {typ[i]: sub[i].total_energy(ac_type='best').sum() if hasattr(sub[i].total_energy(ac_type='best'), 'sum') else sub[i].total_energy(ac_type='best')
              for i in c['ids']}
        tot = sum(fr.values())
        p.close('all')
        el.plot(kind='sankey')
        txt = [t.get_text() for t in p.gca().texts]
        if tot and all(v / tot > 1e-5 for v in fr.values()):
            for k, v in fr.items():
                ensure(sum(1 for t in txt if t.split('\n')[0] == k) == 1, 'Sankey diagram: texts %r do not name %r once', txt, k)
                t = [t for t in txt if t.split('\n')[0] == k][0].split('\n')[1]
                ensure_close(float(t), v / tot, 'Sankey diagram: flow of %s' % k, rtol=1e-4, atol=1e-5)
            ensure(any(t.startswith('mains') for t in txt), 'Sankey diagram: texts %r lack the mains', txt)
    elif kind == 'when_on':
        p.close('all')
        a = el.plot_when_on(on_power_threshold=c['thr'] or 10)
        thr = c['thr'] or 10
        ticks = dict(zip(a.get_yticks(), [t.get_text() for t in a.get_yticklabels()]))
        ensure(sorted(ticks.values()) == sorted(names[i] for i in tabs), 'plot_when_on: labels %r', ticks)
        row = {lab: y for y, lab in ticks.items()}
        got = {}
        for l in a.lines:
            for x, y in zip(*points(l, tz)):
                got.setdefault(y, set()).add(x)
        for i, (s, v) in tabs.items():
            exp = set(local(ts(x), tz) for x, w in zip(s, v) if w >= thr)
            ensure(got.get(row[names[i]], set()) == exp, 'plot_when_on: %s is marked on at %r, expected %r', names[i],
                   sorted(map(str, map(pd.Timestamp, got.get(row[names[i]], set()))))[:20], sorted(map(str, map(pd.Timestamp, exp)))[:20])
    elif kind == 'good':
        inc = not c['legend']
        lk = {'sections': [nk.TimeFrame(*[ts(x, tz) for x in c['sec']])]} if c.get('sec') else None
        order = [m.instance() for m in el.meters]
        a = el.plot_good_sections(ax=ax, label_func=c['label_func'], include_disabled_meters=inc, gap=c['gap'], load_kwargs=lk)
        ensure([m.instance() for m in el.meters] == order, 'plot_good_sections changed the order of the meters %r to %r', order, [m.instance() for m in el.meters])
        on_given(a)
        if off and not inc:
            labels.append('disabled left out')
        ids = [i for i in tabs if inc or i != off]
        fmt = a.yaxis.get_major_formatter()
        ensure(len(a.get_yticks()) == len(ids), 'plot_good_sections: %d ticks for %d meters', len(a.get_yticks()), len(ids))
        rows = {str(fmt(y, 0)): int(y) for y in a.get_yticks()}
        ensure(set(rows) == set(str(i) if c['label_func'] == 'instance' else names[i] for i in ids), 'plot_good_sections: labels %r', rows)
        exp = []
        for m in el.all_meters():
            i = m.instance()
            if i in ids:
                y = rows[str(i) if c['label_func'] == 'instance' else names[i]]
                exp += [(days(s.start), y + c['gap'], days(s.end), y + 1 - c['gap']) for s in m.good_sections(**(lk or {}))]
        same_boxes(boxes(a), exp, 'plot_good_sections')
    elif kind == 'multiple':
        p.close('all')
        keys = [c['ids'][k] for k in c['keys']]
        fig, axs = p.subplots(len(keys), squeeze=False)
        rng = [(0, 100 + 50 * k) for k in range(len(keys))]
        out = el.plot_multiple(axs, keys, 'plot_power_histogram', {'range': rng}, bins=7)
        ensure(len(out) == len(keys), 'plot_multiple returned %d axes', len(out))
        for a, i, r in zip(axs[:, 0], keys, rng):
            ensure(a.get_title() == names[i], 'plot_multiple: title %r for %s', a.get_title(), names[i])
            check_hist(a, tabs[i][1], 7, r[0], r[1], 'plot_multiple of %s' % names[i])
        ensure(raises(ValueError, lambda: el.plot_multiple(axs, keys + keys[:1], 'plot_power_histogram')), 'plot_multiple took too few axes')
    elif kind == 'wiring':
        p.close('all')
        g, a = el.draw_wiring_graph()
        ensure(a is p.gca(), 'draw_wiring_graph returned other axes')
        ensure(sorted(t.get_text() for t in a.texts) == sorted(names[i] for i in tabs), 'draw_wiring_graph: labels %r', [t.get_text() for t in a.texts])
        ensure(set(x.instance() for x in g.nodes()) == set(tabs), 'draw_wiring_graph: nodes')
    elif kind == 'dataset':
        p.close('all')
        n = len(bs)
        axs = ds.plot_good_sections()
        ensure(len(axs) == n, 'DataSet.plot_good_sections gives %d axes for %d buildings', len(axs), n)
        for a, b in zip(axs, (1, 2)):
            exp = sum(len(m.good_sections()) for m in ds.buildings[b].elec.all_meters())
            ensure(a.get_title() == 'House %d' % b and len(a.patches) == exp, 'DataSet.plot_good_sections: %r with %d rectangles, expected %d',
                   a.get_title(), len(a.patches), exp)
        axs = ds.plot_mains_power_histograms(bins=6, range=(0, 4000))
        ensure(len(axs) == n, 'plot_mains_power_histograms gives %d axes', len(axs))
        for a, b in zip(axs, (1, 2)):
            ensure(a.get_title() == 'House %d' % b, 'plot_mains_power_histograms: title %r', a.get_title())
            check_hist(a, [v + (7 if b == 2 else 0) for v in tabs[1][1]], 6, 0, 4000, 'plot_mains_power_histograms, house %d' % b)
        if n == 2:
            ensure(raises(Exception, lambda: ds.plot_mains_power_histograms(axes=list(axs)[:1])), 'too few axes were taken')
    else:
        ensure(raises(ValueError, lambda: el.plot(kind='bogus')), 'an unknown kind of plot was accepted')
    p.close('all')
    for i, (s, v) in tabs.items():
        if i != off:
            raw = pd.concat(list(el[i].power_series()))
            ensure([ts_ns(x) for x in raw.index] == [ts_ns(ts(x)) for x in s] and list(raw.values) == list(v),
                   'after the %s plot meter %d loads %r', kind, i, raw)
    ds.store.close()
    return (True, labels)


# --- plain functions
@st.composite
def case_series(draw):
    secs = draw(times(lo=0, hi=20))
    n = draw(st.integers(1, 6))
    return {'secs': secs, 'vals': draw(watts(len(secs))), 'tz': draw(st.sampled_from(TZS)), 'loc': draw(st.booleans()),
            'square': [[float(draw(st.integers(1, 99))) for _ in range(n)] for _ in range(n)], 'log': draw(st.booleans()),
            'ax': draw(st.booleans()), 'cols': draw(st.sampled_from([1, 2])), 'w': draw(st.sampled_from([None, 2.5, 9])),
            'h': draw(st.sampled_from([None, 3, 20])), 'size': draw(st.integers(5, 14))}


def check_series(c):
    import matplotlib
    import matplotlib.dates as md
    p = plt()
    P = nk('nilmtk.plots')
    tz = c['tz']
    s = pd.Series(c['vals'], index=pd.DatetimeIndex([ts(x, tz) for x in c['secs']]), dtype=float)
    keep = s.copy()
    fig, (given, other) = p.subplots(2)
    ax = given if c['ax'] else None
    got = P.plot_series(s, ax=ax, tz_localize=c['loc'], linewidth=3)
    ensure(s.equals(keep), 'plot_series changed the series')
    if not len(s):
        ensure(got is ax and not given.lines and not other.lines, 'plot_series of nothing')
    else:
        target = given if c['ax'] else other
        ensure(got is target and len(got.lines) == 1, 'plot_series drew on other axes')
        l = got.lines[0]
        ensure(list(map(float, l.get_ydata())) == c['vals'], 'plot_series: values %r', list(l.get_ydata()))
        xs = np.asarray(l.get_xdata(orig=False), dtype=float)
        ensure_array(xs, [days(ts(x, 'UTC')) for x in c['secs']], 'times of plot_series', rtol=0, atol=1e-8)
        fmt = got.xaxis.get_major_formatter()
        for x, t in list(zip(xs, c['secs']))[:3]:
            want = ts(t, tz if c['loc'] else 'UTC')
            txt = fmt(float(x) + 1e-9)
            ok = set((want + pd.Timedelta(seconds=k)).strftime('%d/%m/%y %H:%M:%S') for k in (-1, 0, 1))
            ensure(txt in ok, 'plot_series(tz_localize=%r): %s is written %r', c['loc'], want, txt)
        ensure(got.get_ylabel() == 'watts' and l.get_linewidth() == 3, 'plot_series: y label or line width')
    ensure(P.plot_series(None, ax=ax) is ax, 'plot_series(None)')
    # heatmap
    p.close('all')
    n = len(c['square'])
    df = pd.DataFrame(c['square'])
    labs = ['m%d' % (7 * i % 11) for i in range(n)]
    P.plot_pairwise_heatmap(df, labs, log=c['log'])
    a = p.gcf().axes[0]
    ensure_array(np.asarray(a.collections[0].get_array(), dtype=float).ravel(), [v for r in c['square'] for v in r], 'cells of the heatmap')
    for axis in (a.xaxis, a.yaxis):
        ensure([t.get_text() for t in axis.get_ticklabels()] == labs, 'heatmap: labels %r', [t.get_text() for t in axis.get_ticklabels()])
        ensure(list(axis.get_ticklocs()) == [i + 0.5 for i in range(n)], 'heatmap: labels at %r', list(axis.get_ticklocs()))
        ensure(not any(t.tick1line.get_visible() or t.tick2line.get_visible() for t in axis.get_major_ticks()), 'heatmap: tick marks')
    ensure(len(p.gcf().axes) == 2, 'heatmap: no colour bar')
    p.close('all')
    # latexify, format_axes
    with matplotlib.rc_context():
        P.latexify(fig_width=c['w'], fig_height=c['h'], columns=c['cols'], fontsize=c['size'])
        w, h = matplotlib.rcParams['figure.figsize']
        size = matplotlib.rcParams['font.size'], matplotlib.rcParams['legend.fontsize'], matplotlib.rcParams['axes.labelsize']
        tex = matplotlib.rcParams['text.usetex']
    ensure(w == (c['w'] or (3.39 if c['cols'] == 1 else 6.9)), 'latexify: width %r', w)
    ensure_close(h, min(8.0, c['h'] or w * (math.sqrt(5) - 1) / 2), 'latexify: height')
    ensure(tuple(size) == (c['size'],) * 3 and tex, 'latexify: sizes %r', size)
    ensure(raises(AssertionError, lambda: P.latexify(columns=3)), 'latexify took three columns')
    fig, a = p.subplots()
    ensure(P.format_axes(a, 'red') is a, 'format_axes')
    vis = {k: v.get_visible() for k, v in a.spines.items()}
    ensure(vis == {'left': True, 'bottom': True, 'top': False, 'right': False}, 'format_axes: spines %r', vis)
    p.close('all')
    return (len(set(c['vals'])) > 1, ['log'] if c['log'] else [])


SUBS = [Sub('meter', case_meter(), check_meter, quick=220, thorough=4000, shards=3),
        Sub('group', case_group(), check_group, quick=280, thorough=4000, shards=4),
        Sub('series', case_series(), check_series, quick=40, thorough=600, shards=1)]
