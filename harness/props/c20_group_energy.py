"""C20: energy statistics of a group of meters."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from engine import Sub
from support import nk, close, ensure, ensure_close, isnan, raises, tf_from, ts, ts_ns
from props.c11_total_energy import ref_energy
from props.c15_stats_cache import _clear
from props.c17_relations import TYPES, energy_over, good, ratio, rows_of
from props.datasets import device, open_dataset
from props.groupgen import ident

ID = 'C20'
RULE = ('buildings of one site meter and 1-4 submeters (some in a nested group), differing in AC types, quantity (power, energy, cumulative '
        'energy), gaps and spans. `energy`: total_energy of any subgroup (whole, sections, full results), energy_per_meter (plain, per period, '
        'labelled, with remainder), fraction_per_meter, select_top_k; oracle: direct summation per meter and AC type. `share`: '
        'proportion_of_energy_submetered, train_test_split, dropout_rate, call_method_on_all_meters, pairwise, simultaneous_switches, describe (of the group, the building and the dataset); '
        'oracle: ratios of direct sums over the good sections of the mains, and the statistics of the single meters. '
        '`split`: train_test_split of mains with good sections from hours to weeks. '
        'Non-trivial: meters differ in AC types, or a nested group, or sections.')


@st.composite
def table(draw, acs=None, secs=None, pq=None):
    acs = acs or draw(st.sampled_from([['active'], ['active'], ['apparent'], ['active', 'apparent'], ['reactive', 'active'], ['apparent', 'reactive'], ['reactive']]))
    pq = pq or draw(st.sampled_from(['power'] * 6 + ['energy', 'cumulative energy']))
    if secs is None:
        n = draw(st.integers(3, 14))
        secs, x = [], draw(st.sampled_from([0, 0, 0, 6, 30, 300]))
        for _ in range(n):
            secs.append(x)
            x += draw(st.sampled_from([6, 6, 6, 6, 6, 6, 12, 30, 31, 100]))
    vals = []
    k = draw(st.sampled_from([1, 1, 1, 3, 10, 0]))
    for _ in acs:
        v = [float(k * draw(st.integers(0, 400))) for _ in secs]
        vals.append(list(np.cumsum(v)) if pq == 'cumulative energy' else v)
    return {'secs': secs, 'vals': [[float(x) for x in v] for v in vals], 'columns': [[pq, a] for a in acs]}


@st.composite
def case(draw, share=False):
    n = draw(st.integers(2, 5))
    aligned = draw(st.integers(0, 2)) == 0
    secs = None
    ts_ = []
    acs = draw(st.sampled_from([None, None, None, ['active'], ['apparent'], ['reactive', 'active'], ['apparent', 'active']]))
    mix = None
    if not share and draw(st.integers(0, 4)) == 4:          # most submeters record one type, one of them another; the mains record both
        pair = draw(st.sampled_from([['active', 'apparent'], ['apparent', 'active'], ['reactive', 'active'], ['apparent', 'reactive']]))
        n = draw(st.sampled_from([4, 5]))
        mix = [pair] + [[a] for a in draw(st.permutations([pair[0]] + [pair[1]] * (n - 2)))]
    for i in range(n):
        if mix:
            acs = mix[i]
        ts_.append(draw(table(acs=acs, secs=secs, pq='power' if share or i == 0 else None)))
        if aligned:
            secs = ts_[0]['secs']
    ups = [None] + [draw(st.sampled_from([1, 1, 1, i])) for i in range(1, n)]
    nested = None
    if n >= 4 and not mix and draw(st.booleans()):
        nested = [n - 1, n]
        ts_[n - 1] = draw(table(acs=[a for _, a in ts_[n - 2]['columns']], secs=secs, pq=ts_[n - 2]['columns'][0][0]))
    span = max(t['secs'][-1] for t in ts_)
    cuts = sorted(set(draw(st.lists(st.integers(-3, span + 5), min_size=2, max_size=4))))
    sections = [[a + .5, b + .5] for a, b in zip(cuts, cuts[1:]) if draw(st.integers(0, 3))] or None
    return {'t': ts_, 'ups': ups, 'nested': nested, 'sections': sections if draw(st.booleans()) else None,
            'k': draw(st.integers(1, 4)), 'asc': draw(st.booleans()), 'sub': bool(mix) or draw(st.booleans()),
            'period': draw(st.sampled_from(['D', 'h', '30min'])), 'order': draw(st.booleans()),
            'frac': draw(st.sampled_from([0.5, 0.25, 0.1, 0.8, 0.625])), 'thr': draw(st.sampled_from([40, 100, 399]))}


def build(c):
    ms = []
    for i, t in enumerate(c['t']):
        dev = device('dev%d' % i, t['columns'], 6, 30)
        ms.append({'m': i + 1, 'dev': dev, 'up': c['ups'][i], 't': t})
    names = ['fridge', 'kettle', 'light', 'toaster', 'television']
    nested = c['nested'] or []
    apps = [{'type': names[i], 'instance': 1, 'meters': [i + 1]} for i in range(1, len(ms)) if i + 1 not in nested]
    if nested:
        apps.append({'type': 'washing machine', 'instance': 1, 'meters': nested})
    return open_dataset({'name': 'gen', 'tz': 'UTC', 'buildings': [{'i': 1, 'meters': ms, 'apps': apps, 'extra': {'n_occupants': 3, 'building_type': 'flat'}}]}, dtype='float64')


def energies(t, sections):
    """energy per AC type of a table, over sections (None: everything)"""
    out = {}
    for s in sections or [[t['secs'][0], t['secs'][-1] + 1]]:
        rows = [i for i, x in enumerate(t['secs']) if s[0] <= x < s[1]]
        if rows:
            for a, e in ref_energy(t['columns'], t['secs'], t['vals'], rows, 30, [0, 100000]).items():
                out[a] = out.get(a, 0) + e
    return out


def best(d):
    for a in TYPES:
        if a in d:
            return {a: d[a]}
    return {}


def add(ds):
    out = {}
    for d in ds:
        for a, e in d.items():
            out[a] = out.get(a, 0) + e
    return out


def same(got, exp, what):
    g = {} if got is None else {k: v for k, v in got.items() if not isnan(v)}
    for a in set(g) | set(exp):
        ensure_close(g.get(a, 0), exp.get(a, 0), '%s, %s' % (what, a))


def check_energy(c):
    ds = build(c)
    elec = ds.buildings[1].elec
    group = elec.submeters() if c['sub'] else elec
    if c['order']:
        group.meters.reverse()
    tabs = []        # per entry of the group: list of tables
    for m in group.meters:
        ids = m.instance()
        tabs.append([c['t'][i - 1] for i in (ids if isinstance(ids, tuple) else (ids,))])
    ids = [ident(m) for m in group.meters]
    secs = c['sections']
    kw = {} if secs is None else {'sections': [tf_from(s) for s in secs]}
    all_ = [t for ts_ in tabs for t in ts_]
    what = 'of the group of meters with %r' % ([(t['columns'], t['secs']) for t in all_],)
    same(group.total_energy(**kw), add([energies(t, secs) for t in all_]), 'total_energy(%r) %s' % (secs, what))
    labels = []
    if secs is None:
        if len(group.meters) > 1:
            ensure(raises(RuntimeError, group.total_energy, full_results=True), 'no RuntimeError from group.total_energy, full_results=True')
            ensure(raises(RuntimeError, group.dropout_rate, full_results=True), 'no RuntimeError from group.dropout_rate, full_results=True')
    else:
        full = all(any(s[0] <= x < s[1] for x in t['secs']) for t in all_ for s in secs)
        aligned = all(t['secs'] == all_[0]['secs'] for t in all_) and full
        try:
            r = group.total_energy(full_results=True, sections=[tf_from(s) for s in secs])
        except RuntimeError:
            ensure(not aligned, 'total_energy(full_results=True) refuses aligned meters')
            labels.append('refused')
        else:
            if full:
                same(r.combined(), add([energies(t, secs) for t in all_]), 'combined full results %s' % what)
                per = r.per_period()
                ensure(len(per) == len(secs), 'full results hold %d sections, not %d', len(per), len(secs))
                for (_, row), s in zip(per.iterrows(), secs):
                    same({a: row[a] for a in TYPES if a in row}, add([energies(t, [s]) for t in all_]), 'full results for %r %s' % (s, what))
                labels.append('full')
    # energy per meter
    exp = [add([best(energies(t, secs)) for t in ts_]) for ts_ in tabs]

    def frame_is(df, exp, what, names=None):
        ensure(df.shape[1] == len(exp), '%s: %d columns for %d meters', what, df.shape[1], len(exp))
        cols = list(df.columns)
        for j, e in enumerate(exp):
            same(df.iloc[:, j].astype(float).to_dict(), e, '%s, column %r' % (what, cols[j]))
    df = group.energy_per_meter(**kw)
    ensure([tuple(x) if not isinstance(x[0], tuple) else tuple(tuple(y) for y in x[0]) for x in df.columns] == ids,
           'energy_per_meter: columns %r, expected %r', list(df.columns), ids)
    frame_is(df, exp, 'energy_per_meter(%r)' % secs)
    if secs is None:
        per = {'D': 86400, 'h': 3600, '30min': 1800}[c['period']]

        def rate(ts_):
            lo, hi = min(t['secs'][0] for t in ts_), max(t['secs'][-1] for t in ts_)
            e = add([best(energies(t, None)) for t in ts_])
            return {a: v / ((hi - lo) / per) for a, v in e.items()}
        frame_is(group.energy_per_meter(per_period=c['period']), [rate(x) for x in tabs], 'energy_per_meter(per_period=%r)' % c['period'])
    df = group.energy_per_meter(use_meter_labels=True, **kw)
    ensure(list(df.columns) == [m.label(pretty=True) for m in group.meters], 'energy_per_meter labels %r', list(df.columns))
    frame_is(df, exp, 'energy_per_meter(use_meter_labels=True)')
    frame_is(group.energy_per_meter(ac_type=None, **kw), [add([energies(t, secs) for t in ts_]) for ts_ in tabs], 'energy_per_meter(ac_type=None)')
    typed = [set(x[1] for x in t['columns'] if x[1]) for t in all_]
    for a in sorted(set.union(*typed)):
        if all(a in x for x in typed):
            one = [add([{a: e for b, e in energies(t, secs).items() if b == a} for t in ts_]) for ts_ in tabs]
            frame_is(group.energy_per_meter(ac_type=a, **kw), one, 'energy_per_meter(ac_type=%r)' % a)
            v = [e.get(a, 0) for e in one]
            if sum(v) > 0 and all(e for e in one):
                for i, x, got in zip(ids, v, group.fraction_per_meter(ac_type=a, **kw).values):
                    ensure_close(got, x / sum(v), 'fraction_per_meter(ac_type=%r) of %r' % (a, i))
            labels.append('ac type')
        else:
            ensure(raises(nk('nilmtk.exceptions').MeasurementError, group.energy_per_meter, ac_type=a, **kw), 'energy_per_meter(ac_type=%r) although not all meters record it', a)
    # remainder
    main = energies(c['t'][0], secs)
    uniq = sorted(set(a for e in exp for a in e))
    per_type = [a for e in exp for a in e]
    often = sorted(uniq, key=per_type.count)
    if c['sub'] and all(exp) and main and len(group.meters) and (len(uniq) == 1 or per_type.count(often[-1]) > per_type.count(often[-2])):
        use = main[often[-1]] if often[-1] in main else list(best(main).values())[0]
        if len(uniq) > 1:
            labels.append('mixed remainder')
        s = group.energy_per_meter(mains=elec.mains(), **kw)
        ensure(len(s) == len(exp) + 1, 'energy_per_meter(mains) has %d entries for %d meters', len(s), len(exp))
        vals = [sum(e.values()) for e in exp]
        got = dict((k if isinstance(k, str) else (tuple(k) if not isinstance(k[0], tuple) else tuple(tuple(y) for y in k[0])), v) for k, v in zip(s.index, s.values))
        ensure_close(got.get('Remainder', float('nan')), use - sum(vals), 'Remainder', atol=1e-8)
        for i, v in zip(ids, vals):
            ensure_close(got.get(i, float('nan')), v, 'energy of %r in energy_per_meter(mains)' % (i,))
        ensure(all(a >= b for a, b in zip(s.values, s.values[1:])), 'energy_per_meter(mains) is not sorted: %r', list(s.values))
        labels.append('remainder')
        if secs is None:
            def per_day(ts_):
                return (max(t['secs'][-1] for t in ts_) - min(t['secs'][0] for t in ts_)) / {'D': 86400, 'h': 3600, '30min': 1800}[c['period']]
            s = group.energy_per_meter(mains=elec.mains(), per_period=c['period'])
            rates = [v / per_day(x) for v, x in zip(vals, tabs)]
            ensure(len(s) == len(exp) + 1, 'energy_per_meter(mains, per_period) has %d entries for %d meters', len(s), len(exp))
            ensure_close(s.get('Remainder', float('nan')), use / per_day([c['t'][0]]) - sum(rates), 'Remainder per %s' % c['period'], atol=1e-8)
            labels.append('remainder per period')
    # fractions and top k
    mx = [max(e.values()) if e else float('nan') for e in exp]
    tot = sum(x for x in mx if not isnan(x))
    if tot > 0 and not any(isnan(x) for x in mx):
        fr = group.fraction_per_meter(**kw)
        for i, x, got in zip(ids, mx, fr.values):
            ensure_close(got, x / tot, 'fraction_per_meter of %r' % (i,))
        ensure_close(float(fr.sum()), 1.0, 'sum of fraction_per_meter')
        srt = sorted(mx, reverse=not c['asc'])
        k = min(c['k'], len(mx))
        distinct = k >= len(srt) or not close(srt[k - 1], srt[k], rtol=1e-9)
        top = group.select_top_k(c['k'], asc=c['asc'], **kw)
        want = set(i for i, x in zip(ids, mx) if (x <= srt[k - 1] if c['asc'] else x >= srt[k - 1]))
        if distinct:
            ensure(set(ident(m) for m in top.meters) == want and len(top.meters) == k,
                   'select_top_k(%d, asc=%r) gives %r, expected %r (energies %r)', c['k'], c['asc'], [ident(m) for m in top.meters], want, dict(zip(ids, mx)))
            labels.append('top')
            tr = group.select_top_k(c['k'], asc=c['asc'], group_remainder=True, **kw)
            ensure(set(ident(m) for m in tr.meters[:k]) == want, 'select_top_k(group_remainder=True) gives %r', [ident(m) for m in tr.meters])
            rest = set(ident(m) for m in tr.meters[k].meters)
            ensure(len(tr.meters) == k + 1 and rest == set(ids) - want, 'select_top_k(group_remainder=True): remainder %r, expected %r', rest, set(ids) - want)
        ensure([ident(m) for m in group.meters] == ids, 'select_top_k changed the group')
    ds.store.close()
    mixed = len(set(str(sorted(a for _, a in t['columns'])) for t in all_)) > 1
    return (mixed or bool(c['nested']) or bool(secs), labels)


def check_share(c):
    ds = build(c)
    elec = ds.buildings[1].elec
    T = c['t']
    mains = elec.mains()
    gs = mains.good_sections()
    eo = energy_over(T[0], gs)
    labels = []
    # proportion of energy submetered
    direct = [i for i in range(1, len(T)) if c['ups'][i] == 1]
    props, skip = [], False
    for i in direct:
        es = energy_over(T[i], gs)
        if not eo or sum(eo.values()) == 0:
            continue
        if not es or sum(es.values()) == 0:
            props.append(0.0)
            continue
        r = ratio(es, eo)
        if not isnan(r):
            props.append(r)
        skip = skip or np.isinf(r)
    _clear()
    got = elec.proportion_of_energy_submetered()
    if not skip:
        if props and sum(props) > 0:
            ensure_close(got, sum(props), 'proportion_of_energy_submetered of %r' % c)
            labels.append('proportion')
        else:
            ensure(isnan(got) or got == 0, 'proportion_of_energy_submetered is %r although nothing was submetered', got)
    # split: the good time before it is the fraction asked for
    g = good(T[0])
    total = sum(b - a for a, b in g)
    n = sum(int((b - a) / 6) for a, b in g)
    if n:
        s = elec.train_test_split(c['frac'])
        ensure(s is not None, 'train_test_split(%r) gives None', c['frac'])
        x = (ts_ns(s) - ts_ns(ts(0))) / 1e9
        before = sum(max(0, min(b, x) - a) for a, b in g)
        ensure(g[0][0] <= x <= g[-1][1], 'train_test_split outside of the data')
        ensure(abs(before - c['frac'] * total) <= 6 * len(g) + 1, 'train_test_split(%r): %r s of %r s lie before it', c['frac'], before, total)
        ensure(any(a <= x <= b for a, b in g), 'train_test_split(%r) at %r s is outside of the good sections %r', c['frac'], x, g)
        labels.append('split%d' % min(len(g), 3))
    # statistics of the members
    rates = [m.dropout_rate() for m in elec.meters]
    if not any(isnan(x) for x in rates):
        ensure_close(elec.dropout_rate(), float(np.mean(rates)), 'dropout_rate of the group')
    r = elec.call_method_on_all_meters('vampire_power')
    for m, got in zip(elec.meters, r.values):
        ensure_close(got, m.vampire_power(), 'call_method_on_all_meters(vampire_power) of %r' % m)
    sub = elec.submeters()
    cnt = {}
    for m in sub.meters:
        for x in m.switch_times(c['thr']):
            k = ts_ns(pd.Timestamp(x))
            cnt[k] = cnt.get(k, 0) + 1
    got = elec.simultaneous_switches(c['thr'])
    got = {ts_ns(pd.Timestamp(k)): int(v) for k, v in got.items()}
    ensure(got == {k: v for k, v in cnt.items() if v > 1}, 'simultaneous_switches(%r) = %r, single meters: %r', c['thr'], got, cnt)
    if got:
        labels.append('switches')
    if c['k'] == 1:
        r = elec.pairwise('correlation')
        for i, a in enumerate(elec.meters):
            for j, b in enumerate(elec.meters):
                if i <= j:
                    e = a.correlation(b)
                    for v in (r.iloc[i, j], r.iloc[j, i]):
                        ensure(isnan(e) and isnan(v) or close(float(v), float(e), rtol=1e-6, atol=1e-9), 'pairwise_correlation of %r and %r is %r, not %r', a, b, v, e)
        labels.append('pairwise')
    if c['k'] == 2 and len(elec.submeters().meters):
        d = elec.describe()
        ensure(d['total_n_meters'] == len(elec.meters) and d['total_n_site_meters'] == 1, 'describe: meters')
        ensure(d['mains_uptime'] == str(mains.uptime()), 'describe: mains_uptime')
        lo, hi = min(t['secs'][0] for t in T), max(t['secs'][-1] for t in T)
        ensure(d['total_duration'] == str(pd.Timedelta(seconds=hi - lo)), 'describe: total_duration %r', d['total_duration'])
        ensure_close(d['proportion_uptime'], total / (hi - lo), 'describe: proportion_uptime')
        p = d['proportion_of_energy_submetered']
        if not skip and props and sum(props) > 0:
            ensure_close(p, sum(props), 'describe: proportion_of_energy_submetered')
        ensure(d['dropout_rates_ignoring_gaps'] == 'min={}, mean={}, max={}'.format(np.array(rates).min(), np.array(rates).mean(), np.array(rates).max()),
               'describe: %r', d['dropout_rates_ignoring_gaps'])
        b = ds.buildings[1].describe()
        got = {k: b[k] for k in d.index}
        ensure(list(b.index[-len(d):]) == list(d.index) and all(str(got[k]) == str(d[k]) for k in d.index), 'Building.describe: %r instead of %r', got, dict(d))
        md = ds.buildings[1].metadata
        ensure(b['instance'] == 1 and b['n_occupants'] == 3 and b['building_type'] == 'flat' and pd.isnull(b['heating']), 'Building.describe: metadata %r of %r', dict(b), md)
        a = ds.describe()
        ensure(list(a.columns) == [1] and sorted(a.index) == sorted(b.index) and all(str(a.loc[k, 1]) == str(b[k]) or pd.isnull(b[k]) and pd.isnull(a.loc[k, 1]) for k in b.index),
               'DataSet.describe: %r instead of %r', a, b)
        labels.append('describe')
    elec.meters.reverse()
    elec.sort_meters()
    single = [m.instance() for m in elec.meters if not isinstance(m.instance(), tuple)]
    ensure(single == sorted(single), 'sort_meters: %r', single)
    ds.store.close()
    return (bool(labels), labels)


@st.composite
def case_split(draw):
    """one site meter and a submeter with good sections of up to many days"""
    sp = draw(st.sampled_from([60, 600, 3600, 21600, 86400]))
    secs, x = [], 0
    for _ in range(draw(st.integers(1, 3))):
        for _ in range(draw(st.integers(2, 9))):
            secs.append(x)
            x += sp * draw(st.sampled_from([1, 1, 1, 2, 3]))
        x += sp * draw(st.sampled_from([4, 10, 50]))
    if draw(st.integers(0, 4)) == 4:
        # equal sections: the split is at the border of two of them
        k, m = draw(st.sampled_from([2, 4])), draw(st.integers(2, 5))
        secs = [sp * (j + i * (m + 9)) for i in range(k) for j in range(m)]
        return {'secs': secs, 'sp': sp, 'frac': draw(st.sampled_from([0.5] if k == 2 else [0.25, 0.5, 0.75]))}
    return {'secs': secs, 'sp': sp, 'frac': draw(st.one_of(st.sampled_from([0.5, 0.25, 0.1, 0.8]), st.integers(1, 99).map(lambda i: i / 100)))}


def check_split(c):
    sp, secs = c['sp'], c['secs']
    T = {'secs': secs, 'vals': [[float(i % 7) for i in range(len(secs))]], 'columns': [['power', 'active']]}
    dev = device('dev', T['columns'], sp, 3 * sp)
    ds = open_dataset({'name': 'gen', 'tz': 'UTC', 'buildings': [{'i': 1, 'apps': [{'type': 'fridge', 'instance': 1, 'meters': [2]}], 'meters': [
        {'m': 1, 'dev': dev, 'up': None, 't': T}, {'m': 2, 'dev': dev, 'up': 1, 't': T}]}]})
    elec = ds.buildings[1].elec
    g = []
    for x in secs:
        if g and x - g[-1][1] <= 3 * sp:
            g[-1][1] = x
        else:
            g.append([x, x])
    total = sum(b - a for a, b in g)
    if total:
        x = (ts_ns(elec.train_test_split(c['frac'])) - ts_ns(ts(0))) / 1e9
        before = sum(max(0, min(b, x) - a) for a, b in g)
        ensure(any(a <= x <= b for a, b in g), 'train_test_split(%r) at %r s is outside of the good sections %r', c['frac'], x, g)
        ensure(abs(before - c['frac'] * total) <= 1, 'train_test_split(%r) at %r s: %r s of %r s lie before it (sections %r)', c['frac'], x, before, total, g)
    for f in (0, 1, 1.5, -0.2):
        ensure(raises(AssertionError, lambda: elec.train_test_split(f)), 'train_test_split(%r) is accepted', f)
    ds.store.close()
    return (max(b - a for a, b in g) > 86400, ['sections %d' % len(g), 'days' if total > 86400 else 'hours'])


SUBS = [Sub('energy', case(), check_energy, quick=170, thorough=5000, shards=7),
        Sub('share', case(share=True), check_share, quick=90, thorough=3000, shards=6),
        Sub('split', case_split(), check_split, quick=150, thorough=5000, shards=2)]
