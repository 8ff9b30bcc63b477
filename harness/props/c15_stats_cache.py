"""C15: cached statistics are indistinguishable from freshly computed ones."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from engine import Sub
from support import close, ensure, nk, ts, ts_ns, isnan
from props.datasets import device, one_meter, open_dataset
from props.storegen import mk_tf

ID = 'C15'
RULE = ('histories of 2-8 statistics queries (total_energy, good_sections, dropout_rate; whole meter or generated '
        'sections; with or without AC type; under changing windows; after clear_cache) over two meters in each of two datasets with '
        'the same building and meter numbers; every answer is compared with the answer of an empty cache (differential). '
        '`ends`: two queries for the same section, whose end is a sample, including or excluding its end (in `history` no section ends on a '
        'sample). `stale`: the tables are replaced and the cache is cleared through the dataset, a group, a nested group or the meter: the answers follow the new '
        'tables. Non-trivial: some query repeats the meter and statistic of an earlier one.')
COLS = [['power', 'active'], ['power', 'apparent'], ['voltage', '']]


@st.composite
def case(draw):
    tables = []
    for _ in range(4):
        n = draw(st.integers(6, 14))
        gaps = [draw(st.sampled_from([6, 6, 6, 12, 60, 300])) for _ in range(n)]
        tables.append({'gaps': gaps, 'nan': draw(st.lists(st.integers(0, n - 1), max_size=2)), 'off': draw(st.integers(0, 100))})
    same = draw(st.booleans())
    qs = []
    pool = [[-9.5, 20.5], [20.5, 50.5], [10.5, 33.5], [-9.5, 5000.5], [400.5, 900.5], [50.5, 80.5], [-500.5, -9.5],
            [-9.5, 26.5], [-9.5, 32.5], [10.5, 45.5], [20.5, 57.5], [14.5, 33.5], [2.5, 20.5]]
    # a few of them per history, so that the same ones are asked for again
    pool = [pool[i] for i in sorted(draw(st.lists(st.integers(0, len(pool) - 1), min_size=3, max_size=5, unique=True)))]
    nds, nm = draw(st.sampled_from([[0, 1], [0, 2], [1, 1], [1, 2]]))
    stats = draw(st.sampled_from([['total_energy'], ['good_sections'], ['dropout_rate'], ['total_energy', 'total_energy', 'good_sections', 'dropout_rate']]))
    for _ in range(draw(st.integers(2, 8))):
        stat = draw(st.sampled_from(stats))
        sec = draw(st.one_of(st.none(), st.lists(st.integers(0, len(pool) - 1), min_size=1, max_size=3, unique=True)))
        if sec is not None:
            sec = sorted(sec, key=lambda i: pool[i])
            keep = []
            for i in sec:
                if not keep or pool[i][0] >= pool[keep[-1]][1] + (stat == 'good_sections'):
                    keep.append(i)
            sec = [pool[i] for i in keep]
        qs.append({'ds': draw(st.integers(0, nds)), 'm': draw(st.integers(1, nm)), 'stat': stat, 'sec': sec,
                   'ac': draw(st.sampled_from([None, None, 'active', 'apparent', 'best'])),
                   'pq': draw(st.sampled_from([None, None, None, 'power'])),
                   'win': draw(st.sampled_from([None, None, None, [-9.5, 45.5], [20.5, 5000.5], [-900, -800]])),
                   'clear': draw(st.integers(0, 9)) == 0, 'full': draw(st.integers(0, 3)) == 0})
    return {'tables': tables, 'same': same, 'qs': qs, 'names': draw(st.sampled_from([['A', 'B'], ['A', 'A']]))}


def check(c):
    dss = []
    for d in range(2):
        meters = []
        for m in range(2):
            t = c['tables'][2 * d + m]
            if c['same']:
                gaps = c['tables'][m]['gaps']
            else:
                gaps = t['gaps']
            secs = [sum(gaps[:i]) for i in range(len(gaps))]
            vals = [[float(10 + t['off'] + 3 * i) for i in range(len(secs))], [float(20 + t['off'] + 5 * i) for i in range(len(secs))],
                    [None if i in t['nan'] else 230.0 for i in range(len(secs))]]
            meters.append({'m': m + 1, 'dev': device('dev', COLS, 6, 30), 'up': None if m == 0 else 1, 't': {'secs': secs, 'vals': vals, 'columns': COLS, 'nan': []}})
        dss.append(open_dataset({'name': c['names'][d], 'tz': 'UTC', 'buildings': [{'i': 1, 'meters': meters, 'apps': []}]}))

    def ask(q):
        ds = dss[q['ds']]
        meter = [m for m in ds.buildings[1].elec.meters if m.instance() == q['m']][0]
        ds.store.window = mk_tf((q['win'] or [None, None]) + [False])
        kw = {}
        if q['sec'] is not None:
            kw['sections'] = [mk_tf(s + [False]) for s in q['sec']]
        if q['ac'] and q['stat'] != 'dropout_rate':
            kw['ac_type'] = q['ac']
        if q['pq']:
            kw['physical_quantity'] = q['pq']
        if q['stat'] == 'dropout_rate':
            kw['ignore_gaps'] = False
        try:
            r = getattr(meter, q['stat'])(**kw)
        except Exception as e:
            return ['raises', type(e).__name__]
        if q['stat'] == 'good_sections':
            return [[ts_ns(x.start), ts_ns(x.end)] for x in r]
        if isinstance(r, pd.Series):
            return {k: float(v) for k, v in sorted(r.items()) if v != 0}
        return None if isnan(r) else float(r)

    refs = []
    for q in c['qs']:
        _clear()
        refs.append(ask(q))
    _clear()
    seen = set()
    rep = False
    for i, (q, exp) in enumerate(zip(c['qs'], refs)):
        if q['clear']:
            dss[q['ds']].clear_cache()
        got = ask(q)
        ensure(same(got, exp), 'query %d of %r answers %r, with an empty cache %r', i, c['qs'][:i + 1], got, exp)
        k = (q['ds'], q['m'], q['stat'])
        rep = rep or k in seen
        seen.add(k)
    for ds in dss:
        ds.store.close()
    return (rep, ['same times' if c['same'] else 'other times'])


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float):
        return close(a, b)
    return a == b


def _clear():
    import nilmtk
    store = nilmtk.STATS_CACHE.store
    for grp in list(store.root._v_groups):
        store.remove(grp)


@st.composite
def case_ends(draw):
    n = draw(st.integers(4, 10))
    return {'gaps': [draw(st.sampled_from([6, 6, 12, 60])) for _ in range(n)], 'end': draw(st.integers(1, n - 1)),
            'incl': [draw(st.booleans()), draw(st.booleans())], 'stat': draw(st.sampled_from(['total_energy', 'good_sections']))}


def check_ends(c):
    secs = [sum(c['gaps'][:i]) for i in range(len(c['gaps']))]
    t = {'secs': secs, 'vals': [[100.0 + i for i in range(len(secs))]], 'columns': [['power', 'active']]}
    ds, meter = one_meter(t, dtype='float64')

    def ask(incl):
        r = getattr(meter, c['stat'])(sections=[mk_tf([secs[0], secs[c['end']], incl])])
        if c['stat'] == 'good_sections':
            return [[ts_ns(x.start), ts_ns(x.end)] for x in r]
        return {k: float(v) for k, v in r.items() if v}
    fresh = {}
    for incl in (False, True):
        _clear()
        fresh[incl] = ask(incl)
    _clear()
    first, second = c['incl']
    got = ask(first)
    ensure(same(got, fresh[first]), 'answer %r, with an empty cache %r', got, fresh[first])
    got = ask(second)
    stale = first != second and same(got, fresh[first])
    ensure(same(got, fresh[second]), '%s of the section up to sample %d (include_end=%r) after the same with include_end=%r: %r, with an empty cache %r',
           c['stat'], c['end'], second, first, got, fresh[second], finding='cache-include-end' if stale else None)
    ds.store.close()
    return True


# -- clear_cache really clears: the data behind the cache change
@st.composite
def case_stale(draw):
    n = draw(st.integers(2, 5))
    gaps = lambda: [draw(st.sampled_from([6, 6, 6, 12, 60])) for _ in range(draw(st.integers(5, 9)))]
    return {'old': [gaps() for _ in range(n)], 'new': [gaps() for _ in range(n)], 'nested': draw(st.booleans()) and n > 2, 'buildings': draw(st.integers(1, 2)),
            'stats': sorted(draw(st.sets(st.sampled_from(['total_energy', 'good_sections', 'dropout_rate']), min_size=1))),
            'by': draw(st.sampled_from(['ds', 'elec', 'group', 'meter'])), 'which': draw(st.integers(0, n - 1)), 'sections': draw(st.booleans())}


def check_stale(c):
    n = len(c['old'])
    cols = COLS[:2]

    def tab(gaps, off):
        secs = [sum(gaps[:i]) for i in range(len(gaps))]
        return {'secs': secs, 'vals': [[float(10 + off + 3 * i) for i in range(len(secs))], [float(30 + off + 5 * i) for i in range(len(secs))]], 'columns': cols, 'nan': []}
    bs = []
    for b in range(1, c['buildings'] + 1):
        ms = [{'m': i + 1, 'dev': device('dev', cols, 6, 30), 'up': None if i == 0 else 1, 't': tab(g, 100 * i + 7 * b)} for i, g in enumerate(c['old'])]
        apps = [{'type': 'washing machine', 'instance': 1, 'meters': [n - 1, n]}] if c['nested'] else []
        bs.append({'i': b, 'meters': ms, 'apps': apps})
    _clear()
    ds = open_dataset({'name': 'gen', 'tz': 'UTC', 'buildings': bs})
    meters = {(b, m.instance()): m for b in ds.buildings for e in ds.buildings[b].elec.meters for m in (e.meters if isinstance(e, nk.MeterGroup) else [e])}

    def ask(m):
        kw = {'sections': [mk_tf([-5, 10000, False])]} if c['sections'] else {}
        out = []
        for stat in c['stats']:
            r = getattr(m, stat)(**kw)
            out.append([[ts_ns(x.start), ts_ns(x.end)] for x in r] if stat == 'good_sections' else
                       {k: float(v) for k, v in sorted(r.items())} if isinstance(r, pd.Series) else None if isnan(r) else float(r))
        return out
    for m in meters.values():
        ask(m)
    path = ds.store.store.filename
    ds.store.close()
    store = nk.HDFDataStore(path, 'a')
    for (b, i), m in meters.items():
        new = tab(c['new'][i - 1], 1000 + 50 * i + b)
        df = pd.DataFrame(np.array(new['vals']).T, index=pd.DatetimeIndex([ts(x) for x in new['secs']], tz='UTC'), columns=pd.MultiIndex.from_tuples([tuple(x) for x in cols], names=['physical_quantity', 'type']))
        store.put(m.key, df)
    store.close()
    ds.store.open('r')
    elec = ds.buildings[1].elec
    entry = elec.meters[c['which'] % len(elec.meters)]
    if c['by'] == 'ds':
        ds.clear_cache()
        cleared = list(meters)
    elif c['by'] == 'elec':
        elec.clear_cache()
        cleared = [k for k in meters if k[0] == 1]
    elif c['by'] == 'group':
        nk.MeterGroup([entry]).clear_cache()
        cleared = [(1, m.instance()) for m in (entry.meters if isinstance(entry, nk.MeterGroup) else [entry])]
    else:
        entry.clear_cache()
        cleared = [(1, m.instance()) for m in (entry.meters if isinstance(entry, nk.MeterGroup) else [entry])]
    got = {k: ask(meters[k]) for k in cleared}
    _clear()
    for k in cleared:
        exp = ask(meters[k])
        ensure(all(same(x, y) for x, y in zip(got[k], exp)), '%r of meter %r after its data were replaced and clear_cache() of the %s: %r, with an empty cache %r', c['stats'], k, c['by'], got[k], exp)
    ds.store.close()
    return (True, [c['by'], 'nested' if c['nested'] else 'flat'])


SUBS = [Sub('history', case(), check, quick=240, thorough=4000, shards=8),
        Sub('ends', case_ends(), check_ends, quick=40, thorough=400, shards=1),
        Sub('stale', case_stale(), check_stale, quick=60, thorough=600, shards=4)]
