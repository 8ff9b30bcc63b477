"""C30: what a dataset answers does not depend on what it was asked before."""
import copy
import datetime
import shutil

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from engine import Sub
from support import close, ensure, fresh_path, index_from, isnan, nk, ts, ts_ns
from props.c15_stats_cache import _clear
from props.datasets import device, write
from props.storegen import mk_tf

ID = 'C30'
RULE = ('histories of 3-10 queries and window changes on one open dataset (loads with and without resampling, statistics, activations, '
        'relations between meters, look-ups, groups, descriptions, wiring, cache clearing; arguments given as mutable objects which are used '
        'again); oracle: the same query as the first on a newly opened copy of the dataset with the same window and an empty cache '
        '(differential); afterwards metadata and arguments are compared with copies made before. `models`: a trained '
        'disaggregation model asked for several chunks, together, one at a time, and repeatedly; oracle: copies of the model taken right after '
        'training, one per chunk; inputs compared with copies. Non-trivial: some query comes after another on the same object.')
APPS = ['fridge', 'kettle', 'washing machine', 'television', 'toaster']
COLS = [['power', 'active'], ['power', 'apparent'], ['voltage', '']]
METER_Q = ['load', 'load', 'series', 'all', 'energy', 'energy', 'good', 'dropout', 'full', 'timeframe', 'uptime', 'activations', 'when_on',
           'hist', 'average', 'switch', 'vampire', 'columns', 'label', 'device', 'prop', 'corr', 'upstream', 'thresholds', 'dry', 'node', 'plot']
GROUP_Q = ['load', 'load', 'series', 'all', 'energy', 'energy', 'per_meter', 'fraction', 'good', 'dropout', 'timeframe', 'uptime', 'frame', 'select',
           'select_app', 'lookup', 'labels', 'wiring', 'describe', 'top', 'downstream', 'submetered', 'pairwise', 'when_on', 'sort', 'groupby',
           'union', 'copy', 'simult', 'average', 'repr', 'mains', 'appliances', 'split', 'sum_corr', 'prop_upstream', 'plot', 'plot_good', 'plot_good']


@st.composite
def query(draw, meters, nested):
    k = draw(st.integers(0, 9))
    if k == 9:
        return {'q': 'window', 'w': draw(st.sampled_from([[None, None], [-9.5, 100.5], [20.4, 5000.5], [60.5, None]]))}
    if k == 8:
        return {'q': 'clear', 'on': draw(st.sampled_from(['ds', 'elec', 'meter'])), 'm': draw(st.sampled_from(meters))}
    d = {'sp': draw(st.sampled_from([None, None, 6, 12, 30, 60])), 'ac': draw(st.sampled_from([None, None, 'active', 'apparent', 'best'])),
         'pq': draw(st.sampled_from([None, None, 'power', 'voltage'])), 'sec': draw(st.sampled_from([None, None, 0, 1, 2])),
         'rk': draw(st.sampled_from([None, None, 0, 1])), 'chunk': draw(st.sampled_from([None, None, None, 4])),
         'm': draw(st.sampled_from(meters)), 'o': draw(st.sampled_from(meters)), 'n': draw(st.integers(1, 3)),
         'thr': draw(st.sampled_from([None, 20, 100])), 'app': draw(st.sampled_from(APPS)), 'full': draw(st.integers(0, 4)) == 4, 'pre': draw(st.integers(0, 3)) == 3}
    if k < 4:
        d['q'] = 'm.' + draw(st.sampled_from(METER_Q))
    else:
        d['q'] = 'g.' + draw(st.sampled_from(GROUP_Q))
        d['g'] = draw(st.sampled_from(['elec', 'elec', 'submeters', 'mains'] + (['nested', 'nested'] if nested else [])))
    return d


@st.composite
def case(draw):
    n = draw(st.integers(2, 4))
    nested = draw(st.integers(0, 2)) == 2 and n >= 2
    meters = list(range(1, n + 2))
    tabs = []
    for i in meters:
        rows = draw(st.integers(8, 22))
        gaps = [draw(st.sampled_from([6] * 8 + [12, 31, 60, 300])) for _ in range(rows)]
        hi = draw(st.sampled_from([40, 300, 3000]))
        tabs.append({'gaps': gaps, 'vals': [draw(st.integers(0, hi)) for _ in range(rows)], 'cols': draw(st.sampled_from([1, 1, 2, 3]))})
    # the same few queries come again, among others
    pool = [draw(query(meters, nested)) for _ in range(draw(st.integers(2, 6)))]
    ops = [pool[draw(st.integers(0, len(pool) - 1))] for _ in range(draw(st.integers(3, 10)))]
    return {'tabs': tabs, 'nested': nested, 'ops': ops, 'dis': draw(st.integers(0, 2)) == 2, 'tz': draw(st.sampled_from(['UTC', 'Europe/London', 'America/New_York'])),
            'same': draw(st.integers(0, 2)) == 0, 'dev': [draw(st.sampled_from([[6, 30], [6, 60], [12, 30]])) for _ in meters],
            'two': draw(st.booleans())}


def spec(c):
    ms = []
    for i, t in enumerate(c['tabs']):
        t = dict(t)
        gaps = c['tabs'][0]['gaps'] if c['same'] else t['gaps']
        n = min(len(gaps), len(t['vals']))
        off = 0 if c['same'] else 0.125 * i
        secs = [sum(gaps[:k]) + off for k in range(n)]
        cols = COLS[:t['cols']]
        vals = [[float(v) for v in t['vals'][:n]], [float(v) + 5 for v in t['vals'][:n]], [230.0 + k % 3 for k in range(n)]][:len(cols)]
        sp, msp = c['dev'][i]
        ms.append({'m': i + 1, 'dev': device('dev%d_%d_%d' % (len(cols), sp, msp), cols, sp, msp), 'up': None if i == 0 else 1,
                   't': {'secs': secs, 'vals': vals, 'columns': cols}})
    ids = [m['m'] for m in ms[1:]]
    apps = []
    if c['nested']:
        apps.append({'type': APPS[0], 'instance': 1, 'meters': ids[-2:]})
        ids = ids[:-2]
    apps += [{'type': APPS[1 + k], 'instance': 1, 'meters': [i], 'on_power_threshold': 30 + k} for k, i in enumerate(ids)]
    bs = [{'i': 1, 'meters': ms, 'apps': apps}]
    if c['two']:
        bs.append({'i': 2, 'meters': [dict(m) for m in ms[:2]], 'apps': [{'type': 'kettle', 'instance': 1, 'meters': [2]}]})
    if c.get('dis'):
        ms.append(dict(ms[-1], m=9, extra={'disabled': True}))
    return {'name': 'gen', 'tz': c['tz'], 'buildings': bs}


class Args:
    """mutable argument objects shared by all queries of a history"""

    def __init__(self, tz):
        self.sections = [[mk_tf([-9.5, 40.5, False], tz), mk_tf([60.4, 4000.5, False], tz)], [mk_tf([10.3, 90.5, False], tz)],
                         [mk_tf([-900.5, -800.5, False], tz)]]
        self.rk = [{'how': 'max'}, {'limit': 2}]
        clip = nk('nilmtk.preprocessing.clip').Clip()
        clip.lower, clip.upper = 10, 500
        self.pre = [clip]
        self.before = self.state()

    def state(self):
        return [[[(ts_ns(t.start), ts_ns(t.end), t.include_end) for t in s] for s in self.sections], copy.deepcopy(self.rk), list(map(id, self.pre))]


def canon(x, depth=0):
    if x is None or isinstance(x, (str, bool, bytes)):
        return x
    if isinstance(x, (float, np.floating)):
        return 'nan' if isnan(x) else float(x)
    if isinstance(x, (int, np.integer)):
        return float(x)
    if x is pd.NaT:
        return 'nat'
    if isinstance(x, (datetime.timedelta, np.timedelta64)):
        return float(pd.Timedelta(x).total_seconds())
    if isinstance(x, (pd.Timestamp, datetime.datetime, np.datetime64)):
        return ['t', ts_ns(pd.Timestamp(x))]
    if isinstance(x, nk.TimeFrame):
        return ['tf', canon(x.start), canon(x.end), bool(x.include_end), bool(x.empty)]
    if isinstance(x, pd.DataFrame):
        return ['df', [canon(c) for c in x.columns], [canon(i) for i in x.index], [[canon(v) for v in x.iloc[:, j].values] for j in range(x.shape[1])]]
    if isinstance(x, pd.Series):
        return ['s', [canon(i) for i in x.index], [canon(v) for v in x.values]]
    if isinstance(x, (nk.ElecMeter, nk.MeterGroup)):
        return ['obj', str(x.identifier), sorted(repr(a) for a in x.appliances)]
    if isinstance(x, nk('nilmtk.results').Results):
        return ['results', canon(x._data.sort_index())]
    if isinstance(x, dict):
        return ['d', sorted(([canon(k), canon(v)] for k, v in x.items()), key=repr)]
    if isinstance(x, (set, frozenset)):
        return ['set', sorted((canon(v) for v in x), key=repr)]
    if hasattr(x, '__iter__'):
        return ['l', [canon(v) for v in x]]
    return repr(x)


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return close(a, b, rtol=1e-9, atol=1e-9)
    return type(a) is type(b) and a == b


def ask(ds, q, args):
    """the canonical answer"""
    try:
        return canon(_ask(ds, q, args))
    except Exception as e:
        return ['raises', type(e).__name__]


def _ask(ds, q, args):
    el = ds.buildings[1].elec
    kind, name = q['q'].split('.')
    load = {}
    if q['sp']:
        load['sample_period'] = q['sp']
        if q['rk'] is not None:
            load['resample_kwargs'] = args.rk[q['rk']]
    if q['pre']:
        load['preprocessing'] = args.pre
    sec = {'sections': args.sections[q['sec']]} if q['sec'] is not None else {}
    cols = {}
    if q['ac']:
        cols['ac_type'] = q['ac']
    if q['pq']:
        cols['physical_quantity'] = q['pq']
    full = {'full_results': True} if q['full'] else {}
    other = el[q['o']]
    x = el[q['m']] if kind == 'm' else {'elec': lambda: el, 'submeters': el.submeters, 'mains': el.mains,
                                        'nested': lambda: [m for m in el.meters if isinstance(m, nk.MeterGroup)][0]}[q['g']]()
    if kind == 'g' and isinstance(x, nk.ElecMeter):
        x = nk.MeterGroup([x])
    chunk = {'chunksize': q['chunk']} if q['chunk'] and not q['sp'] and kind == 'm' else {}
    if name == 'load':
        return list(x.load(**load, **sec, **cols, **chunk))
    if name == 'series':
        return list(x.power_series(**load, **sec, **({'ac_type': q['ac']} if q['ac'] else {}), **chunk))
    if name == 'all':
        return x.power_series_all_data(**load, **sec, **chunk)
    if name == 'energy':
        return x.total_energy(**sec, **({'ac_type': q['ac']} if q['ac'] else {}), **full)
    if name == 'good':
        g = x.good_sections(**sec)
        return [(t.start, t.end) for t in g]
    if name == 'full':
        return x.good_sections(full_results=True, **sec)
    if name == 'dropout':
        return x.dropout_rate(ignore_gaps=not q['full'], **sec)
    if name == 'timeframe':
        return x.get_timeframe()
    if name == 'uptime':
        return x.uptime()
    if name == 'activations':
        return x.get_activations(**({'on_power_threshold': q['thr']} if q['thr'] else {}))
    if name == 'when_on':
        return list(x.when_on(**({'on_power_threshold': q['thr']} if q['thr'] else {}), **load, **sec))
    if name == 'hist':
        return x.activity_histogram(period='D', bin_duration='h')
    if name == 'average':
        return x.average_energy_per_period(offset_alias='D', **({'ac_type': q['ac']} if q['ac'] else {}))
    if name == 'switch':
        return x.switch_times(threshold=q['thr'] or 40)
    if name == 'vampire':
        return x.vampire_power()
    if name == 'columns':
        return [x.available_columns(), x.available_ac_types('power'), x.available_physical_quantities(), x.available_power_ac_types()]
    if name == 'label':
        return [x.label(), x.label(pretty=False), repr(x), x.matches({'instance': q['o']}), x.dominant_appliance(), x.is_site_meter()]
    if name == 'device':
        return [x.device, _meta(x), x.sample_period(), x.key]
    if name == 'dry':
        return [{k: v for k, v in d.items() if k != 'device'} for d in (x.dry_run_metadata(), x.get_metadata())]
    if name == 'node':
        S = nk('nilmtk.stats')
        n = nk('nilmtk.preprocessing').Clip(x.get_source_node(**sec, **cols))
        n = [S.TotalEnergy, S.GoodSections, S.DropoutRate][q['n'] - 1](n)
        n.run()
        return [n.results, sorted(n.get_metadata()), sorted(n.dry_run_metadata())]
    if name in ('plot', 'plot_good'):
        return _plot(x, name, q, sec)
    if name == 'thresholds':
        return [x.on_power_threshold(), x.min_on_duration(), x.min_off_duration()]
    if name == 'prop':
        return x.proportion_of_energy(other)
    if name == 'corr':
        return x.correlation(other, **load)
    if name == 'upstream':
        return [x.upstream_meter(), x.proportion_of_upstream()]
    if name == 'per_meter':
        return [x.energy_per_meter(), x.energy_per_meter(per_period='D', mains=el.mains(), use_meter_labels=q['full'])]
    if name == 'fraction':
        return x.fraction_per_meter()
    if name == 'frame':
        return x.dataframe_of_meters(**load)
    if name == 'select':
        return x.select(instance=q['o']).meters
    if name == 'select_app':
        return [x.select_using_appliances(type=q['app']).meters, x.select_using_appliances(type=[q['app'], 'kettle']).meters]
    if name == 'lookup':
        return [x[q['app']], x[q['o']], x[q['app'], 1]]
    if name == 'labels':
        return [x.get_labels([m.identifier for m in x.meters]), x.label() if q['g'] != 'elec' else None]
    if name == 'wiring':
        g = x.wiring_graph()
        return sorted((str(a.identifier), str(b.identifier)) for a, b in g.edges())
    if name == 'describe':
        return x.describe(compute_expensive_stats=q['full'])
    if name == 'top':
        return x.select_top_k(k=q['n'], group_remainder=q['full']).meters
    if name == 'downstream':
        return [x.meters_directly_downstream_of_mains(), x.mains(), x.submeters().meters]
    if name == 'submetered':
        return x.proportion_of_energy_submetered()
    if name == 'pairwise':
        return x.pairwise_correlation()
    if name == 'sort':
        y = copy.copy(x)
        y.meters = list(x.meters)
        y.sort_meters()
        return y.meters
    if name == 'groupby':
        return sorted(map(repr, x.groupby('type').meters))
    if name == 'union':
        return x.union(el.submeters()).meters
    if name == 'copy':
        return nk.MeterGroup.from_other_metergroup(x, ds).meters
    if name == 'simult':
        return x.simultaneous_switches(threshold=q['thr'] or 40)
    if name == 'repr':
        return [repr(x), str(x.identifier), x.instance(), x.building(), x.dataset(), x.sample_period()]
    if name == 'mains':
        return [x.mains(), x.upstream_meter(), x.is_site_meter()]
    if name == 'appliances':
        return sorted(map(repr, x.appliances))
    if name == 'split':
        return x.train_test_split(train_fraction=0.5)
    if name == 'sum_corr':
        return x.correlation_of_sum_of_submeters_with_mains()
    if name == 'prop_upstream':
        return x.proportion_of_upstream_total_per_meter()
    raise AssertionError(name)


def _plot(x, name, q, sec):
    import matplotlib.pyplot as p
    p.close('all')
    try:
        if name == 'plot':
            # pandas makes 10^8 ticks for the line of a single point
            for m in (x.all_meters() if isinstance(x, nk.MeterGroup) else [x]):
                if 0 < sum(map(len, m.power_series(**({'sections': sec['sections'][:1]} if sec else {})))) < 4:
                    return None
            ax = x.plot(width=20, **({'timeframe': sec['sections'][0]} if sec else {}))
            if ax is None:
                return None
            return [[l.get_label(), list(map(str, l.get_xdata())), np.ma.filled(np.ma.masked_invalid(l.get_ydata()), np.nan)] for l in ax.lines]
        ax = x.plot_good_sections(include_disabled_meters=q['full'], label_func=['instance', 'label', None][q['n'] - 1], load_kwargs=dict(sec))
        f = ax.yaxis.get_major_formatter()
        return [[str(f(y, 0)) for y in ax.get_yticks()], sorted(map(list, (r.get_bbox().extents for r in ax.patches)))]
    finally:
        p.close('all')


def _meta(m):
    # the description of the meter's model is fetched when it is first needed
    return {k: v for k, v in copy.deepcopy(m.metadata).items() if k != 'device'}


def snapshot(ds):
    out = [copy.deepcopy(ds.metadata), copy.deepcopy(nk.ElecMeter.meter_devices)]
    for b in ds.buildings.values():
        out.append(copy.deepcopy(b.metadata))
        for m in b.elec.all_meters():
            for x in (m.meters if isinstance(m, nk.MeterGroup) else [m]):
                out.append((str(x.identifier), _meta(x), [copy.deepcopy(a.metadata) for a in x.appliances]))
        out.append([[str(m.identifier) for m in b.elec.meters], [str(m.identifier) for m in b.elec.disabled_meters], b.elec.name])
    return out


def check(c):
    path = write(spec(c), dtype='float64')
    tz = c['tz']

    def window(ds, w):
        ds.set_window(*[None if x is None else ts(x, None) for x in w])
    # what a newly opened dataset answers, per window
    fresh, w, plan = {}, [None, None], []
    for q in c['ops']:
        if q['q'] == 'window':
            w = q['w']
        key = repr((w, q))
        plan.append((q, key))
        if q['q'] in ('window', 'clear') or key in fresh:
            continue
        _clear()
        p2 = fresh_path('.h5')
        shutil.copy(path, p2)
        d2 = nk.DataSet(p2)
        if w != [None, None]:
            window(d2, w)
        fresh[key] = ask(d2, q, Args(tz))
        d2.store.close()
    _clear()
    nk.ElecMeter.meter_devices.clear()
    ds = nk.DataSet(path)
    before = snapshot(ds)
    args = Args(tz)
    n, raised, done = 0, 0, []
    for i, (q, key) in enumerate(plan):
        done.append(q['q'])
        if q['q'] == 'window':
            window(ds, q['w'])
        elif q['q'] == 'clear':
            {'ds': ds.clear_cache, 'elec': ds.buildings[1].elec.clear_cache, 'meter': lambda: ds.buildings[1].elec[q['m']].clear_cache()}[q['on']]()
        else:
            got = ask(ds, q, args)
            ensure(same(got, fresh[key]), 'after %r, query %r answers %r; asked first, on a new copy: %r', c['ops'][:i], q, got, fresh[key])
            n += 1
            raised += got[:1] == ['raises'] if isinstance(got, list) else 0
    ensure(args.state() == args.before, 'queries changed their arguments from %r to %r', args.before, args.state())
    ensure(repr(snapshot(ds)) == repr(before), 'queries %r changed the metadata from %r to %r', done, before, snapshot(ds))
    ds.store.close()
    return (n - raised >= 2, ['some refused'] if raised else [])


# -------------------------------------------------------------------- models
@st.composite
def switching(draw, n, lo, hi):
    level, v, on = draw(st.integers(lo, hi)), [], False
    while len(v) < n:
        v += [float(level if on else 0)] * draw(st.integers(3, 9))
        on = not on
    return v[:n]


@st.composite
def case_models(draw):
    k = draw(st.integers(1, 3))
    n = draw(st.integers(60, 80))
    apps = [draw(switching(n, *r)) for r in [(100, 300), (500, 900), (1500, 2500)][:k]]
    chunks = []
    for _ in range(draw(st.integers(1, 4))):
        a = draw(st.integers(0, n - 20))
        b = draw(st.sampled_from([a + 2, a + 10, n]))
        chunks.append([a, b, draw(st.sampled_from([0, 0, 40, 700]))])
    return {'alg': draw(st.sampled_from(['Mean', 'CO', 'FHMMExact', 'Hart85', 'Hart85'])), 'apps': apps, 'chunks': chunks,
            'order': draw(st.lists(st.lists(st.integers(0, len(chunks) - 1), min_size=1, max_size=3), min_size=2, max_size=4)),
            'seed': draw(st.integers(0, 99)), 'ac': draw(st.sampled_from(['active', 'apparent']))}


def _frame(v, start, ac):
    return pd.DataFrame(np.array(v, dtype='float64').reshape(-1, 1), index=index_from([6 * (start + i) for i in range(len(v))]),
                        columns=pd.MultiIndex.from_tuples([('power', ac)]))


def check_models(c):
    D = nk('nilmtk.disaggregate')
    np.random.seed(c['seed'])
    n = len(c['apps'][0])
    total = [sum(v[i] for v in c['apps']) for i in range(n)]
    names = APPS[:len(c['apps'])]
    fit = [[_frame(total, 0, c['ac'])], [(a, [_frame(v, 0, c['ac'])]) for a, v in zip(names, c['apps'])]]
    kept = copy.deepcopy(fit)
    m = getattr(D, c['alg'])({})
    try:
        m.partial_fit(*fit)
    except Exception:
        if c['alg'] == 'Hart85':        # no pair of events to learn from
            return (False, ['untrained'])
        raise
    ensure(same(canon(fit), canon(kept)), '%s: training changed its input', c['alg'])
    frames = [_frame([x + add for x in total[a:b]], a, c['ac']) for a, b, add in c['chunks']]
    alone = []
    for f in frames:
        r = copy.deepcopy(m).disaggregate_chunk([f.copy()])
        ensure(len(r) == 1, '%s: %d answers for one chunk', c['alg'], len(r))
        alone.append(canon(r[0]))
    for i, order in enumerate(c['order']):
        ask_ = [frames[k] for k in order]
        got = m.disaggregate_chunk(ask_)
        ensure(len(got) == len(order), '%s: %d answers for %d chunks', c['alg'], len(got), len(order))
        for k, g in zip(order, got):
            ensure(same(canon(g), alone[k]), '%s: chunk %d, asked with %r after %r, gives %r; alone, on the newly trained model: %r',
                   c['alg'], k, order, c['order'][:i], canon(g), alone[k])
        ensure(all(a is b for a, b in zip(ask_, [frames[k] for k in order])), 'list of chunks was changed')
        for k in order:
            a, b, add = c['chunks'][k]
            ensure(same(canon(frames[k]), canon(_frame([x + add for x in total[a:b]], a, c['ac']))), '%s: disaggregation changed its input', c['alg'])
    return (True, [c['alg']])


SUBS = [Sub('history', case(), check, quick=480, thorough=9000, shards=6),
        Sub('models', case_models(), check_models, quick=160, thorough=3000, shards=2)]
