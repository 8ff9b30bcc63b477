"""C24: the experiment API (nilmtk.api.API)."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from engine import Sub
from support import EPOCH, ensure, ensure_array, ensure_close, ensure_index, isnan, nk, ns, ts, ts_ns
from props.datasets import device, write

ID = 'C24'
RULE = ('A generated experiment: 1-2 datasets of 1-2 buildings with gaps and NaNs, train and test windows, joint or chunk-wise, real or artificial mains, '
        'AC types, metrics; recording algorithms (with and without chunk-wise training, epochs, pretrained, padded or without timestamps) next to Mean. '
        'Oracle: the frames every algorithm must be handed, from the meters\' own data in that window by set intersection of timestamps, and each '
        'error by the formula of the metric. Non-trivial: at least one error was computed from two or more samples.')
APPS = ['fridge', 'kettle', 'light']
METRICS = ['mae', 'rmse', 'f1score', 'nde', 'nep', 'relative_error', 'r2score', 'no such metric']


@st.composite
def table(draw, acs, n, nan, tidy):
    start = 0 if tidy else draw(st.sampled_from([0, 0, 0, 6, 12]))
    secs, x = [], start
    for i in range(n):
        secs.append(x)
        x += 6 if tidy else draw(st.sampled_from([6] * 9 + [12, 60]))
    hi = draw(st.sampled_from([40, 300, 2500]))
    on = draw(st.booleans())
    vals = []
    for _ in acs:
        v = [float(draw(st.integers(0, hi))) if on or draw(st.integers(0, 3)) else 0.0 for _ in secs]
        if nan:
            v = [None if draw(st.integers(0, 11)) == 0 else y for y in v]
        vals.append(v)
    return {'secs': secs, 'vals': vals, 'columns': [['power', a] for a in acs]}


@st.composite
def case(draw):
    nd = draw(st.sampled_from([1, 1, 2]))
    tidy = draw(st.integers(0, 4)) == 4
    nan = not tidy and draw(st.integers(0, 2)) == 0
    sets = []
    macs = draw(st.sampled_from([['active'], ['active'], ['apparent', 'active']]))
    for d in range(nd):
        bs = []
        for b in range(draw(st.sampled_from([1, 1, 2]))):
            ms = [draw(table(macs, 40 if tidy else draw(st.integers(20, 40)), nan, tidy))]
            two = draw(st.integers(0, 7)) == 5
            subs = [draw(table(['active'], 40 if tidy else draw(st.integers(18, 40)), nan, tidy)) for _ in APPS]
            bs.append({'i': b + 1, 'main': ms[0], 'main2': draw(table(macs, 30, nan, tidy)) if two else None, 'subs': subs})
        sets.append({'name': 'ds%d' % d, 'b': bs, 'tz': draw(st.sampled_from(['UTC', 'UTC', 'Europe/London']))})

    def windows():
        out = {}
        for d, s in enumerate(sets):
            if d and draw(st.booleans()):
                continue
            w = {}
            for b in s['b']:
                if w and draw(st.integers(0, 2)) == 0:
                    continue
                a = draw(st.sampled_from([0, 0, 12, 30, 45]))
                w[b['i']] = [a, a + draw(st.sampled_from([42, 60, 90, 150, 300]))]
            out[str(d)] = [[k, v] for k, v in (w.items() if draw(st.booleans()) else reversed(list(w.items())))]
        return out
    algs = []
    for k in range(draw(st.integers(1, 2))):
        algs.append({'chunk': draw(st.booleans()), 'pre': draw(st.sampled_from([None, None, None, 'x', ''])), 'epochs': draw(st.sampled_from([None, None, 1, 3])),
                     'w': [draw(st.sampled_from([0.0, 0.25, 0.5, 1.0])) for _ in APPS], 'shape': draw(st.sampled_from(['index', 'range', 'pad']))})
    mets = draw(st.lists(st.sampled_from(METRICS), min_size=1, max_size=4, unique=True))
    apps = list(draw(st.permutations(APPS)))[:draw(st.integers(1, 3))]
    return {'sets': sets, 'train': windows(), 'test': windows(), 'algs': algs, 'metrics': mets, 'apps': apps, 'chunk': draw(st.sampled_from([None, None, 5, 8, 13, 100])),
            'art': draw(st.booleans()), 'rate': draw(st.sampled_from([6, 6, 12])), 'mac': draw(st.sampled_from(macs)), 'nan': nan, 'site': draw(st.integers(0, 7)) == 5,
            'show': draw(st.integers(0, 9)) == 5, 'keep': tidy and draw(st.booleans())}


class Spy:
    """an algorithm which records what it is given"""

    def __init__(self, a, apps):
        self.MODEL_NAME = 'spy'
        self.a, self.apps = a, apps
        self.chunk_wise_training = a['chunk']
        self.load_model_path = a['pre']
        if a['epochs'] is not None:
            self.n_epochs = a['epochs']
        self.fits, self.tests, self.rounds = [], [], []

    def partial_fit(self, mains, apps, current_epoch=None, **kw):
        self.rounds.append([current_epoch, getattr(self, 'n_epochs', None)])
        self.fits.append(([m.copy() for m in mains], [(a, [f.copy() for f in fs]) for a, fs in apps]))

    def disaggregate_chunk(self, mains):
        self.tests.append([m.copy() for m in mains])
        return [self.answer(m) for m in mains]

    def answer(self, m):
        v = m.values[:, 0] if m.shape[1] else np.zeros(len(m))
        out = pd.DataFrame({a: v * w + i for i, (a, w) in enumerate(zip(self.apps, self.a['w']))}, index=m.index if self.a['shape'] == 'index' else range(len(m)), dtype='float32')
        if self.a['shape'] == 'pad':
            out = pd.concat([out, pd.DataFrame([[7.0] * len(self.apps)] * 3, columns=self.apps, dtype='float32')])
        return out


def store(s):
    bs = []
    for b in s['b']:
        ms = [{'m': 1, 'dev': device('main', b['main']['columns'], 6, 30), 'up': None, 't': b['main']}]
        if b['main2']:
            ms.append({'m': 9, 'dev': device('main', b['main']['columns'], 6, 30), 'up': None, 't': b['main2']})
        for i, t in enumerate(b['subs']):
            ms.append({'m': i + 2, 'dev': device('plug', t['columns'], 6, 30), 'up': 1, 't': t})
        bs.append({'i': b['i'], 'meters': ms, 'apps': [{'type': a, 'instance': 1, 'meters': [i + 2]} for i, a in enumerate(APPS)]})
    return write({'name': s['name'], 'tz': s['tz'], 'buildings': bs}, dtype='float64')


def wall(sec, tz):
    return str(ts(sec).tz_convert(tz).tz_localize(None))


def params(c, paths, ws):
    return {c['sets'][int(d)]['name']: {'path': paths[int(d)], 'buildings': {
        b: {'start_time': wall(w[0], c['sets'][int(d)]['tz']), 'end_time': wall(w[1], c['sets'][int(d)]['tz'])} for b, w in bs}} for d, bs in ws.items()}


def pairs(f):
    """{ns: value} of a one-column frame"""
    if f.shape[1] == 0:
        return {}
    ensure(f.shape[1] == 1, 'frame with columns %r', list(f.columns))
    return dict(zip(ns(f.index), f.values[:, 0].tolist()))


def valid(f):
    return {t: v for t, v in pairs(f).items() if not isnan(v)}


def batches(c, paths, ws, chunked, dirty):
    """[(dataset name, building, chunk number, mains {ns: v}, [{ns: v}])]"""
    out = []
    for d, bs in ws.items():
        s = c['sets'][int(d)]
        for b, w in bs:
            ds = nk.DataSet(paths[int(d)])
            ds.set_window(start=wall(w[0], s['tz']), end=wall(w[1], s['tz']))
            elec = ds.buildings[b].elec
            kw = {'chunksize': c['chunk']} if chunked else {}
            kw.update(physical_quantity='power', sample_period=c['rate'])
            its = [elec[a].load(ac_type=['active'], **kw) for a in c['apps']]
            lo, hi = ts_ns(ts(w[0])), ts_ns(ts(w[1]))
            for n, m in enumerate(elec.mains().load(ac_type=[c['mac']], **kw)):
                raw = [m] + [next(i, pd.DataFrame()) for i in its]
                if not chunked and any(f.shape[1] == 0 for f in raw):
                    return None             # a meter without any data in the window
                if not all(valid(f) == pairs(f) and list(pairs(f)) == list(pairs(raw[0])) for f in raw):
                    dirty.append(True)
                m, ap = valid(raw[0]), [valid(f) for f in raw[1:]]
                common = [t for t in m if all(t in a for a in ap)]
                ensure(all(lo - c['rate'] * 10 ** 9 < t < hi for t in common), 'samples outside the window %r', w)
                ap = [{t: a[t] for t in common} for a in ap]
                m = {t: sum(a[t] for a in ap) if c['art'] else m[t] for t in common}
                out.append((s['name'], b, n, m, ap))
                if not chunked:
                    break
            ds.store.close()
    return out


def same(got, exp, what):
    """a frame against {ns: value}"""
    ensure_index(got.index, [pd.Timestamp(t, unit='ns', tz='UTC') for t in exp], what)
    if exp:
        ensure_array(got.values, np.array(list(exp.values())).reshape(-1, 1), what, rtol=1e-5, atol=1e-4)


def loss(name, g, p):
    n = len(g)
    if name == 'mae':
        return sum(abs(a - b) for a, b in zip(g, p)) / n
    if name == 'rmse':
        return math.sqrt(sum((a - b) ** 2 for a, b in zip(g, p)) / n)
    if name == 'f1score':
        tp = sum(1 for a, b in zip(g, p) if a >= 10 and b >= 10)
        fx = sum(1 for a, b in zip(g, p) if (a >= 10) != (b >= 10))
        return 2 * tp / (2 * tp + fx) if tp else 0.0
    if name == 'relative_error':
        return sum(abs(a - b) / (1 + b) for a, b in zip(g, p)) / n
    if name == 'nde':
        return math.sqrt(sum((a - b) ** 2 for a, b in zip(g, p)) / sum(a * a for a in g)) if any(g) else None
    if name == 'nep':
        return sum(abs(a - b) for a, b in zip(g, p)) / sum(g) if any(g) else None
    m = sum(g) / n
    ss = sum((a - m) ** 2 for a in g)
    return 1 - sum((a - b) ** 2 for a, b in zip(g, p)) / ss if ss > 1e-6 and n > 1 else None


def check(c):
    api, D = nk('nilmtk.api'), nk('nilmtk.disaggregate')
    paths = [store(s) for s in c['sets']]
    chunked = bool(c['chunk'])
    dirty = []
    joint_train = batches(c, paths, c['train'], False, dirty)
    train_c = batches(c, paths, c['train'], True, dirty) if chunked else None
    test = batches(c, paths, c['test'], chunked, dirty)
    keep = c['keep'] and not dirty
    site = c['site'] and not chunked
    if joint_train is None or test is None:
        return (False, ['no data'])
    spies = {'spy%d' % i: Spy(a, c['apps']) for i, a in enumerate(c['algs'])}
    mean = D.Mean({})
    methods = dict(spies, Mean=mean)
    before = {k: s.a['epochs'] for k, s in spies.items()}
    e = api.API({'power': {'mains': [c['mac']], 'appliance': ['active']}, 'sample_rate': c['rate'], 'appliances': list(c['apps']), 'methods': methods,
                 'artificial_aggregate': c['art'], 'chunk_size': c['chunk'], 'site_only': site, 'DROP_ALL_NANS': not keep, 'display_predictions': c['show'],
                 'train': {'datasets': params(c, paths, c['train'])}, 'test': {'datasets': params(c, paths, c['test']), 'metrics': list(c['metrics'])}})
    lab = []
    # -- training
    for name, s in spies.items():
        if s.a['pre']:
            ensure(not s.fits, 'pretrained %s was trained again', name)
            lab.append('pretrained')
            continue
        if chunked and s.a['chunk']:
            exp = train_c * (before[name] or 1)
            ensure(len(s.fits) == len(exp), '%s: %d training calls for %d chunks and %r epochs', name, len(s.fits), len(train_c), before[name])
            # the rounds are counted from 0; in each of them the algorithm makes one round of its own
            rounds = [[r, 1 if before[name] else None] for r in range(before[name] or 1) for _ in train_c]
            ensure(s.rounds == rounds, '%s: rounds and rounds of its own %r, expected %r', name, s.rounds, rounds)
            exp = [([m], [[a] for a in ap]) for _, _, _, m, ap in exp]
            lab.append('chunk-wise training')
        else:
            ensure(len(s.fits) == 1, '%s: %d joint training calls', name, len(s.fits))
            ensure(s.rounds[0][1] == before[name], '%s: %r rounds instead of %r', name, s.rounds[0][1], before[name])
            exp = [([m for _, _, _, m, _ in joint_train], [[x[4][i] for x in joint_train] for i in range(len(c['apps']))])]
        for (ms, aps), (em, ea) in zip(s.fits, exp):
            ensure(len(ms) == len(em), '%s: trained on %d mains, expected %d', name, len(ms), len(em))
            for x, y in zip(ms, em):
                same(x, y, 'mains for the training of %s' % name)
            ensure([a for a, _ in aps] == c['apps'], '%s: trained on %r', name, [a for a, _ in aps])
            for (a, fs), ys in zip(aps, ea):
                ensure(len(fs) == len(ys), '%s: %d frames of %s, expected %d', name, len(fs), a, len(ys))
                for x, y in zip(fs, ys):
                    same(x, y, '%s for the training of %s' % (a, name))
    tr = train_c if chunked else joint_train
    avg = {}
    for i, a in enumerate(c['apps']):
        xs = [v for _, _, _, m, ap in tr for v in ap[i].values()]
        avg[a] = (sum(xs) / len(xs) if xs else 0.0, len(tr) / max(1, len(xs)))
    # -- testing
    for name, s in spies.items():
        ensure(len(s.tests) == len(test), '%s: asked for %d predictions, expected %d', name, len(s.tests), len(test))
        for t, (dn, b, n, m, ap) in zip(s.tests, test):
            ensure(len(t) == 1, 'one mains frame per prediction')
            if site:
                continue
            same(t[0], m, 'mains for the test of %s on %s building %d chunk %d' % (name, dn, b, n))
    if site:
        ensure(e.errors == [] and e.errors_keys == [], 'errors %r without ground truth', e.errors_keys)
        return (False, ['site only'])
    mets = [m for m in c['metrics'] if m != 'no such metric']
    keys, exp = [], []
    for dn, b, n, m, ap in test:
        if not m:
            lab.append('empty')
            continue
        for x in mets:
            keys.append('%s_%d%s_%s' % (dn, b, '_%d' % n if chunked else '', x))
            exp.append((x, m, ap))
    ensure(list(e.errors_keys) == keys, 'errors for %r, expected %r', list(e.errors_keys), keys)
    ensure(len(e.errors) == len(keys), '%d errors, %d keys', len(e.errors), len(keys))
    for k, err, (x, m, ap) in zip(keys, e.errors, exp):
        ensure(sorted(err.columns) == sorted(methods) and sorted(err.index) == sorted(c['apps']), '%s: errors for %r x %r', k, list(err.index), list(err.columns))
        for i, a in enumerate(c['apps']):
            g = [float(np.float32(v)) for v in ap[i].values()]
            for name in methods:
                if name == 'Mean':
                    if x not in ('mae', 'rmse') or not any(tr_ap[i] for _, _, _, _, tr_ap in tr):
                        continue
                    ensure_close(err.loc[a, name], loss(x, g, [avg[a][0]] * len(g)), '%s of Mean for %s (%s)' % (x, a, k), rtol=1e-4, atol=2 * avg[a][1] + 1e-3)
                    continue
                s = spies[name]
                p = [float(np.float32(v * s.a['w'][i] + i)) for v in m.values()]
                want = loss(x, g, p)
                if want is None:
                    continue
                ensure_close(err.loc[a, name], want, '%s of %s for %s (%s)' % (x, name, a, k), rtol=2e-3 if x == 'r2score' else 2e-4, atol=1e-3)
                if len(g) > 1:
                    lab.append(x)
    if keys and test[-1][3]:
        # the last prediction stays available
        dn, b, n, m, ap = test[-1]
        ensure(list(e.gt_overall.columns) == c['apps'], 'gt_overall has columns %r', list(e.gt_overall.columns))
        for i, a in enumerate(c['apps']):
            same(e.gt_overall[[a]], ap[i], 'gt_overall of %s' % a)
            for name, s in spies.items():
                same(e.pred_overall[name][[a]], {t: v * s.a['w'][i] + i for t, v in m.items()}, 'pred_overall of %s, %s' % (name, a))
    if c['show']:
        import matplotlib.pyplot as plt
        shown = [x for x in test if x[3]]
        figs = [plt.figure(k) for k in plt.get_fignums()]
        ensure(len(figs) == len(shown) * len(c['apps']), '%d figures for %d predictions of %d appliances', len(figs), len(shown), len(c['apps']))
        for j, f in enumerate(figs):
            dn, b, n, m, ap = shown[j // len(c['apps'])]
            i = j % len(c['apps'])
            ax = f.axes[0]
            ensure(ax.get_title() == c['apps'][i], 'figure of %r, expected %r', ax.get_title(), c['apps'][i])
            ls = {l.get_label(): l for l in ax.lines}
            ensure(sorted(ls) == sorted(list(methods) + ['Truth']), 'the figure shows %r', sorted(ls))
            ensure_array(np.asarray(ls['Truth'].get_ydata(), dtype=float), list(ap[i].values()), 'true power in the figure of %s' % c['apps'][i], rtol=1e-5)
            for name, s in spies.items():
                ensure_array(np.asarray(ls[name].get_ydata(), dtype=float), [v * s.a['w'][i] + i for v in m.values()], 'power predicted by %s in the figure of %s' % (name, c['apps'][i]), rtol=1e-5)
        if shown:
            lab.append('shown')
    return (any(x in METRICS for x in lab), sorted(set(lab)) + ['artificial'] * c['art'] + ['datasets %d' % len(c['test'])] + ['chunked'] * chunked + ['nan'] * c['nan'] + ['nothing dropped'] * keep)


SUBS = [Sub('experiment', case(), check, quick=200, thorough=3000, shards=8)]
