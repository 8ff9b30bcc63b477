"""C27: the data-store based disaggregators (nilmtk.legacy.disaggregate): CO, FHMM, Hart85."""
import itertools
import math
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from engine import Sub
from support import ensure, ensure_array, ensure_close, ensure_index, fresh_path, nk, raises
from props.c23_disaggregate import NAMES, viterbi
from props.c25_hart import pairs, powers, steady
from props.datasets import device, open_dataset

ID = 'C27'
RULE = ('Generated datasets (one or two site meters, one to three appliances, gaps, other sample periods, several sections) are disaggregated into an output store. Oracle: '
        'the mains chunks as loaded by the meter, nearest combination by brute force (CO), log-domain Viterbi search over the learnt chains (FHMM), nearest learnt load per '
        'transition (Hart85), and the metadata, by definition; a model exported and imported in between must predict the same. Non-trivial: two appliances, or two chunks.')
TYPES = ['fridge', 'kettle', 'light', 'dish washer', 'television']


# ------------------------------------------------------------------- datasets
@st.composite
def runs(draw, levels, n, lo=4, hi=24):
    """run lengths [[level number, length]..] of n samples"""
    out, cur, left = [], draw(st.integers(0, len(levels) - 1)), n
    while left > 0:
        k = min(left, draw(st.integers(lo, hi)))
        out.append([cur, k])
        left -= k
        cur = (cur + draw(st.integers(1, max(1, len(levels) - 1)))) % len(levels)
    return out


@st.composite
def house(draw, n, na, i=1):
    gaps = sorted({draw(st.integers(1, n - 1)) for _ in range(draw(st.sampled_from([0, 0, 1, 2])))})
    lv = [[0, draw(st.integers(20, 90)), draw(st.integers(300, 900))], [0, draw(st.integers(100, 200)), draw(st.integers(1000, 2500))], [0, draw(st.integers(210, 290))]]
    apps = []
    inst = draw(st.permutations(range(3, 9)))
    for k in range(na):
        L = lv[k][:draw(st.integers(2, 3))]
        apps.append({'levels': L, 'runs': draw(runs(L, n)), 'm': inst[k], 'type': draw(st.sampled_from(TYPES)), 'two': draw(st.integers(0, 4)) == 4})
    return {'i': i, 'n': n, 'gaps': gaps, 'gaplen': draw(st.sampled_from([60, 240, 3600])), 'apps': apps, 'base': draw(st.sampled_from([0, 0, 30])),
            'sites': draw(st.sampled_from([1, 1, 1, 2])), 'ac': draw(st.sampled_from(['active', 'active', 'apparent'])), 'named': draw(st.integers(0, 3)) == 3}


def values(a):
    return [float(a['levels'][k]) for k, r in a['runs'] for _ in range(r)]


def build(h):
    """the building part of a dataset spec"""
    secs, t = [], 0
    for i in range(h['n']):
        t += 6 + (h['gaplen'] if i in h['gaps'] else 0)
        secs.append(t)
    vs = [values(a) for a in h['apps']]
    total = [h['base'] + sum(x) for x in zip(*vs)]
    dev = device('dev', [('power', 'active')], 6, 30)
    mdev = device('mains', [('power', h['ac'])], 6, 30)
    tab = lambda v, ac='active': {'secs': secs, 'columns': [('power', ac)], 'vals': [v]}
    share = [1.0] if h['sites'] == 1 else [0.25, 0.75]
    meters = [{'m': j + 1, 'dev': mdev, 'up': None, 't': tab([x * s for x in total], h['ac'])} for j, s in enumerate(share)]
    apps, count = [], {}
    for a, v in zip(h['apps'], vs):
        meters.append({'m': a['m'], 'dev': dev, 'up': 0, 't': tab(v), 'extra': {'name': 'meter of ' + a['type']} if h['named'] else {}})
        for ty in [a['type']] + ['toaster'] * a['two']:
            count[ty] = count.get(ty, 0) + 1
            apps.append({'type': ty, 'instance': count[ty], 'meters': [a['m']]})
    return {'i': h['i'], 'meters': meters, 'apps': apps}


def dataset(houses):
    return open_dataset({'name': 'gen', 'tz': 'Europe/London', 'buildings': [build(h) for h in houses]}, dtype='float64')


def tables(path):
    with pd.HDFStore(path, 'r') as s:
        return {k: s[k] for k in s.keys()}


def chunks_of(mains, kw, least):
    out = []
    for ch in mains.power_series(**kw):
        if len(ch) >= least:
            out.append((ch, ch.timeframe))
    return out


def check_output(path, h, ds, name, chunks, sp, wanted, supervised=True, mains=None):
    """wanted: {meter instance: function(list of chunks) called with the predictions}; returns the predictions per chunk"""
    got = tables(path)
    base = '/building%d/elec/meter' % h['i']
    if not chunks:
        ensure(not any(k.startswith(base) for k in got), '%s: no chunk is long enough, but the output holds %r', name, sorted(got))
        return None
    meters = sorted([1] + wanted)
    ensure(sorted(k for k in got if k.startswith(base)) == sorted(base + str(m) for m in meters), '%s: output tables %r, expected meters %r', name, sorted(got), meters)
    col = chunks[0][0].name
    full = pd.concat([c for c, _ in chunks])
    for m in meters:
        t = got[base + str(m)]
        ensure([tuple(c) for c in t.columns] == [tuple(col)], '%s: columns %r of meter %d, the mains are %r', name, list(t.columns), m, col)
        if m == 1:
            x = full if mains is None else mains
            ensure_index(t.index, x.index, '%s: copied mains' % name)
            ensure_array(t.values.ravel(), x.values.ravel(), '%s: copied mains' % name, rtol=1e-6)
        else:
            ensure_index(t.index, full.index if name != 'FHMM' else full.dropna().index, '%s: times of meter %d' % (name, m))
    # metadata
    r = nk.DataSet(path)
    try:
        ensure(r.metadata['name'] == name, 'output dataset is called %r', r.metadata['name'])
        ensure(h['i'] in r.buildings, 'output holds buildings %r', list(r.buildings))
        elec = r.buildings[h['i']].elec
        ensure(sorted(m.instance() for m in elec.meters) == meters, '%s: metadata lists meters %r, expected %r', name, [m.instance() for m in elec.meters], meters)
        top = elec.mains()
        ensure(top.instance() == 1 and sorted(m.instance() for m in elec.submeters().meters) == sorted(wanted), '%s: mains %r, submeters %r', name, top, elec.submeters())
        for m in elec.meters:
            ensure(m.sample_period() == sp, '%s: sample period %r of meter %d, expected %r', name, m.sample_period(), m.instance(), sp)
            ensure(m.available_columns() == [tuple(col)] or [tuple(x) for x in m.available_columns()] == [tuple(col)], '%s: measurements %r', name, m.available_columns())
            if m.instance() != 1:
                ensure(m.upstream_meter().instance() == 1, '%s: meter %d hangs off %r', name, m.instance(), m.upstream_meter())
        a = sorted((x['type'], x['instance'], sorted(x['meters'])) for x in r.buildings[h['i']].metadata.get('appliances', r.store.load_metadata('/building%d' % h['i'])['appliances']))
        if supervised:
            exp = sorted((x['type'], x['instance'], x['meters']) for x in build(h)['apps'] if x['meters'][0] in wanted)
        else:
            exp = sorted(('unknown', m - 1, [m]) for m in wanted)
        ensure(a == exp, '%s: appliances %r, expected %r', name, a, exp)
        if supervised and h['named']:
            for x in h['apps']:
                if x['m'] in wanted:
                    ensure(elec[x['m']].name == 'meter of ' + x['type'], '%s: meter %d is named %r', name, x['m'], elec[x['m']].name)
        tf = r.metadata['timeframe']
        lo, hi = min(f.start for _, f in chunks), max(f.end for _, f in chunks)
        ensure(pd.Timestamp(tf['start']) == lo and pd.Timestamp(tf['end']) == hi, '%s: time frame %r, the chunks reach from %s to %s', name, tf, lo, hi)
    finally:
        r.store.close()
    return {m: got[base + str(m)] for m in wanted}


def source_unchanged(path, keep, name):
    now = tables(path)
    ensure(sorted(now) == sorted(keep) and all(now[k].equals(keep[k]) for k in keep), '%s changed the input data', name)


def disaggregate(d, mains, **kw):
    path = fresh_path('.h5')
    out = nk.HDFDataStore(path, 'w')
    try:
        d.disaggregate(mains, out, **kw)
    finally:
        out.close()
    return path


@st.composite
def options(draw, n):
    o = {'sp': draw(st.sampled_from([6, 6, 6, 12, 60])), 'least': draw(st.sampled_from([20, 5, 10, 5, None, 45])), 'how': draw(st.sampled_from(['default', 'default', 'sections', 'alias', 'none'])),
         'export': draw(st.integers(0, 2)) == 2, 'seed': draw(st.integers(0, 99)), 'sec': draw(st.integers(10, max(11, n - 10)))}
    return o


def load_options(c, mains, d):
    """kwargs of the disaggregation, kwargs of the oracle's own load"""
    o = c['o']
    if o['least'] is not None:
        d.MIN_CHUNK_LENGTH = o['least']
    kw, own = {'sample_period': o['sp']}, {'sample_period': o['sp'], 'sections': mains.good_sections()}
    if o['how'] == 'alias':
        kw = {'resample_seconds': o['sp']}
    elif o['how'] == 'none':
        kw, own['sample_period'] = {}, 60
    elif o['how'] == 'sections':
        tf = mains.get_timeframe()
        cut = tf.start + pd.Timedelta(seconds=60 * (o['sec'] // 10))
        if tf.start < cut < tf.end:
            s = [nk.TimeFrame(tf.start, cut), nk.TimeFrame(cut + pd.Timedelta(seconds=60), tf.end)] if cut + pd.Timedelta(seconds=120) < tf.end else [nk.TimeFrame(tf.start, cut)]
            kw['sections'] = own['sections'] = s
    return kw, own


# ------------------------------------------------------------------------- co
@st.composite
def case_co(draw):
    n = draw(st.sampled_from([60, 110, 160, 240]))
    h = draw(house(n, draw(st.sampled_from([1, 2, 2, 3])), draw(st.sampled_from([1, 1, 4]))))
    return {'h': h, 'o': draw(options(n)), 'states': [draw(st.sampled_from([None, None, None, 2, 3])) for _ in h['apps']]}


def check_co(c):
    L = nk('nilmtk.legacy.disaggregate')
    np.random.seed(c['o']['seed'])
    h = c['h']
    ds = dataset([h])
    try:
        src = ds.store.store.filename
        keep = {k: ds.store.store[k] for k in ds.store.store.keys()}
        elec = ds.buildings[h['i']].elec
        mains = elec.mains()
        d = L.CombinatorialOptimisation()
        kw, own = load_options(c, mains, d)
        ensure(raises(RuntimeError, lambda: disaggregate(d, mains, **kw)), '%s was not refused', 'CO without a model')
        nsd = {elec[a['m']]: k for a, k in zip(h['apps'], c['states']) if k and len([x for x in values(a) if x > 10]) >= 20 and len(set(values(a)) - {0.0}) >= k - 1}
        d.train(elec, num_states_dict=nsd or None, sample_period=6)
        ensure(raises(RuntimeError, lambda: d.train(elec, sample_period=6)), '%s was not refused', 'a second training')
        ensure(sorted(m['training_metadata'].instance() for m in d.model) == sorted(a['m'] for a in h['apps']), 'CO model %r', d.model)
        states = {}
        for m in d.model:
            k = m['training_metadata'].instance()
            a = [x for x in h['apps'] if x['m'] == k][0]
            sts = [float(x) for x in m['states']]
            vals = [x for x in next(elec[k].power_series(sample_period=6)).values if x > 10]
            ensure(sts == sorted(set(sts)) and 0 in sts, 'states %r of meter %d', sts, k)
            if elec[k] in nsd:
                ensure(len(sts) == nsd[elec[k]], 'meter %d has states %r, %d were asked for', k, sts, nsd[elec[k]])
            if len(vals) >= 20:
                ensure(len(sts) > 1 and min(vals) - 1 <= sts[1] and sts[-1] <= max(vals) + 1, 'states %r of meter %d outside %r..%r', sts, k, min(vals), max(vals))
                if len(set(vals)) == 1:
                    ensure(sts == [0, vals[0]], 'states %r of meter %d which uses %r W', sts, k, vals[0])
            else:
                ensure(sts == [0], 'states %r of meter %d from %d samples', sts, k, len(vals))
            states[k] = sts
        order = [m['training_metadata'].instance() for m in d.model]
        if c['o']['export']:
            p = fresh_path('.pickle')
            stores = [m['training_metadata'].store for m in d.model]
            d.export_model(p)
            ensure(all(m['training_metadata'].store is s for m, s in zip(d.model, stores)), 'export_model changed the stores of the meters')
            d2 = L.CombinatorialOptimisation()
            d2.import_model(p)
            ensure(d2.MIN_CHUNK_LENGTH == d.MIN_CHUNK_LENGTH, 'imported MIN_CHUNK_LENGTH %r', d2.MIN_CHUNK_LENGTH)
            ensure([(m['training_metadata'], list(m['states'])) for m in d2.model] == [(m['training_metadata'], list(m['states'])) for m in d.model], 'imported model %r', d2.model)
            d = d2
        chunks = chunks_of(mains, own, 100 if c['o']['least'] is None else c['o']['least'])
        path = disaggregate(d, mains, **kw)
        if c['o']['export']:
            for s in {id(m['training_metadata'].store): m['training_metadata'].store for m in d.model}.values():
                s.close()
        got = check_output(path, h, ds, 'CO', chunks, own['sample_period'], order)
        if got:
            x = pd.concat([ch for ch, _ in chunks]).values
            sums = np.unique([sum(y) for y in itertools.product(*states.values())])
            rows = {m: got[m].values.ravel() for m in order}
            for i, v in enumerate(x):
                if math.isnan(v):
                    continue
                row = [float(rows[m][i]) for m in order]
                ensure(all(r in states[m] for r, m in zip(row, order)), 'CO predicts %r, states %r', row, states)
                best = float(np.min(np.abs(sums - v)))
                ensure(abs(sum(row) - v) <= best + 1e-4 * max(1, v), 'CO: mains %r -> %r, a combination is %r away; states %r', v, row, best, states)
        source_unchanged(src, keep, 'CO')
    finally:
        ds.store.close()
    return (len(h['apps']) > 1 and bool(chunks) or len(chunks) > 1, ['chunks %d' % min(3, len(chunks)), c['o']['how'], 'sites %d' % h['sites']] + ['exported'] * c['o']['export'] + ['states'] * bool(nsd))


# ----------------------------------------------------------------------- fhmm
@st.composite
def case_fhmm(draw):
    n = draw(st.sampled_from([60, 110, 160]))
    h = draw(house(n, draw(st.sampled_from([1, 2, 2, 3])), draw(st.sampled_from([1, 1, 4]))))
    h['noise'] = True
    return {'h': h, 'o': draw(options(n)), 'states': [draw(st.sampled_from([None, None, 2, 3])) for _ in h['apps']], 'by': draw(st.sampled_from(['meter', 'type', 'appliance']))}


def chain(individual, keys):
    pis, As, mus = [], [], []
    for k in keys:
        hm = individual[k]
        mu = np.asarray(hm.means_).ravel()
        ensure((np.diff(mu) >= 0).all(), 'means %r are not in order', mu)
        if (hm.transmat_.sum(axis=1) == 0).any() or not np.isfinite(hm.transmat_).all() or not np.isfinite(mu).all():
            return None
        pis.append(hm.startprob_), As.append(hm.transmat_), mus.append(mu)
    combos = list(itertools.product(*[range(len(m)) for m in mus]))
    pi = np.array([math.prod(p[i] for p, i in zip(pis, cb)) for cb in combos])
    mu = np.array([sum(m[i] for m, i in zip(mus, cb)) for cb in combos])
    A = np.array([[math.prod(a[i, j] for a, i, j in zip(As, x, y)) for y in combos] for x in combos])
    return pi, A, mu, combos, [[int(np.round(x)) for x in m] for m in mus]


def check_path(name, ch, chain_, cols):
    """cols: predicted values per appliance of one chunk without NaNs"""
    pi, A, mu, combos, rounded = chain_
    allow = []
    for row in zip(*cols):
        allow.append(np.array([all(rounded[i][k] == row[i] for i, k in enumerate(cb)) for cb in combos]))
        ensure(allow[-1].any(), '%s predicts %r, states %r', name, row, rounded)
    best, got = viterbi(pi, A, mu, ch), viterbi(pi, A, mu, ch, allow)
    if not math.isinf(best):
        ensure(got >= best - 1e-6 * abs(best) - 1e-6, '%s: predicted path has log probability %r, the best path %r', name, got, best)


def check_fhmm(c):
    L = nk('nilmtk.legacy.disaggregate')
    np.random.seed(c['o']['seed'])
    h = c['h']
    ds = dataset([h])
    lab = []
    try:
        src = ds.store.store.filename
        keep = {k: ds.store.store[k] for k in ds.store.store.keys()}
        elec = ds.buildings[h['i']].elec
        mains = elec.mains()
        d = L.FHMM()
        kw, own = load_options(c, mains, d)
        ensure(raises(RuntimeError, lambda: disaggregate(d, mains, **kw)), '%s was not refused', 'FHMM without a model')
        nsd, want = {}, {}
        for a, k in zip(h['apps'], c['states']):
            if k is None:
                continue
            if c['by'] == 'meter':
                nsd[elec[a['m']]] = want[a['m']] = k
            elif c['by'] == 'appliance':
                for x in elec[a['m']].appliances:
                    nsd[x] = k
                want[a['m']] = k * len(elec[a['m']].appliances)
        if c['by'] == 'type' and c['states'][0]:
            k = c['states'][0]
            nsd[h['apps'][0]['type']] = k
            for a in h['apps']:
                cnt = sum(x.identifier.type == h['apps'][0]['type'] for x in elec[a['m']].appliances)
                if cnt:
                    want[a['m']] = k * cnt
        d.train(elec, num_states_dict=nsd, sample_period=6)
        keys = list(d.individual)
        order = [m.instance() for m in keys]
        ensure(sorted(order) == sorted(a['m'] for a in h['apps']), 'FHMM trained on %r', order)
        for m, k in want.items():
            ensure(len(np.ravel(d.individual[elec[m]].means_)) == k, 'meter %d has %d states, %d were asked for (%s)', m, len(np.ravel(d.individual[elec[m]].means_)), k, c['by'])
        ch_ = chain(d.individual, keys)
        if ch_ is None:        # a state that is never left: hmmlearn cannot estimate the chain
            return (False, ['degenerate'])
        ensure_array(d.model.startprob_, ch_[0], 'combined start probabilities')
        ensure_array(d.model.transmat_, ch_[1], 'combined transition matrix')
        ensure_array(np.asarray(d.model.means_).ravel(), ch_[2], 'combined means')
        if c['o']['export']:
            p = fresh_path('.pickle')
            stores, ms = [m.store for m in keys], d.meters
            d.export_model(p)
            ensure(all(m.store is s for m, s in zip(d.individual, stores)) and d.meters is ms, 'export_model changed the model')
            least = d.MIN_CHUNK_LENGTH
            d = L.FHMM()
            d.import_model(p)
            d.MIN_CHUNK_LENGTH = least
            ensure(list(d.individual) == keys and d.meters == keys, 'imported model holds %r, expected %r', list(d.individual), keys)
        chunks = chunks_of(mains, own, 100 if c['o']['least'] is None else c['o']['least'])
        if any(ch.isnull().all() for ch, _ in chunks):
            return (False, ['empty'])
        path = disaggregate(d, mains, **kw)
        if c['o']['export']:
            for m in d.individual:
                m.store.close()
        got = check_output(path, h, ds, 'FHMM', chunks, own['sample_period'], order)
        if got:
            pos = 0
            for ch, _ in chunks:
                x = ch.dropna().values
                check_path('FHMM', x, ch_, [[float(v) for v in got[m].values.ravel()[pos:pos + len(x)]] for m in order])
                pos += len(x)
        source_unchanged(src, keep, 'FHMM')
        lab = ['chunks %d' % min(3, len(chunks)), c['o']['how'], 'sites %d' % h['sites']] + ['exported'] * c['o']['export'] + [c['by']] * bool(nsd)
    finally:
        ds.store.close()
    return (len(h['apps']) > 1 and bool(chunks) or len(chunks) > 1, lab)


# --------------------------------------------------------------------- across
@st.composite
def case_across(draw):
    k = draw(st.integers(2, 3))
    n = draw(st.sampled_from([60, 110]))
    types = draw(st.permutations(TYPES))[:2]
    hs = []
    for i in range(k):
        h = draw(house(n, 2, i + 1))
        h['ac'], h['named'] = 'active', False
        for a, ty in zip(h['apps'], types):
            a['type'], a['two'] = ty, False
        hs.append(h)
    return {'hs': hs, 'types': types, 'seed': draw(st.integers(0, 99)), 'sp': draw(st.sampled_from([6, 6, 12])), 'train': draw(st.sampled_from(['all', 'most'])), 'least': draw(st.sampled_from([20, 5]))}


def check_across(c):
    L = nk('nilmtk.legacy.disaggregate')
    np.random.seed(c['seed'])
    ds = dataset(c['hs'])
    try:
        nums = [h['i'] for h in c['hs']]
        d = L.FHMM()
        d.MIN_CHUNK_LENGTH = c['least']
        act = {ty: sum(np.mean([v > 10 for v in values(a)]) > 0.06 for h in c['hs'] for a in h['apps'] if a['type'] == ty) for ty in c['types']}
        near = any(0.04 < np.mean([v > 10 for v in values(a)]) < 0.06 for h in c['hs'] for a in h['apps'])
        if near or not all(x > 1 for x in act.values()):
            return (False, ['not enough'])
        # earlier datasets of the same name have meters with the same identity
        d.train_across_buildings(ds, nums, list(c['types']))
        ensure(list(d.individual) == list(c['types']), 'trained %r, expected %r', list(d.individual), c['types'])
        ch_ = chain(d.individual, list(d.individual))
        if ch_ is None:
            return (False, ['degenerate'])
        path = fresh_path('.h5')
        out = nk.HDFDataStore(path, 'w')
        try:
            d.disaggregate_across_buildings(ds, out, nums, sample_period=c['sp'])
        finally:
            out.close()
        got = tables(path)
        total = 0
        for h in c['hs']:
            mains = ds.buildings[h['i']].elec.mains()
            chunks = chunks_of(mains, {'sample_period': c['sp'], 'sections': mains.good_sections()}, c['least'])
            base = '/building%d/elec/meter' % h['i']
            if not chunks:
                ensure(not any(k.startswith(base) for k in got), 'FHMM: no chunk of building %d is long enough, but the output holds %r', h['i'], sorted(got))
                continue
            total += len(chunks)
            full = pd.concat([x for x, _ in chunks])
            inst = [[a['m'] for a in h['apps'] if a['type'] == ty][0] for ty in c['types']]
            for m in [1] + inst:
                ensure(base + str(m) in got, 'FHMM: no output for meter %d of building %d (%r)', m, h['i'], sorted(got))
                ensure_index(got[base + str(m)].index, full.index if m == 1 else full.dropna().index, 'FHMM: times of building %d' % h['i'])
            ensure_array(got[base + '1'].values.ravel(), full.values, 'FHMM: copied mains of building %d' % h['i'], rtol=1e-5)
            pos = 0
            for x, _ in chunks:
                v = x.dropna().values
                check_path('FHMM', v, ch_, [[float(y) for y in got[base + str(m)].values.ravel()[pos:pos + len(v)]] for m in inst])
                pos += len(v)
    finally:
        ds.store.close()
    return (total > 1, ['buildings %d' % len(nums)])


# ----------------------------------------------------------------------- hart
@st.composite
def case_hart(draw):
    n = draw(st.sampled_from([60, 90, 120]))
    h = draw(house(n, draw(st.integers(1, 3)), draw(st.sampled_from([1, 1, 4]))))
    for a in h['apps']:
        a['levels'] = [0, a['levels'][-1] + 60]
        a['runs'] = draw(runs(a['levels'], n, 3, 14))
    return {'h': h, 'o': draw(options(n)), 'buffer': draw(st.sampled_from([20, 20, 5])), 'thr': draw(st.sampled_from([15, 15, 25])), 'tol': draw(st.sampled_from([100, 35]))}


def check_hart(c):
    L = nk('nilmtk.legacy.disaggregate')
    NOISE = 70.123
    h, o = c['h'], c['o']
    ds = dataset([h])
    try:
        src = ds.store.store.filename
        keep = {k: ds.store.store[k] for k in ds.store.store.keys()}
        elec = ds.buildings[h['i']].elec
        mains = elec.mains()
        cols = [('power', h['ac'])]
        d = L.Hart85()
        kw, own = load_options(c, mains, d)
        ensure(raises(RuntimeError, lambda: disaggregate(d, mains, **kw)), '%s was not refused', 'Hart85 without a model')
        raw = [(float(x),) for x in next(mains.power_series()).dropna().values]
        tr = steady(raw, c['thr'], NOISE)
        ps = pairs([(i, x[0]) for i, _, x in tr], c['buffer'], c['tol'], 1000)
        if not ps:
            return (False, ['no pairs'])
        d.train(mains, columns=cols, buffer_size=c['buffer'], noise_level=NOISE, state_threshold=c['thr'], min_tolerance=c['tol'])
        ensure(len(d.pair_df) == len(ps), 'Hart85 pairs\n%s\nexpected %r', d.pair_df, ps)
        cents = [float(x) for x in d.centroids.iloc[:, 0]]
        mags = [(abs(e[1]) + abs(e[3])) / 2 for e in ps]
        ensure(cents and list(d.centroids.index) == list(range(len(cents))), 'centroids %r', d.centroids)
        ensure(all(min(mags) - 1e-6 <= x <= max(mags) + 1e-6 for x in cents), 'centroids %r outside the pairs %r', cents, mags)
        if o['export']:
            p = fresh_path('.pickle')
            d.export_model(p)
            d = L.Hart85()
            d.import_model(p)
        chunks = chunks_of(mains, own, 0)
        if not chunks or any(len(ch) < 2 or ch.isnull().any() for ch, _ in chunks):
            return (False, ['short'])
        path = fresh_path('.h5')
        out = nk.HDFDataStore(path, 'w')
        try:
            last = d.disaggregate(mains, out, **kw)
        finally:
            out.close()
        whole = next(mains.load(ac_type=h['ac']))
        got = check_output(path, h, ds, 'Hart85', chunks, own['sample_period'], [i + 2 for i in range(len(cents))], supervised=False, mains=whole)
        pos = 0
        for ch, _ in chunks:
            on = powers([(float(x),) for x in ch.values], c['thr'], NOISE, cents)
            if on is not None:
                for m, x in enumerate(cents):
                    v = got[m + 2].values.ravel()[pos:pos + len(ch)]
                    for i in range(len(ch) - 1):
                        ensure(abs(float(v[i]) - (x if on[m][i] else 0)) < 1, 'Hart85: load %d of %r W is %r at sample %d of a chunk, expected %s (chunk %r)', m, x, v[i], i, 'on' if on[m][i] else 'off', list(ch.values))
            pos += len(ch)
        ensure_index(last.index, chunks[-1][0].index, 'Hart85: returned frame')
        source_unchanged(src, keep, 'Hart85')
    finally:
        ds.store.close()
    return (len(tr) >= 2, ['loads %d' % min(3, len(cents)), 'chunks %d' % min(3, len(chunks)), o['how']] + ['exported'] * o['export'])


# ---------------------------------------------------------------------- parts
from props.c23_disaggregate import case_parts, check_parts as parts23        # noqa: E402


def check_parts(c):
    return parts23(c, 'nilmtk.legacy.disaggregate.fhmm_exact')


SUBS = [Sub('co', case_co(), check_co, quick=120, thorough=2500, shards=2),
        Sub('fhmm', case_fhmm(), check_fhmm, quick=120, thorough=2000, shards=3),
        Sub('across', case_across(), check_across, quick=40, thorough=600, shards=1),
        Sub('hart', case_hart(), check_hart, quick=120, thorough=2500, shards=2),
        Sub('parts', case_parts(), check_parts, quick=200, thorough=3000, shards=1)]
