"""C23: disaggregation algorithms (Mean, CO, FHMM) and the state clustering."""
import itertools
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from engine import Sub
from support import close, ensure, ensure_array, ensure_close, ensure_index, fresh_path, index_from, nk, raises

ID = 'C23'
RULE = ('`mean`: several training rounds with NaNs, a saved and reloaded model; oracle: mean of all valid samples by loops. `co`: training on '
        'step-like appliances, several rounds; oracle: state sets by definition and the nearest combination by brute force. `fhmm`: trained model against its own '
        'parts: product chain and a log-domain Viterbi search by loops. `parts`: parameter sorting, product formulas, decoding and find_nearest on '
        'generated arrays; oracle: brute force. Non-trivial: at least two appliances, or two states.')
NAMES = ['fridge', 'kettle', 'light', 'washer dryer', 'tv']


def frame(vals, start=0, ac='active', dtype='float64'):
    idx = index_from([start + 6 * i for i in range(len(vals))])
    return pd.DataFrame(np.array([np.nan if v is None else v for v in vals], dtype=dtype).reshape(-1, 1), index=idx,
                        columns=pd.MultiIndex.from_tuples([('power', ac)]))


# ---------------------------------------------------------------------- mean
@st.composite
def case_mean(draw):
    n = draw(st.integers(1, 4))
    names = NAMES[:n]
    rounds = []
    for _ in range(draw(st.integers(1, 3))):
        here = [a for a in names if draw(st.integers(0, 4))] or names[:1]
        rounds.append({a: [[None if draw(st.integers(0, 5)) == 0 else draw(st.integers(0, 3000)) / draw(st.sampled_from([1, 1, 8]))
                            for _ in range(draw(st.integers(1, 8)))] for _ in range(draw(st.integers(1, 2)))] for a in here})
    return {'rounds': rounds, 'test': draw(st.lists(st.integers(0, 6), min_size=1, max_size=3)), 'save': draw(st.integers(0, 2))}


def predictions(p, names, lens, what):
    """shape of what disaggregate_chunk returns"""
    ensure(len(p) == len(lens), '%s: %d frames for %d mains chunks', what, len(p), len(lens))
    for k, (f, n) in enumerate(zip(p, lens)):
        ensure(isinstance(f, pd.DataFrame) and list(f.columns) == names, '%s: columns %r, expected %r', what, list(f.columns), names)
        ensure_index(f.index, index_from([1000 * k + 6 * i for i in range(n)]), '%s: index' % what)


def check_mean(c):
    D = nk('nilmtk.disaggregate')
    path = fresh_path()
    m = D.Mean({'save-model-path': path} if c['save'] else {})
    names = []
    for r in c['rounds']:
        n = max(len(x) for ch in r.values() for x in ch)
        m.partial_fit([frame([1] * n)], [(a, [frame(x, 900 * i) for i, x in enumerate(ch)]) for a, ch in r.items()])
        names += [a for a in r if a not in names]
        if c['save'] == 2:        # stop and resume after every round
            m = D.Mean({'pretrained-model-path': path, 'save-model-path': path})
    if c['save'] == 1:
        m = D.Mean({'pretrained-model-path': path})
    p = m.disaggregate_chunk([frame([5] * n, 1000 * k) for k, n in enumerate(c['test'])])
    predictions(p, names, c['test'], 'Mean')
    for a in names:
        xs = [x for r in c['rounds'] for ch in r.get(a, []) for x in ch if x is not None]
        for f in p:
            for v in f[a].values:
                if xs:
                    # sums of a round are kept as whole numbers
                    exp = sum(xs) / len(xs)
                    ensure(-len(c['rounds']) / len(xs) - 1e-9 <= v - exp <= 1e-9 + 1e-9 * exp, 'Mean of %s: predicts %r, mean of the %d valid samples %r', a, v, len(xs), exp)
                else:
                    ensure(v == 0, 'Mean of %s predicts %r without any valid sample', a, v)
    nan = any(x is None for r in c['rounds'] for ch in r.values() for y in ch for x in y)
    return (len(names) > 1 or len(c['rounds']) > 1, ['nan'] * nan + ['save%d' % c['save'], 'rounds %d' % len(c['rounds'])])


# ------------------------------------------------------------------------ co
@st.composite
def levels(draw):
    kind = draw(st.sampled_from(['two', 'two', 'two', 'one', 'off', 'rare', 'noisy', 'three']))
    a = draw(st.integers(11, 120))
    b = a + draw(st.integers(60, 2500))
    if kind == 'off':
        v = [0.0] * 40
    elif kind == 'one':
        v = [0.0] * draw(st.integers(0, 30)) + [float(a)] * draw(st.integers(21, 50))
    elif kind == 'rare':        # too few samples above the threshold
        v = [0.0] * 30 + [float(a)] * draw(st.integers(1, 18)) + [9.0] * 20
    elif kind == 'two':
        v = [0.0] * draw(st.integers(0, 9)) + [float(a)] * draw(st.integers(21, 40)) + [float(b)] * draw(st.integers(21, 40)) + [10.0] * draw(st.integers(0, 5))
    elif kind == 'three':
        v = [0.0] * 9 + [float(a)] * draw(st.integers(21, 40)) + [float(b)] * draw(st.integers(21, 40)) + [b + 900.0] * 20
    else:
        v = [float(draw(st.integers(0, 400))) for _ in range(40)]
    if draw(st.booleans()):
        v = v[::-1]
    for i in draw(st.lists(st.integers(0, 200), max_size=4)):
        v.insert(i % (len(v) + 1), None)
    return {'kind': kind, 'v': v, 'a': a, 'b': b}


@st.composite
def case_co(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 4, 13]))
    apps = [[a, draw(levels())] for a in (NAMES[:n] if n < 9 else ['app%d' % i for i in range(n)])]
    split = draw(st.integers(0, n - 1)) if n < 9 else 0
    mains = [[draw(st.one_of(st.integers(0, 3000), st.integers(0, 30000).map(lambda x: x / 8))) for _ in range(draw(st.integers(1 if i else 0, 9)))] for i in range(draw(st.integers(1, 3)))]
    return {'apps': apps, 'split': split, 'between': draw(st.booleans()), 'again': draw(st.booleans()), 'mains': mains, 'seed': draw(st.integers(0, 99)),
            'pick': [[draw(st.integers(0, 7)) for _ in range(6)] for _ in range(4)]}


def check_co(c):
    D = nk('nilmtk.disaggregate')
    np.random.seed(c['seed'])
    co = D.CO({})
    apps, s = c['apps'], c['split']
    for k, group in enumerate([apps[s:], apps[:s] + apps[s:s + 1]] if s else [apps]):
        fit = [(a, [frame(l['v'][:30]), frame(l['v'][30:], 600)] if len(l['v']) > 30 else [frame(l['v'])]) for a, l in group]
        co.partial_fit([frame([1, 2, 3])], fit)
        if k == 0 and c['between']:
            co.disaggregate_chunk([frame([100.0])])
    names = [a for a, _ in apps[s:]] + [a for a, _ in apps[:s]]
    d = dict(apps)
    if c['again']:
        co.partial_fit([frame([1, 2, 3])], [(names[0], [frame([5000.0] * 50)])])
    ensure([m['appliance_name'] for m in co.model] == names, 'CO model holds %r, expected %r', [m['appliance_name'] for m in co.model], names)
    many = len(apps) > 12
    states = []
    for m in co.model:
        l, sts = d[m['appliance_name']], [int(x) for x in m['states']]
        vals = [x for x in l['v'] if x is not None and x > 10]
        ensure(sts == sorted(set(sts)) and 0 in sts and list(m['states']) == sts, 'states %r of %s', m['states'], m['appliance_name'])
        if len(vals) < 20:
            ensure(sts == [0], '%s: states %r from %d samples above the threshold', m['appliance_name'], sts, len(vals))
        else:
            ensure(2 <= len(sts) <= (2 if many else 3), '%s: %d states', m['appliance_name'], len(sts))
            ensure(all(x == 0 or min(vals) - 1 <= x <= max(vals) + 1 for x in sts), '%s: states %r outside %r..%r', m['appliance_name'], sts, min(vals), max(vals))
            if l['kind'] == 'one':
                ensure(sts == [0, l['a']], 'steady %s of %d W has states %r', m['appliance_name'], l['a'], sts)
            elif l['kind'] == 'two' and not many:
                ensure(sts == [0, l['a'], l['b']], '%s with levels %d and %d W has states %r', m['appliance_name'], l['a'], l['b'], sts)
            elif many:
                ensure(abs(sts[1] - sum(vals) / len(vals)) <= 0.51, 'single on state %r, mean %r', sts, sum(vals) / len(vals))
        states.append(sts)
    mains = [list(x) for x in c['mains']]
    for p in c['pick']:        # mains which are exactly a combination
        mains[0].append(float(sum(sts[p[i % 6] % len(sts)] for i, sts in enumerate(states))))
    p = co.disaggregate_chunk([frame(x, 1000 * k) for k, x in enumerate(mains)])
    predictions(p, names, [len(x) for x in mains], 'CO')
    sums = np.unique([sum(x) for x in itertools.product(*states)]) if len(states) < 9 else None
    if sums is None:
        sums = np.array([0])
        for sts in states:
            sums = np.unique(sums[:, None] + np.array(sts)[None, :])
    for f, x in zip(p, mains):
        for i, v in enumerate(x):
            row = [float(f[a].values[i]) for a in names]
            ensure(all(r in sts for r, sts in zip(row, states)), 'CO predicts %r, states %r', row, states)
            best = float(np.min(np.abs(sums - v)))
            ensure(abs(abs(sum(row) - v) - best) <= 1e-6 * max(1, v), 'CO: mains %r -> %r (off by %r), a combination is %r away; states %r', v, row, abs(sum(row) - v), best, states)
    ensure([[int(x) for x in m['states']] for m in co.model] == states, 'disaggregation changed the model')
    return (len(names) > 1, sorted({l['kind'] for _, l in apps}) + ['two rounds'] * bool(s) + ['many'] * many + ['retrain'] * c['again'])


# ---------------------------------------------------------------------- fhmm
@st.composite
def case_fhmm(draw):
    n = draw(st.sampled_from([1, 2, 2, 3]))
    m = 60
    apps = []
    for i in range(n):
        kind = draw(st.sampled_from(['sw', 'sw', 'sw', 'noise', 'const', 'three']))
        lv = [0, draw(st.integers(20, 300)), draw(st.integers(500, 2500))]
        v, cur = [], 0
        for t in range(m):
            if kind != 'const' and draw(st.integers(0, 6)) == 0:
                cur = draw(st.integers(0, 2 if kind == 'three' else 1))
            v.append(float(lv[cur]) + (draw(st.integers(-9, 9)) if kind == 'noise' else 0))
        apps.append([NAMES[i], kind, v])
    return {'apps': apps, 'states': draw(st.sampled_from([2, 2, 3, 0])), 'seed': draw(st.integers(0, 99)), 'empty': draw(st.integers(0, 3)) == 0,
            'test': draw(st.lists(st.integers(0, 3000), min_size=1, max_size=25)), 'twice': draw(st.integers(0, 4)) == 0, 'nan': draw(st.integers(0, 3)) == 0,
            'void': draw(st.sampled_from([None, None, NAMES[0], NAMES[n - 1]])) if n > 1 else None}


def viterbi(pi, A, mu, xs, allow=None):
    """best log probability (log densities of N(mu, 5), up to a constant)"""
    with np.errstate(divide='ignore'):
        lp, la = np.log(pi), np.log(A)
    best = None
    for t, x in enumerate(xs):
        e = -(x - mu) ** 2 / 10.0
        if allow is not None:
            e = np.where(allow[t], e, -np.inf)
        best = (lp if best is None else np.max(best[:, None] + la, axis=0)) + e
    return float(np.max(best))


def check_fhmm(c):
    D = nk('nilmtk.disaggregate')
    np.random.seed(c['seed'])
    f = D.FHMMExact({'num_of_states': c['states']})
    names = [a for a, _, _ in c['apps'] if a != c['void']]
    total = np.sum([v for _, _, v in c['apps']], axis=0)

    def fit():
        tr = []
        for a, _, v in c['apps']:
            v = list(v)
            if c['nan']:
                v[5] = v[40] = None
            if a == c['void']:
                v = [None] * len(v)
            tr.append((a, [frame(v[:30]), frame(v[30:], 600)]))
        f.partial_fit([frame(total)], tr)
    fit()
    if c['twice']:
        fit()
    ens = f.individual
    ensure(list(ens) == names, 'trained %r, expected %r', list(ens), names)
    pis, As, mus = [], [], []
    for a in names:
        h = ens[a]
        mu = np.asarray(h.means_).ravel()
        k = len(mu)
        ensure((np.diff(mu) >= 0).all(), 'means %r of %s are not in order', mu, a)
        if c['states']:
            ensure(k == c['states'], '%s has %d states, expected %d', a, k, c['states'])
        else:
            ensure(1 <= k <= 3, '%s has %d states', a, k)
        if (h.transmat_.sum(axis=1) == 0).any():        # hmmlearn cannot estimate a chain with a state that is never left
            return (False, ['degenerate'])
        ensure_close(float(h.startprob_.sum()), 1.0, 'start probabilities of %s' % a, rtol=1e-6)
        ensure_array(h.transmat_.sum(axis=1), [1.0] * k, 'rows of the transition matrix of %s' % a)
        pis.append(h.startprob_), As.append(h.transmat_), mus.append(mu)
    combos = list(itertools.product(*[range(len(m)) for m in mus]))
    pi = np.array([math.prod(p[i] for p, i in zip(pis, cb)) for cb in combos])
    mu = np.array([sum(m[i] for m, i in zip(mus, cb)) for cb in combos])
    A = np.array([[math.prod(a[i, j] for a, i, j in zip(As, x, y)) for y in combos] for x in combos])
    ensure_array(f.model.startprob_, pi, 'combined start probabilities')
    ensure_array(f.model.transmat_, A, 'combined transition matrix')
    ensure_array(np.asarray(f.model.means_).ravel(), mu, 'combined means')
    tests = [c['test'], list(total[:30])] + ([[]] if c['empty'] else [])
    p = f.disaggregate_chunk([frame(x, 1000 * k) for k, x in enumerate(tests)])
    predictions(p, names, [len(x) for x in tests], 'FHMM')
    rounded = [[int(np.round(x)) for x in m] for m in mus]
    for fr, xs in zip(p, tests):
        if not len(xs):
            continue
        allow = []
        for t in range(len(xs)):
            row = [float(fr[a].values[t]) for a in names]
            allow.append(np.array([all(rounded[i][k] == row[i] for i, k in enumerate(cb)) for cb in combos]))
            ensure(allow[-1].any(), 'FHMM predicts %r, states %r', row, rounded)
        best, got = viterbi(pi, A, mu, xs), viterbi(pi, A, mu, xs, allow)
        if math.isinf(best):
            continue
        ensure(got >= best - 1e-6 * abs(best) - 1e-6, 'FHMM: predicted path has log probability %r, the best path %r', got, best)
    return (len(names) > 1, sorted({k for _, k, _ in c['apps']}) + ['states %d' % c['states']] + ['empty chunk'] * c['empty'] + ['no samples'] * bool(c['void']))


# --------------------------------------------------------------------- parts
@st.composite
def case_parts(draw):
    ks = [draw(st.integers(1, 3)) for _ in range(draw(st.integers(1, 4)))]
    chains = []
    for k in ks:
        w = lambda n: [draw(st.integers(0, 9)) for _ in range(n)]
        chains.append({'pi': w(k), 'A': [w(k) for _ in range(k)], 'mu': [draw(st.sampled_from([0, 0, 5, 100, 100.5, 2500])) if draw(st.booleans()) else draw(st.integers(0, 4000)) for _ in range(k)],
                       'cov': [draw(st.integers(1, 50)) for _ in range(k)]})
    known = draw(st.lists(st.one_of(st.integers(-50, 50), st.integers(-400, 400).map(lambda x: x / 4)), min_size=1, max_size=8))
    test = draw(st.lists(st.one_of(st.integers(-60, 60), st.integers(-400, 400).map(lambda x: x / 8)), min_size=1, max_size=8))
    return {'chains': chains, 'known': known, 'test': test, 'col': draw(st.booleans()), 'states': draw(st.lists(st.integers(0, 80), min_size=0, max_size=8))}


def check_parts(c, module='nilmtk.disaggregate.fhmm_exact'):
    F = nk(module)
    for ch in c['chains']:
        k = len(ch['mu'])
        a = [np.array(ch['pi'], float), np.array(ch['mu'], float).reshape(-1, 1), np.array(ch['cov'], float).reshape(-1, 1, 1), np.array(ch['A'], float)]
        keep = [x.copy() for x in a]
        pi, mu, cov, A = F.sort_learnt_parameters(*a)
        ensure(all((x == y).all() for x, y in zip(a, keep)), 'sort_learnt_parameters changed its arguments')
        mu = np.asarray(mu).ravel()
        # some permutation maps the input to the output
        for perm in itertools.permutations(range(k)):
            if (mu == [ch['mu'][i] for i in perm]).all() and (np.asarray(pi) == [ch['pi'][i] for i in perm]).all() and \
                    (np.asarray(cov).ravel() == [ch['cov'][i] for i in perm]).all() and (np.asarray(A) == [[ch['A'][i][j] for j in perm] for i in perm]).all():
                break
        else:
            ensure(False, 'sorting %r gives pi %r, means %r, covariances %r, A %r: not a renumbering of the states', ch, pi, mu, np.ravel(cov), A)
        ensure((np.diff(mu) >= 0).all(), 'sorted means %r', mu)
    combos = list(itertools.product(*[range(len(ch['mu'])) for ch in c['chains']]))
    ensure_array(F.compute_pi_fhmm([np.array(ch['pi'], float) for ch in c['chains']]), [math.prod(ch['pi'][i] for ch, i in zip(c['chains'], cb)) for cb in combos], 'compute_pi_fhmm')
    ensure_array(F.compute_A_fhmm([np.array(ch['A'], float) for ch in c['chains']]),
                 [[math.prod(ch['A'][i][j] for ch, i, j in zip(c['chains'], x, y)) for y in combos] for x in combos], 'compute_A_fhmm')
    mu, cov = F.compute_means_fhmm([ch['mu'] for ch in c['chains']])
    ensure_array(mu, [[sum(ch['mu'][i] for ch, i in zip(c['chains'], cb))] for cb in combos], 'compute_means_fhmm')
    ensure(np.shape(cov) == (len(combos), 1, 1) and (np.asarray(cov) > 0).all(), 'covariances %r', cov)
    sts = [s % len(combos) for s in c['states']]
    apps = NAMES[:len(c['chains'])]
    cen = {a: ch['mu'] for a, ch in zip(apps, c['chains'])}
    hs, hp = F.decode_hmm(len(sts), cen, apps, sts)
    for t, s in enumerate(sts):
        for a, i in zip(apps, combos[s]):
            ensure(hs[a][t] == i and hp[a][t] == cen[a][i], 'decode_hmm: combined state %d of %r is %s state %r with %r W, expected %d', s, [len(x['mu']) for x in c['chains']], a, hs[a][t], hp[a][t], i)
    # find_nearest
    u = nk('nilmtk.utils')
    kn, te = np.array(c['known']), np.array(c['test'])
    if c['col']:
        te = te.reshape(-1, 1)
    ind, res = u.find_nearest(kn, te)
    ensure(np.shape(ind) == te.shape and np.shape(res) == te.shape, 'find_nearest: shapes %r and %r', np.shape(ind), np.shape(res))
    for x, i, r in zip(te.ravel(), np.ravel(ind), np.ravel(res)):
        ensure(abs(kn[i] - x) == min(abs(y - x) for y in c['known']), 'find_nearest: %r in %r gives %r', x, c['known'], kn[i])
        ensure_close(float(r), float(x - kn[i]), 'find_nearest: residual')
    return (len(combos) > 1, ['equal means'] * any(len(set(ch['mu'])) < len(ch['mu']) for ch in c['chains']))


SUBS = [Sub('mean', case_mean(), check_mean, quick=300, thorough=4000, shards=1),
        Sub('co', case_co(), check_co, quick=300, thorough=4000, shards=3),
        Sub('fhmm', case_fhmm(), check_fhmm, quick=160, thorough=2500, shards=4),
        Sub('parts', case_parts(), check_parts, quick=500, thorough=8000, shards=1)]
