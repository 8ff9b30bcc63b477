"""C25: edge detection (steady states and transitions) and Hart's algorithm."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from engine import Sub
from support import ensure, ensure_array, ensure_close, ensure_index, fresh_path, index_from, nk
from props.datasets import one_meter

ID = 'C25'
RULE = ('`edges`: generated power series (steps, ramps, spikes, ripple, one or two columns) and thresholds; oracle: the steady levels and changes by definition (mean since '
        'the last change, difference to the level before it). `hart`: training and disaggregation of mains made from switching appliances, several chunks, exported and '
        'imported models; `pairs`: training on step functions whose rises and falls cancel within or just outside the tolerances; oracle: pairing by the published rules, nearest centroid per transition, smallest RMS error per appliance. Non-trivial: two or more transitions.')


def frame(vals, start=0, ac=('active',)):
    vals = np.array(vals, dtype=float).reshape(-1, len(ac))
    return pd.DataFrame(vals, index=index_from([start + 6 * i for i in range(len(vals))]), columns=pd.MultiIndex.from_tuples([('power', a) for a in ac]))


def steady(rows, thr, noise):
    """[(row number, level, transition)] by definition; rows is a list of tuples"""
    k = len(rows[0])
    prev, change = [0.0] * k, []
    for r in rows:
        change.append(any(abs(a - b) > thr for a, b in zip(r, prev)))
        prev = r
    starts = [i for i in range(len(rows)) if change[i] and (i == 0 or not change[i - 1])]
    bounds = ([0] if not starts or starts[0] > 0 else []) + starts + [len(rows)]
    last, out = [0.0] * k, []
    for a, b in zip(bounds, bounds[1:]):
        j = max([i for i in range(a, b) if change[i]], default=a)
        lev = [sum(r[c] for r in rows[j:b]) / (b - j) for c in range(k)]
        d = [x - y for x, y in zip(lev, last)]
        if any(abs(x) > noise for x in d):
            out.append((a, lev, d))
        last = lev
    if out and out[0][0] == 0 and any(x > noise for x in out[0][1]):
        out = out[1:]
    return out


# --------------------------------------------------------------------- edges
@st.composite
def signal(draw, n, ripple):
    out, cur = [], draw(st.sampled_from([0, 0, 30, 200]))
    kind = draw(st.sampled_from(['steps', 'steps', 'steps', 'wild']))
    while len(out) < n:
        if kind == 'wild':
            out.append(float(draw(st.sampled_from([0, 5, 14, 16, 30, 60, 90, 200]))))
        else:
            for _ in range(draw(st.sampled_from([1, 2, 3, 5, 8]))):
                out.append(float(max(0, cur + (draw(st.integers(-ripple, ripple)) if ripple else 0))))
            cur = max(0, cur + draw(st.sampled_from([100, 300, -100, -300, 71, -71, 40, 1500, -1500])))
    return out[:n]


@st.composite
def case_edges(draw):
    n = draw(st.integers(1, 40))
    k = draw(st.sampled_from([1, 1, 2]))
    return {'v': [draw(signal(n, draw(st.sampled_from([0, 3, 7, 12])))) for _ in range(k)], 'thr': draw(st.sampled_from([15, 15, 5, 40])),
            'noise': draw(st.sampled_from([70, 70, 20, 150])) + 0.123, 'store': draw(st.integers(0, 4)) == 4, 'chunk': draw(st.sampled_from([None, 7, 12]))}


def compare(ss, tr, exp, secs, what):
    ensure(len(ss) == len(exp) and len(tr) == len(exp), '%s: %d steady states, %d transitions, expected %d: %r', what, len(ss), len(tr), len(exp), exp)
    if exp:
        for f, j in ((ss, 1), (tr, 2)):
            ensure_index(f.index, index_from([secs[e[0]] for e in exp]), '%s: times' % what)
            ensure_array(f.values, [e[j] for e in exp], '%s: %s' % (what, ['', 'levels', 'transitions'][j]))
        names = ['active', 'reactive'][:len(exp[0][1])]
        ensure(list(ss.columns) == [x + ' average' for x in names] and list(tr.columns) == [x + ' transition' for x in names], '%s: columns %r, %r', what, list(ss.columns), list(tr.columns))


def check_edges(c):
    S = nk('nilmtk.feature_detectors.steady_states')
    acs = ('active', 'reactive')[:len(c['v'])]
    rows = list(zip(*c['v']))
    f = frame(rows, ac=acs)
    keep = f.copy()
    ss, tr = S.find_steady_states(f, state_threshold=c['thr'], noise_level=c['noise'])
    ensure(f.equals(keep), 'find_steady_states changed its argument')
    exp = steady(rows, c['thr'], c['noise'])
    compare(ss, tr, exp, [6 * i for i in range(len(rows))], 'find_steady_states')
    lab = ['events %s' % min(3, len(exp)), '%d columns' % len(acs)]
    if c['store'] and len(rows) >= 2:
        ds, m = one_meter({'secs': [6 * i for i in range(len(rows))], 'vals': c['v'], 'columns': [['power', a] for a in acs]}, dtype='float64')
        kw = {'chunksize': c['chunk']} if c['chunk'] else {}
        cols = [('power', a) for a in acs]
        exps, secs = [], []
        for ch in m.load(**kw):
            r = [tuple(x) for x in ch[cols].values.tolist()]
            if r:
                exps += [(i + len(secs), x, y) for i, x, y in steady(r, c['thr'], c['noise'])]
                secs += [int((t - index_from([0])[0]).total_seconds()) for t in ch.index]
        ss, tr = S.find_steady_states_transients(m, cols, c['noise'], c['thr'], **kw)
        compare(ss, tr, exps, secs, 'find_steady_states_transients of a meter')
        ds.store.close()
        lab.append('meter')
    return (len(exp) >= 2, lab)


# ---------------------------------------------------------------------- hart
@st.composite
def case_hart(draw):
    n = draw(st.integers(40, 90))
    ac = draw(st.sampled_from(['active', 'active', 'apparent']))
    na = draw(st.integers(1, 3))
    lv = draw(st.sampled_from([[100, 400, 1300], [90, 350, 2500], [150, 310, 800], [120, 140, 1000], [970, 280, 400], [290, 960, 2000]]))
    drift = draw(st.booleans())
    apps = []
    for i in range(na):
        v, on, left, bump, at = [], False, draw(st.integers(2, 9)), 0, 0
        for _ in range(n):
            if left == 0:
                on, left = not on, draw(st.integers(3, 14))
                bump, at = (draw(st.sampled_from([0, 60, 50, -50])), left // 2) if drift else (0, 0)      # the load drifts while it is on
            left -= 1
            v.append(float(lv[i] + (bump if left < at else 0)) if on else 0.0)
        apps.append(v)
    base = draw(st.sampled_from([0, 0, 20, 200]))
    rip = draw(st.sampled_from([0, 0, 2, 5]))
    noise = [[draw(st.integers(-rip, rip)) if rip else 0 for _ in range(n)] for _ in range(2)]
    cut = sorted({draw(st.integers(0, n)) for _ in range(draw(st.integers(0, 2)))})
    return {'ac': ac, 'apps': apps, 'base': base, 'noise': noise, 'cut': cut, 'buffer': draw(st.sampled_from([20, 20, 4, 3, 6])), 'min': draw(st.sampled_from([100, 35, 20])),
            'large': draw(st.sampled_from([1000, 300])), 'export': draw(st.booleans()), 'flat': draw(st.booleans()), 'thr': draw(st.sampled_from([15, 15, 25]))}


def pairs(trs, size, tol, large, pct=0.035):
    buf, out = [], []
    for t, p in trs:
        if len(buf) == size:
            buf = [b for b in buf if not b[2]]
        buf.append([t, p, False])
        buf = buf[-size:]
        for dist in range(1, len(buf)):
            for a, b in zip(buf, buf[dist:]):
                big = max(abs(a[1]), abs(b[1]))
                if a[1] > 0 and not a[2] and not b[2] and abs(a[1] + b[1]) < (tol if big < large else pct * big):
                    a[2] = b[2] = True
                    out.append((a[0], a[1], b[0], b[1]))
    return out


def powers(rows, thr, noise, cents):
    """per centroid: the on/off sequence; None if a transition is equally near to two centroids"""
    on = {i: [False] * len(rows) for i in range(len(cents))}
    ev = {i: {} for i in on}
    for r, _, d in steady(rows, thr, noise):
        dist = sorted((abs(x - abs(d[0])), i) for i, x in enumerate(cents))
        if len(dist) > 1 and dist[1][0] - dist[0][0] < 1e-6:
            return None
        ev[dist[0][1]][r] = d[0] > 0
    for i in on:
        cur = False
        for r in range(len(rows)):
            if ev[i].get(r) is False:
                cur = False
            on[i][r] = cur
            if ev[i].get(r):
                cur = True
    return on


def train(c, names, apps, mains, exp_tr, exp_pairs):
    h = nk('nilmtk.disaggregate').Hart85({})
    h.partial_fit([frame(mains, ac=(c['ac'],))], [(a, [frame(v, ac=(c['ac'],))]) for a, v in zip(names, apps)], buffer_size=c['buffer'], noise_level=70.123,
                  state_threshold=c['thr'], min_tolerance=c['min'], large_transition=c['large'])
    compare(h.steady_states, h.transients, exp_tr, [6 * i for i in range(len(mains))], 'Hart85 training')
    pd_ = h.pair_df
    ensure(len(pd_) == len(exp_pairs), 'Hart85 pairs\n%s\nexpected %r', pd_, exp_pairs)
    got = sorted(zip([int(x) for x in (pd_.iloc[:, 0] - index_from([0])[0]) / pd.Timedelta('6s')], pd_.iloc[:, 1], [int(x) for x in (pd_.iloc[:, 2] - index_from([0])[0]) / pd.Timedelta('6s')], pd_.iloc[:, 3]))
    for g, e in zip(got, sorted(exp_pairs)):
        ensure(g[0] == e[0] and g[2] == e[2] and abs(g[1] - e[1]) < 1e-6 and abs(g[3] - e[3]) < 1e-6, 'Hart85 pairs %r, expected %r', got, sorted(exp_pairs))
    return h


@st.composite
def case_pairs(draw):
    """steps that nearly cancel, around the tolerances"""
    large = draw(st.sampled_from([1000, 1000, 300]))
    level, out, lev, steps = 0, [], draw(st.sampled_from([0, 0, 50])), []
    level = lev
    for _ in range(draw(st.integers(4, 30))):
        v = None
        if out and draw(st.booleans()):
            i = draw(st.integers(0, len(out) - 1))
            e = draw(st.sampled_from([0, 0, 9, 19, 21, 34, 36, 42, 51, 60, 99, 101])) * draw(st.sampled_from([1, -1]))
            v = -(out[i] + e)
            if level + v < 0 or v > -80:
                v = None
            else:
                out.pop(i)
        if v is None:
            v = draw(st.sampled_from([80, 85, 270, 290, 299, 301, 310, 960, 970, 990, 999, 1001, 1010, 1200, 2000]))
            out.append(v)
        level += v
        steps.append([v, draw(st.sampled_from([2, 2, 3]))])
    return {'base': lev, 'steps': steps, 'ac': draw(st.sampled_from(['active', 'apparent'])), 'buffer': draw(st.sampled_from([20, 20, 4, 3, 6])), 'min': draw(st.sampled_from([100, 35, 35, 20])),
            'large': large, 'thr': 15}


def check_pairs(c):
    mains, cur = [float(c['base'])] * 3, c['base']
    for v, k in c['steps']:
        cur += v
        mains += [float(cur)] * k
    exp_tr = steady([(x,) for x in mains], 15, 70.123)
    exp_pairs = pairs([(i, d[0]) for i, _, d in exp_tr], c['buffer'], c['min'], c['large'])
    if not exp_pairs:
        return (False, ['no pairs'])
    train(c, ['fridge'], [mains], mains, exp_tr, exp_pairs)
    big = [max(p[1], -p[3]) >= c['large'] for p in exp_pairs]
    left = len(exp_tr) - 2 * len(exp_pairs)
    return (len(exp_pairs) > 1 and left > 0, ['large pair'] * any(big) + ['small pair'] * (not all(big)) + ['unpaired'] * (left > 0))


def check_hart(c):
    D = nk('nilmtk.disaggregate')
    n = len(c['apps'][0])
    NOISE = 70.123
    mains = [[max(0.0, c['base'] + sum(v[i] for v in c['apps']) + ns[i]) for i in range(n)] for ns in c['noise']]
    rows = [(x,) for x in mains[0]]
    exp_tr = steady(rows, c['thr'], NOISE)
    exp_pairs = pairs([(i, d[0]) for i, _, d in exp_tr], c['buffer'], c['min'], c['large'])
    if not exp_pairs:
        return (False, ['no pairs'])
    names = ['fridge', 'kettle', 'light'][:len(c['apps'])]
    h = train(c, names, c['apps'], mains[0], exp_tr, exp_pairs)
    cents = [float(x) for x in h.centroids.iloc[:, 0]]
    mags = [(abs(e[1]) + abs(e[3])) / 2 for e in exp_pairs]
    ensure(list(h.centroids.index) == list(range(len(cents))) and cents, 'centroids %r', h.centroids)
    ensure(all(min(mags) - 1e-6 <= x <= max(mags) + 1e-6 for x in cents), 'centroids %r outside the pairs %r', cents, mags)
    # which learnt load stands for which appliance
    on = powers(rows, c['thr'], NOISE, cents)
    if on is None:
        return (False, ['tie'])
    for a, v in zip(names, c['apps']):
        m = h.best_matches[a]
        err = {}
        for i, x in enumerate(cents):
            e = sum((int(x) * o - y) ** 2 for o, y in zip(on[i][:-1], v[:-1]))
            err[i] = (math.sqrt((e + min(v[-1] ** 2, (int(x) - v[-1]) ** 2)) / n), math.sqrt((e + max(v[-1] ** 2, (int(x) - v[-1]) ** 2)) / n))
        ensure(m in err and all(err[m][0] <= err[i][1] + 1e-6 for i in err), '%s is matched with %r, RMS errors %r', a, m, err)
    if c['export']:
        p = fresh_path('.pickle')
        h.export_model(p)
        h2 = D.Hart85({})
        h2.import_model(p)
    else:
        h2 = h
    cut = [0] + c['cut'] + [n]
    chunks = [(a, mains[1][a:b]) for a, b in zip(cut, cut[1:])]
    if c['flat']:
        chunks.insert(1, (500, [30.0] * 6))
    got = h2.disaggregate_chunk([frame(x, 6 * a, ac=(c['ac'],)) for a, x in chunks])
    ensure(len(got) == len(chunks), 'Hart85: %d frames for %d chunks', len(got), len(chunks))
    for f, (a, x) in zip(got, chunks):
        ensure(list(f.columns) == names, 'Hart85: columns %r', list(f.columns))
        ensure_index(f.index, index_from([6 * (a + i) for i in range(len(x))]), 'Hart85: index')
        on = powers([(v,) for v in x], c['thr'], NOISE, cents) if x else {}
        if on is None:
            continue
        for name in names:
            m = h.best_matches[name]
            for i in range(len(x) - 1):
                want = cents[m] if on[m][i] else 0.0
                ensure(abs(float(f[name].values[i]) - want) < 1, 'Hart85: %s is %r at sample %d, expected %r (learnt loads %r)', name, f[name].values[i], i, want, cents)
    return (len(exp_tr) >= 2, ['loads %d' % len(cents), 'chunks %d' % len(chunks)] + ['flat'] * c['flat'] + ['exported'] * c['export'])


SUBS = [Sub('pairs', case_pairs(), check_pairs, quick=250, thorough=8000, shards=2),
        Sub('edges', case_edges(), check_edges, quick=700, thorough=10000, shards=4),
        Sub('hart', case_hart(), check_hart, quick=300, thorough=5000, shards=4)]
