"""C17: statistics which relate a meter to time or to another meter."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from engine import Sub
from support import ensure, ensure_close, isnan, nk, ts, ts_ns
from props.c11_total_energy import ref_energy
from props.c15_stats_cache import _clear
from props.datasets import device, open_dataset

ID = 'C17'
RULE = ('`energy`: a building with a site meter and two submeters with generated gaps, AC types and values: proportion_of_energy, '
        'proportion_of_upstream, uptime, average_energy_per_period, vampire power; oracle: direct summation over the good sections of the other '
        'meter. `correlation`: two aligned meters with equal or different sample periods; oracle: Pearson coefficient of the binned '
        'means. `information`: entropy and mutual information; oracle: brute-force k-nearest-neighbour estimators. Non-trivial: the good '
        'sections leave something out / neither series is constant / all.')
TYPES = ['active', 'apparent', 'reactive']


@st.composite
def meter_table(draw, n0=3, acs=None):
    acs = acs or draw(st.lists(st.sampled_from(TYPES), min_size=1, max_size=2, unique=True))
    n = draw(st.integers(n0, 16))
    secs, x = [], draw(st.sampled_from([0, 0, 0, 6, 30, 300]))
    for _ in range(n):
        secs.append(x)
        x += draw(st.sampled_from([6, 6, 6, 6, 6, 6, 12, 30, 31, 100]))
    vals = [[float(draw(st.integers(0, 2000))) for _ in range(n)] for _ in acs]
    if draw(st.integers(0, 19)) == 0:
        vals = [[0.0] * n for _ in acs]
    return {'secs': secs, 'vals': vals, 'columns': [['power', a] for a in acs]}


@st.composite
def case_e(draw):
    shared = draw(st.sampled_from([None, None, ['active'], ['apparent'], ['active', 'reactive'], ['reactive', 'apparent']]))
    a, b = draw(st.sampled_from([(i, j) for i in range(3) for j in range(3) if i != j]))
    return {'meters': [draw(meter_table(acs=shared)) for _ in range(3)], 'up2': draw(st.sampled_from([1, 2])),
            'a': a, 'b': b, 'alias': draw(st.sampled_from(['D', 'h', '30min', 'W']))}


def rows_of(secs, sections):
    """rows inside each section (TimeFrames of the code: bounds and include_end)."""
    out = []
    for s in sections:
        a, b = ts_ns(s.start), ts_ns(s.end)
        out.append([i for i, x in enumerate(secs) if a <= ts_ns(ts(x)) and (ts_ns(ts(x)) < b or (s.include_end and ts_ns(ts(x)) == b))])
    return out


def energy_over(t, sections, msp=30):
    out = {}
    for rows in rows_of(t['secs'], sections):
        if rows:
            for a, e in ref_energy(t['columns'], t['secs'], t['vals'], rows, msp, [0, 100000]).items():
                out[a] = out.get(a, 0) + e
    return out


def good(t, msp=30):
    out, cur = [], [t['secs'][0]]
    for a, b in zip(t['secs'], t['secs'][1:]):
        if b - a <= msp:
            cur.append(b)
        else:
            if len(cur) > 1:
                out.append((cur[0], cur[-1]))
            cur = [b]
    if len(cur) > 1:
        out.append((cur[0], cur[-1]))
    return out


def ratio(e, o):
    shared = [a for a in TYPES if a in e and a in o]
    if len(shared) >= 1:
        rs = [e[a] / o[a] if o[a] else (float('nan') if e[a] == 0 else float('inf')) for a in shared]
        rs = [r for r in rs if not isnan(r)]
        return sum(rs) / len(rs) if rs else float('nan')
    be = [a for a in TYPES if a in e][0]
    bo = [a for a in TYPES if a in o][0]
    return e[be] / o[bo] if o[bo] else (float('nan') if e[be] == 0 else float('inf'))


def check_e(c):
    ms = []
    for i, t in enumerate(c['meters']):
        dev = device('dev%d' % i, t['columns'], 6, 30)
        ms.append({'m': i + 1, 'dev': dev, 'up': None if i == 0 else (1 if i == 1 else c['up2']), 't': t})
    ds = open_dataset({'name': 'gen', 'tz': 'UTC', 'buildings': [{'i': 1, 'meters': ms, 'apps': []}]}, dtype='float64')
    elec = ds.buildings[1].elec
    meter = {m.instance(): m for m in elec.meters}
    T = {i + 1: t for i, t in enumerate(c['meters'])}
    for i, m in [(c['b'] + 1, meter[c['b'] + 1])]:
        up = sum(b - a for a, b in good(T[i]))
        ensure_close(m.uptime().total_seconds(), up, 'uptime of a meter sampled at %r' % T[i]['secs'])
        vp = min(T[i]['vals'][min(range(len(T[i]['columns'])), key=lambda j: TYPES.index(T[i]['columns'][j][1]))])
        ensure_close(m.vampire_power(), vp, 'vampire_power')
        period = {'D': 86400, 'h': 3600, '30min': 1800, 'W': 604800}[c['alias']]
        allrows = list(range(len(T[i]['secs'])))
        tot = ref_energy(T[i]['columns'], T[i]['secs'], T[i]['vals'], allrows, 30, [0, 100000])
        got = m.average_energy_per_period(offset_alias=c['alias'])
        if up == 0:
            ensure(np.all(pd.isnull(got)), 'average_energy_per_period without any good section is %r', got)
        else:
            for a in tot:
                ensure_close(got[a], tot[a] / (up / period), 'average_energy_per_period(%r)' % c['alias'])
        got = m.average_energy_per_period(offset_alias=c['alias'], use_uptime=False)
        for a in tot:
            ensure_close(got[a], tot[a] / ((T[i]['secs'][-1] - T[i]['secs'][0]) / period), 'average_energy_per_period(%r, use_uptime=False)' % c['alias'])
    a, b = c['a'] + 1, c['b'] + 1
    labels = []
    if a != b:
        gs = meter[b].good_sections()
        ensure([(ts_ns(x.start), ts_ns(x.end)) for x in gs] == [(ts_ns(ts(x)), ts_ns(ts(y))) for x, y in good(T[b])], 'good sections of meter %d', b)
        eo, es = energy_over(T[b], gs), energy_over(T[a], gs)
        got = meter[a].proportion_of_energy(meter[b])
        what = 'proportion_of_energy of %r with respect to %r' % (T[a], T[b])
        if sum(eo.values()) == 0:
            ensure(isnan(got), '%s: %r although the other meter used nothing', what, got)
        elif not es or sum(es.values()) == 0:
            ensure(got == 0 or isnan(got), '%s: %r, expected 0', what, got)
        else:
            ensure_close(got, ratio(es, eo), what)
            labels.append('ratio')
    for i in (2, 3):
        u = 1 if i == 2 else c['up2']
        gs = meter[u].good_sections()
        eo, es = energy_over(T[u], gs), energy_over(T[i], gs)
        shared = [x for x in TYPES if x in eo and x in es]
        if not gs or not shared or not set(es) == set(eo) or eo[shared[0]] == 0:
            continue
        _clear()            # what the cache does is the business of C15
        got = meter[i].proportion_of_upstream()
        ensure_close(got, es[shared[0]] / eo[shared[0]], 'proportion_of_upstream of meter %d (upstream %d)' % (i, u))
        labels.append('upstream')
    ds.store.close()
    return (bool(labels), labels)


@st.composite
def case_c(draw):
    n = draw(st.integers(4, 20))
    k = draw(st.sampled_from([1, 1, 2, 5]))
    v1 = [float(draw(st.integers(0, 500))) for _ in range(n * k)]
    v2 = [float(draw(st.integers(0, 500))) for _ in range(n)]
    if draw(st.booleans()):
        v2 = [draw(st.sampled_from([-1, 2])) * x + 1500 for x in v1[:n]] if k == 1 else v2
    cut = sorted(draw(st.lists(st.integers(1, n - 1), min_size=2, max_size=2))) if draw(st.booleans()) else None
    return {'v1': v1, 'v2': v2, 'k': k, 'swap': draw(st.booleans()), 'cut': cut}


def check_c(c):
    k, v1, v2 = c['k'], c['v1'], c['v2']
    sp1, sp2 = 6, 6 * k
    base = 60 * 30            # the generator's epoch is a multiple of 60 s
    t1 = {'secs': [base + sp1 * i for i in range(len(v1))], 'vals': [v1], 'columns': [['power', 'active']]}
    t2 = {'secs': [base + sp2 * i for i in range(len(v2))], 'vals': [v2], 'columns': [['power', 'active']]}
    ms = [{'m': 1, 'dev': device('d1', t1['columns'], sp1, 30), 'up': None, 't': t1},
          {'m': 2, 'dev': device('d2', t2['columns'], sp2, 60), 'up': 1, 't': t2}]
    ds = open_dataset({'name': 'gen', 'tz': 'UTC', 'buildings': [{'i': 1, 'meters': ms, 'apps': []}]}, dtype='float64')
    m = {x.instance(): x for x in ds.buildings[1].elec.meters}
    off = (ts_ns(ts(base)) // 10 ** 9) % sp2
    bins = {}
    for i, v in enumerate(v1):
        bins.setdefault((off + i * sp1) // sp2, []).append(v)
    x = [sum(b) / len(b) for _, b in sorted(bins.items())]
    aligned = len(x) == len(v2)
    kw = {}
    if c.get('cut') and off == 0:
        # two sections: the first c['cut'][0] bins, and those from c['cut'][1] on
        a, b = c['cut']
        kw = {'sections': [nk.TimeFrame(ts(base), ts(base + sp2 * a)), nk.TimeFrame(ts(base + sp2 * b), ts(base + sp2 * len(v2)))]}
        keep = [i for i in range(len(v2)) if i < a or i >= b]
        if aligned:
            x, v2 = [x[i] for i in keep], [v2[i] for i in keep]
    ok = aligned and np.std(x) > 1e-6 and np.std(v2) > 1e-6
    got = m[2].correlation(m[1], **kw) if c['swap'] else m[1].correlation(m[2], **kw)
    if ok:
        exp = np.corrcoef(x, v2)[0, 1]
        ensure_close(got, exp, 'correlation of %r with %r' % (x, v2), atol=1e-7)
    ds.store.close()
    return (bool(ok), ['k=%d' % k, 'sections' if kw else 'whole'])


@st.composite
def case_i(draw):
    n = draw(st.integers(6, 30))
    return {'n': n, 'a': draw(st.integers(1, 10 ** 6)), 'b': draw(st.integers(1, 10 ** 6)), 'k': draw(st.sampled_from([None, 1, 3, 4])),
            'base': draw(st.sampled_from([None, 2, 10])), 'big': False}


def brute(points, i, k):
    d = sorted(max(abs(u - v) for u, v in zip(points[i], p)) for p in points)
    return d[k]


def check_i(c):
    from scipy.special import digamma
    n = 10050 if c['big'] else c['n']

    def series(seed):
        return [(math.sin(seed * 0.001 + i * 12.9898 + seed % 97) * 43758.5453) % 1.0 * 1000 for i in range(n)]
    x, y = series(c['a']), series(c['b'])
    if not c['big']:
        # enough distance to everything that the random jitter of 1e-10 cannot matter
        for s in (x, y):
            q = sorted(s)
            if min(v - u for u, v in zip(q, q[1:])) < 1e-3:
                return False
    t1 = {'secs': [6 * i for i in range(n)], 'vals': [x], 'columns': [['power', 'active']]}
    t2 = {'secs': [6 * i for i in range(n)], 'vals': [y], 'columns': [['power', 'active']]}
    ms = [{'m': 1, 'dev': device('d1', t1['columns'], 6, 30), 'up': None, 't': t1},
          {'m': 2, 'dev': device('d1', t2['columns'], 6, 30), 'up': 1, 't': t2}]
    ds = open_dataset({'name': 'gen', 'tz': 'UTC', 'buildings': [{'i': 1, 'meters': ms, 'apps': []}]}, dtype='float64')
    m = {z.instance(): z for z in ds.buildings[1].elec.meters}
    kw = {}
    if c['k']:
        kw['k'] = c['k']
    if c['base']:
        kw['base'] = c['base']
    k, base = c['k'] or 3, c['base'] or 2
    h = m[1].entropy(**kw)
    if c['big']:
        # estimated from parts of the samples: close to the entropy of the distribution they are drawn from
        ensure(abs(h * math.log(base) - math.log(1000)) < 0.1, 'entropy of %d samples of [0, 1000) is %r', n, h)
        mi = m[1].mutual_information(m[2], **kw) * math.log(base)
        ensure(abs(mi) < 0.1, 'mutual_information of %d independent samples is %r', n, mi)
        own = m[1].mutual_information(m[1], **kw) * math.log(base)
        ensure(own > 5, 'mutual_information of %d samples with themselves is %r', n, own)
        ds.store.close()
        return True
    px = [[v] for v in x]
    exp = (digamma(n) - digamma(k) + math.log(2) + np.mean([math.log(brute(px, i, k)) for i in range(n)])) / math.log(base)
    ensure_close(h, exp, 'entropy(%r) of %d samples' % (kw, n), rtol=1e-4, atol=1e-6)
    py = [[v] for v in y]
    pts = [[u, v] for u, v in zip(x, y)]
    d = [brute(pts, i, k) for i in range(n)]
    # two distances so close that rounding decides: no verdict
    for p in (x, y):
        for i in range(n):
            for u in p:
                g = abs(abs(u - p[i]) - d[i])
                if g < 1e-6 and g > 0:
                    return False
    got = m[1].mutual_information(m[2], **kw)

    def avg(p):
        # points nearer than the distance; the one which defines it may fall on either side
        lo = sum(digamma(sum(1 for u in p if abs(u[0] - p[i][0]) < d[i] - 1e-7)) for i in range(n)) / n
        hi = sum(digamma(sum(1 for u in p if abs(u[0] - p[i][0]) < d[i] + 1e-7)) for i in range(n)) / n
        return lo, hi
    (xl, xh), (yl, yh) = avg(px), avg(py)
    lo = (-xh - yh + digamma(k) + digamma(n)) / math.log(base)
    hi = (-xl - yl + digamma(k) + digamma(n)) / math.log(base)
    ensure(lo - 1e-6 <= got <= hi + 1e-6, 'mutual_information(%r) of %d samples is %r, expected within [%r, %r]', kw, n, got, lo, hi)
    ds.store.close()
    return True


SUBS = [Sub('energy', case_e(), check_e, quick=200, thorough=3500, shards=6),
        Sub('correlation', case_c(), check_c, quick=60, thorough=1500, shards=1),
        Sub('information', case_i(), check_i, quick=60, thorough=1000, shards=2,
            examples=[{'n': 0, 'a': 5, 'b': 6, 'k': None, 'base': 2, 'big': True}])]
