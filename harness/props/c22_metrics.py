"""C22: metrics of predictions against ground truth."""
import itertools
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from engine import Sub
from support import close, ensure, ensure_close, isnan, nk, raises, ts, ts_ns
from props.c17_relations import TYPES, energy_over, good
from props.datasets import device, open_dataset

ID = 'C22'
RULE = ('`metrics`: predictions and ground truth as two generated datasets of 1-4 submeters (equal or shifted samples, gaps, other AC types, order, '
        'nested groups); oracle: the documented formulas evaluated by loops over the samples in the good sections of the '
        'prediction (the slice at the end of a section may count or not). `losses`: loss functions on generated series; oracle: the formulas '
        'by loops. `rmse`: compute_rmse on frames with generated columns (meters, names), orders, gaps and missing predictions; oracle: the formula per '
        'appliance. Non-trivial: predictions differ from the truth.')
NAMES = ['fridge', 'kettle', 'light', 'toaster', 'television']


@st.composite
def table(draw, acs, secs=None):
    if secs is None:
        n = draw(st.integers(4, 16))
        secs, x = [], draw(st.sampled_from([0, 0, 0, 6, 3, 60]))
        for i in range(n):
            secs.append(x)
            x += 6 if i < 3 else draw(st.sampled_from([6, 6, 6, 6, 6, 6, 6, 12, 5, 60, 100]))
    hi = draw(st.sampled_from([60, 400, 3000]))
    vals = [[float(draw(st.integers(0, hi))) for _ in secs] for _ in acs]
    return {'secs': secs, 'vals': vals, 'columns': [['power', a] for a in acs]}


@st.composite
def case(draw):
    n = draw(st.integers(1, 4))
    ac = draw(st.sampled_from([['active'], ['active'], ['apparent']]))
    ac2 = draw(st.sampled_from([ac, ac, ac, ['active', 'apparent'], ['reactive', 'active']]))
    pred, truth = [], []
    for i in range(n):
        p = draw(table(ac))
        pred.append(p)
        truth.append(draw(table(ac2, p['secs'] if draw(st.integers(0, 2)) else None)))
    ids = list(draw(st.permutations([2, 3, 4, 5])))[:n]
    # the clocks change at midnight: ambiguous in Havana, missing in Sao Paulo
    tz = draw(st.sampled_from(['UTC'] * 5 + ['Asia/Tokyo', 'America/Havana', 'America/Sao_Paulo']))
    at = {'America/Havana': 18041880, 'America/Sao_Paulo': 15615480}.get(tz, 0)
    at += 60 * draw(st.integers(-5, 60)) if at else 0
    for t in pred + truth:
        t['secs'] = [x + at for x in t['secs']]
    return {'tz': tz, 'at': at, 'pred': pred, 'truth': truth, 'ids': ids, 'order': draw(st.booleans()), 'nested': n >= 3 and draw(st.integers(0, 1)) == 0,
            'f': draw(st.sampled_from(['error', 'fraction', 'mne', 'rms', 'f1']))}


def build(c, name, tabs, rev):
    secs = list(range(c['at'], c['at'] + 61, 6))
    ms = [{'m': 1, 'dev': device('main' + name, [['power', 'active']], 6, 30), 'up': None,
           't': {'secs': secs, 'vals': [[1000.0] * len(secs)], 'columns': [['power', 'active']]}}]
    pairs = list(zip(c['ids'], tabs))
    for i, t in reversed(pairs) if rev else pairs:
        ms.append({'m': i, 'dev': device('d' + name, t['columns'], 6, 30), 'up': 1, 't': t})
    nest = c['ids'][-2:] if c['nested'] else []
    apps = [{'type': NAMES[i - 1], 'instance': 1, 'meters': [i]} for i in c['ids'] if i not in nest]
    if nest:
        apps.append({'type': 'light', 'instance': 2, 'meters': nest})
    return open_dataset({'name': name, 'tz': c['tz'], 'buildings': [{'i': 1, 'meters': ms, 'apps': apps}]}, dtype='float64')


def bins(pts, sp=6):
    out = {}
    for t, v in pts:
        out.setdefault(ts_ns(ts(t)) // (sp * 10 ** 9), []).append(v)
    return {b: sum(v) / len(v) for b, v in out.items()}


def aligned(p, t, gs, endin, f=None):
    """per section: ({bin: pred}, {bin: truth}) of the best AC type"""
    def best(x):
        return x['vals'][min(range(len(x['columns'])), key=lambda j: TYPES.index(x['columns'][j][1]))]
    out = []
    for s in gs:
        a, b = ts_ns(s.start), ts_ns(s.end)
        rows = [(x, v) for x, v in zip(p['secs'], best(p)) if a <= ts_ns(ts(x)) and (ts_ns(ts(x)) < b or s.include_end and ts_ns(ts(x)) == b)]
        if endin:
            rows = [(x, v) for x, v in zip(p['secs'], best(p)) if a <= ts_ns(ts(x)) <= b]
        if len(rows) < 2:
            continue
        lo, hi = rows[0][0], rows[-1][0]
        tr = [(x, v) for x, v in zip(t['secs'], best(t)) if lo <= x < hi or endin and x == hi]
        if not tr:
            continue
        if f:
            rows, tr = [(x, f(v)) for x, v in rows], [(x, f(v)) for x, v in tr]
        out.append((bins(rows), bins(tr)))
    return out


def one_of(got, exps, what):
    ensure(any((isnan(got) and isnan(e)) or close(got, e, rtol=1e-6, atol=1e-9) for e in exps), '%s is %r, expected %r', what, got, exps)


def check(c):
    mt = nk('nilmtk.metrics')
    dp, dt = build(c, 'pred', c['pred'], False), build(c, 'truth', c['truth'], c['order'])
    P, T = dp.buildings[1].elec, dt.buildings[1].elec
    tabs = {i: (p, t) for i, p, t in zip(c['ids'], c['pred'], c['truth'])}
    gsec = {i: P[i].good_sections() for i in c['ids']}
    nest = tuple(c['ids'][-2:]) if c['nested'] else ()
    keys = [i for i in c['ids'] if i not in nest] + ([nest] if nest else [])
    f, lab = c['f'], []

    def entries(s):
        ensure(sorted(map(repr, s.index)) == sorted(map(repr, keys)), '%s: index %r, expected %r', f, list(s.index), keys)
        return dict(zip(s.index, s.values))
    if f == 'error':
        got = entries(mt.error_in_assigned_energy(P, T))
        for k in keys:
            ids = k if isinstance(k, tuple) else (k,)
            gs = gsec[ids[0]]
            ep, et = {}, {}
            for i in ids:
                for acc, tab in ((ep, tabs[i][0]), (et, tabs[i][1])):
                    for a, e in energy_over(tab, gs).items():
                        acc[a] = acc.get(a, 0) + e
            if not ep or not et:
                continue
            for a in set(ep) & set(et):
                ensure_close(got[k][a], abs(ep[a] - et[a]), 'error_in_assigned_energy of %r, %s' % (k, a))
                lab.append('energy')
    elif f == 'fraction':
        def best_energy(ds_i):
            out = {}
            for k in keys:
                out[k] = 0
                for i in (k if isinstance(k, tuple) else (k,)):
                    tab = tabs[i][ds_i]
                    j = min(range(len(tab['columns'])), key=lambda j: TYPES.index(tab['columns'][j][1]))
                    v, s = tab['vals'][j], tab['secs']
                    out[k] += sum(min(b - a, 30) * x for a, b, x in zip(s, s[1:], v)) / 3.6e6
            return out
        ep, et = best_energy(0), best_energy(1)
        if sum(ep.values()) and sum(et.values()):
            got = mt.fraction_energy_assigned_correctly(P, T)
            exp = sum(min(ep[k] / sum(ep.values()), et[k] / sum(et.values())) for k in keys)
            ensure_close(got, exp, 'fraction_energy_assigned_correctly of %r against %r' % (ep, et))
            ensure(-1e-9 <= got <= 1 + 1e-9, 'fraction %r', got)
            lab.append('fraction')
    else:
        if nest:
            keys_checked = [k for k in keys if k != nest]
        else:
            keys_checked = keys
        var = {}
        for k in keys:
            for i in (k if isinstance(k, tuple) else (k,)):
                var[i] = [aligned(tabs[i][0], tabs[i][1], gsec[i], e) for e in (False, True)]
        # nothing in common: the formulas have no value
        if any(not any(set(a) & set(b) for a, b in v) for vs in var.values() for v in vs):
            return False
        if f == 'mne' and any(sum(sum(b.values()) for a, b in v) == 0 for vs in var.values() for v in vs):
            return False
        if f == 'mne':
            got = entries(mt.mean_normalized_error_power(P, T))
            for k in keys_checked:
                exps = []
                for v in var[k]:
                    num = sum(abs(a[x] - b[x]) for a, b in v for x in a if x in b)
                    for den in (sum(sum(b.values()) for a, b in v), sum(b[x] for a, b in v for x in b if x in a)):
                        exps.append(num / den if den else float('inf'))
                one_of(got[k], exps, 'mean_normalized_error_power of %r' % (k,))
        elif f == 'rms':
            got = entries(mt.rms_error_power(P, T))
            for k in keys_checked:
                exps = []
                for v in var[k]:
                    d = [(a[x] - b[x]) ** 2 for a, b in v for x in a if x in b]
                    exps.append(math.sqrt(sum(d) / len(d)))
                one_of(got[k], exps, 'rms_error_power of %r' % (k,))
        else:
            got = entries(mt.f1_score(P, T))
            for k in keys_checked:
                thr = P[k].on_power_threshold()
                # bins which hold several samples are neither on nor off
                exps = []
                for e in (False, True):
                    scores, ns = [], []
                    for a, b in aligned(tabs[k][0], tabs[k][1], gsec[k], e, lambda v: 1.0 if v >= thr else 0.0):
                        xs = [x for x in a if x in b]
                        a, b = [int(a[x]) for x in xs], [int(b[x]) for x in xs]
                        tp = sum(1 for u, v in zip(a, b) if u and v)
                        fp, fn = sum(1 for u, v in zip(a, b) if u and not v), sum(1 for u, v in zip(a, b) if v and not u)
                        scores.append(2 * tp / (2 * tp + fp + fn) if tp else 0.0)
                        ns.append(len(xs))
                    exps.append(sum(s * n for s, n in zip(scores, ns)) / sum(ns) if sum(ns) else float('nan'))
                if T[k].on_power_threshold() != thr:
                    continue
                one_of(got[k], exps, 'f1_score of %r, threshold %r' % (k, thr))
                lab.append('f1 %s' % ('0' if got[k] == 0 else '1' if got[k] == 1 else 'between'))
        lab.append(f)
        if max(len(v) for vs in var.values() for v in vs) > 1:
            lab.append('several sections')
    dp.store.close()
    dt.store.close()
    return (bool(lab), sorted(set(lab)) + (['nested'] if nest else []))


@st.composite
def case_l(draw):
    n = draw(st.integers(2, 30))
    kind = draw(st.sampled_from(['any', 'equal', 'near', 'states']))
    g = [draw(st.sampled_from([0.0, 9.0, 10.0, 11.0, 9.999])) if kind == 'states' else float(draw(st.integers(0, 3000))) / draw(st.sampled_from([1, 1, 7])) for _ in range(n)]
    p = list(g) if kind == 'equal' else [abs(x + draw(st.integers(-9, 9))) for x in g] if kind == 'near' else [float(draw(st.sampled_from([0, 9, 10, 15, 100, 2500]))) for _ in range(n)]
    return {'g': g, 'p': p, 'kind': draw(st.sampled_from(['series', 'array', 'frame']))}


def check_l(c):
    L = nk('nilmtk.losses')
    g, p = c['g'], c['p']
    n = len(g)
    if c['kind'] == 'array':
        G, Q = np.array(g), np.array(p)
    else:
        idx = pd.date_range('2014-01-01', periods=n, freq='6s', tz='UTC')
        G, Q = pd.Series(g, index=idx), pd.Series(p, index=idx)
    ensure_close(float(L.mae(G, Q)), sum(abs(a - b) for a, b in zip(g, p)) / n, 'mae')
    ensure_close(float(L.rmse(G, Q)), math.sqrt(sum((a - b) ** 2 for a, b in zip(g, p)) / n), 'rmse')
    ensure_close(float(L.relative_error(G, Q)), sum(abs(a - b) / (1 + b) for a, b in zip(g, p)) / n, 'relative_error')
    tp = sum(1 for a, b in zip(g, p) if a >= 10 and b >= 10)
    fx = sum(1 for a, b in zip(g, p) if (a >= 10) != (b >= 10))
    ensure_close(float(L.f1score(G, Q)), 2 * tp / (2 * tp + fx) if tp else 0.0, 'f1score')
    if any(g):
        ensure_close(float(L.nde(G, Q)), math.sqrt(sum((a - b) ** 2 for a, b in zip(g, p)) / sum(a * a for a in g)), 'nde')
        ensure_close(float(L.nep(G, Q)), sum(abs(a - b) for a, b in zip(g, p)) / sum(g), 'nep')
    m = sum(g) / n
    ss = sum((a - m) ** 2 for a in g)
    if ss > 1e-6:
        ensure_close(float(L.r2score(G, Q)), 1 - sum((a - b) ** 2 for a, b in zip(g, p)) / ss, 'r2score', rtol=1e-5, atol=1e-7)
    ensure(list(G) == g and list(Q) == p, 'a loss function changed its arguments')
    return g != p


@st.composite
def case_r(draw):
    n = draw(st.integers(1, 5))
    cols, seen = [], set()
    for _ in range(n):
        k = (draw(st.integers(1, 2)), draw(st.integers(2, 6)))
        if k not in seen:
            seen.add(k)
            cols.append(k)
    rows = draw(st.integers(1, 8))

    def col():
        return [None if draw(st.integers(0, 9)) == 5 else float(draw(st.integers(0, 500))) for _ in range(rows)]
    return {'cols': [list(k) for k in cols], 'types': [draw(st.sampled_from(NAMES[:3])) for _ in range(11)], 'kind': draw(st.sampled_from(['meter', 'meter', 'str', 'int'])),
            'gt': [col() for _ in cols], 'pr': [None if draw(st.integers(0, 5)) == 5 else [None] * rows if draw(st.integers(0, 9)) == 5 else col() for _ in cols],
            'order': list(draw(st.permutations(range(len(cols))))), 'shift': draw(st.sampled_from([0, 0, 0, 1, -1])), 'pretty': draw(st.booleans()),
            'cut': draw(st.integers(0, 3)) == 3}


def check_r(c):
    u = nk('nilmtk.utils')
    dev = device('d', [['power', 'active']], 6, 30)
    keys = [tuple(k) for k in c['cols']]
    typ = {k: c['types'][5 * (k[0] - 1) + k[1] - 2] for k in keys}
    if c['kind'] == 'meter':
        bs = []
        for b in (1, 2):
            cnt, apps = {}, []
            for k in sorted(keys):
                if k[0] == b:
                    cnt[typ[k]] = cnt.get(typ[k], 0) + 1
                    apps.append({'type': typ[k], 'instance': cnt[typ[k]], 'meters': [k[1]]})
            bs.append({'i': b, 'meters': [{'m': 1, 'dev': dev, 'up': None}] + [{'m': k[1], 'dev': dev, 'up': 1} for k in sorted(keys) if k[0] == b],
                       'apps': apps})
        ds = open_dataset({'name': 'gen', 'tz': 'UTC', 'buildings': bs})
        obj = {k: ds.buildings[k[0]].elec[k[1]] for k in keys}
        # the predictions may name their columns by other objects of the same meters
        ds2 = nk.DataSet(ds.store.store.filename) if c['cut'] else ds
        obj2 = {k: ds2.buildings[k[0]].elec[k[1]] for k in keys}
    else:
        obj = obj2 = {k: 'b%d m%d' % k if c['kind'] == 'str' else 10 * k[0] + k[1] for k in keys}
    t0 = [ts(6 * i) for i in range(len(c['gt'][0]))]
    t1 = [ts(6 * (i + c['shift'])) for i in range(len(c['gt'][0]))]

    def frame(cols, index):
        df = pd.DataFrame({i: [np.nan if x is None else x for x in v] for i, (_, v) in enumerate(cols)}, index=pd.DatetimeIndex(index), dtype=float)
        names = pd.Index([o for o, _ in cols], dtype=object)
        df.columns = names
        return df
    G = frame([(obj[k], v) for k, v in zip(keys, c['gt'])], t0)
    P = frame([(obj2[keys[i]], c['pr'][i]) for i in c['order'] if c['pr'][i] is not None], t1)
    exp = {}
    for k, g, p in zip(keys, c['gt'], c['pr']):
        if p is None or all(x is None for x in p):
            continue
        at = dict(zip(t1, p))
        pairs = [(x, at[t]) for t, x in zip(t0, g) if x is not None and at.get(t) is not None]
        exp[k] = math.sqrt(sum((a - b) ** 2 for a, b in pairs) / len(pairs)) if pairs else float('nan')
    if c['pretty'] and c['kind'] == 'meter':
        lab = {k: typ[k][0].upper() + typ[k][1:] for k in exp}
        n = list(lab.values())
        lab = {k: v if n.count(v) == 1 else '%s (%d, %d)' % (v, k[0], k[1]) for k, v in lab.items()}
    else:
        lab = {k: obj[k] for k in exp}
    got = u.compute_rmse(G, P, pretty=c['pretty'])
    ensure(len(got) == len(exp) and set(got.index) == set(lab.values()), 'compute_rmse lists %r, expected %r', list(got.index), list(lab.values()))
    for k, v in exp.items():
        ensure_close(float(got[lab[k]]), v, 'compute_rmse of %r' % (lab[k],))
    if c['kind'] == 'meter':
        ds.store.close()
        if ds2 is not ds:
            ds2.store.close()
    return (len(exp) > 1, [c['kind']] + (['some left out'] if len(exp) < len(keys) else []))


SUBS = [Sub('rmse', case_r(), check_r, quick=120, thorough=2000, shards=1),
        Sub('metrics', case(), check, quick=340, thorough=6000, shards=7),
        Sub('losses', case_l(), check_l, quick=400, thorough=5000, shards=1)]
