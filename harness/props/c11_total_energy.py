"""C11: total energy of a meter."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from engine import Sub
from support import ensure, ensure_close, nk, ts
from props.datasets import one_meter
from props.storegen import expected_rows, mk_tf

ID = 'C11'
RULE = ('meters recording power, energy and / or cumulative energy for 1-3 AC types with irregular timestamps, gaps '
        'longer than max_sample_period, NaNs, values beyond the device limits; total energy of the whole table, of generated '
        'disjoint sections, under windows and every chunk size; oracle: direct summation in Python. Non-trivial: '
        'several sections or chunks, or a gap, or a clipped value. `function`: get_total_energy on generated frames.')
ASSUMPTIONS = ['chunk-size independence is checked on HDF stores and, for power, on columns without NaN '
               '(a NaN in the row shared by two chunks separates them)']
TYPES = ['active', 'apparent', 'reactive']
PREF = ['cumulative energy', 'energy', 'power']


@st.composite
def case(draw):
    cols = []
    for a in draw(st.lists(st.sampled_from(TYPES), min_size=1, max_size=3, unique=True)):
        for pq in draw(st.lists(st.sampled_from(PREF[1:] + ['power', 'power'] + PREF[:1]), min_size=1, max_size=2, unique=True)):
            cols.append([pq, a])
    if draw(st.integers(0, 3)) == 0:
        cols.append(['voltage', ''])
    cols = list(draw(st.permutations(cols)))
    n = draw(st.integers(2, 25))
    msp = draw(st.sampled_from([1, 6, 10, 60]))
    secs, x = [], draw(st.integers(0, 50))
    for _ in range(n):
        secs.append(x)
        x += draw(st.sampled_from([1, 2, 6, 6, 6, 10, 11, 60, 61, 1000, 4000]))
    chunk = draw(st.one_of(st.none(), st.none(), st.integers(1, 12)))
    vals = []
    for pq, a in cols:
        if pq == 'cumulative energy':
            v = [float(draw(st.integers(0, 100)))]
            for _ in range(n - 1):
                v.append(v[-1] + draw(st.integers(0, 5)))
        else:
            v = [float(draw(st.integers(-20, 3000))) for _ in range(n)]
            if pq != 'power' or chunk is None:
                v = [None if draw(st.integers(0, 9)) == 0 else y for y in v]
        vals.append(v)
    cuts = sorted(set(draw(st.lists(st.one_of(st.sampled_from(secs), st.integers(-5, secs[-1] + 5)), max_size=6))))
    sections = None
    if len(cuts) >= 2 and draw(st.booleans()):
        sections = [[a, b, False] for a, b in zip(cuts, cuts[1:]) if draw(st.integers(0, 3))] or None
    win = None
    if draw(st.integers(0, 2)) == 0:
        a, b = sorted(draw(st.lists(st.integers(-5, secs[-1] + 5), min_size=2, max_size=2, unique=True)))
        win = [a, b, False]
    return {'cols': cols, 'secs': secs, 'vals': vals, 'msp': msp, 'chunk': chunk, 'sections': sections, 'win': win,
            'lim': draw(st.sampled_from([None, [0, 2000], [0, 100000], [100, 500]]))}


def ref_energy(cols, secs, vals, rows, msp, lim):
    out = {}
    for a in TYPES:
        for pq in PREF:
            if [pq, a] not in cols:
                continue
            v = vals[cols.index([pq, a])]
            if pq == 'power':
                pts = []
                for i in rows:
                    if v[i] is not None:
                        w = v[i]
                        if lim:
                            w = min(max(w, lim[0]), lim[1])
                        pts.append((secs[i], w))
                e = sum(min(t2 - t1, msp) * p1 for (t1, p1), (t2, _) in zip(pts, pts[1:])) / 3.6e6
            elif pq == 'energy':
                e = sum(v[i] for i in rows if v[i] is not None)
            else:
                e = v[rows[-1]] - v[rows[0]] if rows else 0
            out[a] = e
            break
    return out


def check(c):
    cols, secs, vals, msp, lim = c['cols'], c['secs'], c['vals'], c['msp'], c['lim']
    t = {'secs': secs, 'vals': vals, 'columns': cols, 'nan': []}
    limits = lim or [-1e9, 1e9]
    ds, meter = one_meter(t, 6, msp, limits=limits, dtype='float64')
    win = c['win'] or [None, None, False]
    ds.store.window = mk_tf(win)
    kw = {}
    if c['chunk']:
        kw['chunksize'] = c['chunk']
    full = [None, None, False]
    labels = set()
    if c['sections'] is None:
        secs_q = [full]
        lo = secs[0] if win[0] is None else max(win[0], secs[0])
        hi = secs[-1] if win[1] is None else min(win[1], secs[-1])
        if lo >= hi:
            ds.store.close()
            return (False, ['window beside the data'])
        # the timeframe of the meter is a section which includes its end
        rows = [[i for i, s in enumerate(secs) if lo <= s < hi or (s == hi and (win[1] is None or hi < win[1]))]]
    else:
        secs_q = c['sections']
        kw['sections'] = [mk_tf(s) for s in secs_q]
        rows = [expected_rows({'secs': secs}, win, s) for s in secs_q]
    exp = {}
    for r in rows:
        if r:
            for a, e in ref_energy(cols, secs, vals, r, msp, lim).items():
                exp[a] = exp.get(a, 0) + e
    what = 'total_energy(sections=%r, chunksize=%r, window=%r, max_sample_period=%r) of %r' % (c['sections'], c['chunk'], win, msp, cols)
    if any(pq in PREF for pq, _ in cols):
        got = meter.total_energy(**dict(kw))
        ensure(set(got.index) <= set(exp) | {a for _, a in cols if a}, '%s: AC types %r', what, list(got.index))
        for a in TYPES:
            if a in exp:
                ensure(a in got.index, '%s: no %s energy in %r', what, a, got.to_dict())
                ensure_close(got[a], exp[a], '%s: %s' % (what, a), rtol=1e-6, atol=1e-9)
            elif a in got.index:
                ensure_close(got[a], 0, '%s: %s without data' % (what, a))
        full_r = meter.total_energy(full_results=True, **dict(kw))
        comb = full_r.combined()
        per = full_r.per_period()
        for a in exp:
            ensure_close(comb[a], exp[a], '%s: full_results.combined()' % what)
            ensure_close(per[a].astype(float).sum(), exp[a], '%s: sum over full_results.per_period()' % what)
        for a in sorted(exp):
            meter.clear_cache()
            one = meter.total_energy(ac_type=a, **dict(kw))
            ensure(list(one.index) == [a], '%s: ac_type=%r gives %r', what, a, one.to_dict())
            ensure_close(one[a], exp[a], '%s: ac_type=%r' % (what, a))
    if c['chunk'] and any(len(r) > c['chunk'] + 1 for r in rows):
        labels.add('chunked')
    if len(rows) > 1:
        labels.add('sections')
    if any(b - a > msp for a, b in zip(secs, secs[1:])):
        labels.add('gap')
    if lim and any(v is not None and not lim[0] <= v <= lim[1] for col, vs in zip(cols, vals) if col[0] == 'power' for v in vs):
        labels.add('clipped')
    ds.store.close()
    return (bool(labels) and any(rows), sorted(labels))


def check_function(c):
    f = nk('nilmtk.stats.totalenergy').get_total_energy
    from support import frame
    cols, secs, vals, msp = c['cols'], c['secs'], c['vals'], c['msp']
    df = frame(secs, cols, vals, dtype='float64')
    got = f(df, msp)
    exp = ref_energy(cols, secs, vals, list(range(len(secs))), msp, None)
    ensure(set(got) == set(exp), 'get_total_energy gives AC types %r, expected %r', sorted(got), sorted(exp))
    for a in exp:
        ensure_close(got[a], exp[a], 'get_total_energy of %r: %s' % (cols, a))
    return (any(b - a > msp for a, b in zip(secs, secs[1:])), [])


SUBS = [Sub('meter', case(), check, quick=420, thorough=6000, shards=7),
        Sub('function', case(), check_function, quick=300, thorough=3000, shards=1)]
