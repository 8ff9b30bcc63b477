"""C02: splitting, merging and intersecting lists of time frames."""
import datetime

import pandas as pd
from hypothesis import strategies as st

from engine import Sub
from support import ensure, nk, ts, ts_ns, EPOCH

ID = 'C02'
RULE = ('lists of up to 8 sorted, non-overlapping frames built from generated durations and gaps '
        '(zero gaps common), thresholds and gaps including exact hits; oracle: partition / coverage '
        'models over integer nanoseconds and probe-instant membership. Non-trivial: a split into '
        '>=2 pieces, a merge that joins at least one and keeps at least one gap, an intersection '
        'with a non-empty and a dropped pair, a filter that drops and keeps.')
TZS = [None, 'UTC', 'Europe/London']
BASES = [EPOCH, pd.Timestamp('2013-10-27 00:30', tz='UTC')]


def TF(a, b, c):
    return nk.TimeFrame(ts(a / 1000, c['tz'], BASES[c['base']]), ts(b / 1000, c['tz'], BASES[c['base']]))


def key(t):
    return (ts_ns(t.start), ts_ns(t.end))


@st.composite
def segs(draw, unit, max_size=8, min_size=0):
    out = []
    t = draw(st.integers(0, 5)) * unit
    for _ in range(draw(st.integers(min_size, max_size))):
        t += draw(st.sampled_from([0, 0, 1, 1, 2, 3, 7])) * unit
        d = draw(st.integers(1, 9)) * unit
        out.append([t, t + d])
        t += d
    return out


@st.composite
def base_case(draw, **kw):
    unit = draw(st.sampled_from([1, 250, 1000, 60000, 3600000]))
    return {'tz': draw(st.sampled_from(TZS)), 'base': draw(st.integers(0, 1)), 'unit': unit,
            'a': draw(segs(unit, **kw))}


@st.composite
def split_case(draw):
    c = draw(base_case(min_size=1, max_size=4))
    k = draw(st.integers(1, 12))
    c['thr_ms'] = max(1, k * c['unit'] + draw(st.sampled_from([0, 0, 0, 1, -1, c['unit'] // 2])))
    return c


def chk_split(c):
    mod = nk('nilmtk.timeframe')
    frames = [TF(a, b, c) for a, b in c['a']]
    thr_ms = c['thr_ms']
    thr = thr_ms // 1000 if thr_ms % 1000 == 0 else thr_ms / 1000
    multi = False
    flat = []
    for f in frames:
        pieces = list(f.split(thr))
        flat += pieces
        ks = [key(p) for p in pieces]
        ensure(bool(ks), 'split of %r gave nothing', f)
        ensure(ks[0][0] == key(f)[0] and ks[-1][1] == key(f)[1], 'split of %r by %s s starts/ends elsewhere: %r', f, thr, pieces)
        for (a, b), (a2, b2) in zip(ks, ks[1:]):
            ensure(b == a2, 'pieces of split(%r, %s) are not adjacent: %r', f, thr, pieces)
        for a, b in ks:
            ensure(0 < b - a <= thr_ms * 10 ** 6, 'piece %r longer than %s s (or empty)', (a, b), thr)
        exp_n = -(-(key(f)[1] - key(f)[0]) // (thr_ms * 10 ** 6))
        ensure(len(ks) == exp_n, 'split(%r, %s s) gave %d pieces, %d suffice', f, thr, len(ks), exp_n)
        ensure(key(f) == key(TF(*c['a'][frames.index(f)], c)), 'split changed the frame')
        multi |= len(ks) > 1
    allp = [key(p) for p in mod.split_timeframes(frames, thr)]
    ensure(allp == [key(p) for p in flat], 'split_timeframes differs from splitting one by one')
    return multi


@st.composite
def merge_case(draw):
    c = draw(base_case())
    c['gap_ms'] = draw(st.sampled_from([0, 0, c['unit'], 2 * c['unit'], 3 * c['unit'],
                                        max(0, c['unit'] - 1), c['unit'] + 1]))
    return c


def chk_merge(c):
    mod = nk('nilmtk.timeframe')
    frames = [TF(a, b, c) for a, b in c['a']]
    inp = list(frames)
    gap = c['gap_ms'] / 1000
    if gap:
        r = mod.merge_timeframes(frames, gap=gap if c['gap_ms'] % 1000 else c['gap_ms'] // 1000)
    else:
        r = mod.merge_timeframes(frames)
    exp = []
    for a, b in c['a']:
        if exp and a - exp[-1][1] <= c['gap_ms']:
            exp[-1][1] = b
        else:
            exp.append([a, b])
    ensure([key(x) for x in r] == [key(TF(a, b, c)) for a, b in exp],
           'merge_timeframes(%r, gap=%s) = %r, expected %r', inp, gap, r, exp)
    ensure([key(x) for x in inp] == [key(TF(a, b, c)) for a, b in c['a']], 'merge changed its input frames')
    joined = len(exp) < len(c['a'])
    return (joined and len(exp) > 1, ['joined'] if joined else [])


@st.composite
def tfg_case(draw):
    c = draw(base_case())
    c['b'] = draw(segs(c['unit']))
    c['inc'] = draw(st.lists(st.booleans(), min_size=16, max_size=16))
    c['thr_ms'] = draw(st.sampled_from([b - a for a, b in c['a']] + [c['unit']])) + draw(st.sampled_from([0, 0, 1, -1]))
    c['aslist'] = draw(st.booleans())
    return c


def chk_tfg(c):
    TFG = nk('nilmtk.timeframegroup').TimeFrameGroup
    A, B = TFG(), TFG()
    for k, (a, b) in enumerate(c['a']):
        t = TF(a, b, c)
        t.include_end = c['inc'][k]
        A.append(t)
    for k, (a, b) in enumerate(c['b']):
        t = TF(a, b, c)
        t.include_end = c['inc'][8 + k]
        B.append(t)
    if c['aslist']:
        A2 = TFG(list(A))
        ensure(list(A2) == list(A), 'TimeFrameGroup(list) lost frames')

    def has(group, x):
        for t in group:
            s, e = key(t)
            if s <= x < e or (x == e and t.include_end):
                return True
        return False
    before = [(key(t), t.include_end) for t in list(A) + list(B)]
    r = A.intersection(list(B) if c['aslist'] else B)
    ensure(isinstance(r, TFG), 'intersection is not a TimeFrameGroup')
    pts = sorted({p + d for t in list(A) + list(B) for p in key(t) for d in (-1, 0, 1)})
    def pair_has(x):
        # pairs that share more than a single instant: an instant has no duration
        for p in A:
            for q in B:
                if max(key(p)[0], key(q)[0]) < min(key(p)[1], key(q)[1]) and has([p], x) and has([q], x):
                    return True
        return False
    nonempty = any(pair_has(x) for x in pts)
    for x in pts:
        exp, got = pair_has(x), has(r, x)
        ensure(got == exp, 'intersection of %r and %r: instant %d %s: %r', A, B, x,
               'missing' if exp else 'wrongly present', r)
    ks = [key(t) for t in r]
    ensure(all(not t.empty for t in r), 'intersection contains an empty frame')
    ensure(ks == sorted(ks), 'intersection of sorted groups is not sorted: %r', r)
    for (a, b), (a2, b2) in zip(ks, ks[1:]):
        ensure(b <= a2, 'intersection of non-overlapping groups overlaps: %r', r)
    up = sum(max(0, min(b, d) - max(a, e)) for a, b in c['a'] for e, d in c['b'])
    ensure(r.uptime() == datetime.timedelta(milliseconds=up), 'uptime of the intersection %r is %r, expected %d ms', r, r.uptime(), up)
    ensure(A.uptime() == datetime.timedelta(milliseconds=sum(b - a for a, b in c['a'])), 'uptime of %r is %r', A, A.uptime())
    r2 = B.intersection(A)
    ensure(sorted(map(key, r2)) == sorted(ks), 'intersection is not symmetric: %r vs %r', r, r2)
    thr = c['thr_ms'] / 1000
    f = A.remove_shorter_than(thr)
    exp = [(a, b) for a, b in c['a'] if b - a >= c['thr_ms']]
    ensure(isinstance(f, TFG) and [key(t) for t in f] == [key(TF(a, b, c)) for a, b in exp],
           'remove_shorter_than(%s) of %r gave %r', thr, A, f)
    ensure(before == [(key(t), t.include_end) for t in list(A) + list(B)], 'operands changed')
    labels = []
    if nonempty:
        labels.append('overlap')
    if 0 < len(exp) < len(c['a']):
        labels.append('filtered')
    return (nonempty and len(c['a']) + len(c['b']) >= 3, labels)


@st.composite
def period_case(draw):
    return {'freq': draw(st.sampled_from(['D', 'h', 'M', 'W', 'min'])), 'n': draw(st.integers(0, 6)),
            'start': draw(st.sampled_from(['2011-01-01', '2012-02-27 05:00', '2013-12-31']))}


def chk_period(c):
    TFG = nk('nilmtk.timeframegroup').TimeFrameGroup
    pi = pd.period_range(c['start'], periods=c['n'], freq=c['freq'])
    g = TFG(pi)
    ensure(len(g) == len(pi), 'TimeFrameGroup(PeriodIndex) has %d frames for %d periods', len(g), len(pi))
    for t, p in zip(g, pi):
        ensure(key(t) == (ts_ns(p.start_time), ts_ns(p.end_time)), 'period %s became %r', p, t)
    ensure(list(TFG()) == [] and list(TFG([])) == [] and list(TFG(None)) == [], 'empty TimeFrameGroup is not empty')
    return c['n'] > 1


SUBS = [
    Sub('split', split_case(), chk_split, quick=1200, thorough=20000, shards=3),
    Sub('merge', merge_case(), chk_merge, quick=1500, thorough=20000, shards=2),
    Sub('group', tfg_case(), chk_tfg, quick=1500, thorough=20000, shards=4),
    Sub('periods', period_case(), chk_period, quick=60, thorough=200, tshards=1),
]
