"""C01: TimeFrame is an interval algebra."""
import copy
import datetime

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from engine import Sub
from support import (ensure, fail, nk, ns, raises, ts, ts_ns, EPOCH)

ID = 'C01'
RULE = ('1-3 intervals with millisecond endpoints drawn from a small pool (so that equal, '
        'adjacent, nested, disjoint and overlapping pairs are all common), open starts/ends, '
        'inclusive ends, disabled and empty frames, naive/UTC/DST timezones; the oracle is '
        'membership of probe instants (every endpoint, +-1 ns, midpoints, far past/future) in '
        'an independent interval model. Non-trivial: at least two frames share or cross an '
        'endpoint, or a frame is open, inclusive, disabled or empty.')
ASSUMPTIONS = ['two frames compared with each other are both tz-aware or both naive']

BASES = [EPOCH, pd.Timestamp('2013-10-27 00:30', tz='UTC'), pd.Timestamp('2014-03-30 00:59:59', tz='UTC')]
TZS = [None, 'UTC', 'Europe/London', 'America/New_York']
FAR = 10 ** 9


@st.composite
def frame_(draw, pool, open_ok=True, special=True):
    a, b = sorted(draw(st.lists(st.sampled_from(pool), min_size=2, max_size=2, unique=True)))
    d = {'s': a, 'e': b, 'inc': False, 'en': True, 'empty': False}
    if open_ok:
        o = draw(st.integers(0, 7))
        if o in (5, 7):
            d['s'] = None
        if o in (6, 7):
            d['e'] = None
    if special:
        k = draw(st.integers(0, 9))
        if k in (7, 8, 9):
            d['inc'] = True
        elif k == 5:
            d['en'] = False
        elif k == 6:
            d['empty'] = True
    return d


@st.composite
def case(draw, n=3, open_ok=True, special=True):
    step = draw(st.sampled_from([1, 1000, 60000, 3600000]))
    pool = sorted(set(draw(st.lists(st.integers(0, 12), min_size=3, max_size=6, unique=True))))
    pool = [p * step / 1000.0 for p in pool]
    if draw(st.booleans()):
        pool = sorted(set(pool) | {round(pool[0] + 0.001, 3)})
    return {'base': draw(st.integers(0, len(BASES) - 1)), 'tz': draw(st.sampled_from(TZS)),
            'tz2': draw(st.sampled_from(TZS[1:])),
            'frames': [draw(frame_(pool, open_ok, special)) for _ in range(n)]}


def _ts(x, c, k=0):
    tz = c['tz']
    if tz is not None and k == 1:
        tz = c['tz2']
    return None if x is None else ts(x, tz, BASES[c['base']])


def build(d, c, k=0):
    TF = nk.TimeFrame
    if d['empty']:
        t = TF(_ts(0, c), _ts(1, c)).intersection(TF(_ts(2, c), _ts(3, c)))
        ensure(t.empty, 'intersection of disjoint frames is not empty')
        return t
    t = TF(_ts(d['s'], c, k), _ts(d['e'], c, k))
    t.include_end = d['inc']
    if not d['en']:
        t.enabled = False
    return t


class M:
    """independent model: start/end in ns or None."""

    def __init__(self, d, c):
        self.empty = d['empty']
        on = d['en']
        self.s = ts_ns(_ts(d['s'], c)) if on and not self.empty else None
        self.e = ts_ns(_ts(d['e'], c)) if on and not self.empty else None
        self.inc = d['inc']

    def has(self, x):
        if self.empty:
            return False
        if self.s is not None and x < self.s:
            return False
        if self.e is not None and (x > self.e or (x == self.e and not self.inc)):
            return False
        return True


def probes(models):
    pts = set()
    for m in models:
        for p in (m.s, m.e):
            if p is not None:
                pts.update((p - 1, p, p + 1))
    pts = sorted(pts) or [0]
    mids = [(a + b) // 2 for a, b in zip(pts, pts[1:])]
    return sorted(set(pts + mids + [pts[0] - FAR * 10 ** 9, pts[-1] + FAR * 10 ** 9]))


def real_has(t, x):
    """membership as the attributes describe it"""
    if t.empty:
        return False
    s, e = ts_ns(t.start), ts_ns(t.end)
    if s is not None and x < s:
        return False
    if e is not None and (x > e or (x == e and not t.include_end)):
        return False
    return True


def snapshot(t):
    return (ts_ns(t.start), ts_ns(t.end), t.include_end, t.enabled, t.empty)


def chk_intersection(c):
    fs = [build(d, c, k) for k, d in enumerate(c['frames'])]
    ms = [M(d, c) for d in c['frames']]
    before = [snapshot(f) for f in fs]
    P = probes(ms)
    for i, a in enumerate(fs):
        for j, b in enumerate(fs):
            r = a.intersection(b)
            only = [x for x in P if ms[i].has(x) and ms[j].has(x)]
            touch = (len(only) == 1)      # a single instant cannot be represented
            for x in P:
                exp = ms[i].has(x) and ms[j].has(x)
                if touch and exp:
                    continue
                ensure(real_has(r, x) == exp,
                       'intersection(%r, %r) = %r (include_end=%s): instant %d %s', a, b, r,
                       r.include_end, x, 'missing' if exp else 'wrongly present')
            if not only:
                ensure(r.empty, 'intersection of disjoint frames %r and %r is not empty: %r', a, b, r)
                ensure(r.start is None and r.end is None, 'empty intersection has endpoints: %r', r)
                ensure(r.timedelta == datetime.timedelta(0), 'empty frame has timedelta %r', r.timedelta)
            elif not touch:
                ensure(not r.empty, 'intersection of overlapping frames %r and %r is empty', a, b)
            ensure((r == b.intersection(a)) is True, 'intersection is not commutative: %r, %r', a, b)
            # check_for_overlap agrees with intersection
            ensure(raises(ValueError, a.check_for_overlap, b) == (not r.empty),
                   'check_for_overlap(%r, %r) disagrees with intersection', a, b)
            if r is a or r is b:
                fail('intersection returned one of its operands')
    n = fs[0].intersection(None)
    ensure(n == fs[0] and n is not fs[0], 'intersection with None is not a copy')
    if len(fs) == 3:
        l = fs[0].intersection(fs[1]).intersection(fs[2])
        r = fs[0].intersection(fs[1].intersection(fs[2]))
        only = [x for x in P if all(m.has(x) for m in ms)]
        pair_touch = any(len([x for x in P if ms[i].has(x) and ms[j].has(x)]) == 1
                         for i in range(3) for j in range(3))
        if not pair_touch and len(only) != 1:
            for x in P:
                ensure(real_has(l, x) == real_has(r, x), 'intersection not associative at %d: %r vs %r', x, l, r)
    after = [snapshot(f) for f in fs]
    ensure(before == after, 'intersection changed its operands: %r -> %r', before, after)
    labels = []
    d0, d1 = c['frames'][0], c['frames'][1]
    for d in c['frames']:
        if d['empty']:
            labels.append('empty')
        if not d['en']:
            labels.append('disabled')
        if d['inc']:
            labels.append('inclusive')
        if d['s'] is None or d['e'] is None:
            labels.append('open')
    ends = [x for d in (d0, d1) for x in (d['s'], d['e']) if x is not None]
    if len(set(ends)) < len(ends):
        labels.append('shared-endpoint')
    return (bool(labels), labels)


def chk_order(c):
    fs = [build(d, c) for d in c['frames']]
    ms = [M(d, c) for d in c['frames']]
    for i, a in enumerate(fs):
        for j, b in enumerate(fs):
            same = (ms[i].s, ms[i].e, ms[i].empty) == (ms[j].s, ms[j].e, ms[j].empty)
            ensure((a == b) is same, '%r == %r is %r', a, b, a == b)
            ensure((a != b) is (not same), '%r != %r is %r', a, b, a != b)
            if same:
                ensure(hash(a) == hash(b), 'equal frames with different hashes: %r %r', a, b)
            # ordering by start, an open start being the earliest
            ka = -1 if ms[i].s is None else ms[i].s
            kb = -1 if ms[j].s is None else ms[j].s
            ensure((a < b) is (ka < kb), '%r < %r is %r', a, b, a < b)
            if ka != kb:
                ensure((a > b) is (ka > kb), '%r > %r is %r', a, b, a > b)
                ensure((a <= b) is (ka < kb) and (a >= b) is (ka > kb), '<= / >= wrong for %r, %r', a, b)
    srt = sorted(fs)
    keys = [-1 if f.start is None else ts_ns(f.start) for f in srt]
    ensure(keys == sorted(keys), 'sorted() does not order frames by start: %r', srt)
    return len({(m.s, m.e, m.empty) for m in ms}) < len(ms) or any(m.s is None for m in ms)


def chk_serial(c):
    mod = nk('nilmtk.timeframe')
    fs = []
    for d in c['frames']:
        d = dict(d, en=True, empty=False, inc=False)
        fs.append(build(d, c))
    for f in fs:
        g = nk.TimeFrame.from_dict(f.to_dict())
        ensure(snapshot(g) == snapshot(f), 'dict round trip: %r -> %r -> %r', f, f.to_dict(), g)
        ensure(g == f, 'dict round trip is not equal: %r -> %r', f, g)
        d = f.to_dict()
        ensure(set(d) == {k for k, v in (('start', f.start), ('end', f.end)) if v is not None},
               'to_dict keys %r for %r', sorted(d), f)
        for v in d.values():
            ensure(isinstance(v, str), 'to_dict value %r is not a string', v)
    back = mod.list_of_timeframes_from_list_of_dicts(mod.list_of_timeframe_dicts(fs))
    ensure(back == fs, 'list round trip: %r -> %r', fs, back)
    # copy constructor
    for d in c['frames']:
        f = build(d, c)
        g = nk.TimeFrame(f)
        ensure(snapshot(g) == snapshot(f) and g == f, 'copy of %r is %r', f, g)
        g.clear()
        ensure(snapshot(build(d, c)) == snapshot(f), 'changing a copy changed the original')
        ensure(g.start is None and g.end is None and not g.empty and g.enabled, 'clear() left %r', g)
    return any(d['s'] is None or d['e'] is None for d in c['frames']) or c['tz'] not in (None, 'UTC')


def chk_setters(c):
    TF = nk.TimeFrame
    f = build(dict(c['frames'][0], en=True, empty=False), c)
    m = M(dict(c['frames'][0], en=True, empty=False), c)
    rejected = 0
    for d in c['frames'][1:]:
        for which, x in (('start', d['s']), ('end', d['e'])):
            new = _ts(x, c)
            n = ts_ns(new)
            before = snapshot(f)
            if which == 'start':
                bad = n is not None and m.e is not None and n >= m.e
            else:
                bad = n is not None and m.s is not None and n <= m.s
            try:
                setattr(f, which, new)
                ok = True
            except ValueError:
                ok = False
            ensure(ok == (not bad), 'setting %s=%s on %r: %s', which, new, before,
                   'accepted' if ok else 'rejected')
            if ok:
                if which == 'start':
                    m.s = n
                else:
                    m.e = n
            else:
                rejected += 1
                ensure(snapshot(f) == before, 'rejected assignment changed the frame')
            ensure((ts_ns(f.start), ts_ns(f.end)) == (m.s, m.e), 'endpoints %r, expected %r',
                   (f.start, f.end), (m.s, m.e))
            if m.s is not None and m.e is not None:
                ensure(f.timedelta == pd.Timedelta(m.e - m.s, unit='ns'), 'timedelta %r', f.timedelta)
    # constructor rejects reversed / degenerate intervals
    a, b = c['frames'][0]['s'], c['frames'][1]['e']
    if a is not None and b is not None:
        A, B = _ts(a, c), _ts(b, c)
        ensure(raises(ValueError, TF, A, B) == (a >= b), 'TimeFrame(%s, %s) wrongly %s', A, B,
               'accepted' if a >= b else 'rejected')
        if a < b:
            naive = TF(ts(a, None, BASES[c['base']]), ts(b, None, BASES[c['base']]), tz='UTC')
            ensure((ts_ns(naive.start), ts_ns(naive.end)) == (ts_ns(ts(a, 'UTC', BASES[c['base']])), ts_ns(ts(b, 'UTC', BASES[c['base']])))
                   and naive.start.tzinfo is not None, 'tz= localisation gave %r', naive)
    # NaT means open
    t = TF(pd.NaT, pd.NaT)
    ensure(t.start is None and t.end is None and not t.empty, 'NaT endpoints gave %r', t)
    # disabling hides endpoints, re-enabling restores them
    s = snapshot(f)
    f.enabled = False
    ensure(f.start is None and f.end is None, 'disabled frame shows endpoints %r', f)
    f.enabled = True
    ensure(snapshot(f) == s, 're-enabled frame is %r', f)
    return rejected > 0


def chk_union_adjacent(c):
    ds = [dict(d, en=True, empty=False) for d in c['frames']]
    fs = [build(d, c) for d in ds]
    ms = [M(d, c) for d in ds]
    lab = set()
    for i, a in enumerate(fs):
        for j, b in enumerate(fs):
            u = a.union(b)
            ensure((ts_ns(u.start), ts_ns(u.end)) == (min(ms[i].s, ms[j].s), max(ms[i].e, ms[j].e)),
                   'union(%r, %r) = %r', a, b, u)
            ensure(not u.empty, 'union is empty')
            for gap in c['gaps']:
                g = int(round(gap * 1e9))
                exp = (ms[j].s - g <= ms[i].e <= ms[j].s) or (ms[i].s - g <= ms[j].e <= ms[i].s)
                got = a.adjacent(b, gap) if gap else a.adjacent(b)
                ensure(bool(got) is exp, 'adjacent(%r, %r, gap=%s) is %r', a, b, gap, got)
                if exp:
                    lab.add('adjacent')
    return (bool(lab), list(lab))


def chk_slice(c):
    lab = set()
    base = BASES[c['base']]
    secs = sorted(c['rows'])
    idx = pd.DatetimeIndex([ts(s, 'UTC', base) for s in secs], dtype='datetime64[ns, UTC]')
    idx = idx.tz_convert(c['tz']) if c['tz'] else idx.tz_localize(None)
    for d in c['frames']:
        f = build(d, c)
        m = M(d, c)
        for obj in (pd.Series(np.arange(len(secs), dtype=float), index=idx),
                    pd.DataFrame({'a': np.arange(len(secs), dtype=float)}, index=idx)):
            r = f.slice(obj)
            exp = [k for k, x in enumerate(ns(idx)) if m.has(x)]
            got = [int(v) for v in np.asarray(r).ravel()]
            ensure(got == exp, 'slice by %r (include_end=%s) of %r gave rows %r, expected %r', f,
                   f.include_end, list(idx), got, exp)
            ensure(ns(r.index) == [ns(idx)[k] for k in exp], 'slice index')
            ensure(len(obj) == len(secs), 'slice changed its argument')
        if exp and len(exp) < len(secs):
            lab.add('partial')
        if d['inc'] and m.e in ns(idx):
            lab.add('row-at-inclusive-end')
        if m.e in ns(idx):
            lab.add('row-at-end')
    return (bool(lab), list(lab))


@st.composite
def slice_case(draw):
    c = draw(case(n=2))
    pool = sorted({x for d in c['frames'] for x in (d['s'], d['e']) if x is not None}) or [1.0]
    extra = draw(st.lists(st.integers(0, 12000), max_size=6, unique=True))
    c['rows'] = sorted(set(pool) | {e / 1000 for e in extra})
    return c


@st.composite
def union_case(draw):
    c = draw(case(n=3, open_ok=False))
    c['gaps'] = draw(st.lists(st.sampled_from([0, 0.001, 1, 1.5, 60, 3600]), min_size=1, max_size=2, unique=True))
    return c


@st.composite
def local_case(draw):
    c = draw(case(n=1, special=False))
    c['tz'] = draw(st.sampled_from(['UTC', 'Europe/London', 'America/New_York', 'Asia/Kolkata']))
    c['form'] = draw(st.sampled_from(['str', 'ts', 'dt', 'date']))
    c['inc'] = draw(st.booleans())
    c['base'] = draw(st.integers(0, 1))        # 00:30 on a day whose 01:00-02:00 comes twice in London
    c['frames'][0]['en'] = True
    return c


def chk_local(c):
    """naive times and a zone; the query terms of the frame"""
    TF, d, tz = nk.TimeFrame, c['frames'][0], c['tz']

    def local(x):
        if x is None:
            return None
        t = pd.Timestamp('2011-04-18 09:22') + pd.Timedelta(milliseconds=round(x * 1000)) if c['base'] == 0 else pd.Timestamp('2013-06-01') + pd.Timedelta(milliseconds=round(x * 1000))
        return t.normalize() + pd.Timedelta(days=int(x) % 50) if c['form'] == 'date' else t
    a, z = local(d['s']), local(d['e'])
    if a is not None and z is not None and a >= z:
        return False
    form = {'str': str, 'ts': lambda x: x, 'dt': lambda x: x.to_pydatetime(), 'date': lambda x: x.strftime('%Y-%m-%d')}[c['form']]
    t = TF(None if a is None else form(a), None if z is None else form(z), tz=tz)
    t.include_end = c['inc']
    exp = [None if x is None else ts_ns(x.tz_localize(tz)) for x in (a, z)]
    ensure([ts_ns(t.start), ts_ns(t.end)] == exp, 'TimeFrame(%r, %r, tz=%r) is %r', a, z, tz, t)
    for x in (t.start, t.end):
        ensure(x is None or str(x.tz) == tz, 'TimeFrame(%r, %r, tz=%r) is in time zone %r', a, z, tz, x and x.tz)
    c2 = TF(t)
    ensure(snapshot(c2) == snapshot(t) and c2 is not t, 'the copy %r differs from %r', c2, t)
    terms = t.query_terms('window')
    pts = sorted(set(p + k for p in exp if p is not None for k in (-1, 0, 1)) | {0, 2 * 10 ** 18})
    if exp == [None, None]:
        ensure(terms is None, 'query terms of an open frame: %r', terms)
    else:
        for p in pts:
            got = all(eval(q, {'index': pd.Timestamp(p, tz='UTC'), 'window': t}) for q in terms)
            ensure(bool(got) == real_has(t, p), 'query terms %r of %r (include_end=%r) at %s: %r', terms, t, c['inc'], pd.Timestamp(p), got)
    c3 = t.intersection(TF(a and a.tz_localize(tz), z and z.tz_localize(tz)))
    ensure([ts_ns(c3.start), ts_ns(c3.end)] == exp, 'intersection of %r with itself is %r', t, c3)
    e = TF(pd.Timestamp('2012-01-01'), pd.Timestamp('2012-01-02')).intersection(TF(pd.Timestamp('2012-01-03'), pd.Timestamp('2012-01-04')))
    ensure(raises(Exception, e.query_terms), 'an empty frame has query terms')
    return (None in exp or c['inc'], [c['form'], tz])


SUBS = [
    Sub('local', local_case(), chk_local, quick=400, thorough=8000, shards=1),
    Sub('intersection', case(), chk_intersection, quick=1500, thorough=40000, shards=4),
    Sub('order', case(), chk_order, quick=800, thorough=15000, shards=2),
    Sub('serial', case(), chk_serial, quick=800, thorough=15000, shards=2),
    Sub('setters', case(n=6, special=False), chk_setters, quick=800, thorough=15000, shards=2),
    Sub('union_adjacent', union_case(), chk_union_adjacent, quick=800, thorough=15000, shards=2),
    Sub('slice', slice_case(), chk_slice, quick=800, thorough=15000, shards=4),
]
