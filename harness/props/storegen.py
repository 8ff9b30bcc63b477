"""Generators and reference models shared by the data-store properties."""
import pandas as pd
from hypothesis import strategies as st

from support import index_from, nk, ns, ts, ts_ns, frame, ensure, fail, EPOCH

COLSETS = [
    [['power', 'active']],
    [['power', 'active'], ['voltage', '']],
    [['power', 'active'], ['power', 'reactive'], ['voltage', '']],
    [['power', 'apparent'], ['energy', 'active'], ['cumulative energy', 'active']],
]
STEPS = [1, 1, 1, 2, 6, 30, 61, 600, 7200]


@st.composite
def table(draw, min_rows=2, max_rows=40, start=None, ms=False, cols=None):
    """{'secs': [...], 'cols': k, 'nan': [[r, c], ...]}; the value of row i, column j
    is i + 1000 * j (a NaN where listed), so a row out of place is visible."""
    n = draw(st.integers(min_rows, max_rows))
    regular = draw(st.booleans())
    step0 = draw(st.sampled_from(STEPS))
    t = draw(st.integers(0, 100)) if start is None else start
    secs = []
    for _ in range(n):
        secs.append(t)
        d = step0 if regular and draw(st.integers(0, 9)) else draw(st.sampled_from(STEPS))
        t += d
    if ms and draw(st.integers(0, 3)) == 0:
        off = draw(st.integers(0, 6))
        secs = [s + 0.001 * ((i + off) % 7) for i, s in enumerate(secs)]
    k = draw(st.integers(0, len(COLSETS) - 1)) if cols is None else cols
    nan = []
    if draw(st.integers(0, 2)) == 0:
        nan = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, len(COLSETS[k]) - 1)),
                            max_size=5, unique=True))
    return {'secs': secs, 'cols': k, 'nan': [list(x) for x in sorted(nan)]}


def values(t):
    cols = COLSETS[t['cols']]
    data = [[float(i + 1000 * j + t.get('off', 0)) for i in range(len(t['secs']))] for j in range(len(cols))]
    for r, c in t['nan']:
        data[c][r] = None
    return data


def to_df(t, tz='UTC', dtype='float32'):
    return frame(t['secs'], COLSETS[t['cols']], values(t), tz, dtype)


@st.composite
def bound(draw, secs):
    """A time near a row: exactly on it, just beside it, or in a gap / outside."""
    i = draw(st.integers(0, len(secs) - 1))
    d = draw(st.sampled_from([0, 0, 0, 0.5, -0.5, 1, -1, 0.001, -0.001]))
    far = draw(st.integers(0, 19))
    if far == 0:
        return round(secs[0] - 1000, 3)
    if far == 1:
        return round(secs[-1] + 1000, 3)
    return round(secs[i] + d, 3)


@st.composite
def interval(draw, secs, p_open=4, inc=True):
    a, b = draw(bound(secs)), draw(bound(secs))
    if a > b:
        a, b = b, a
    if a == b:
        b = round(a + draw(st.sampled_from([0.001, 1, 50])), 3)
    o = draw(st.integers(0, 2 * p_open))
    if o == 2 * p_open:
        a = None
    elif o == 2 * p_open - 1:
        b = None
    return [a, b, bool(inc and draw(st.integers(0, 4)) == 4)]


def mk_tf(iv, tz='UTC'):
    t = nk.TimeFrame(None if iv[0] is None else ts(iv[0], tz), None if iv[1] is None else ts(iv[1], tz))
    t.include_end = iv[2]
    return t


def iv_has(iv, s):
    """s in ns (UTC)."""
    a = None if iv[0] is None else ts_ns(ts(iv[0]))
    b = None if iv[1] is None else ts_ns(ts(iv[1]))
    if a is not None and s < a:
        return False
    if b is not None and (s > b or (s == b and not iv[2])):
        return False
    return True


def iv_empty(w, s):
    """is the intersection of the two intervals empty (no duration)?"""
    a = [x for x in (w[0], s[0]) if x is not None]
    b = [x for x in (w[1], s[1]) if x is not None]
    return bool(a and b and max(a) >= min(b))


def iv_cut(w, s):
    a = [x for x in (w[0], s[0]) if x is not None]
    b = [x for x in (w[1], s[1]) if x is not None]
    return (max(a) if a else None, min(b) if b else None)


def expected_rows(t, window, section):
    if iv_empty(window, section):
        return []
    out = []
    for i, s in enumerate(t['secs']):
        x = ts_ns(ts(s))
        if iv_has(window, x) and iv_has(section, x):
            out.append(i)
    return out


def check_frame(df, t, rows, cols, what, tz='UTC', exact_dtype=None):
    """df holds exactly `rows` of table t, columns `cols`, in order."""
    ensure([tuple(c) for c in df.columns] == [tuple(c) for c in cols],
           '%s: columns %r, expected %r' % (what, [tuple(c) for c in df.columns], [tuple(c) for c in cols]))
    exp_idx = [ts_ns(ts(t['secs'][i])) for i in rows]
    got = [ts_ns(x) for x in df.index]
    ensure(got == exp_idx, '%s: rows at %r, expected rows %r at %r' % (
        what, [str(x) for x in df.index][:30], rows[:30], [str(ts(t['secs'][i])) for i in rows][:30]))
    allcols = [tuple(c) for c in COLSETS[t['cols']]]
    data = values(t)
    for c in cols:
        j = allcols.index(tuple(c))
        exp = [data[j][i] for i in rows]
        col = [None if pd.isnull(v) else float(v) for v in df[tuple(c)].values]
        ensure(col == exp, '%s: column %r is %r, expected %r' % (what, c, col[:30], exp[:30]))
    if len(df.index):
        if tz is None:
            ensure(df.index.tz is None, '%s: index became tz-aware (%s)' % (what, df.index.tz))
        else:
            ensure(df.index.tz is not None, '%s: index lost its timezone' % what)
    if exact_dtype is not None and len(df):
        ensure(all(str(d) == exact_dtype for d in df.dtypes), '%s: dtypes %r' % (what, list(df.dtypes)))
