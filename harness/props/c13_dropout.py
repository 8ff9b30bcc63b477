"""C13: dropout rate."""
import math

from hypothesis import strategies as st

from engine import Sub
from support import ensure, ensure_close, index_from, isnan, nk, ts, ts_ns
from props.datasets import one_meter
from props.storegen import expected_rows, mk_tf

ID = 'C13'
RULE = ('generated recordings with lost samples, bursts and gaps; `function`: get_dropout_rate of DataFrames, Series and '
        'DatetimeIndexes; `meter`: ElecMeter.dropout_rate with and without gaps, whole or in sections, first and repeated call; oracle: '
        'max(0, 1 - samples / expected samples), weighted by samples over sections. Non-trivial: at least five '
        'samples and one lost.')


@st.composite
def recording(draw, lo=0):
    sp = draw(st.sampled_from([1, 6, 10]))
    n = draw(st.integers(lo, 40))
    secs, x = [], draw(st.integers(0, 20))
    kind = draw(st.integers(0, 3))
    for _ in range(n):
        secs.append(x)
        steps = [[sp], [sp, sp, sp, 2 * sp], [sp, sp, sp, sp, 2 * sp, 7 * sp], [1, sp, sp, 2 * sp, 100 * sp]][kind]
        x += draw(st.sampled_from(steps))
    return {'sp': sp, 'secs': secs}


def ref(secs, sp):
    if len(secs) < 5:
        return None
    exp = round((secs[-1] - secs[0]) / sp) + 1
    return max(0.0, 1 - len(secs) / exp)


def check_function(c):
    import pandas as pd
    f = nk('nilmtk.stats.dropoutrate').get_dropout_rate
    secs, sp = c['secs'], c['sp']
    idx = index_from(secs)
    exp = ref(secs, sp)
    for data in (pd.DataFrame({'a': range(len(secs))}, index=idx), pd.Series(range(len(secs)), index=idx), idx):
        got = f(data, sp)
        if exp is None:
            ensure(isnan(got), 'get_dropout_rate of %d samples is %r', len(secs), got)
        else:
            ensure_close(got, exp, 'get_dropout_rate of %s at %r, sample period %r' % (type(data).__name__, secs, sp))
            ensure(0 <= got <= 1, 'dropout rate %r', got)
    return (exp is not None and exp > 0, [])


@st.composite
def mcase(draw):
    c = draw(recording(lo=5))
    secs = c['secs']
    c['msp'] = c['sp'] * draw(st.sampled_from([1, 2, 5]))
    c['ignore'] = draw(st.booleans())
    c['sections'] = None
    if not c['ignore'] and draw(st.booleans()):
        cuts = sorted(set(draw(st.lists(st.integers(secs[0] - 5, secs[-1] + 5), min_size=2, max_size=4))))
        c['sections'] = [[a, b, False] for a, b in zip(cuts, cuts[1:])] or None
    c['cols'] = draw(st.integers(0, 1))
    return c


def check_meter(c):
    secs, sp = c['secs'], c['sp']
    cols = [['power', 'active'], ['voltage', '']][:c['cols'] + 1]
    t = {'secs': secs, 'vals': [[float(i) for i in range(len(secs))] for _ in cols], 'columns': cols, 'nan': []}
    ds, meter = one_meter(t, sp, c['msp'])
    kw = {'ignore_gaps': c['ignore']}
    if c['sections'] is not None:
        kw['sections'] = [mk_tf(s) for s in c['sections']]
        q = c['sections']
        parts = [[secs[i] for i in expected_rows({'secs': secs}, [None, None, False], s)] for s in q]
    elif c['ignore']:
        parts = []
        gs = meter.good_sections()
        for g in gs:
            a, b = ts_ns(g.start), ts_ns(g.end)
            parts.append([s for s in secs if a <= ts_ns(ts(s)) < b or (ts_ns(ts(s)) == b and g.include_end)])
    else:
        parts = [secs]
    parts = [p for p in parts if p]
    if not parts or any(len(p) < 5 for p in parts):
        for _ in range(2):
            got = meter.dropout_rate(**dict(kw))
            ensure(isnan(got) or 0 <= got <= 1, 'dropout rate %r', got)
        ds.store.close()
        return (False, ['short section'])
    tot = sum(len(p) for p in parts)
    exp = sum(ref(p, sp) * len(p) for p in parts) / tot
    what = 'dropout_rate(%r) of samples at %r, sample period %r, max %r' % (
        {**kw, 'sections': c['sections']}, secs, sp, c['msp'])
    for k in ('first', 'second'):
        got = meter.dropout_rate(**dict(kw))
        ensure_close(got, exp, '%s: %s call' % (what, k))
    full = meter.dropout_rate(full_results=True, **dict(kw))
    per = full.per_period()
    rates = sorted(round(float(x), 9) for x in per['dropout_rate'].dropna())
    ensure(rates == sorted(round(ref(p, sp), 9) for p in parts), '%s: per_period rates %r', what, rates)
    ds.store.close()
    return (exp > 0, ['%d sections' % min(3, len(parts))])


SUBS = [Sub('function', recording(), check_function, quick=500, thorough=5000, shards=2),
        Sub('meter', mcase(), check_meter, quick=300, thorough=5000, shards=6)]
