"""C12: good sections of a meter."""
from hypothesis import strategies as st

from engine import Sub
from support import ensure, frame, nk, ts, ts_ns, index_from
from props.datasets import one_meter
from props.storegen import expected_rows, mk_tf

ID = 'C12'
RULE = ('meters with generated gaps around max_sample_period (equal, one second more or less), incomplete rows and any '
        'chunk size; good_sections of the whole table, under a window, or of generated sections; oracle: maximal runs of complete rows '
        'no further apart than max_sample_period, closed at the section end when the recording goes on there. `function`: '
        'get_good_sections with look-ahead and open starts. Non-trivial: at least two runs, or several chunks.')
ASSUMPTIONS = ['chunked cases use an HDF store and tables without incomplete rows']
COLS = [['power', 'active'], ['voltage', '']]


@st.composite
def case(draw):
    msp = draw(st.sampled_from([1, 5, 10]))
    n = draw(st.integers(2, 25))
    secs, x = [], draw(st.integers(0, 50))
    for _ in range(n):
        secs.append(x)
        x += draw(st.sampled_from([1, 1, msp, msp, max(1, msp - 1), msp + 1, 2 * msp, 500]))
    chunk = draw(st.one_of(st.none(), st.integers(1, 10)))
    nan = []
    if chunk is None and draw(st.booleans()):
        nan = sorted(set(draw(st.lists(st.integers(0, n - 1), max_size=6))))
    cuts = sorted(set(draw(st.lists(st.one_of(st.sampled_from(secs), st.integers(-5, secs[-1] + 5)), max_size=6))))
    sections = None
    if len(cuts) >= 2 and draw(st.booleans()):
        sections = [[a, b, False] for a, b in zip(cuts, cuts[1:]) if draw(st.integers(0, 3))] or None
        for i, s in enumerate(sections or []):
            if i + 1 == len(sections) or sections[i + 1][0] != s[1]:
                s[2] = draw(st.integers(0, 2)) == 0
    win = None
    if draw(st.integers(0, 3)) == 0:
        a, b = sorted(draw(st.lists(st.integers(-5, secs[-1] + 5), min_size=2, max_size=2, unique=True)))
        win = [a, b, False]
    return {'secs': secs, 'msp': msp, 'chunk': chunk, 'nan': nan, 'sections': sections, 'win': win}


def runs(secs, valid, rows, msp, end, carried=None):
    """Good sections of the rows; `end`: where the section closes if the recording goes on;
    `carried`: the start of the section, if a good section of the one before it continues here.
    Returns the sections and whether the last one is open."""
    good = [i for i in rows if i in valid]
    out = []
    if len(good) < 2:
        return out, False
    cur = []
    for i in good:
        if cur and secs[i] - cur[-1] > msp:
            if len(cur) > 1:
                out.append([cur[0], cur[-1]])
            cur = []
        elif not cur and carried is not None:
            cur = [carried]
        cur.append(secs[i])
        carried = None
    if cur:
        nxt = [i for i in valid if rows and i > rows[-1]]
        if nxt and secs[min(nxt)] - cur[-1] <= msp:
            out.append([cur[0], end])
            return out, True
        elif len(cur) > 1:
            out.append([cur[0], cur[-1]])
    return out, False


def check(c):
    secs, msp, chunk = c['secs'], c['msp'], c['chunk']
    n = len(secs)
    vals = [[float(i) for i in range(n)], [None if i in c['nan'] else 230.0 for i in range(n)]]
    t = {'secs': secs, 'vals': vals, 'columns': COLS, 'nan': []}
    ds, meter = one_meter(t, 1, msp)
    valid = [i for i in range(n) if i not in c['nan']]
    win = c['win'] or [None, None, False]
    ds.store.window = mk_tf(win)
    kw = {}
    if chunk:
        kw['chunksize'] = chunk
    if c['sections'] is None:
        lo = secs[0] if win[0] is None else max(win[0], secs[0])
        hi = secs[-1] if win[1] is None else min(win[1], secs[-1])
        if lo >= hi:
            ds.store.close()
            return (False, ['window beside the data'])
        q = [[lo, hi, win[1] is None or hi < win[1]]]
    else:
        q = c['sections']
        kw['sections'] = [mk_tf(s) for s in q]
    exp = []
    nrows = 0
    prev_end, is_open = None, False
    for s in q:
        rows = expected_rows({'secs': secs}, win, s)
        nrows = max(nrows, len(rows))
        end = s[1] if win[1] is None else min(s[1], win[1])
        start = s[0] if win[0] is None else max(s[0], win[0])
        if rows:
            more, is_open = runs(secs, valid, rows, msp, end, start if is_open and prev_end == start else None)
            exp += more
        elif start < end:
            is_open = False
        prev_end = end
    exp = [x for x in exp if x[0] != x[1]]
    what = 'good_sections(sections=%r, chunksize=%r, window=%r, max_sample_period=%r) of samples at %r without %r' % (
        c['sections'], chunk, win, msp, secs, c['nan'])
    got = meter.good_sections(**dict(kw))
    g = [[ts_ns(x.start), ts_ns(x.end)] for x in got]
    e = [[ts_ns(ts(a)), ts_ns(ts(b))] for a, b in exp]
    # a section boundary inside a good run may or may not split it
    def norm(l):
        out = []
        for a, b in l:
            if out and a is not None and out[-1][1] == a:
                out[-1] = [out[-1][0], b]
            else:
                out.append([a, b])
        return out
    ensure(norm(g) == norm(e), '%s = %r, expected %r', what, [[str(x.start), str(x.end)] for x in got], [[str(ts(a)), str(ts(b))] for a, b in exp])
    if c['sections'] is None:
        ensure(len(got) == len(exp), '%s splits runs: %r', what, got)
        if got:
            ensure(got[-1].include_end, '%s: the last section excludes its end', what)
        up = meter.uptime(**dict(kw))
        ensure(abs(up.total_seconds() - sum(b - a for a, b in exp)) < 1e-6, '%s: uptime %r', what, up)
        again = meter.good_sections(**dict(kw))
        ensure([[ts_ns(x.start), ts_ns(x.end)] for x in again] == g, '%s: the second call gives %r', what, again)
        full = meter.good_sections(full_results=True, **dict(kw))
        for k in range(2):
            comb = full.combined()
            ensure([[ts_ns(x.start), ts_ns(x.end)] for x in comb] == g, '%s: call %d of full_results.combined() gives %r', what, k + 1, comb)
    ds.store.close()
    return (len(exp) > 1 or (chunk is not None and nrows > chunk + 1), ['chunked'] if chunk else [])


@st.composite
def fcase(draw):
    msp = draw(st.sampled_from([1, 5, 10]))
    n = draw(st.integers(0, 14))
    secs, x = [], 100
    for _ in range(n + 3):
        secs.append(x)
        x += draw(st.sampled_from([1, msp, msp, max(1, msp - 1), msp + 1, 2 * msp, 500]))
    return {'msp': msp, 'secs': secs, 'n': n, 'la': draw(st.booleans()), 'prev': draw(st.booleans()),
            'shuffle': draw(st.integers(0, 3)) == 0, 'nan': draw(st.lists(st.integers(0, max(0, n - 1)), max_size=3))}


def check_function(c):
    f = nk('nilmtk.stats.goodsections').get_good_sections
    secs, n, msp = c['secs'], c['n'], c['msp']
    import pandas as pd
    df = pd.DataFrame({'a': [1.0] * n, 'b': [None if i in c['nan'] else 1.0 for i in range(n)]}, index=index_from(secs[:n]), dtype=float)
    la = pd.DataFrame({'a': [1.0] * 3, 'b': [1.0] * 3}, index=index_from(secs[n:])) if c['la'] else None
    good = [i for i in range(n) if i not in c['nan']]
    arg = df.iloc[::-1] if c['shuffle'] else df
    got = f(arg, msp, la, c['prev'])
    if len(good) < 2:
        ensure(got == [], 'get_good_sections of %d complete rows is %r', len(good), got)
        return (False, [])
    # starts / ends by definition
    link = [secs[b] - secs[a] <= msp for a, b in zip(good, good[1:])]
    before = c['prev']
    after = c['la'] and secs[n] - secs[good[-1]] <= msp
    exp = []
    start = 'none'
    if before:
        start = None
    for k, i in enumerate(good):
        left = before if k == 0 else link[k - 1]
        right = after if k == len(good) - 1 else link[k]
        if right and not left:
            start = secs[i]
        if left and not right:
            exp.append([start, secs[i]])
            start = 'none'
    if start != 'none':
        exp.append([start, None])
    g = [[ts_ns(x.start), ts_ns(x.end)] for x in got]
    e = [[None if a is None else ts_ns(ts(a)), None if b is None else ts_ns(ts(b))] for a, b in exp]
    ensure(g == e, 'get_good_sections(secs=%r, nan=%r, max_sample_period=%r, look_ahead=%r, previous open=%r) = %r, expected %r',
           secs[:n], c['nan'], msp, secs[n:] if c['la'] else None, c['prev'], g, e)
    return (len(exp) > 1, [])


SUBS = [Sub('meter', case(), check, quick=420, thorough=6000, shards=6),
        Sub('function', fcase(), check_function, quick=600, thorough=6000, shards=2)]
