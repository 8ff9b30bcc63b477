"""C14: statistics results objects combine, extend, merge and survive the cache exactly."""
import pandas as pd
from hypothesis import strategies as st

from engine import Sub
from support import ensure, ensure_close, fail, fresh_path, nk, ts, ts_ns

ID = 'C14'
RULE = ('histories of 1-7 operations (append of a section in any order, overlapping or adjoining ones included; update with the '
        'results of other sections; unify with the results of another meter for the same or for other sections; export to an '
        'HDF cache in pieces and import of any subset of the sections) on total-energy, dropout-rate and good-section results, in three '
        'time zones, some across a change to daylight saving; oracle: a dict of section -> values. Non-trivial: at least two sections held.')
BASE = {'UTC': pd.Timestamp('2014-03-29 20:00', tz='UTC'), 'Europe/London': pd.Timestamp('2014-03-29 20:00', tz='UTC'),
        'America/New_York': pd.Timestamp('2014-11-02 02:00', tz='UTC')}
MSP = 60


@st.composite
def case(draw):
    kind = draw(st.sampled_from(['energy', 'energy', 'dropout', 'good']))
    tz = draw(st.sampled_from(sorted(BASE)))
    slots = st.integers(0, 7)

    def sec():
        a = draw(slots)
        b = a + draw(st.sampled_from([1, 1, 1, 1, 2]))
        return [a, b, draw(st.integers(0, 1)) if kind == 'good' else draw(st.integers(0, 5)),
                draw(st.integers(0, 50)), draw(st.integers(1, 9))]
    n = draw(st.integers(1, 7))
    ops = []
    for _ in range(n):
        o = draw(st.sampled_from(['append'] * 4 + ['update', 'unify', 'cache', 'badtype']))
        if o == 'append':
            ops.append([o, sec()])
        elif o == 'update':
            ops.append([o, [sec() for _ in range(draw(st.integers(0, 3)))]])
        elif o == 'unify':
            ops.append([o, draw(st.sampled_from(['same', 'same', 'missing', 'other end'])), draw(st.integers(1, 9))])
        elif o == 'cache':
            ops.append([o, draw(st.integers(0, 255)), draw(st.integers(0, 3))])
        else:
            ops.append([o, draw(st.integers(0, 2))])
    ops += [['append', sec()] for _ in range(draw(st.integers(0, 2)))]
    return {'kind': kind, 'tz': tz, 'ac': draw(st.lists(st.sampled_from(['active', 'apparent', 'reactive']), min_size=1, max_size=2, unique=True)),
            'step': draw(st.sampled_from([1800, 3600])), 'ops': ops}


class M:
    """Model: {start: (end, values)}; good sections of a section: a list of [start, end] inside it."""

    def __init__(self, c):
        self.c = c
        self.rows = {}

    def t(self, x):
        return ts(x, self.c['tz'], BASE[self.c['tz']])

    def new(self):
        if self.c['kind'] == 'energy':
            return nk('nilmtk.stats.totalenergyresults').TotalEnergyResults()
        if self.c['kind'] == 'dropout':
            return nk('nilmtk.stats.dropoutrateresults').DropoutRateResults()
        return nk('nilmtk.stats.goodsectionsresults').GoodSectionsResults(MSP)

    def decode(self, s):
        a, b = s[0] * self.c['step'], s[1] * self.c['step']
        k = self.c['kind']
        if k == 'energy':
            v = {ac: float(s[3] + 100 * i) / 4 for i, ac in enumerate(self.c['ac'])}
        elif k == 'dropout':
            v = {'dropout_rate': min(1.0, s[3] / 50.0), 'n_samples': s[4] * 10}
        else:
            # one or two closed good sections within the section
            w = (b - a) // 20
            v = [[a + w * (s[4] % 4), a + w * 6]]
            if s[2]:
                v.append([a + w * 9, a + w * (10 + s[4] % 9)])
        return a, b, v

    def append(self, res, s):
        a, b, v = self.decode(s)
        tf = nk.TimeFrame(self.t(a), self.t(b))
        if self.c['kind'] == 'good':
            d = {'sections': [[nk.TimeFrame(self.t(x), self.t(y)) for x, y in v]]}
        else:
            d = dict(v)
        res.append(tf, d)

    def overlaps(self, a, b):
        return any(a < e and x < b for x, (e, _) in self.rows.items())


def compare(m, res, what):
    c, rows = m.c, m.rows
    starts = sorted(rows)
    tfs = res.timeframes()
    ensure([(ts_ns(t.start), ts_ns(t.end)) for t in tfs] == [(ts_ns(m.t(s)), ts_ns(m.t(rows[s][0]))) for s in starts],
           '%s: timeframes() is %r, expected sections %r', what, tfs, [(s, rows[s][0]) for s in starts])
    per = res.per_period()
    ensure([ts_ns(x) for x in per.index] == [ts_ns(m.t(s)) for s in starts], '%s: per_period() starts %r', what, list(per.index))
    ensure([ts_ns(x) for x in per['end']] == [ts_ns(m.t(rows[s][0])) for s in starts], '%s: per_period() ends %r', what, list(per['end']))
    for twice in range(2):
        if c['kind'] == 'energy':
            for ac in c['ac'] if starts else []:
                for s, v in zip(starts, per[ac]):
                    ensure_close(v, rows[s][1][ac], '%s: per_period()[%s] of section %r' % (what, ac, s))
                ensure_close(res.combined()[ac], sum(r[1][ac] for r in rows.values()), '%s: combined()[%s]' % (what, ac))
                ensure_close(res.to_dict()['total_energy'][ac], sum(r[1][ac] for r in rows.values()), '%s: to_dict()' % what)
                ensure_close(res.simple()[ac], sum(r[1][ac] for r in rows.values()), '%s: simple()' % what)
        elif c['kind'] == 'dropout':
            if starts:
                n = sum(r[1]['n_samples'] for r in rows.values())
                e = sum(r[1]['n_samples'] * r[1]['dropout_rate'] for r in rows.values()) / n
                ensure_close(res.combined(), e, '%s: combined()' % what)
                ensure_close(res.to_dict()['statistics']['dropout_rate'], e, '%s: to_dict()' % what)
        else:
            got = [(ts_ns(t.start), ts_ns(t.end)) for t in res.combined()]
            exp = [(ts_ns(m.t(x)), ts_ns(m.t(y))) for s in starts for x, y in rows[s][1]]
            ensure(got == exp, '%s: combined() is %r, expected %r', what, res.combined(), [v for s in starts for v in rows[s][1]])


def inter(a, b):
    out = []
    for x in a:
        for y in b:
            lo, hi = max(x[0], y[0]), min(x[1], y[1])
            if lo < hi:
                out.append([lo, hi])
    return sorted(out)


def check(c):
    m = M(c)
    res = m.new()
    labels = set()
    most = 0
    for i, op in enumerate(c['ops']):
        what = '%s results after operation %d of %r (times in steps of %d s)' % (c['kind'], i + 1, c['ops'][:i + 1], c['step'])
        if op[0] == 'append':
            a, b, v = m.decode(op[1])
            if m.overlaps(a, b):
                labels.add('overlap')
                try:
                    m.append(res, op[1])
                except ValueError:
                    pass
                else:
                    fail('%s: appending a section which overlaps an earlier one was not refused', what)
            else:
                m.append(res, op[1])
                m.rows[a] = (b, v)
        elif op[0] == 'update':
            other, mo = m.new(), M(c)
            for s in op[1]:
                a, b, v = m.decode(s)
                if not mo.overlaps(a, b):
                    mo.append(other, s)
                    mo.rows[a] = (b, v)
            if any(m.overlaps(a, r[0]) for a, r in mo.rows.items()):
                labels.add('overlap')
                try:
                    res.update(other)
                except ValueError:
                    return (most > 1, sorted(labels))
                fail('%s: updating with a section which overlaps an earlier one was not refused', what)
            res.update(other)
            m.rows.update(mo.rows)
            compare(mo, other, what + ' (the results added)')
            if mo.rows:
                labels.add('update')
        elif op[0] == 'unify':
            if not m.rows:
                continue
            other, mo = m.new(), M(c)
            last = max(m.rows)
            for s in sorted(m.rows):
                e = m.rows[s][0]
                if s == last and op[1] == 'missing' and len(m.rows) > 1:
                    continue
                spec = [s // c['step'], e // c['step'], op[2] % 2, op[2] * 5 % 50, op[2]]
                a, b, v = mo.decode(spec)
                if s == last and op[1] == 'other end':
                    spec[1] += 1
                mo.append(other, spec)
                mo.rows[a] = (b, v)
            if op[1] == 'other end' or (op[1] == 'missing' and len(m.rows) > 1):
                try:
                    res.unify(other)
                except RuntimeError:
                    return (most > 1, sorted(labels | {'unify refused'}))
                fail('%s: merging results of other sections was not refused', what)
            res.unify(other)
            for s, (e, v) in list(m.rows.items()):
                o = mo.rows[s][1]
                if c['kind'] == 'energy':
                    nv = {ac: v[ac] + o[ac] for ac in v}
                elif c['kind'] == 'dropout':
                    nv = {'dropout_rate': (v['dropout_rate'] + o['dropout_rate']) / 2, 'n_samples': v['n_samples'] + o['n_samples']}
                else:
                    nv = inter(v, o)
                m.rows[s] = (e, nv)
            compare(mo, other, what + ' (the results merged)')
            labels.add('unify')
        elif op[0] == 'cache':
            if not m.rows:
                continue
            pieces = op[2]
            starts = sorted(m.rows)
            store = pd.HDFStore(fresh_path('.h5'), 'w')
            if pieces and len(starts) > 1:
                # two results objects cached one after the other, the later sections first
                h = 1 + pieces % (len(starts) - 1)
                for part in (starts[h:], starts[:h]):
                    r2 = m.new()
                    for s in part:
                        e, v = m.rows[s]
                        tf = nk.TimeFrame(m.t(s), m.t(e))
                        r2.append(tf, {'sections': [[nk.TimeFrame(m.t(x), m.t(y)) for x, y in v]]} if c['kind'] == 'good' else dict(v))
                    x = r2.export_to_cache()
                    if not x.empty:
                        store.append('cache', x, format='table')
            else:
                x = res.export_to_cache()
                if not x.empty:
                    store.append('cache', x, format='table')
            wanted = [s for k, s in enumerate(starts) if op[1] >> k & 1]
            if c['kind'] == 'good':
                # sections without any good section leave no trace in the cache
                held = [s for s in wanted if m.rows[s][1]]
            else:
                held = wanted
            if 'cache' not in store:
                store.close()
                continue
            sections = [nk.TimeFrame(m.t(s), m.t(m.rows[s][0])) for s in wanted]
            # sections nobody has results for: elsewhere, or with the start or the end of one that is held
            sections.append(nk.TimeFrame(m.t(-7200), m.t(-3600)))
            for k, s in enumerate(starts):
                e = m.rows[s][0]
                for a2, b2 in ((s, e - 1), (s, e + 60), (s + 1, e), (s - 60, e)):
                    if (op[1] + k) % 3 and (a2 in m.rows) <= (s == a2):
                        sections.append(nk.TimeFrame(m.t(a2), m.t(b2)))
            back, mb = m.new(), M(c)
            back.import_from_cache(store['cache'], sections)
            store.close()
            mb.rows = {s: m.rows[s] for s in held}
            if held:
                compare(mb, back, what + ' (results imported from the cache)')
                labels.add('cache')
            else:
                ensure(len(back.timeframes()) == 0, '%s: sections %r came out of the cache, none was asked for', what, back.timeframes())
            compare(m, res, what + ' (after the export)')
        else:
            bad = [('section', {'active': 1.0}), (nk.TimeFrame(m.t(90000), m.t(90001)), [1]), (nk.TimeFrame(m.t(90000), m.t(90001)), {'bogus': 1})][op[1]]
            if c['kind'] == 'energy':
                try:
                    res.append(*bad)
                except (TypeError, KeyError, AttributeError):
                    pass
                else:
                    fail('%s: append%r was not refused', what, bad)
        most = max(most, len(m.rows))
        compare(m, res, what)
    return (most > 1, sorted(labels))


SUBS = [Sub('history', case(), check, quick=600, thorough=8000, shards=8)]
