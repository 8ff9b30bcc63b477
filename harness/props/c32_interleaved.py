"""C32: loads which are read in turns give what each gives alone."""
import shutil

from hypothesis import strategies as st

from engine import Sub
from support import ensure, fresh_path, nk, ts
from props.c30_history import Args, ask, canon, query, same, spec
from props.datasets import write

ID = 'C32'
RULE = ('2-4 lazy loads of meters, groups, series, stores, preprocessing chains and statistics nodes, from one or two open datasets (one of them '
        'windowed), with shared arguments, whose steps are taken in a generated order, with queries, abandoned loads, restarts and changes to the '
        'chunks already handed out in between; HDF and CSV; oracle: the same load alone on a newly opened copy (differential), chunk by chunk, with '
        'time frames, look-ahead rows and, at the end, results. Non-trivial: a load with at least two chunks is stepped, another one is '
        'stepped, and the first goes on.')
KINDS = ['meter', 'meter', 'meter', 'series', 'group', 'group', 'gseries', 'store', 'clip', 'energy', 'good', 'dropout']


@st.composite
def load(draw, meters):
    return {'k': draw(st.sampled_from(KINDS)), 'm': draw(st.sampled_from(meters)), 'ds': draw(st.sampled_from([0, 0, 1])),
            'sp': draw(st.sampled_from([None, None, 6, 12, 30])), 'rk': draw(st.sampled_from([None, 0, 1])),
            'sec': draw(st.sampled_from([None, None, 0, 0, 1, 2])), 'chunk': draw(st.sampled_from([None, 2, 3, 4, 7])),
            'la': draw(st.sampled_from([None, None, 1, 3])), 'pre': draw(st.integers(0, 3)) == 3,
            'cols': draw(st.sampled_from([None, None, 'active', 'apparent', 'best', 'voltage'])), 'g': draw(st.sampled_from(['elec', 'submeters', 'submeters', 'nested']))}


@st.composite
def case(draw):
    n = draw(st.integers(2, 3))
    meters = list(range(1, n + 2))
    tabs = []
    for i in meters:
        rows = draw(st.integers(8, 20))
        hi = draw(st.sampled_from([40, 300, 3000]))
        tabs.append({'gaps': [draw(st.sampled_from([6] * 8 + [12, 31, 60, 300])) for _ in range(rows)], 'vals': [draw(st.integers(0, hi)) for _ in range(rows)],
                     'cols': draw(st.sampled_from([1, 2, 3]))})
    loads = [draw(load(meters)) for _ in range(draw(st.integers(2, 4)))]
    if draw(st.booleans()):                       # twice the same
        loads[-1] = dict(loads[0])
    steps = []
    for _ in range(draw(st.integers(4, 24))):
        k = draw(st.integers(0, 19))
        i = draw(st.integers(0, len(loads) - 1))
        if k < 15:
            steps.append(['next', i])
        elif k == 15:
            steps.append(['spoil', i])
        elif k == 16:
            steps.append([draw(st.sampled_from(['drop', 'restart'])), i])
        else:
            q = draw(query(meters, False))
            steps.append(['ask', draw(st.integers(0, 1)), q] if q['q'] not in ('window', 'clear') else ['next', i])
    return {'tabs': tabs, 'nested': draw(st.integers(0, 2)) == 2, 'same': draw(st.booleans()), 'dev': [draw(st.sampled_from([[6, 30], [6, 60], [12, 30]])) for _ in meters],
            'two': False, 'tz': draw(st.sampled_from(['UTC', 'Europe/London'])), 'csv': draw(st.integers(0, 4)) == 4, 'loads': loads, 'steps': steps,
            'w': draw(st.sampled_from([[None, None], [10.4, 90.5], [20.4, None]]))}


class Load:
    """one load: created lazily, stepped, its chunks in canonical form"""

    def __init__(self, ds, d, args, csv):
        el = ds.buildings[1].elec
        kw = {}
        if d['sec'] is not None:
            kw['sections'] = args.sections[d['sec']]
        if d['chunk'] and (not d['sp'] or d['k'] == 'store'):
            kw['chunksize'] = d['chunk']
        if csv:
            kw.pop('chunksize', None)
        res = {}
        if d['sp']:
            res = {'sample_period': d['sp']}
            if d['rk'] is not None:
                res['resample_kwargs'] = args.rk[d['rk']]
        if d['pre']:
            res['preprocessing'] = args.pre
        la = {'n_look_ahead_rows': d['la']} if d['la'] else {}
        cols = {} if not d['cols'] else {'physical_quantity': 'voltage'} if d['cols'] == 'voltage' else {'physical_quantity': 'power', 'ac_type': d['cols']}
        m = el[d['m']]
        g = el.submeters() if d['g'] == 'submeters' else el
        if d['g'] == 'nested':
            g = ([x for x in el.meters if isinstance(x, nk.MeterGroup)] + [el])[0]
        self.node = None
        k = d['k']
        if k == 'meter':
            self.it = m.load(**kw, **res, **la, **cols)
        elif k == 'series':
            self.it = m.power_series(**kw, **res)
        elif k == 'group':
            self.it = g.load(**kw, **res, **cols)
        elif k == 'gseries':
            self.it = g.power_series(**kw, **res)
        elif k == 'store':
            self.it = ds.store.load(m.key, **kw, **la)
        else:
            S = nk('nilmtk.stats')
            n = nk('nilmtk.preprocessing').Clip(m.get_source_node(**kw))
            if k != 'clip':
                n = self.node = {'energy': S.TotalEnergy, 'good': S.GoodSections, 'dropout': S.DropoutRate}[k](n)
            self.it = n.process()
        self.it = iter(self.it)
        self.last = None

    def step(self):
        try:
            x = next(self.it)
        except StopIteration:
            return ['end', canon(self.node.results) if self.node is not None else None]
        self.last = x
        return [canon(x), canon(getattr(x, 'timeframe', None)), canon(getattr(x, 'look_ahead', None)), str(getattr(x.index, 'tz', None))]


def create(*a):
    try:
        return Load(*a), None
    except Exception as e:
        return None, ['raises', type(e).__name__]


def step(l):
    try:
        return l.step()
    except Exception as e:
        return ['raises', type(e).__name__]


def alone(open_, d, csv, tz):
    """the events of the load on its own"""
    ds = open_(d['ds'])
    out = []
    try:
        l, err = create(ds, d, Args(tz), csv)
        if err:
            return [err]
        while not out or (out[-1][0] not in ('end', 'raises') and len(out) < 500):
            out.append(step(l))
        return out
    finally:
        ds.store.close()


def check(c):
    kind = 'csv' if c['csv'] else 'hdf'
    tz = 'UTC' if c['csv'] else c['tz']
    path = write(spec(dict(c, tz=tz)), kind, dtype='float64')

    def open_(which, own=True):
        p = path
        if own:
            p = fresh_path('.h5' if kind == 'hdf' else '')
            (shutil.copy if kind == 'hdf' else shutil.copytree)(path, p)
        ds = nk.DataSet(p, format=kind.upper())
        if which == 1:
            ds.set_window(*[x if x is None else ts(x, tz).tz_localize(None) for x in c['w']])
        return ds
    ref = [alone(open_, d, c['csv'], tz) for d in c['loads']]
    dss = [open_(0, False), open_(1, False)]
    args = Args(tz)
    active, pos, hist = {}, {}, []
    answers = {}
    touched, trivial = [], True
    for s in c['steps'] + [['next', i] for i in range(len(c['loads'])) for _ in range(3)]:
        hist.append(s)
        if s[0] == 'ask':
            key = repr(s)
            if key not in answers:
                ds = open_(s[1])
                answers[key] = ask(ds, s[2], Args(tz))
                ds.store.close()
            got = ask(dss[s[1]], s[2], args)
            ensure(same(got, answers[key]), 'loads %r after %r: query %r gives %r, on its own %r', c['loads'], hist[:-1], s, got, answers[key])
            continue
        i = s[1]
        d = c['loads'][i]
        if s[0] == 'drop':
            active.pop(i, None)
            continue
        if s[0] == 'spoil':
            l = active.get(i)
            if l is not None and l.last is not None and len(l.last):
                # what the reader does with a chunk is the reader's business
                l.last.iloc[:] = -77.0
            continue
        if s[0] == 'restart' or i not in active:
            l, err = create(dss[d['ds']], d, args, c['csv'])
            if err:
                ensure(ref[i] == [err], 'load %r after %r raises %s, alone it does not', d, hist[:-1], err)
                continue
            active[i], pos[i] = l, 0
        got = step(active[i])
        exp = ref[i][pos[i]]
        ensure(same(got, exp), 'load %r (of %r) after %r: step %d gives %r, alone %r', d, c['loads'], hist[:-1], pos[i], got, exp)
        pos[i] += 1
        if got[0] in ('end', 'raises'):
            active.pop(i)
        touched.append((i, pos[i]))
        if pos[i] > 1 and got[0] != 'end' and any(j != i for j, _ in touched[touched.index((i, pos[i] - 1)):]):
            trivial = False
    ensure(same(canon(args.state()), canon(args.before)), 'arguments of the loads changed: %r', c['loads'])
    for ds in dss:
        ds.store.close()
    return (not trivial, sorted({d['k'] for d in c['loads']}) + [kind])


SUBS = [Sub('turns', case(), check, quick=320, thorough=8000, shards=8)]
