"""C10: preprocessing nodes (Clip, Apply), their order and their preconditions."""
import copy

import numpy as np
from hypothesis import strategies as st

from engine import Sub
from support import ensure, ensure_array, frame, nk, raises, ts_ns, ts
from props.datasets import device, open_dataset

ID = 'C10'
RULE = ('meters whose measurements have two, one or no limits, loaded through generated pipelines of 1-3 Clip '
        '(device limits or own limits) and Apply nodes under generated chunk sizes and look-ahead; oracle: element-wise '
        'clip / function composition in order; the same node objects may come twice in a pipeline or serve another load meanwhile. `requirements`: generated nested state and requirement dicts against a '
        'recursive reference, and nodes must refuse unsatisfied upstreams before loading data. Non-trivial: at least '
        'one value is changed by the pipeline / at least one requirement is unsatisfied.')
COLS = [['power', 'active'], ['voltage', ''], ['energy', 'active']]


@st.composite
def case(draw):
    n = draw(st.integers(2, 12))
    ncols = draw(st.integers(1, 3))
    vals = [[draw(st.one_of(st.none(), st.integers(-50, 50), st.integers(-50, 50), st.integers(-50, 50))) for _ in range(n)] for _ in range(ncols)]
    lim = []
    for _ in range(ncols):
        lo = draw(st.one_of(st.none(), st.integers(-40, 10)))
        hi = draw(st.one_of(st.none(), st.integers(11, 40)))
        lim.append([lo, hi])
    nodes = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(['clip', 'clip', 'own', 'add', 'neg']))
        if k == 'own':
            nodes.append([k, draw(st.one_of(st.none(), st.integers(-30, 0))), draw(st.one_of(st.none(), st.integers(11, 30)))])
        else:
            nodes.append([k, draw(st.integers(1, 9)), None])
    return {'vals': vals, 'lim': lim, 'nodes': nodes, 'again': draw(st.integers(0, 3)) == 3, 'between': draw(st.booleans()), 'chunk': draw(st.one_of(st.none(), st.integers(1, 6))),
            'la': draw(st.sampled_from([0, 0, 2]))}


def check(c):
    ncols, n = len(c['vals']), len(c['vals'][0])
    cols = COLS[:ncols]
    dev = device('dev', cols, 6, 30)
    for m, (lo, hi) in zip(dev['measurements'], c['lim']):
        m.pop('lower_limit', None)
        m.pop('upper_limit', None)
        if lo is not None:
            m['lower_limit'] = lo
        if hi is not None:
            m['upper_limit'] = hi
    secs = [6 * i for i in range(n)]
    t = {'secs': secs, 'vals': c['vals'], 'columns': cols, 'nan': []}
    ds = open_dataset({'name': 'gen', 'tz': 'UTC', 'buildings': [{'i': 1, 'meters': [{'m': 1, 'dev': dev, 'up': None, 't': t}], 'apps': []}]})
    meter = ds.buildings[1].elec.meters[0]
    pp = nk('nilmtk.preprocessing')
    nodes = []
    reps = [0] if c.get('again') else []          # the first node once more, as the same object
    exp = [list(col) for col in c['vals']]
    for k, a, b in c['nodes'] + [c['nodes'][i] for i in reps]:
        if k in ('clip', 'own'):
            node = pp.Clip()
            if k == 'own':
                node.lower, node.upper = a, b
            for j in range(ncols):
                lo, hi = c['lim'][j]
                if k == 'own':
                    lo = lo if a is None else a
                    hi = hi if b is None else b
                exp[j] = [None if v is None else (lo if lo is not None and v < lo else hi if hi is not None and v > hi else v) for v in exp[j]]
        elif k == 'add':
            node = pp.Apply(func=lambda df, a=a: df + a)
            exp = [[None if v is None else v + a for v in col] for col in exp]
        else:
            node = pp.Apply(func=lambda df: -df)
            exp = [[None if v is None else -v for v in col] for col in exp]
        nodes.append(node)
    for j, i in enumerate(reps):
        nodes[len(c['nodes']) + j] = nodes[i]
    kw = {}
    if c['chunk']:
        kw['chunksize'] = c['chunk']
    if c['la']:
        kw['n_look_ahead_rows'] = c['la']
    plain = list(meter.load(**dict(kw)))
    lazy = meter.load(preprocessing=nodes, **dict(kw))
    if c.get('between'):          # another load with the same nodes before the first is read
        half = nk.TimeFrame(ts(-1), ts(secs[n // 2]))
        list(meter.load(preprocessing=nodes, sections=[half], columns=[tuple(cols[0])]))
    got = list(lazy)
    what = 'pipeline %r with limits %r' % (c['nodes'], c['lim'])
    ensure(len(got) == len(plain), '%s: %d chunks instead of %d', what, len(got), len(plain))
    pos = {ts_ns(ts(s)): i for i, s in enumerate(secs)}
    for df, raw in zip(got, plain):
        ensure(list(df.index) == list(raw.index), '%s changes the index', what)
        ensure(df.timeframe == raw.timeframe, '%s: timeframe %r instead of %r', what, df.timeframe, raw.timeframe)
        rows = [pos[ts_ns(x)] for x in df.index]
        for j, col in enumerate(cols):
            ensure_array(df[tuple(col)].values, [np.nan if exp[j][i] is None else exp[j][i] for i in rows],
                         '%s: column %r of input %r' % (what, col, [c['vals'][j][i] for i in rows]))
        if c['la']:
            ensure(list(df.look_ahead.index) == list(raw.look_ahead.index), '%s: look_ahead is lost', what)
            ensure(df.look_ahead.equals(raw.look_ahead), '%s: the look-ahead rows changed', what)
    ds.store.close()
    return (exp != c['vals'], [k for k, _, _ in c['nodes']])


leaf = st.sampled_from([0, 1, 'x', 'ANY VALUE'])
state_s = st.recursive(st.dictionaries(st.sampled_from('abc'), st.sampled_from([0, 1, 'x']), max_size=3),
                       lambda k: st.dictionaries(st.sampled_from('abc'), st.one_of(k, st.sampled_from([0, 1, 'x'])), max_size=3), max_leaves=6)


@st.composite
def req_case(draw):
    state = draw(state_s)
    req = copy.deepcopy(state)

    def mutate(d):
        for k in list(d):
            r = draw(st.integers(0, 6))
            if isinstance(d[k], dict):
                mutate(d[k])
            elif r == 0:
                d[k] = 'ANY VALUE'
            elif r == 1:
                d[k] = 'other'
            if r == 6:
                del d[k]
        if draw(st.integers(0, 3)) == 0:
            d['z' + draw(st.sampled_from('abc'))] = draw(st.sampled_from([1, 'ANY VALUE', {'a': 1}]))
    mutate(req)
    return {'state': state, 'req': req}


def ref_unsat(state, req):
    n = 0
    for k, v in req.items():
        if k not in state:
            n += 1
        elif isinstance(v, dict):
            n += ref_unsat(state[k], v)
        elif v != 'ANY VALUE' and state[k] != v:
            n += 1
    return n


def check_req(c):
    node = nk('nilmtk.node')
    before = copy.deepcopy(c)
    got = node.find_unsatisfied_requirements(c['state'], c['req'])
    exp = ref_unsat(c['state'], c['req'])
    ensure(len(got) == exp, 'find_unsatisfied_requirements(%r, %r) = %r, expected %d', c['state'], c['req'], got, exp)
    ensure(c == before, 'find_unsatisfied_requirements changes its arguments')
    # Node.check_requirements and the dry run of a pipeline
    pulled = []

    class Up(object):
        def dry_run_metadata(self):
            return copy.deepcopy(c['state'])

        get_metadata = dry_run_metadata

        def process(self):
            pulled.append(1)
            return iter([])

    class N(nk('nilmtk.preprocessing').Apply):
        requirements = c['req']
        postconditions = {'post': {'done': 1}}

    n = N(Up(), func=lambda x: x)
    ref = raises(node.UnsatisfiedRequirementsError, lambda: list(n.process()))
    ensure(ref == (exp > 0), 'a node with requirements %r on %r %s', c['req'], c['state'], 'is refused' if ref else 'is accepted')
    if exp:
        ensure(not pulled, 'data was pulled although the requirements are not satisfied')
    st_ = n.dry_run_metadata()
    ensure(st_.get('post') == {'done': 1} and all(st_.get(k) == v for k, v in c['state'].items()), 'dry_run_metadata is %r', st_)
    ensure(N.postconditions == {'post': {'done': 1}}, 'dry_run_metadata changes the class: %r', N.postconditions)
    return (exp > 0, [])


SUBS = [Sub('pipeline', case(), check, quick=400, thorough=6000, shards=6),
        Sub('requirements', req_case(), check_req, quick=600, thorough=6000, shards=2)]
