"""C31: helper functions hold their documented contracts."""
import copy
import datetime
import html.parser
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from engine import Sub
from support import close, ensure, ensure_array, fresh_path, index_from, isnan, nk, raises, ts, ts_ns

ID = 'C31'
RULE = ('`times`: instants, zones (also changes of the clocks at midnight) and frequencies; oracle: integer arithmetic on nanoseconds and wall-clock times. '
        '`resample`: safe_resample of generated irregular series with duplicates against bins by loops. `lists`: containers of generated values; oracle: plain '
        'Python. `trees`: generated graphs; oracle: in-degrees by counting. `html`: nested dictionaries; oracle: the text read back by an HTML parser. '
        '`cluster`: step-like series with NaN, up to 5000 samples; oracle: the levels. `checkpoints`: generated file names in a scratch directory. '
        'Non-trivial: more than one element, or an instant near a change of the clocks.')
ZONES = ['UTC', 'Europe/London', 'America/New_York', 'Asia/Kolkata', 'America/Havana', 'America/Sao_Paulo', 'Asia/Beirut']
# seconds from the epoch of `ts` to changes of the clocks (London, New York, Havana, Sao Paulo, Beirut)
CHANGES = [16817880, 17439600, 18041880, 15615480, 16888680]


# --------------------------------------------------------------------- times
@st.composite
def case_times(draw):
    near = draw(st.booleans())
    x = draw(st.sampled_from(CHANGES)) + draw(st.integers(-90000, 90000)) if near else draw(st.integers(0, 10 ** 8))
    return {'near': near, 'x': x, 'ms': draw(st.sampled_from([0, 0, 1, 999])), 'tz': draw(st.sampled_from(ZONES)),
            'p': draw(st.sampled_from([1, 2, 6, 10, 30, 60, 300, 900, 1800, 3600])), 'n': draw(st.integers(1, 40)),
            'unit': draw(st.sampled_from(['s', 'min', 'h', 'D', 'ms'])), 'form': draw(st.sampled_from(['stamp', 'datetime', 'string', 'dt64'])),
            'deltas': draw(st.lists(st.integers(0, 10 ** 6), max_size=6))}


def check_times(c):
    u = nk('nilmtk.utils')
    tz = c['tz']
    t = ts(c['x'], tz) + pd.Timedelta(milliseconds=c['ms'])
    ns_ = ts_ns(t)
    # the start of the bin the instant lies in; bins divide the hour
    got = u.normalise_timestamp(t, '%ds' % c['p'])
    off = 1800 if tz == 'Asia/Kolkata' else 0
    exp = (ns_ + off * 10 ** 9) // (c['p'] * 10 ** 9) * c['p'] * 10 ** 9 - off * 10 ** 9
    ensure(isinstance(got, pd.Timestamp) and ts_ns(got) == exp and str(got.tz) == tz, 'normalise_timestamp(%s, %ds) = %s', t, c['p'], got)
    naive = pd.Timestamp(ns_)
    got = u.normalise_timestamp(naive, '%ds' % c['p'])
    ensure(got.tz is None and got.value == ns_ // (c['p'] * 10 ** 9) * c['p'] * 10 ** 9, 'normalise_timestamp(%s, %ds) = %s', naive, c['p'], got)
    ensure(u.timestamp_is_naive(naive) is True and u.timestamp_is_naive(t) is False, 'timestamp_is_naive of %s, %s', naive, t)
    ensure(u.timestamp_is_naive(naive.to_pydatetime()) is True and u.timestamp_is_naive(t.to_pydatetime()) is False, 'timestamp_is_naive of datetimes')
    arg = {'stamp': naive, 'datetime': naive.to_pydatetime(), 'string': str(naive), 'dt64': np.datetime64(ns_, 'ns')}[c['form']]
    got = u.tz_localize_naive(arg, tz)
    ensure(ts_ns(got) == ns_ and str(got.tz) == tz, 'tz_localize_naive(%r, %s) = %s', arg, tz, got)
    other = t.tz_convert('Asia/Tokyo')
    got = u.tz_localize_naive(other, tz)
    ensure(ts_ns(got) == ns_ and str(got.tz) == tz, 'tz_localize_naive(%s, %s) = %s', other, tz, got)
    ensure(u.tz_localize_naive(arg, None) is arg, 'tz_localize_naive(%r, None) changes it', arg)
    ensure(u.tz_localize_naive(None, tz) is pd.NaT and u.tz_localize_naive(pd.NaT, tz) is pd.NaT, 'tz_localize_naive(None) is not NaT')
    ensure(u.convert_to_timestamp(None) is None and ts_ns(u.convert_to_timestamp(arg)) == ns_ and u.convert_to_timestamp(t) == t, 'convert_to_timestamp(%r)', arg)
    secs = {'s': 1, 'min': 60, 'h': 3600, 'D': 86400, 'ms': 0.001}[c['unit']] * c['n']
    alias = '%d%s' % (c['n'], c['unit'])
    ensure(close(u.offset_alias_to_seconds(alias), secs), 'offset_alias_to_seconds(%r) = %r', alias, u.offset_alias_to_seconds(alias))
    d = np.array(c['deltas'], dtype='timedelta64[ms]').astype('timedelta64[ns]')
    ensure_array(u.timedelta64_to_secs(d), [x / 1000 for x in c['deltas']], 'timedelta64_to_secs')
    idx = index_from([c['x'], c['x'] + 6], tz)
    df = pd.DataFrame({'a': [1., 2.]}, index=idx)
    ensure(str(u.get_tz(df)) == tz and u.get_tz(df.reset_index(drop=True)) is None and u.get_tz(df.tz_localize(None)) is None, 'get_tz')
    ensure(u.get_index(df) is df.index and u.get_index(df['a']).equals(idx) and u.get_index(idx) is idx, 'get_index')
    ensure(raises(TypeError, u.get_index, [1]), 'get_index of a list is not refused')
    return (c['near'], [tz])


# ------------------------------------------------------------------ resample
@st.composite
def case_resample(draw):
    near = draw(st.booleans())
    x = draw(st.sampled_from(CHANGES)) + draw(st.integers(-20000, 20000)) if near else draw(st.integers(0, 10 ** 6))
    secs = []
    for _ in range(draw(st.integers(0, 30))):
        secs.append(x)
        x += draw(st.sampled_from([0, 1, 6, 6, 6, 30, 61, 900, 4000]))
    return {'secs': secs, 'vals': [draw(st.one_of(st.none(), st.integers(0, 3000))) for _ in secs], 'tz': draw(st.sampled_from(ZONES + [None])),
            'p': draw(st.sampled_from([1, 6, 10, 60, 300, 900, 1800])), 'how': draw(st.sampled_from(['mean', 'max', 'min', 'sum', 'first'])),
            'fill': draw(st.sampled_from([None, 'ffill', 'ffill', 'bfill'])), 'limit': draw(st.sampled_from([None, 1, 2, 5])), 'frame': draw(st.booleans())}


def check_resample(c):
    u = nk('nilmtk.utils')
    p = c['p']
    data = pd.Series([np.nan if v is None else float(v) for v in c['vals']], index=index_from(c['secs'], c['tz']), name='a', dtype='float64')
    if c['frame']:
        data = data.to_frame()
    keep = data.copy()
    kw = {'rule': '%ds' % p, 'how': c['how']}
    if c['fill']:
        kw['fill_method'] = c['fill']
        if c['limit']:
            kw['limit'] = c['limit']
    args = dict(kw)
    got = u.safe_resample(data, **kw)
    ensure(kw == args and data.equals(keep), 'safe_resample changes its arguments')
    if not c['secs']:
        ensure(len(got) == 0, 'safe_resample of nothing gives %r', got)
        return False
    bins, seen = {}, set()
    for s, v in zip(c['secs'], c['vals']):
        b = ts_ns(ts(s)) // (p * 10 ** 9)
        bins.setdefault(b, [])
        if s not in seen and v is not None:      # the first of several rows of the same time
            bins[b].append(float(v))
        seen.add(s)
    f = {'mean': lambda v: sum(v) / len(v), 'max': max, 'min': min, 'sum': sum, 'first': lambda v: v[0]}[c['how']]
    lo, hi = min(bins), max(bins)
    exp = [f(bins[b]) if bins.get(b) else (0.0 if c['how'] == 'sum' else None) for b in range(lo, hi + 1)]
    if c['fill']:
        out = list(exp)
        order = range(len(exp)) if c['fill'] == 'ffill' else range(len(exp) - 1, -1, -1)
        last, age = None, 0
        for i in order:
            if exp[i] is not None:
                last, age = exp[i], 0
            else:
                age += 1
                if last is not None and (c['limit'] is None or age <= c['limit']):
                    out[i] = last
        exp = out
    ensure([ts_ns(x) for x in got.index] == [b * p * 10 ** 9 for b in range(lo, hi + 1)], 'safe_resample(%r): index %r', args, list(map(str, got.index))[:20])
    ensure(str(got.index.tz) == str(c['tz']), 'safe_resample: zone %s, expected %s', got.index.tz, c['tz'])
    ensure_array((got['a'] if c['frame'] else got).values, [np.nan if v is None else v for v in exp], 'safe_resample(%r) of %r' % (args, c['vals']))
    return (len(exp) > 1 and len(c['secs']) > 2, [str(c['tz'])] + ['duplicates'] * (len(seen) < len(c['secs'])))


# --------------------------------------------------------------------- lists
WORDS = st.text('abcXYZ 09é', min_size=1, max_size=5)
ATOM = st.one_of(st.integers(-5, 5), WORDS, st.none())


@st.composite
def case_lists(draw):
    return {'a': draw(st.lists(ATOM, max_size=6)), 'two': draw(st.lists(st.one_of(ATOM, st.lists(ATOM, max_size=3)), max_size=6)),
            'common': draw(st.lists(st.sampled_from(['active', 'apparent', 'reactive']), min_size=1, max_size=9)),
            'words': draw(st.lists(WORDS, min_size=1, max_size=5, unique=True)), 'sep': draw(st.sampled_from(['_', ', ', '']))}


def check_lists(c):
    u = nk('nilmtk.utils')
    keep = copy.deepcopy(c)
    flat = []
    for x in c['two']:
        flat += x if isinstance(x, list) else [x]
    ensure(u.flatten_2d_list(c['two']) == flat, 'flatten_2d_list(%r) = %r', c['two'], u.flatten_2d_list(c['two']))
    a = c['a']
    ensure(u.container_to_string(a, c['sep']) == c['sep'].join(map(str, a)), 'container_to_string(%r)', a)
    ensure(u.container_to_string(c['words'][0]) == c['words'][0] and u.container_to_string(7) == '7', 'container_to_string of a scalar')
    got = u.simplest_type_for(a)
    ensure(got == (None if not a else a[0] if len(a) == 1 else tuple(a)), 'simplest_type_for(%r) = %r', a, got)
    lst = [1]
    u.append_or_extend_list(lst, a)
    u.append_or_extend_list(lst, None)
    u.append_or_extend_list(lst, 'x')
    ensure(lst == [1] + a + ['x'], 'append_or_extend_list: %r', lst)
    ensure(u.convert_to_list(None) == [] and u.convert_to_list(a) == a and u.convert_to_list(a) is not a and u.convert_to_list(tuple(a)) == a, 'convert_to_list(%r)', a)
    m = u.most_common(c['common'])
    ensure(c['common'].count(m) == max(c['common'].count(x) for x in c['common']), 'most_common(%r) = %r', c['common'], m)
    ensure(u.most_common(iter(c['common'])) in c['common'], 'most_common of an iterator')
    caps = u.capitalise_index(pd.Index(c['words']))
    ensure(list(caps) == [w[0].upper() + w[1:] for w in c['words']], 'capitalise_index(%r) = %r', c['words'], caps)
    df = pd.DataFrame([[0.] * len(c['words'])], columns=c['words'])
    ensure([u.index_of_column_name(df, w) for w in c['words']] == list(range(len(c['words']))), 'index_of_column_name')
    ensure(raises(KeyError, u.index_of_column_name, df, 'no such column'), 'index_of_column_name finds a column that is not there')
    multi = pd.DataFrame([[0., 1.]], columns=pd.MultiIndex.from_tuples([('power', 'active'), ('power', 'reactive')]))
    ensure(u.index_of_column_name(multi, ('power', 'reactive')) == 1, 'index_of_column_name of a pair')
    ensure(c == keep, 'arguments are changed')
    d = os.path.dirname(fresh_path())
    ensure(u.check_directory_exists(d) is None and raises(IOError, u.check_directory_exists, fresh_path('.nowhere')), 'check_directory_exists')
    return (len(a) > 1 or len(flat) > 1, [])


# --------------------------------------------------------------------- trees
@st.composite
def case_trees(draw):
    n = draw(st.integers(1, 8))
    up = [None] + [draw(st.integers(0, i)) if draw(st.integers(0, 11)) != 5 else None for i in range(n - 1)]
    names = draw(st.permutations(range(1, n + 1)))
    return {'edges': [[names[u], names[i]] for i, u in enumerate(up) if u is not None], 'nodes': list(names), 'cycle': draw(st.integers(0, 7)) == 5}


def check_trees(c):
    import networkx as nx
    u = nk('nilmtk.utils')
    g = nx.DiGraph()
    g.add_nodes_from(sorted(c['nodes']))
    edges = [tuple(e) for e in c['edges']]
    if c['cycle']:
        edges += [(x, c['nodes'][0]) for x in c['nodes'] if x != c['nodes'][0]][-1:]
    g.add_edges_from(edges)
    roots = [x for x in c['nodes'] if not any(b == x for _, b in edges)]
    if len(roots) != 1:
        ensure(raises(RuntimeError, u.tree_root, g), 'tree_root of a graph with roots %r is not refused', roots)
        return (True, ['%d roots' % min(2, len(roots))])
    ensure(u.tree_root(g) == roots[0], 'tree_root of %r = %r', edges, u.tree_root(g))
    got = sorted(u.nodes_adjacent_to_root(g))
    ensure(got == sorted({b for a, b in edges if a == roots[0]}), 'nodes_adjacent_to_root of %r = %r', edges, got)
    return (len(edges) > 1, [])


# ---------------------------------------------------------------------- html
VALUE = st.recursive(st.one_of(st.integers(-9, 9), st.text('abc 1.', max_size=6), st.sampled_from(['see http://a.b/c', 'http://x.y (http://u.v)', None])),
                     lambda inner: st.one_of(st.lists(st.one_of(st.integers(0, 9), st.text('abc', max_size=4), st.just('http://l.m')), max_size=3),
                                             st.dictionaries(st.text('kxy', min_size=1, max_size=3), inner, max_size=3)), max_leaves=8)


class Reader(html.parser.HTMLParser):
    def __init__(self):
        super().__init__()
        self.stack, self.out, self.links = [], [], []

    def handle_starttag(self, tag, attrs):
        self.stack.append(tag)
        if tag == 'a':
            self.links.append(dict(attrs)['href'])
        elif tag == 'ul':
            self.out.append('[')
        elif tag == 'li':
            self.out.append(('li', ''))

    def handle_endtag(self, tag):
        ensure(self.stack and self.stack.pop() == tag, 'unbalanced tag %s', tag)
        if tag == 'ul':
            self.out.append(']')

    def handle_data(self, data):
        if self.stack and self.stack[-1] == 'strong':
            self.out.append(('key', data))
        elif 'a' in self.stack:
            ensure(data == self.links[-1], 'link %r shows %r', self.links[-1], data)
            self.out.append(data)
        else:
            self.out.append(data)


def flat_html(d):
    out = ['[']
    for k, v in d.items():
        out += [('li', ''), ('key', str(k))]
        if isinstance(v, dict):
            out += [': '] + flat_html(v)
        elif isinstance(v, list):
            out += [': ', '['] + [y for x in v for y in (('li', ''), str(x))] + [']']
        else:
            out.append(': ' + str(v))
    return out + [']']


def join(parts):
    """adjacent texts as one"""
    out = []
    for x in parts:
        if isinstance(x, str) and x not in '[]' and out and isinstance(out[-1], str) and out[-1] not in '[]':
            out[-1] += x
        else:
            out.append(x)
    return [x for x in out if x != '']


def check_html(c):
    got = nk('nilmtk.utils').dict_to_html(c['d'])
    r = Reader()
    r.feed(got)
    r.close()
    ensure(not r.stack, 'dict_to_html(%r) leaves %r open', c['d'], r.stack)
    a, b = join(r.out), join(flat_html(c['d']))
    ensure(a == b, 'dict_to_html(%r) reads as %r, expected %r', c['d'], a, b)

    def links(v):
        if isinstance(v, dict):
            return [x for y in v.values() for x in links(y)]
        if isinstance(v, list):
            return [x for y in v for x in links(y)]
        return [w.strip('()') for w in v.split() if w.strip('()').startswith('http')] if isinstance(v, str) else []
    ensure(r.links == links(c['d']), 'dict_to_html(%r) links %r', c['d'], r.links)
    return (len(c['d']) > 1, ['links'] * bool(r.links))


# ------------------------------------------------------------------- cluster
@st.composite
def case_cluster(draw):
    k = draw(st.integers(0, 3))
    levels, x = [], 0
    for _ in range(k):
        x = max(20, x * 2) + draw(st.integers(60, 300))
        levels.append(x)
    return {'levels': levels, 'n': [draw(st.sampled_from([20, 25, 60])) for _ in levels], 'big': draw(st.integers(0, 5)) == 5,
            'exact': draw(st.booleans()), 'off': draw(st.lists(st.integers(0, 10), max_size=20)), 'nan': draw(st.booleans()),
            'ripple': draw(st.integers(0, 2)), 'frame': draw(st.booleans()), 'seed': draw(st.integers(0, 99)), 'few': draw(st.integers(0, 4)) == 4, 'other': draw(st.integers(0, 2)) == 2}


def check_cluster(c):
    cluster = nk('nilmtk.feature_detectors.%s' % ('steady_states' if c.get('other') else 'cluster')).cluster
    np.random.seed(c['seed'])
    rep = 25 if c['big'] else 1
    few = c['few'] and len(c['levels']) == 1
    vals = []
    for lev, n in zip(c['levels'], c['n']):
        vals += [lev + (i % 3 - 1) * c['ripple'] for i in range(19 if few else n * rep)]
    vals += c['off'] + ([None] * 3 if c['nan'] else [])
    if not vals:
        return False
    x = pd.Series([np.nan if v is None else float(v) for v in vals], index=index_from([6 * i for i in range(len(vals))]))
    keep = x.copy()
    kw = {'exact_num_clusters': len(c['levels'])} if c['exact'] and c['levels'] and not few and not c.get('other') else {'max_num_clusters': max(2, len(c['levels']) + 1)}
    got = cluster(x.to_frame() if c['frame'] else x, **kw)
    ensure(x.equals(keep), 'cluster changes its input')
    ensure(got.dtype == np.int32 and [int(v) for v in got] == sorted({int(v) for v in got}) and 0 in got, 'cluster(%r) = %r', kw, got)
    if not c['levels'] or few:
        ensure(list(got) == [0], 'cluster of %d samples above 10 W = %r', 19 if few else 0, list(got))
    elif 'exact_num_clusters' in kw or len(c['levels']) <= 2:
        ensure(len(got) == len(c['levels']) + 1 and all(abs(a - b) <= 2 for a, b in zip(got[1:], c['levels'])), 'cluster(%r) of the levels %r = %r', kw, c['levels'], list(got))
    else:
        ensure(2 <= len(got) <= len(c['levels']) + 1, 'cluster(%r) of the levels %r = %r', kw, c['levels'], list(got))
    return (len(c['levels']) > 1, ['big'] * c['big'] + ['exact'] * ('exact_num_clusters' in kw))


# --------------------------------------------------------------- checkpoints
@st.composite
def case_files(draw):
    names = draw(st.lists(st.tuples(st.sampled_from(['', 'seq', 'seq-tmp', 'se', 'xseq', 'Seq']), st.text('ab-1', max_size=3), st.sampled_from(['.h5', '.h5', '.txt', '.h5.bak', ''])),
                          max_size=6, unique=True))
    return {'names': sorted({''.join(x) for x in names} - {''}), 'prefix': draw(st.sampled_from([None, 'seq', 'seq', 'seq-tmp'])), 'dir': draw(st.booleans())}


def check_files(c):
    d = fresh_path('.d')
    os.mkdir(d)
    for n in c['names']:
        with open(os.path.join(d, n), 'w') as f:
            f.write(n)
    if c['dir']:
        os.mkdir(os.path.join(d, 'seq-dir.h5'))
    m = nk('nilmtk.disaggregate').Disaggregator()
    m.MODEL_NAME = 'demo'
    m.file_prefix = c['prefix']
    old = os.getcwd()
    os.chdir(d)
    try:
        m.clear_model_checkpoints()
    finally:
        os.chdir(old)
    gone = [n for n in c['names'] if c['prefix'] is not None and n.startswith(c['prefix']) and n.endswith('.h5')]
    left = sorted(os.listdir(d))
    ensure(left == sorted([n for n in c['names'] if n not in gone] + ['seq-dir.h5'] * c['dir']), 'clear_model_checkpoints(prefix %r) of %r leaves %r', c['prefix'], c['names'], left)
    return (bool(gone) and len(gone) < len(c['names']), [])


SUBS = [Sub('times', case_times(), check_times, quick=400, thorough=8000, shards=1),
        Sub('resample', case_resample(), check_resample, quick=400, thorough=8000, shards=2),
        Sub('lists', case_lists(), check_lists, quick=200, thorough=3000, shards=1),
        Sub('trees', case_trees(), check_trees, quick=200, thorough=3000, shards=1),
        Sub('html', st.fixed_dictionaries({'d': st.dictionaries(st.text('kxy', min_size=1, max_size=3), VALUE, max_size=4)}), check_html, quick=200, thorough=3000, shards=1),
        Sub('cluster', case_cluster(), check_cluster, quick=120, thorough=1500, shards=2),
        Sub('checkpoints', case_files(), check_files, quick=150, thorough=2000, shards=1)]
