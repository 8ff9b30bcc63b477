"""C18: finding meters in a MeterGroup."""
import pickle
from copy import deepcopy

from hypothesis import strategies as st

from engine import Sub
from support import ensure, fail, nk, raises
from props.datasets import open_dataset
from props.groupgen import CAT, ROOMS, SYN, TYPES, building, devices, ident, model, plain

ID = 'C18'
RULE = ('buildings of 2-6 meters (site meters, submeters, disabled meters, appliances on one, two or three meters, rooms, names) in 1-2 '
        'buildings; a history of 6-14 lookups over one building or over the meters of both: every key form of MeterGroup[...], '
        'select, select_using_appliances, from_list, union, equality, labels, groupby, swapping the mains. Oracle: linear search in the spec. '
        '`two`: the same lookups of ids, mains, appliances and nested groups in the union of two datasets with the same buildings. '
        '`appliance`: 1-3 appliances with random metadata and 1-6 queries of 1-3 keys (scalars and lists; keys of the appliance, of its type, unknown ones), with and without '
        'synonyms; thresholds, labels, categories, equality. Oracle: the metadata dictionaries. '
        'Non-trivial: some lookup finds something and some lookup finds nothing or is ambiguous.')
ABSENT = [0, 8, 99]


@st.composite
def case(draw):
    devs = devices()
    n = draw(st.sampled_from([1, 1, 2]))
    bs = [draw(building(i, devs)) for i in ([1], [1, 3])[n - 1]]
    if n > 1 and draw(st.booleans()):        # a second building with the same meters, wired the same way
        bs[1] = dict(deepcopy(bs[0]), i=3)
    q = []
    scope = draw(st.sampled_from(['one', 'all'])) if n > 1 else 'one'
    ids = [[m['m'], b['i']] for b in bs for m in b['meters']]
    multi = [[[x, b['i']] for x in a['meters']] for b in bs for a in b['apps'] if len(a['meters']) > 1]
    apps = [[a['type'], a['instance'], b['i']] for b in bs for a in b['apps']] or [['fridge', 1, 1]]
    kinds = ['int', 'type', 'typei', 'dict', 'id', 'idds', 'mains', 'tupinst', 'groupid', 'listid', 'two', 'bad', 'select', 'select', 'selectlist',
             'selapp', 'selapp', 'selapplist', 'from_list', 'from_list', 'union', 'eq', 'labels', 'groupby', 'alt', 'other']
    for _ in range(draw(st.integers(6, 14))):
        k = draw(st.sampled_from(kinds))
        e = {'k': k}
        if k == 'int':
            e['v'] = draw(st.sampled_from([i for i, _ in ids] + ABSENT))
        elif k in ('type', 'typei', 'dict', 'selapp', 'selapplist'):
            a = draw(st.sampled_from(apps))
            typ = a[0] if draw(st.integers(0, 3)) else draw(st.sampled_from(TYPES + ['dish washer']))
            if draw(st.integers(0, 3)) == 0:
                typ = draw(st.sampled_from(SYN.get(typ, [typ])))
            e['type'] = typ
            e['inst'] = a[1] if draw(st.integers(0, 3)) else draw(st.integers(1, 3))
            e['keys'] = sorted(draw(st.sets(st.sampled_from(['type', 'instance', 'building', 'dataset', 'category'] + (['room'] if k != 'dict' else [])), min_size=1, max_size=3)))
            e['building'] = a[2] if draw(st.integers(0, 4)) else 7
            e['dataset'] = 'gen' if draw(st.integers(0, 4)) else 'other'
            e['category'] = draw(st.sampled_from(CAT.get(a[0], ['cold']) + ['wet']))
            e['room'] = draw(st.sampled_from(ROOMS))
            e['types'] = draw(st.lists(st.sampled_from([x[0] for x in apps] * 3 + TYPES), min_size=1, max_size=3, unique=True))
        elif k in ('id', 'idds'):
            i = draw(st.sampled_from(ids))
            e['v'] = [i[0] if draw(st.integers(0, 4)) else 8, i[1] if draw(st.integers(0, 5)) else 7, 'gen' if k == 'id' else 'other']
            e['tup'] = draw(st.booleans())
        elif k == 'mains':
            e['v'] = draw(st.sampled_from([b['i'] for b in bs] * 3 + [7]))
        elif k in ('tupinst', 'groupid', 'listid'):
            if multi and draw(st.integers(0, 4)):
                g = list(draw(st.permutations(draw(st.sampled_from(multi)))))
                if draw(st.integers(0, 5)) == 0:
                    g = g[:-1]
            else:
                g = draw(st.lists(st.sampled_from(ids), min_size=1, max_size=3, unique_by=tuple))
            e['v'] = g
        elif k == 'two':
            e['v'] = [draw(st.sampled_from([i for i, _ in ids] + ABSENT[:1])) for _ in range(2)]
        elif k == 'bad':
            e['v'] = draw(st.sampled_from(['none', 'float', 'bool', 'four', 'liststr', 'set']))
        elif k == 'select':
            keys = draw(st.sets(st.sampled_from(['instance', 'building', 'dataset', 'device_model', 'sample_period', 'manufacturer', 'wireless', 'room', 'name', 'site_meter', 'nonsense']),
                                min_size=1, max_size=2))
            i = draw(st.sampled_from(ids))
            vals = {'instance': i[0], 'building': i[1], 'dataset': draw(st.sampled_from(['gen', 'gen', 'gen', 'other'])), 'device_model': draw(st.sampled_from(['d1', 'd2', 'd3'])),
                    'sample_period': draw(st.sampled_from([6, 10, 7])), 'manufacturer': draw(st.sampled_from(['ACME', 'Other'])), 'wireless': True,
                    'room': draw(st.sampled_from(ROOMS)), 'name': draw(st.sampled_from(['pump', 'garage', 'Heat'])), 'site_meter': True, 'nonsense': 1}
            e['v'] = {x: vals[x] for x in sorted(keys)}
        elif k == 'selectlist':
            key = draw(st.sampled_from(['instance', 'room', 'device_model']))
            e['key'] = key
            e['v'] = draw({'instance': st.lists(st.sampled_from([i for i, _ in ids] * 4 + ABSENT), min_size=1, max_size=3, unique=True),
                           'room': st.sampled_from([['kitchen'], ['kitchen', 'lounge'], ['lounge', 'attic']]),
                           'device_model': st.sampled_from([['d1'], ['d2', 'd1']])}[key])
        elif k in ('from_list', 'union', 'eq', 'labels'):
            e['a'] = draw(st.lists(st.integers(0, 9), min_size=1, max_size=5))
            e['b'] = draw(st.lists(st.integers(0, 9), min_size=1, max_size=5)) if draw(st.booleans()) else list(draw(st.permutations(e['a'])))
            e['form'] = draw(st.sampled_from(['id', 'tuple', 'new']))
        elif k == 'groupby':
            e['key'] = draw(st.sampled_from(['type', 'room', 'instance']))
        q.append(e)
    return {'buildings': bs, 'scope': scope, 'q': q}


CONTROL = {'fridge': ['thermostatic', 'always on'], 'kettle': ['manual'], 'toaster': ['manual', 'timer'], 'television': ['manual']}


def same(group, entries, what, ordered=True):
    MeterGroup = nk.MeterGroup
    ensure(isinstance(group, MeterGroup), '%s is %r, expected a MeterGroup', what, group)
    got = [ident(m) for m in group.meters]
    exp = [e.id for e in entries]
    ok = got == exp if ordered else (len(got) == len(exp) and set(got) == set(exp))
    ensure(ok, '%s has meters %r, expected %r', what, got, exp)


def check(c):
    spec = {'name': 'gen', 'tz': 'UTC', 'buildings': c['buildings']}
    ds = open_dataset(spec)
    mod = model(spec)
    mgm = nk('nilmtk.metergroup')
    MeterGroup, ElecMeter, ElecMeterID, MeterGroupID = nk.MeterGroup, nk.ElecMeter, nk('nilmtk.elecmeter').ElecMeterID, mgm.MeterGroupID
    first = c['buildings'][0]['i']
    if c['scope'] == 'one':
        g, entries = ds.buildings[first].elec, list(mod[first][0])
        disabled = list(mod[first][1])
    else:
        g = MeterGroup([m for b in c['buildings'] for m in ds.buildings[b['i']].elec.meters])
        entries = [e for b in c['buildings'] for e in mod[b['i']][0]]
        disabled = []
    same(g, entries, 'the group')
    for m, e in zip(g.meters, entries):
        ensure(isinstance(m, MeterGroup) == e.group, 'meter %r', m)
    found = nothing = 0

    def attempt(f):
        try:
            return f(), None
        except Exception as err:
            return None, err

    def judge(key_desc, f, hits):
        """hits: the entries a lookup of one thing finds"""
        nonlocal found, nothing
        r, err = attempt(f)
        if len(hits) == 1:
            found += 1
            if err is not None:
                raise err
            ensure(ident(r) == hits[0].id, '%s is %r, expected %r', key_desc, r, hits[0].id)
            ensure(isinstance(r, MeterGroup) == hits[0].group, '%s is a %s', key_desc, type(r).__name__)
        else:
            nothing += 1
            ensure(err is not None, '%s is %r although %d meters match', key_desc, r, len(hits))
            if not hits:
                ensure(isinstance(err, KeyError), '%s raises %r, expected KeyError', key_desc, err)
            else:
                ensure(not isinstance(err, KeyError), '%s raises KeyError although %d meters match', key_desc, len(hits))

    def eid(i):
        return ElecMeterID(i[0], i[1], i[2] if len(i) > 2 else 'gen')

    def mid(i):
        return MeterGroupID(meters=tuple(mid(x) if isinstance(x[0], tuple) else eid(x) for x in i))

    def key_of(e):
        return mid(e.id) if e.group else eid(e.id)

    def select(what, f, hits, ordered=True):
        nonlocal found, nothing
        if any(h is None for h in hits):
            attempt(f)
            return
        r, err = attempt(f)
        if hits:
            found += 1
            if err is not None:
                raise err
            same(r, hits, what, ordered)
        else:
            nothing += 1
            ensure(isinstance(err, KeyError), '%s gives %r, expected KeyError', what, r if err is None else err)

    for m, e in zip(g.meters, entries):
        ensure(e.group or m.matches({}), '%r does not match the empty query', m)
        for m in (m.meters if e.group else [m]):
            p = pickle.loads(pickle.dumps(m.identifier))
            ensure(p == m.identifier and hash(p) == hash(m.identifier), 'pickled identifier %r', p)
            ensure(raises(TypeError, lambda: m.matches('fridge')), 'a string as query is accepted by %r', m)
            ensure(raises(KeyError, lambda: m.matches({'nonsense': 1})), 'an unknown key is accepted by %r', m)
    for q in c['q']:
        k = q['k']
        what = '%r of a group with %r' % (q, [e.id for e in entries])
        if k == 'int':
            judge(what, lambda: g[q['v']], [x for e in entries for x in e.members if x.m == q['v']])
        elif k in ('type', 'typei', 'dict'):
            if k == 'type':
                d, key = {'type': q['type'], 'instance': 1}, q['type']
            elif k == 'typei':
                d, key = {'type': q['type'], 'instance': q['inst']}, (q['type'], q['inst'])
            else:
                vals = {'type': q['type'], 'instance': q['inst'], 'building': q['building'], 'dataset': q['dataset'], 'category': q['category']}
                d = {x: vals[x] for x in q['keys']}
                key = dict(d)
            judge(what, lambda: g[key], [e for e in entries if e.match_app(d)])
        elif k in ('id', 'idds'):
            hits = [e for e in entries if not e.group and e.id == tuple(q['v'])]
            if not hits and any(x.id == tuple(q['v']) for e in entries for x in e.members):
                continue
            judge(what, lambda: g[tuple(q['v']) if q['tup'] else eid(q['v'])], hits)
        elif k == 'mains':
            cand = [e for e in entries if e.b == q['v']]
            site = [e for e in cand if e.site]
            r, err = attempt(lambda: g[ElecMeterID(0, q['v'], 'gen')])
            if not cand:
                ensure(isinstance(err, KeyError), '%s: %r, %r', what, r, err)
                nothing += 1
            elif not site:
                ensure(err is None and r is None, '%s: %r, %r, expected None', what, r, err)
            else:
                found += 1
                if err is not None:
                    raise err
                if len(site) == 1:
                    ensure(ident(r) == site[0].id, '%s is %r, expected %r', what, r, site[0].id)
                else:
                    same(r, site, what)
        elif k in ('tupinst', 'groupid', 'listid'):
            ids = [tuple(x) + ('gen',) for x in q['v']]
            hits = [e for e in entries if e.group and set(e.id) == set(ids) and len(e.id) == len(ids)]
            if k == 'tupinst':
                if len(set(i[1] for i in ids)) > 1:
                    continue
                key = ElecMeterID(tuple(i[0] for i in ids), ids[0][1], 'gen')
            elif k == 'groupid':
                key = MeterGroupID(meters=tuple(eid(i) for i in ids))
            else:
                key = [eid(i) for i in ids]
            judge(what, lambda: g[key], hits)
        elif k == 'two':
            if q['v'][0] == q['v'][1]:
                continue
            hits = [[x for e in entries for x in e.members if x.m == v] for v in q['v']]
            r, err = attempt(lambda: g[tuple(q['v'])])
            if all(len(h) == 1 for h in hits):
                if err is not None:
                    raise err
                same(r, [h[0] for h in hits], what)
                found += 1
            else:
                ensure(err is not None, '%s is %r', what, r)
                nothing += 1
        elif k == 'bad':
            key = {'none': None, 'float': 1.5, 'bool': True, 'four': (1, 2, 3, 4), 'liststr': ['fridge'], 'set': {1}}[q['v']]
            r, err = attempt(lambda: g[key])
            ensure(isinstance(err, TypeError), '%s gives %r, expected TypeError', what, r if err is None else err)
        elif k == 'select':
            ms = [(e, e.match(q['v'])) for e in entries]
            select(what, lambda: g.select(**q['v']), [None if m is None else e for e, m in ms if m is None or m])
        elif k == 'selectlist':
            hits = []
            for v in q['v']:
                ms = [(e, e.match({q['key']: v})) for e in entries]
                h = [None if m is None else e for e, m in ms if m is None or m]
                if not h:
                    hits = []
                    break
                hits += [x for x in h if x is None or x not in hits]
            select(what, lambda: g.select(**{q['key']: list(q['v'])}), hits)
        elif k == 'selapp':
            vals = {'type': q['type'], 'instance': q['inst'], 'building': q['building'], 'dataset': q['dataset'], 'category': q['category'], 'room': q['room']}
            d = {x: vals[x] for x in q['keys']}
            select(what, lambda: g.select_using_appliances(**d), [e for e in entries if e.match_app(d)])
        elif k == 'selapplist':
            hits = []
            for t in q['types']:
                h = [e for e in entries if e.match_app({'type': t})]
                if not h:
                    hits = []
                    break
                hits += [x for x in h if x not in hits]
            select(what, lambda: g.select_using_appliances(type=list(q['types'])), hits)
        elif k == 'from_list':
            picks = [entries[i % len(entries)] for i in q['a']] if entries else []
            uniq = []
            for p in picks:
                if p not in uniq:
                    uniq.append(p)
            if q['form'] == 'new' and len(uniq) > 1:
                # a group which does not exist yet
                r = g.from_list([MeterGroupID(meters=tuple(key_of(p) for p in uniq)), key_of(uniq[0])])
                ensure(len(r.meters) == 2 and isinstance(r.meters[0], MeterGroup), '%s: %r', what, r)
                same(r.meters[0], uniq, what)
                ensure(ident(r.meters[1]) == uniq[0].id, '%s: %r', what, r)
            else:
                keys = [tuple(eid(x) for x in p.id) if p.group and q['form'] == 'tuple' else key_of(p) for p in picks]
                r = g.from_list(keys)
                same(r, uniq, what)
                for m in r.meters:
                    ensure(any(m is x for x in g.meters), '%s: %r is not the object of the group', what, m)
            found += 1
            r, err = attempt(lambda: g.from_list([ElecMeterID(8, 1, 'gen')]))
            ensure(isinstance(err, KeyError), 'from_list with an unknown meter: %r', r if err is None else err)
        elif k in ('union', 'eq'):
            if not entries:
                continue
            A = sorted(set(i % len(entries) for i in q['a']), key=[i % len(entries) for i in q['a']].index)
            B = sorted(set(i % len(entries) for i in q['b']), key=[i % len(entries) for i in q['b']].index)
            ga, gb = MeterGroup([g.meters[i] for i in A]), MeterGroup([g.meters[i] for i in B])
            if k == 'union':
                same(ga.union(gb), [entries[i] for i in sorted(set(A) | set(B))], what, ordered=False)
                ensure(len(ga.meters) == len(A) and len(gb.meters) == len(B), '%s changed its operands', what)
                r, err = attempt(lambda: ga.union(g.meters[0] if not isinstance(g.meters[0], MeterGroup) else 3))
                ensure(isinstance(err, TypeError), 'union with a meter: %r', r)
            else:
                eq = set(A) == set(B)
                ensure((ga == gb) is eq and (ga != gb) is (not eq), '%s: == gives %r, != gives %r', what, ga == gb, ga != gb)
                if eq:
                    ensure(hash(ga) == hash(gb), '%s: equal groups with different hashes', what)
                    ensure(len(set([ga, gb])) == 1, '%s: a set holds both of two equal groups', what)
                ensure(ga != 5 and not (ga == 'x'), '%s: equal to something else', what)
            found += 1
        elif k == 'labels':
            if not entries:
                continue
            picks = [entries[i % len(entries)] for i in q['a']]
            got = g.get_labels([key_of(p) for p in picks], pretty=True)
            exp = [set(pretty(m) for m in p.members) for p in picks]
            ensure(len(got) == len(exp) and all((set(x.split(', ')) if p.group else {x}) == y for p, x, y in zip(picks, got, exp)), '%s: %r, expected %r', what, got, exp)
            got = g.get_labels([key_of(p) for p in picks], pretty=False)
            for p, x in zip(picks, got):
                if not p.group:
                    ensure(x == ugly(p), '%s: label of %r is %r, expected %r', what, p.id, x, ugly(p))
        elif k == 'groupby':
            if c['scope'] != 'one':
                continue               # appliances of several buildings share (type, instance)
            vals = []
            for e in entries:
                d = dominant(e)
                if d is not None and d.get(q['key']) is not None and d[q['key']] not in vals:
                    vals.append(d[q['key']])
            got = sorted(map(str, g.values_for_appliance_metadata_key(q['key'])))
            ensure(got == sorted(map(str, vals)), '%s: values %r, expected %r', what, got, vals)
            # what only the types of the appliances say
            for dom in (True, False):
                apps = [d for d in map(dominant, entries) if d] if dom else [a for e in entries for a in e.apps]
                got = sorted(g.values_for_appliance_metadata_key('control', only_consider_dominant_appliance=dom))
                exp = sorted(set(x for a in apps for x in CONTROL.get(a['type'], []) + ([a['control']] if isinstance(a.get('control'), str) else a.get('control', []))))
                ensure(got == exp, '%s: values of control (dominant only: %r) %r, expected %r', what, dom, got, exp)
            r = g.groupby(q['key'])
            ensure(sorted(str(x.name) for x in r.meters) == sorted(map(str, vals)), '%s: groups %r, expected %r', what, [x.name for x in r.meters], vals)
            for x in r.meters:
                same(x, [e for e in entries if e.match_app({q['key']: x.name})], what)
            found += 1
        elif k == 'alt':
            if c['scope'] != 'one':
                continue
            present = [e for e in entries if e.site]
            alt = [e for e in disabled if e.site]
            r, err = attempt(g.use_alternative_mains)
            if not alt:
                ensure(isinstance(err, RuntimeError), '%s: no RuntimeError although there is no alternative: %r', what, err)
            else:
                if err is not None:
                    raise err
                entries = [e for e in entries if not e.site] + alt
                disabled = [e for e in disabled if not e.site] + present
                same(g, entries, what, ordered=False)
                ensure(sorted(ident(m) for m in g.disabled_meters) == sorted(e.id for e in disabled), '%s: disabled %r', what, g.disabled_meters)
                entries = [next(e for e in entries if e.id == ident(m)) for m in g.meters]
        elif k == 'other':
            ensure(plain(g.identifier) == tuple(e.id for e in entries), 'identifier %r', g.identifier)
            ensure(g.instance() == tuple(tuple(x.m for x in e.members) if e.group else e.m for e in entries), 'instance() is %r', g.instance())
            bs = set(e.b for e in entries)
            b = g.building()
            ensure((b in bs and len(bs) == 1) or (not bs and b is None) or (len(bs) > 1 and set(b) == bs), 'building() is %r', b)
            ensure(g.contains_meters_from_multiple_buildings() == (len(bs) > 1), 'contains_meters_from_multiple_buildings')
            if entries:
                ensure(g.dataset() == 'gen', 'dataset() is %r', g.dataset())
                ensure(g.sample_period() == max(m.spec['dev']['sample_period'] for e in entries for m in e.members), 'sample_period is %r', g.sample_period())
            same(g.submeters(), [e for e in entries if not e.site], 'submeters()')
            site = [e for e in entries if e.site]
            r, err = attempt(g.mains)
            if len(bs) > 1:
                ensure(isinstance(err, RuntimeError), 'mains() of several buildings: %r', r)
            elif len(site) == 0:
                ensure(err is None and r is None, 'mains() is %r', r)
            elif len(site) == 1:
                ensure(ident(r) == site[0].id, 'mains() is %r', r)
            else:
                same(r, site, 'mains()')
            ensure(g.is_site_meter() == bool(site), 'is_site_meter() is %r', g.is_site_meter())
            ensure(len(g.all_meters()) == len(entries) + len(disabled), 'all_meters() has %d', len(g.all_meters()))
            got = sorted((a.identifier.type, a.identifier.instance, a.metadata['building']) for m in [MeterGroup([m]) for m in g.meters] for a in m.appliances)
            exp = sorted((a['type'], a['instance'], e.b) for e in entries for a in e.apps)
            ensure(got == exp, 'appliances %r, expected %r', got, exp)
            for m, e in zip(g.meters, entries):
                doms = []
                for x in e.members:
                    d = dominant(x)
                    if d not in doms:
                        doms.append(d)
                if len(doms) == 1:
                    got = m.dominant_appliance()
                    ensure((got is None) == (doms[0] is None) and (got is None or tuple(got.identifier) == (doms[0]['type'], doms[0]['instance'])),
                           'dominant appliance of %r is %r, expected %r', e.id, got, doms[0])
    ds.store.close()
    return (bool(found and nothing), sorted(set(q['k'] for q in c['q'])))


def dominant(e):
    m = e.members[0]
    for a in m.apps:
        if a.get('dominant_appliance'):
            return a
    return m.apps[0] if m.apps else None


def pretty(m):
    name = m.spec['extra'].get('name')
    if not name:
        d = dominant(m)
        name = 'Site meter' if m.site else d['type'] if d else ''
    return name[:1].upper() + name[1:]


def ugly(m):
    if m.site:
        return 'SITE METER'
    if 'name' in m.spec['extra']:
        return m.spec['extra']['name']
    out = []
    for a in m.apps:
        s = str((a['type'], a['instance']))
        if a['type'] == 'unknown':
            s += ', original name = ' + a['original_name']
        out.append(s.upper() if a.get('dominant_appliance') else s)
    return ', '.join(out)


@st.composite
def app_case(draw):
    types = TYPES + ['dish washer', 'freezer', 'computer']
    opt = {'room': st.sampled_from(ROOMS), 'original_name': st.sampled_from(['a', 'kettle']), 'count': st.integers(1, 3), 'index': st.integers(0, 2),
           'multiple': st.booleans(), 'on_power_threshold': st.sampled_from([0, 5, 33]), 'tags': st.sampled_from([['x'], ['x', 'y'], []]),
           'nominal_consumption': st.sampled_from([{'on_power': 70}, {'on_power': 0}, {'standby': 1}]), 'dominant_appliance': st.booleans()}
    apps = []
    for _ in range(draw(st.integers(1, 3))):
        md = {'type': draw(st.sampled_from(types)), 'instance': draw(st.integers(1, 3)), 'meters': draw(st.lists(st.integers(1, 9), min_size=1, max_size=3, unique=True))}
        for k in draw(st.sets(st.sampled_from(sorted(opt)), max_size=4)):
            md[k] = draw(opt[k])
        apps.append(md)
    q = []
    for _ in range(draw(st.integers(1, 6))):
        d = {}
        for k in draw(st.lists(st.sampled_from(['type', 'instance', 'category', 'control', 'synonyms', 'min_on_duration', 'on_power_threshold'] + sorted(opt)),
                               min_size=1, max_size=3, unique=True)):
            a = draw(st.sampled_from(apps))
            t = draw(st.sampled_from(types))
            if k in opt:
                d[k] = draw(opt[k])
                if k in a and draw(st.booleans()):
                    d[k] = a[k]
            elif k == 'type':
                d[k] = draw(st.sampled_from([a['type']] * 2 + [t] + SYN.get(a['type'], []) + SYN.get(t, [])))
            elif k == 'instance':
                d[k] = draw(st.integers(1, 3))
            elif k == 'category':
                d[k] = draw(st.sampled_from(CAT.get(a['type'], []) + CAT.get(t, []) + ['wet', 'nowhere', ['cold']]))
            elif k == 'control':
                d[k] = draw(st.sampled_from(['manual', 'timer', 'thermostatic', ['manual'], ['manual', 'timer'], ['thermostatic', 'always on'], ['timer', 'manual'], []]))
            elif k == 'synonyms':
                d[k] = draw(st.sampled_from(['TV', 'lamp', ['TV', 'tv'], ['lamp'], ['tv', 'TV'], ['TV']]))
            else:
                d[k] = draw(st.sampled_from([60, 12, 1800, 10]))
        q.append(d)
    return {'apps': apps, 'q': q, 'syn': draw(st.integers(0, 4)) != 3}


def cats(t):
    return [x for v in t['categories'].values() for x in (v if isinstance(v, list) else [v])]


def ref_matches(a, q, types, syn):
    """True / False, or KeyError: some key is known neither for this appliance nor for its type"""
    t = types[a['type']]
    out = True
    for k, v in q.items():
        if k == 'type':
            ok = v == a['type'] or (syn and v in t.get('synonyms', []))
        elif k == 'instance':
            ok = v == a['instance']
        elif k in a:
            ok = a[k] == v
        elif k == 'category':
            ok = v in cats(t)
        elif k in t:
            x = t[k]
            ok = v in x if isinstance(x, list) and not isinstance(v, list) else x == v
        else:
            return KeyError
        out = out and ok
    return out


def check_app(c):
    from nilm_metadata import get_appliance_types
    types = get_appliance_types()
    Appliance = nk('nilmtk.appliance').Appliance
    apps = [Appliance(deepcopy(a)) for a in c['apps']]
    res = set()
    ensure(Appliance.allow_synonyms is True, 'synonyms are not allowed by default')
    Appliance.allow_synonyms = c['syn']
    try:
        for a, md in zip(apps, c['apps']):
            t = types[md['type']]
            for q in c['q']:
                exp = ref_matches(md, q, types, c['syn'])
                try:
                    got = a.matches(deepcopy(q))
                except KeyError:
                    got = KeyError
                ensure(got is exp or (exp is not KeyError and got is not KeyError and bool(got) == exp), '%r of type %r matches %r (synonyms %r): %r, expected %r', md, t, q, c['syn'], got, exp)
                res.add(str(exp))
            ensure(a.matches({}), '%r does not match the empty query', md)
            ensure(raises(TypeError, lambda: a.matches('fridge')), 'a string as query is accepted')
            exp = md.get('on_power_threshold', md.get('nominal_consumption', {}).get('on_power', t.get('on_power_threshold', 10)))
            ensure(a.on_power_threshold() == exp, 'on_power_threshold of %r is %r, expected %r', md, a.on_power_threshold(), exp)
            ensure(sorted(a.categories()) == sorted(cats(t)), 'categories of %r: %r', md, a.categories())
            ensure(a.n_meters == len(md['meters']), 'n_meters of %r is %r', md, a.n_meters)
            ensure(tuple(a.identifier) == (md['type'], md['instance']), 'identifier of %r: %r', md, a.identifier)
            tail = ', original name = %s' % md.get('original_name') if md['type'] == 'unknown' else ''
            ensure(a.label() == str((md['type'], md['instance'])) + tail, 'label of %r: %r', md, a.label())
            lab = md['type'].capitalize() + (' %d' % md['instance'] if md['instance'] > 1 else '') + tail
            ensure(a.label(pretty=True) == lab, 'pretty label of %r: %r', md, a.label(pretty=True))
            ensure(a.type == t, 'type of %r: %r', md, a.type)
            a.type.setdefault('synonyms', []).append('spoiled')
            ensure(a.type == t, 'type of %r is shared with the caller', md)
            ensure(a.metadata == md, 'metadata changed: %r, %r', a.metadata, md)
        for i, a in enumerate(apps):
            for j, b in enumerate(apps):
                eq = (c['apps'][i]['type'], c['apps'][i]['instance']) == (c['apps'][j]['type'], c['apps'][j]['instance'])
                ensure((a == b) is eq and (a != b) is (not eq), '%r == %r is %r', a, b, a == b)
                ensure(not eq or hash(a) == hash(b), 'equal appliances with different hashes')
            ensure(a != a.identifier and not a == 5, 'an appliance equals something else')
    finally:
        Appliance.allow_synonyms = True
    return (len(res) > 1, sorted(res) + ([] if c['syn'] else ['exact types']))


# --- two datasets in one group
def check_two(c):
    MeterGroup, ElecMeterID = nk.MeterGroup, nk('nilmtk.elecmeter').ElecMeterID
    specs = [{'name': n, 'tz': 'UTC', 'buildings': deepcopy(c['buildings'])} for n in ('gen', 'other')]
    dss = [open_dataset(s) for s in specs]
    mods = [model(s) for s in specs]
    order = [0, 1] if c['scope'] == 'one' else [1, 0]
    g = MeterGroup([m for k in order for b in c['buildings'] for m in dss[k].buildings[b['i']].elec.meters])
    entries = [e for k in order for b in c['buildings'] for e in mods[k][b['i']][0]]
    same(g, entries, 'the group of two datasets')
    stores = {'gen': dss[0].store, 'other': dss[1].store}
    flat = [e for e in entries if not e.group]
    for e in flat:
        m = g[ElecMeterID(*e.id)]
        ensure(ident(m) == e.id and m.store is stores[e.ds], 'lookup of %r in a group of two datasets finds %r', e.id, m)
    found = 0
    for name in ('gen', 'other'):
        for b in c['buildings']:
            mine = [e for e in entries if e.b == b['i'] and e.ds == name]
            site = [e for e in mine if e.site]
            what = 'mains of building %d of %s, in a group of two datasets,' % (b['i'], name)
            if mine:
                r = g[ElecMeterID(0, b['i'], name)]
                if not site:
                    ensure(r is None, '%s: %r', what, r)
                elif len(site) == 1:
                    ensure(ident(r) == site[0].id, '%s is %r, expected %r', what, r, site[0].id)
                else:
                    same(r, site, what)
                found += bool(site)
            for kw in ({'dataset': name}, {'building': b['i'], 'dataset': name}):
                hits = [e for e in entries if e.ds == name and ('building' not in kw or e.b == b['i'])]
                if hits:
                    same(g.select(**kw), hits, 'select(%r) of a group of two datasets' % kw)
            for e in mine:
                if e.group:
                    key = ElecMeterID(tuple(i[0] for i in e.id), e.b, name)
                    r = g[key]
                    ensure(ident(r) == e.id, 'lookup of %r in a group of two datasets finds %r', key, r)
            for a in b['apps']:
                d = {'type': a['type'], 'instance': a['instance'], 'building': b['i'], 'dataset': name}
                hits = [e for e in entries if e.match_app(d)]
                if len(hits) == 1:
                    ensure(ident(g[d]) == hits[0].id, 'lookup of %r in a group of two datasets finds %r, expected %r', d, g[d], hits[0].id)
                if hits:
                    same(g.select_using_appliances(**d), hits, 'select_using_appliances(%r) of a group of two datasets' % d)
    for d in dss:
        d.store.close()
    return (found > 0, ['%d buildings' % len(c['buildings'])])


SUBS = [Sub('two', case(), check_two, quick=160, thorough=2500, shards=1),
        Sub('lookup', case(), check, quick=1600, thorough=20000, shards=7),
        Sub('appliance', app_case(), check_app, quick=1500, thorough=60000, shards=1)]
