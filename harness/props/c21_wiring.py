"""C21: the wiring hierarchy of a building."""
import copy

from hypothesis import strategies as st

from engine import Sub
from support import ensure, nk, raises
from props.datasets import open_dataset, write
from props.groupgen import G, building, devices, ident, model

ID = 'C21'
RULE = ('generated buildings (0-2 site meters, submeters of submeters, of "mains" (0), disabled meters, nested groups), 1-2 per dataset, the dataset '
        'opened once or twice and beside a dataset of another name with the same or other wiring. mains, submeters, upstream_meter, wiring_graph, '
        'meters_directly_downstream_of_mains, use_alternative_mains, from_other_metergroup and pairing of submeters; oracle: the submeter_of '
        'relation of the generated metadata. Non-trivial: a chain of two submeters, several site meters, a nested group or a second opening.')


@st.composite
def case(draw):
    devs = devices()
    ids = draw(st.sampled_from([[1], [1], [1, 2], [3, 7]]))
    spec = {'name': 'gen', 'tz': 'UTC', 'buildings': [draw(building(i, devs)) for i in ids]}
    other = draw(st.sampled_from(['same', 'other', 'none']))
    return {'spec': spec, 'twice': draw(st.booleans()), 'other': other,
            'spec2': {'name': 'truth', 'tz': 'UTC', 'buildings': spec['buildings'] if other == 'same' else [draw(building(i, devs)) for i in ids]},
            'first': draw(st.booleans()), 'closed': draw(st.booleans())}


def leaves(entries):
    for e in entries:
        yield from e.members


def up_of(m, entries, dis):
    """model: id of the upstream meter; a tuple of ids for several mains; None: no such meter; 'skip': unspecified"""
    if m.site:
        return None
    u = m.spec['up']
    if u == 0:
        if any(d.site for d in dis):
            return 'skip'
        sites = [e for e in entries if e.site]
        if not sites:
            return None
        return sites[0].id if len(sites) == 1 else tuple(s.id for s in sites)
    return (u, m.b, m.ds)


def got_up(u):
    if u is None:
        return None
    return ident(u)


def norm(i):
    return frozenset(i) if isinstance(i, tuple) and i and isinstance(i[0], tuple) else i


def check_building(elec, store, entries, dis, labels):
    sites = [e for e in entries if e.site]
    got = elec.mains()
    if not sites:
        ensure(got is None, 'mains() of a building without site meters is %r', got)
    elif len(sites) == 1:
        ensure(got is not None and ident(got) == sites[0].id, 'mains() is %r, expected meter %r', got, sites[0].id)
    else:
        ensure(norm(ident(got)) == norm(tuple(s.id for s in sites)), 'mains() is %r, expected %r', got, [s.id for s in sites])
        labels.append('two mains')
    ensure(sorted(map(repr, (ident(m) for m in elec.submeters().meters))) == sorted(repr(e.id) for e in entries if not e.site), 'submeters() are %r', elec.submeters())
    ensure(elec.is_site_meter() == bool(sites), 'is_site_meter() of the group')
    real = {}
    for m in elec.meters:
        for x in (m.meters if hasattr(m, 'meters') else [m]):
            real[tuple(x.identifier)] = x
    mod = {m.id: m for m in leaves(entries)}
    ensure(set(real) == set(mod), 'meters of the building: %r, expected %r', sorted(real), sorted(mod))
    skip = False
    edges = set()
    for i, m in mod.items():
        exp = up_of(m, entries, dis)
        if exp == 'skip':
            skip = True
            continue
        got = real[i].upstream_meter(raise_warning=False)
        ensure(norm(got_up(got)) == norm(exp), 'upstream_meter() of %r is %r, expected %r', i, got_up(got), exp)
        if got is not None:
            for x in (got.meters if hasattr(got, 'meters') else [got]):
                ensure(x.store is store, 'upstream_meter() of %r belongs to another opened dataset', i)
            edges.add((norm(exp), i))
            if exp in mod and not mod[exp].site:
                labels.append('chain')
    if skip:
        return
    g = elec.wiring_graph()
    ge = set((norm(ident(a)), norm(ident(b))) for a, b in g.edges())
    ensure(ge == edges, 'wiring_graph() has edges %r, expected %r', ge, edges)
    ensure(len(list(g.nodes())) == len(set(x for e in edges for x in e)), 'wiring_graph() has nodes %r', list(g.nodes()))
    for n in g.nodes():
        for x in (n.meters if hasattr(n, 'meters') else [n]):
            ensure(x.store is store, 'wiring_graph() holds a meter of another opened dataset: %r', x)
    roots = set(a for a, _ in edges) - set(b for _, b in edges)
    if len(roots) == 1:
        root = roots.pop()
        exp = set(b for a, b in edges if a == root)
        got = elec.meters_directly_downstream_of_mains()
        ensure(sorted(ident(m) for m in got.meters) == sorted(exp), 'meters_directly_downstream_of_mains() %r, expected %r', got, exp)
    else:
        ensure(raises(RuntimeError, elec.meters_directly_downstream_of_mains), 'no RuntimeError from elec.meters_directly_downstream_of_mains')
        labels.append('%d roots' % min(2, len(roots)))
    for e, m in zip(entries, elec.meters):
        ensure(ident(m) == e.id, 'order of the meters')
        if e.group:
            labels.append('nested')
            ups = set(norm(up_of(x, entries, dis)) for x in e.members)
            if len(ups) == 1:
                ensure(norm(got_up(m.upstream_meter())) == ups.pop(), 'upstream_meter() of the nested group %r', e.id)
            else:
                ensure(raises(RuntimeError, m.upstream_meter), 'no RuntimeError from m.upstream_meter')


def struct(e):
    return frozenset(m.id[:2] for m in e.members) if e.group else e.id[:2]


def check(c):
    mg = nk('nilmtk.metergroup')
    MG = mg.MeterGroup
    labels = []
    path = write(c['spec'])
    DS = nk.DataSet
    opened = [DS(path)]
    other = None
    if c['other'] != 'none' and c['first']:
        other = open_dataset(c['spec2'])
    if c['twice']:
        labels.append('twice')
        if c['closed']:
            opened[0].store.close()
        opened.append(DS(path))
    if c['other'] != 'none' and other is None:
        other = open_dataset(c['spec2'])
    for k, ds in enumerate(opened):
        if c['closed'] and k < len(opened) - 1:
            continue
        mod = model(c['spec'])
        for b, (entries, dis) in mod.items():
            check_building(ds.buildings[b].elec, ds.store, entries, dis, labels)
    mod = model(c['spec'])
    if other is not None:
        mod2 = model(c['spec2'])
        for b, (entries, dis) in mod2.items():
            check_building(other.buildings[b].elec, other.store, entries, dis, labels)
        ds = opened[-1]
        for b, (entries, dis) in mod.items():
            elec, truth = ds.buildings[b].elec, other.buildings[b].elec
            have = set(m.id for m in leaves(mod2[b][0] + mod2[b][1]))
            want = [('truth',) and struct(e) for e in entries]
            ok = all((m.m, b, 'truth') in have for m in leaves(entries))
            if not ok:
                ensure(raises(KeyError, MG.from_other_metergroup, elec, 'truth'), 'no KeyError from MG.from_other_metergroup, elec, truth')
            else:
                got = MG.from_other_metergroup(elec, 'truth')
                gs = []
                for m in got.meters:
                    i = ident(m)
                    ms = m.meters if hasattr(m, 'meters') else [m]
                    ensure(all(x.dataset() == 'truth' and x.store is other.store for x in ms), 'from_other_metergroup gives meters of another dataset: %r', got)
                    gs.append(frozenset(tuple(x.identifier)[:2] for x in ms) if hasattr(m, 'meters') else i[:2])
                ensure(gs == want, 'from_other_metergroup gives %r, expected %r', gs, want)
                labels.append('other group')
            rd = [mg.replace_dataset(m.identifier, 'truth') for m in elec.meters]
            for e, r in zip(entries, rd):
                r = [tuple(x) for x in r.meters] if hasattr(r, 'meters') else tuple(r)
                x = [m.id[:2] + ('truth',) for m in e.members]
                ensure(r == (x if e.group else x[0]), 'replace_dataset(%r) is %r', e.id, r)
            if c['other'] == 'same' and [struct(e) for e in mod2[b][0]] == want:
                z = mg.iterate_through_submeters_of_two_metergroups(elec, truth)
                subs = [e for e in entries if not e.site]
                ensure(len(z) == len(subs), 'pairs %r', z)
                for e, (a, t) in zip(subs, z):
                    ensure(ident(a) == e.id, 'pair %r', a)
                    exp = [m.id[:2] + ('truth',) for m in e.members]
                    ensure(ident(t) == (tuple(exp) if e.group else exp[0]), 'the slave of %r is %r', e.id, t)
                if len(subs):
                    labels.append('pairs')
    # several buildings have no mains in common
    ds = opened[-1]
    if sum(bool(b.elec.meters) for b in ds.buildings.values()) > 1:
        ensure(raises(RuntimeError, MG([m for b in ds.buildings.values() for m in b.elec.meters]).mains), 'no RuntimeError from MG([m for b in ds.buildings.values() for m in b.elec.meters]).mains')
    for b, (entries, dis) in mod.items():
        elec = ds.buildings[b].elec
        alt = [e for e in dis if e.site]
        old = [e for e in entries if e.site]
        if not alt:
            ensure(raises(RuntimeError, elec.use_alternative_mains), 'no RuntimeError from elec.use_alternative_mains')
            continue
        labels.append('alternative mains')
        elec.use_alternative_mains()
        ensure(sorted(repr(ident(m)) for m in elec.meters) == sorted(repr(e.id) for e in entries + alt if e not in old), 'meters after use_alternative_mains: %r', elec)
        ensure(sorted(repr(ident(m)) for m in elec.disabled_meters) == sorted(repr(e.id) for e in dis + old if e not in alt), 'disabled meters after use_alternative_mains')
    for ds in opened + ([other] if other else []):
        try:
            ds.store.close()
        except Exception:
            pass
    return (bool(labels), sorted(set(labels)))


@st.composite
def case_bad(draw):
    return {'kind': draw(st.sampled_from(['none', 'negative', 'building', 'same building'])), 'm': draw(st.integers(2, 9)), 'v': draw(st.integers(1, 9))}


def check_bad(c):
    dev = devices()[0]
    md = {'device_model': 'd1', 'data_location': '/building1/elec/meter%d' % c['m']}
    ms = [{'m': 1, 'dev': dev, 'up': None}, {'m': c['m'], 'dev': dev, 'up': 1}]
    ds = open_dataset({'name': 'gen', 'tz': 'UTC', 'buildings': [{'i': 1, 'meters': ms, 'apps': []}]})
    elec = ds.buildings[1].elec
    meter = elec[c['m']]
    if c['kind'] == 'none':
        del meter.metadata['submeter_of']
        ensure(raises(ValueError, meter.upstream_meter), 'no ValueError from meter.upstream_meter')
    elif c['kind'] == 'negative':
        meter.metadata['submeter_of'] = -c['v']
        ensure(raises(ValueError, meter.upstream_meter), 'no ValueError from meter.upstream_meter')
    elif c['kind'] == 'building':
        meter.metadata['upstream_meter_in_building'] = 1 + c['v']
        ensure(raises(NotImplementedError, meter.upstream_meter), 'no NotImplementedError from meter.upstream_meter')
    else:
        meter.metadata['upstream_meter_in_building'] = 1
        ensure(meter.upstream_meter().instance() == 1, 'upstream meter in the same building')
    ds.store.close()
    return True


SUBS = [Sub('wiring', case(), check, quick=2000, thorough=20000, shards=7),
        Sub('invalid', case_bad(), check_bad, quick=20, thorough=100, shards=1)]
