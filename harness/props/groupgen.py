"""Generated buildings of meters and appliances (metadata only or with data) and a plain model of them."""
from hypothesis import strategies as st

from props.datasets import device

TYPES = ['fridge', 'kettle', 'toaster', 'light', 'television', 'washing machine', 'unknown']
SYN = {'fridge': ['refrigerator'], 'light': ['lamp'], 'television': ['TV', 'tv'], 'washing machine': ['clothes washer']}
CAT = {'fridge': ['cold', 'large', 'single-phase induction motor'], 'kettle': ['heating', 'small', 'resistive'],
       'toaster': ['cooking', 'small', 'resistive'], 'light': ['lighting', 'incandescent'],
       'television': ['consumer electronics', 'small', 'SMPS'], 'washing machine': ['wet', 'large', 'resistive'],
       'unknown': ['misc', 'small', 'resistive']}
ROOMS = ['kitchen', 'lounge']


@st.composite
def building(draw, i, devs, min_meters=2, max_meters=6, disabled=True, nested=True, rooms=True):
    """-> building spec for datasets.open_dataset, without data"""
    ids = sorted(draw(st.sets(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 10, 12]), min_size=min_meters, max_size=max_meters)))
    order = draw(st.permutations(ids))
    nsite = draw(st.sampled_from([0, 1, 1, 1, 1, 2, 3, 4])) if min_meters < 3 else draw(st.sampled_from([1, 1, 1, 2, 3]))
    nsite = min(nsite, len(ids))
    site = list(order[:nsite])
    meters = []
    mrooms = draw(st.booleans())
    for m in ids:
        up = None
        if m not in site:
            cands = [x for x in order[:order.index(m)]]
            up = draw(st.sampled_from(cands)) if cands and draw(st.integers(0, 2)) == 0 else (site[0] if site else 0)
            if draw(st.integers(0, 9)) == 0:
                up = 0
        e = {'m': m, 'dev': draw(st.sampled_from(devs)), 'up': up, 'extra': {}}
        if rooms and mrooms:
            e['extra']['room'] = draw(st.sampled_from(ROOMS))
        if draw(st.integers(0, 5)) == 0:
            e['extra']['name'] = draw(st.sampled_from(['pump', 'garage', 'Heat']))
        meters.append(e)
    apps, cnt = [], {}
    free = [m for m in ids if m not in site]
    arooms = draw(st.booleans())
    single = set()
    for _ in range(draw(st.integers(0, 5))):
        if not free:
            break
        typ = draw(st.sampled_from(TYPES))
        multi = nested and draw(st.integers(0, 2)) == 0
        pool = [m for m in free if m not in single] if multi else free
        if multi and len(pool) >= 2:
            on = list(draw(st.permutations(pool)))[:draw(st.sampled_from([2, 2, 3])) if len(pool) > 2 else 2]
            free = [m for m in free if m not in on]
        elif not multi:
            on = [draw(st.sampled_from(free))]
            single.add(on[0])
        else:
            continue
        cnt[typ] = cnt.get(typ, 0) + 1
        a = {'type': typ, 'instance': cnt[typ], 'meters': on, 'original_name': 'orig %s' % typ}
        if arooms:
            a['room'] = draw(st.sampled_from(ROOMS))
        if draw(st.integers(0, 3)) == 3:
            a['control'] = draw(st.sampled_from([['manual'], ['own', 'timer'], 'own']))
        if draw(st.integers(0, 4)) == 0 and not any(b.get('dominant_appliance') and set(b['meters']) & set(on) for b in apps):
            a['dominant_appliance'] = True
        apps.append(a)
    inside = set(x for a in apps if len(a['meters']) > 1 for x in a['meters'])
    for m in meters:
        if disabled and m['m'] not in inside and draw(st.integers(0, 7)) == 0 and (m['up'] is not None or nsite > 1):
            m['extra']['disabled'] = True
    return {'i': i, 'meters': meters, 'apps': apps, 'site': site}


def devices():
    a = device('d1', [['power', 'active']], 6, 30)
    a['manufacturer'] = 'ACME'
    b = device('d2', [['power', 'apparent']], 10, 50)
    b['manufacturer'] = 'Other'
    b['wireless'] = True
    return [a, b]


class M:
    """model of a meter"""

    def __init__(self, ds, b, spec, apps):
        self.ds, self.b, self.spec, self.m = ds, b, spec, spec['m']
        self.id = (spec['m'], b, ds)
        self.apps = apps
        self.site = spec['up'] is None
        self.disabled = bool(spec['extra'].get('disabled'))
        self.members = [self]
        self.group = False

    def md(self):
        d = {'instance': self.m, 'building': self.b, 'dataset': self.ds, 'device_model': self.spec['dev']['model'],
             'sample_period': self.spec['dev']['sample_period'], 'manufacturer': self.spec['dev']['manufacturer']}
        if 'wireless' in self.spec['dev']:
            d['wireless'] = True
        d.update(self.spec['extra'])
        if self.site:
            d['site_meter'] = True
        return d

    def match(self, q):
        """True / False; None: the outcome is not specified"""
        md = self.md()
        return all(k in md and md[k] == v for k, v in q.items())

    def missing(self, q):
        md = self.md()
        return any(k not in md for k in q)

    def match_app(self, q):
        return any(app_match(a, self, q) for a in self.apps)


class G:
    """model of a nested group"""

    def __init__(self, members):
        self.members = members
        self.group = True
        self.site = any(m.site for m in members)
        self.id = tuple(m.id for m in members)
        self.apps = []
        for m in members:
            self.apps += [a for a in m.apps if a not in self.apps]
        self.b, self.ds = members[0].b, members[0].ds

    def match(self, q):
        for m in self.members:
            if m.missing(q):
                return None
        return any(m.match(q) for m in self.members)

    def match_app(self, q):
        return self.members[0].match_app(q)


def app_match(a, m, q):
    for k, v in q.items():
        if k == 'type':
            if v != a['type'] and v not in SYN.get(a['type'], []):
                return False
        elif k == 'category':
            if v not in CAT[a['type']]:
                return False
        elif k == 'dataset':
            if v != m.ds:
                return False
        elif k == 'building':
            if v != m.b:
                return False
        elif a.get(k) != v:
            return False
    return True


def model(spec):
    """{building: (enabled entries in order, disabled entries)}"""
    out = {}
    for b in spec['buildings']:
        ms = {e['m']: M(spec['name'], b['i'], e, [a for a in b['apps'] if e['m'] in a['meters']]) for e in b['meters']}
        entries = [ms[e['m']] for e in b['meters']]
        for a in b['apps']:
            if len(a['meters']) > 1:
                g = G([ms[x] for x in a['meters']])
                entries = [e for e in entries if e.group or e.m not in a['meters']] + [g]
        dis = [e for e in entries if not e.group and e.disabled]
        out[b['i']] = ([e for e in entries if e.group or not e.disabled], dis)
    return out


def ident(x):
    """identifier of a meter or group of the code as plain tuples"""
    i = x.identifier
    if hasattr(i, 'meters'):
        return tuple(plain(y) for y in i.meters)
    return tuple(i)


def plain(i):
    return tuple(plain(y) for y in i.meters) if hasattr(i, 'meters') else tuple(i)
