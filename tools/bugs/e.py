L = 'from demo_lib import *\n'
G = '/nilmtk/metergroup.py'[1:]

BUGS = [
 dict(id='C17d', property='C17', edits=[('nilmtk/electric.py', """            best_ac_type = select_best_ac_type(proportion_of_energy.keys())
""", """            best_ac_type = proportion_of_energy.keys()[0]
""")], needs='meters with two AC types, and an order of the hash of their names in which the less good one comes first', breaks='the share in the upstream meter is the one of the less preferred AC type', demo=L + """
import subprocess
if len(sys.argv) < 2:
    for h in range(12):
        expect(subprocess.call([sys.executable, os.path.abspath(__file__), 'x'], env=dict(os.environ, PYTHONHASHSEED=str(h))) == 0, h)
    done()
c = [('power', 'active'), ('power', 'reactive')]
ds = dataset({1: {'meters': {1: (frame(range(0, 120, 6), c, [[100.] * 20, [10.] * 20]), {'site_meter': True}),
                             2: (frame(range(0, 120, 6), c, [[50.] * 20, [1.] * 20]), {'submeter_of': 1})},
                  'appliances': [{'type': 'fridge', 'instance': 1, 'meters': [2]}]}}, dev=device(c))
p = ds.buildings[1].elec[2].proportion_of_upstream()
expect(abs(p - .5) < 1e-6, p)
done()
"""),
 dict(id='C15b', property='C15', edits=[(G, """        for meter in self.meters:
            meter.clear_cache()""", """        for meter in self.meters:
            if not isinstance(meter, MeterGroup):
                meter.clear_cache()""")], needs='a nested group, whose tables are replaced after the statistics were cached', breaks='clear_cache of the building leaves the cached statistics of the members of nested groups', demo=L + """
b = {1: {'meters': {1: (frame(range(0, 120, 6)), {'site_meter': True}), 2: (frame(range(0, 120, 6)), {'submeter_of': 1}), 3: (frame(range(0, 120, 6)), {'submeter_of': 1})},
         'appliances': [{'type': 'washing machine', 'instance': 1, 'meters': [2, 3]}]}}
ds = dataset(b)
g = [x for x in ds.buildings[1].elec.meters if isinstance(x, nilmtk.MeterGroup)][0]
m = g.meters[0]
first = m.total_energy()['active']
p = ds.store.store.filename
ds.store.close()
s = HDFDataStore(p, 'a'); s.put('/building1/elec/meter%d' % m.instance(), frame(range(0, 120, 6), vals=[[7000.] * 20])); s.close()
ds.store.open('r')
ds.buildings[1].elec.clear_cache()
now = m.total_energy()['active']
expect(abs(now - 7. * 114 / 3600) < 1e-6, (first, now))
done()
"""),
 dict(id='C18d', property='C18', edits=[(G, """            value = appliance.type.get(key)
            append_or_extend_list(values, value)""", """            if value is None or not values:
                append_or_extend_list(values, appliance.type.get(key))""")], needs='appliances of which some give a value of their own and others have it from their type', breaks='values of the type are left out once an appliance has given one of its own', demo=L + """
fr = frame(range(0, 120, 6))
b = {1: {'meters': {1: (fr, {'site_meter': True}), 2: (fr, {'submeter_of': 1}), 3: (fr, {'submeter_of': 1})},
         'appliances': [{'type': 'kettle', 'instance': 1, 'meters': [2], 'on_power_threshold': 7}, {'type': 'fridge', 'instance': 1, 'meters': [3], 'on_power_threshold': 9}]}}
ds = dataset(b)
v = ds.buildings[1].elec.values_for_appliance_metadata_key('on_power_threshold')
expect(sorted(v) == [7, 9, 50, 2000], v)
done()
"""),
 dict(id='C20d', property='C20', edits=[(G, """            mains_ac_type = most_common_ac_type
        else""", """            mains_ac_type = ac_types[0]
        else""")], needs='submeters of different AC types and mains that record the one that most of them use', breaks='the remainder is taken from the AC type of the first row instead of the most common', demo=L + """
two = [('power', 'active'), ('power', 'apparent')]
n = 20
one = lambda a, v: frame(range(0, 120, 6), [('power', a)], [[v] * n])
devs = {'dev': device(two), 'a': device(two[:1]), 'p': device(two[1:])}
b = {1: {'meters': {1: (frame(range(0, 120, 6), two, [[900.] * n, [5000.] * n]), {'site_meter': True}),
                    2: (one('active', 100.), {'submeter_of': 1, 'device_model': 'a'}), 3: (one('apparent', 200.), {'submeter_of': 1, 'device_model': 'p'}),
                    4: (one('apparent', 300.), {'submeter_of': 1, 'device_model': 'p'})},
         'appliances': [{'type': t, 'instance': 1, 'meters': [i]} for i, t in ((2, 'fridge'), (3, 'kettle'), (4, 'light'))]}}
ds = dataset(b, devices=devs)
e = ds.buildings[1].elec
r = e.submeters().energy_per_meter(mains=e.mains())['Remainder']
k = 114 / 3600e3
expect(abs(r - (5000. - 600.) * k) < 1e-6, (r, 4400 * k, 300 * k))
done()
"""),
]
