L = 'from demo_lib import *\n'
PL = L + "import matplotlib; matplotlib.use('Agg')\nimport matplotlib.pyplot as plt\n"
HOUSE = """
def house(**kw):
    secs = [6 * i for i in range(30)]
    late = [3600 + s for s in secs]
    return dataset({1: {'meters': {1: (frame(secs, vals=[[float(300 + i) for i in range(30)]]), {'site_meter': True}),
                                   2: (frame(late, vals=[[float(i) for i in range(30)]]), {'submeter_of': 1}),
                                   3: (frame(secs, vals=[[float(5 * i) for i in range(30)]]), {'submeter_of': 1})},
                        'appliances': [{'type': 'fridge', 'instance': 1, 'meters': [2]}, {'type': 'kettle', 'instance': 1, 'meters': [3]}]}}, **kw)
"""
CRASH = L + """
import subprocess, sys
def crash(body):
    p = path('.h5')
    code = 'from demo_lib import *\\nimport signal\\np = sys.argv[1]\\n' + body + '\\nos.kill(os.getpid(), signal.SIGKILL)\\n'
    subprocess.run([sys.executable, '-c', code, p], cwd=os.path.dirname(os.path.abspath(__file__)),
                   env=dict(os.environ, PYTHONPATH=os.environ['PYTHONPATH'] + ':' + os.path.dirname(os.path.abspath(__file__))))
    try:
        return HDFDataStore(p)
    except Exception as e:
        expect(False, 'the store does not open: %r' % e)
"""
BUGS = [
 dict(id='C28a', skip=1, property='C28', edits=[('nilmtk/datastore/hdfdatastore.py', """        self.store.append(key=key, value=value)
        self.store.flush()
""", """        self.store.append(key=key, value=value)
        if len(value) > 16:
            self.store.flush()
""")], needs='an append of a few rows just before the process is killed', breaks='the rows appended last are lost, or the file does not open', demo=CRASH + """
s = crash('''
s = HDFDataStore(p, 'w')
s.put('/building1/elec/meter1', frame(range(10)))
s.append('/building1/elec/meter1', frame(range(10, 15)))
''')
expect(len(s.store['/building1/elec/meter1']) == 15, 'rows lost')
done()
"""),
 dict(id='C28b', property='C28', edits=[('nilmtk/datastore/hdfdatastore.py', """        node._v_attrs.metadata = metadata
        self.store.flush()
""", """        node._v_attrs.metadata = metadata
        if node is self.store.root:
            self.store.flush()
""")], needs='metadata of a building saved just before the process is killed', breaks='the metadata of the building are lost', demo=CRASH + """
s = crash('''
s = HDFDataStore(p, 'w')
s.put('/building1/elec/meter1', frame(range(10)))
s.save_metadata('/', {'name': 'demo'})
s.save_metadata('/building1', {'instance': 1, 'rooms': ['x' * 50]})
''')
try:
    md = s.load_metadata('/building1')
except Exception as e:
    expect(False, repr(e))
expect(md == {'instance': 1, 'rooms': ['x' * 50]}, md)
done()
"""),
 dict(id='C29a', property='C29', edits=[('nilmtk/metergroup.py', """            ax = good_sections.plot(ax=ax, y=i, **plot_kwargs)
            del good_sections
            if label_func:
""", """            ax = good_sections.plot(ax=ax, y=i, **plot_kwargs)
            if label_func and good_sections:
""")], needs='a meter without a good section among others', breaks='the labels are attached to the wrong rows', demo=PL + HOUSE + """
ds = house()
ds.set_window(T(0).isoformat()[:19], T(1800).isoformat()[:19])
e = ds.buildings[1].elec
ax = e.plot_good_sections(load_kwargs={'sections': [TimeFrame(T(0), T(1800))]})
f = ax.yaxis.get_major_formatter()
got = sorted(str(f(y + .5, None)) for y in range(3))
expect(got == ['1', '2', '3'], got)
rows = {str(f(p.get_y() + p.get_height() / 2, None)) for p in ax.patches}
expect(rows == {'1', '3'}, rows)
done()
"""),
 dict(id='C29b', property='C29', edits=[('nilmtk/electric.py', """        if range is None or range[0] is None:
""", """        if not range or not range[0]:
""")], needs='a histogram whose range starts at 0 W', breaks='the samples between 0 and the on-power threshold are left out', demo=PL + HOUSE + """
m = house().buildings[1].elec[3]
ax = m.plot_power_histogram(range=(0, 100), bins=10)
y = ax.collections[0].get_paths()[0].vertices[:, 1].max()
lo = ax.get_xlim()[0]
expect(lo < 0, ax.get_xlim())
done()
"""),
 dict(id='C29c', property='C29', edits=[('nilmtk/electric.py', """        duration = timeframe.timedelta.total_seconds()
        secs_per_pixel""", """        duration = timeframe.timedelta.seconds
        secs_per_pixel""")], needs='a plot of more than a day', breaks='the resolution of the plot is that of the part of a day, not of the time frame', demo=PL + """
ds = dataset({1: {'meters': {1: (frame([600 * i for i in range(6 * 26)]), {'site_meter': True})}}}, dev=device(sp=600, msp=600))
m = ds.buildings[1].elec[1]
ax = m.plot(width=26)
n = len(ax.lines[0].get_ydata())
expect(24 <= n <= 28, n)
done()
"""),
 dict(id='C29d', property='C29', edits=[('nilmtk/timeframegroup.py', """        height -= gap * 2
        for timeframe in self:
            length = timeframe.timedelta
""", """        for timeframe in self:
            height -= gap * 2
            length = timeframe.timedelta
""")], needs='a gap between the rows and several sections', breaks='each section is drawn lower than the one before', demo=PL + """
from nilmtk.timeframegroup import TimeFrameGroup
g = TimeFrameGroup([TimeFrame(T(0), T(60)), TimeFrame(T(120), T(180)), TimeFrame(T(300), T(360))])
ax = g.plot(gap=.1)
hs = [round(p.get_height(), 6) for p in ax.patches]
expect(hs == [.8] * 3, hs)
done()
"""),
 dict(id='C30a', property='C30', edits=[('nilmtk/metergroup.py', """            meters = self.meters
        meters = copy(meters)
        meters.sort(""", """            meters = self.meters
        meters.sort(""")], needs='a plot of the good sections without the disabled meters, before another query', breaks='the plot reverses the order of the meters of the group', demo=PL + HOUSE + """
e = house().buildings[1].elec
before = [m.instance() for m in e.meters]
e.plot_good_sections(include_disabled_meters=False)
after = [m.instance() for m in e.meters]
expect(before == after, after)
done()
"""),
 dict(id='C30b', property='C30', edits=[('nilmtk/node.py', """            metadata = deepcopy(self.upstream.get_metadata())
""", """            metadata = self.upstream.get_metadata()
""")], needs='the metadata of a statistics node asked for after it ran', breaks='the results end up in the metadata of the meter', demo=L + HOUSE + """
from copy import deepcopy
from nilmtk.stats import TotalEnergy
from nilmtk.preprocessing import Clip
m = house().buildings[1].elec[3]
before = deepcopy(m.metadata)
n = TotalEnergy(Clip(m.get_source_node()))
n.run()
n.get_metadata()
expect(set(m.metadata) <= set(before) | {'device'}, set(m.metadata) - set(before))
done()
"""),
 dict(id='C18c', property='C18', edits=[('nilmtk/metergroup.py', """                metergroup_of_building = self.select(
                    building=key.building, dataset=key.dataset)
""", """                metergroup_of_building = self.select(
                    building=key.building)
""")], needs='a group with meters of the same building number of two datasets', breaks='the mains of one building include those of the other dataset', demo=L + HOUSE + """
from nilmtk.elecmeter import ElecMeterID
a, b = house(name='A'), house(name='B')
g = a.buildings[1].elec.union(b.buildings[1].elec)
m = g[ElecMeterID(0, 1, 'B')]
ids = [m.identifier] if not hasattr(m, 'meters') else [x.identifier for x in m.meters]
expect(ids == [ElecMeterID(1, 1, 'B')], ids)
done()
"""),
 dict(id='C07b', property='C07', edits=[('nilmtk/metergroup.py', """                    metergroup = meter
                    for meter in metergroup.meters:
                        meter.appliances.append(appliance)
                else:
""", """                    meter.meters[0].appliances.append(appliance)
                else:
""")], needs='a building with several site meters and an appliance wired to the mains (meter 0)', breaks='only the first site meter has the appliance', demo=L + """
secs = [6 * i for i in range(10)]
ds = dataset({1: {'meters': {i: (frame(secs), {'site_meter': True}) for i in (1, 2)},
                  'appliances': [{'type': 'fridge', 'instance': 1, 'meters': [0]}]}})
e = ds.buildings[1].elec
got = [[a.metadata['type'] for a in e[i].appliances] for i in (1, 2)]
expect(got == [['fridge'], ['fridge']], got)
done()
"""),
 dict(id='C19b', skip=1, property='C19', edits=[('nilmtk/metergroup.py', """            timeframe = timeframe.union(chunk_from_next_meter.timeframe)
""", """            timeframe = timeframe.intersection(chunk_from_next_meter.timeframe)
""")], needs='a group of meters with different extents', breaks='the time frame of the loaded chunk is the time all meters share', demo=L + HOUSE + """
e = house().buildings[1].elec
c = next(e.load(sections=[TimeFrame(T(0), T(7200))]))
tf = c.timeframe
expect(tf and not tf.empty and tf.start <= T(0) and tf.end >= T(3600 + 6 * 29), tf)
done()
"""),
 dict(id='C31a', property='C31', edits=[('nilmtk/utils.py', """        if isinstance(item, str):
            list1d.append(item)
        else:
            try:
                len(item)
            except TypeError:
                list1d.append(item)
            else:
                list1d.extend(item)
""", """        try:
            list1d.extend(item)
        except TypeError:
            list1d.append(item)
""")], needs='a list of strings mixed with lists', breaks='the strings come apart into letters', demo=L + """
from nilmtk.utils import flatten_2d_list
expect(flatten_2d_list(['ab', ['cd', 'ef'], 1]) == ['ab', 'cd', 'ef', 1], flatten_2d_list(['ab', ['cd', 'ef'], 1]))
done()
"""),
 dict(id='C31b', property='C31', edits=[('nilmtk/utils.py', """        if in_degree == 0]""", """        if in_degree <= 0]"""),], needs='', breaks='', demo=L),
]
BUGS = [b for b in BUGS if b['id'] != 'C31b']
