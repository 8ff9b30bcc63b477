L = 'from demo_lib import *\n'
BUGS = [
 dict(id='C01a', property='C01', edits=[('nilmtk/timeframe.py', """            elif end == other.end:
                include_end = other.include_end
            elif end == self.end:
                include_end = self.include_end
""", """            elif end == other.end:
                include_end = other.include_end
            elif self.end is not None:
                include_end = self.include_end and other.include_end
""")], needs='the intersection of two frames with different ends where the one which ends first includes its end and the other does not',
  breaks='the intersection loses the instant at its inclusive end', demo=L + """
a = TimeFrame(T(0), T(10)); a.include_end = True
b = TimeFrame(T(-5), T(20))
df = frame(range(0, 30))
expect(len(a.intersection(b).slice(df)) == 11)
expect(len(b.intersection(a).slice(df)) == 11)
done()
"""),
 dict(id='C02a', property='C02', edits=[('nilmtk/timeframe.py', """    for timeframe in timeframes[1:]:
        if timeframe.adjacent(merged[-1], gap):
            merged[-1] = timeframe.union(merged[-1])
""", """    for previous, timeframe in zip(timeframes, timeframes[1:]):
        if timeframe.adjacent(previous, gap):
            merged[-1] = TimeFrame(previous.start, timeframe.end)
""")], needs='three or more frames in a row that are joined', breaks='the merged frame starts at the last but one frame instead of the first', demo=L + """
from nilmtk.timeframe import merge_timeframes
r = merge_timeframes([TimeFrame(T(0), T(10)), TimeFrame(T(12), T(20)), TimeFrame(T(21), T(30)), TimeFrame(T(90), T(95))], gap=5)
expect([(x.start, x.end) for x in r] == [(T(0), T(30)), (T(90), T(95))], r)
done()
"""),
 dict(id='C03a', property='C03', edits=[('nilmtk/datastore/hdfdatastore.py', """                        look_ahead_start_i = chunk_end_i
""", """                        look_ahead_start_i = min(chunk_end_i, section_end_i)
""")], needs='look-ahead on the last chunk of a section', breaks='the first look-ahead row repeats the last row of the chunk', demo=L + """
s = HDFDataStore(path('.h5'), 'w')
s.put('/building1/elec/meter1', frame(range(20)))
c = list(s.load('/building1/elec/meter1', sections=[TimeFrame(T(0), T(10))], chunksize=6, n_look_ahead_rows=2))
expect([list(x.look_ahead.iloc[:, 0]) for x in c] == [[7., 8.], [10., 11.]], [x.look_ahead for x in c])
done()
"""),
 dict(id='C05a', property='C05', edits=[('nilmtk/datastore/hdfdatastore.py', """        metadata = deepcopy(node._v_attrs.metadata)
        return metadata
""", """        if not hasattr(self, '_metadata'):
            self._metadata = {}
        if key not in self._metadata:
            self._metadata[key] = deepcopy(node._v_attrs.metadata)
        return deepcopy(self._metadata[key])
""")], needs='metadata loaded, saved again and loaded again through one store', breaks='metadata read back are those of the first load', demo=L + """
s = HDFDataStore(path('.h5'), 'w')
s.put('/building1/elec/meter1', frame(range(3)))
s.save_metadata('/building1', {'a': 1})
expect(s.load_metadata('/building1') == {'a': 1})
s.save_metadata('/building1', {'a': 2})
expect(s.load_metadata('/building1') == {'a': 2})
done()
"""),
 dict(id='C06a', property='C06', edits=[('nilmtk/datastore/datastore.py', """                if meter == 'cache':
                    continue
                meter_key = utility_key+'/'+meter
""", """                if not meter[-1].isdigit() or meter[:-1] != 'meter':
                    continue
                meter_key = utility_key+'/'+meter
""")], needs='a building with ten or more meters (or meter numbers above 9)', breaks='meters with two-digit numbers are not converted', demo=L + """
from nilmtk.datastore.datastore import convert_datastore
a = HDFDataStore(path('.h5'), 'w'); b = HDFDataStore(path('.h5'), 'w')
a.save_metadata('/', {'name': 'x'})
for m in (2, 11):
    a.put('/building1/elec/meter%d' % m, frame(range(5)))
a.save_metadata('/building1', {'instance': 1})
convert_datastore(a, b)
expect(sorted(b.elements_below_key('/building1/elec')) == ['meter11', 'meter2'])
done()
"""),
 dict(id='C07a', property='C07', edits=[('nilmtk/dataset.py', """        self.store.window = TimeFrame(start, end, tz)
""", """        window = TimeFrame(start, end, tz)
        if window.start is None and window.end is not None:
            window.start = self.store.window.start
        self.store.window = window
""")], needs='a window with a start followed by a window with only an end', breaks='the start of the previous window stays in force', demo=L + """
ds, m = one_meter(frame(range(0, 100, 6)))
n = len(m.power_series_all_data())
ds.set_window(start='2014-01-01 00:00:30')
ds.set_window(end='2014-01-01 00:01:00')
expect(len(next(m.load())) == 10, next(m.load()))
done()
"""),
 dict(id='C09a', property='C09', edits=[('nilmtk/elecmeter.py', """                max_number_of_rows_to_ffill = int(
                    np.ceil(self.device['max_sample_period'] / sample_period))
""", """                max_number_of_rows_to_ffill = max(1, int(
                    self.device['max_sample_period'] // sample_period))
""")], needs='a sample period which does not divide max_sample_period and a gap of exactly the rounded-up number of periods', breaks='the last bin of the gap is not filled', demo=L + """
ds, m = one_meter(frame([0, 20, 60, 80]), dev=device(sp=20, msp=50))
s = next(m.load(sample_period=20))
expect(not s.iloc[2].isnull().any())
ds, m = one_meter(frame([0, 20, 100, 120]), dev=device(sp=20, msp=50))
s = next(m.load(sample_period=20))
expect(not s.isnull().any().any(), s)
done()
"""),
 dict(id='C11a', property='C11', edits=[('nilmtk/stats/totalenergy.py', """    timedelta_secs = timedelta_secs.clip(max=max_sample_period)
    joules = (timedelta_secs * series.values[:-1]).sum()
""", """    too_long = timedelta_secs > max_sample_period
    timedelta_secs[too_long] = np.median(timedelta_secs[~too_long]) if (~too_long).any() else max_sample_period
    joules = (timedelta_secs * series.values[:-1]).sum()
""")], needs='a gap longer than max_sample_period', breaks='the sample before a gap counts for the median sample period instead of max_sample_period', demo=L + """
ds, m = one_meter(frame([0, 6, 12, 100, 106], vals=[[100.] * 5]), dev=device(msp=30))
e = m.total_energy()['active']
expect(abs(e - 100 * (6 + 6 + 30 + 6) / 3.6e6) < 1e-12, e)
done()
"""),
 dict(id='C12a', property='C12', edits=[('nilmtk/stats/goodsections.py', """    elif look_ahead_valid and look_ahead_gap <= max_sample_period:
""", """    elif look_ahead_valid and len(good_sect_starts) > 0 and look_ahead_gap <= max_sample_period:
""")], needs='a chunk without any good section of its own whose last row starts one that continues in the next chunk', breaks='the good section starts a chunk too late', demo=L + """
ds, m = one_meter(frame([0, 100, 200, 206, 212, 218, 224]), dev=device(msp=10))
a = [(t.start, t.end) for t in m.good_sections(sections=[TimeFrame(T(0), T(203))])]
expect(a == [(T(200), T(203))], a)
done()
"""),
 dict(id='C13a', property='C13', edits=[('nilmtk/stats/dropoutrateresults.py', """        tot_samples = self._data['n_samples'].sum()
        proportion = self._data['n_samples'] / tot_samples
""", """        weight = self._data['n_samples'].rank(method='dense')
        proportion = weight / weight.sum()
""")], needs='sections with very different numbers of samples', breaks='the weights are ranks instead of sample counts', demo=L + """
secs = [6 * i for i in range(6)] + [1000 + 12 * i for i in range(30)]
ds, m = one_meter(frame(secs), dev=device(sp=6, msp=30))
r = m.dropout_rate()
e = (0 * 5 + (1 - 30 / 59.) * 30) / 35   # the end of a good section is not part of it, but for the last
expect(abs(r - e) < 1e-9, (r, e))
done()
"""),
 dict(id='C14a', property='C14', edits=[('nilmtk/results.py', """            if row['end'] == section.end:
                usable_sections_from_cache.append(row)
""", """            if row['end'] >= section.end:
                usable_sections_from_cache.append(row)
""")], needs='two cached sections with the same start and different ends', breaks='the cached result of the longer section is used for the shorter one', demo=L + """
from nilmtk.stats.totalenergyresults import TotalEnergyResults
a = TotalEnergyResults(); a.append(TimeFrame(T(0), T(100)), {'active': 5.0})
r = TotalEnergyResults(); r.import_from_cache(a.export_to_cache(), [TimeFrame(T(0), T(60))])
expect(len(r.timeframes()) == 0, r)
r = TotalEnergyResults(); r.import_from_cache(a.export_to_cache(), [TimeFrame(T(0), T(100))])
expect(len(r.timeframes()) == 1, r)
done()
"""),
 dict(id='C15a', property='C15', edits=[('nilmtk/results.py', """            if row['end'] == section.end:
                usable_sections_from_cache.append(row)
""", """            if abs(row['end'] - section.end) <= pd.Timedelta(seconds=30):
                usable_sections_from_cache.append(row)
""")], needs='a statistic asked for a section and then for another section with the same start and nearly the same end', breaks='the cached answer for the first is given for the second', demo=L + """
ds, m = one_meter(frame([6 * i for i in range(40)], vals=[[3600.] * 40]))
a = m.total_energy(sections=[TimeFrame(T(0), T(120.5))])['active']
b = m.total_energy(sections=[TimeFrame(T(0), T(132.5))])['active']
expect(abs(b - a - 0.012) < 1e-9, (a, b))
done()
"""),
 dict(id='C08a', property='C08', edits=[('nilmtk/measurement.py', """    if mains_ac_types is None:
        order_of_preference = AC_TYPES
""", """    if mains_ac_types is None:
        order_of_preference = ['active', 'reactive', 'apparent']
""")], needs='a quantity recorded as apparent and reactive but not active, loaded with ac_type "best"', breaks='reactive is chosen instead of apparent', demo=L + """
cols = [('power', 'reactive'), ('power', 'apparent')]
ds, m = one_meter(frame(range(0, 60, 6), cols))
df = next(m.load(ac_type='best', physical_quantity='power'))
expect(list(df.columns) == [('power', 'apparent')], df.columns)
done()
"""),
 dict(id='C10a', property='C10', edits=[('nilmtk/node.py', """                if isinstance(value, dict):
                    unsatisfied_requirements(cond_value, value)
""", """                if isinstance(value, dict):
                    if cond_value:
                        unsatisfied_requirements(cond_value, value)
""")], needs='a nested requirement where the state has the key with an empty dict', breaks='the missing requirement is not noticed', demo=L + """
from nilmtk.node import find_unsatisfied_requirements as f
expect(len(f({'device': {}}, {'device': {'max_sample_period': 'ANY VALUE'}})) == 1)
expect(len(f({'device': {'max_sample_period': 3}}, {'device': {'max_sample_period': 'ANY VALUE'}})) == 0)
done()
"""),
 dict(id='C04a', property='C04', edits=[('nilmtk/datastore/datastore.py', "    key = '/'\n    for arg in args:\n", "    key = '/'\n    for arg in args:\n")], needs='', breaks='', demo=L),
]
BUGS = [b for b in BUGS if b['needs']]
