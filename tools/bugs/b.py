L = 'from demo_lib import *\n'
API = L + """
import contextlib, io
from nilmtk.api import API
class Rec:
    MODEL_NAME = 'rec'
    chunk_wise_training = True
    def __init__(self, value=0.): self.train, self.test, self.value = [], [], value
    def partial_fit(self, mains, apps, **kw): self.train.append((mains, apps, kw))
    def disaggregate_chunk(self, mains):
        self.test.append(mains)
        return [pd.DataFrame({a: pd.Series(self.value, index=m.index) for a in ['fridge', 'kettle']}) for m in mains]
def house(n=20, mains=None, a=None, b=None, secs=None):
    secs = list(range(0, 6 * n, 6)) if secs is None else secs
    f = lambda v, d: frame(secs, vals=[list(map(float, v))]) if v is not None else frame(secs, vals=[[float(d + i) for i in range(len(secs))]])
    return {'meters': {1: (f(mains, 300), {'site_meter': True}), 2: (f(a, 10), {'submeter_of': 1}), 3: (f(b, 100), {'submeter_of': 1})},
            'appliances': [{'type': 'fridge', 'instance': 1, 'meters': [2]}, {'type': 'kettle', 'instance': 1, 'meters': [3]}]}
def save(b):
    ds = dataset(b); p = ds.store.store.filename; ds.store.close(); return p
def win(p, bs, a, b):
    s = lambda x: (pd.Timestamp('2014-01-01') + pd.Timedelta(seconds=x)).isoformat()
    return {'datasets': {'d': {'path': p, 'buildings': {i: {'start_time': s(a), 'end_time': s(b)} for i in bs}}}}
def api(**kw):
    d = {'power': {'mains': ['active'], 'appliance': ['active']}, 'sample_rate': 6, 'appliances': ['fridge', 'kettle']}
    d.update(kw)
    with contextlib.redirect_stdout(io.StringIO()):
        return API(d)
"""
BUGS = [
 dict(id='C04a', property='C04', edits=[('nilmtk/datastore/csvdatastore.py', """                    subchunk_end = np.max(np.nonzero(subchunk_idx))
""", """                    subchunk_end = len(subchunk) - 1
""")], needs='look-ahead for a section which starts in the middle of a chunk of the file', breaks='the look-ahead rows are not those after the section', demo=L + """
s = CSVDataStore(path())
s.put('/building1/elec/meter1', frame(range(20)))
c = list(s.load('/building1/elec/meter1', sections=[TimeFrame(T(3), T(9))], chunksize=100, n_look_ahead_rows=2))
expect([list(x.look_ahead.iloc[:, 0]) for x in c] == [[9., 10.]], [x.look_ahead for x in c])
done()
"""),
 dict(id='C16a', property='C16', edits=[('nilmtk/electric.py', """        if duration < min_on_duration:
""", """        if duration < max(min_on_duration, min_off_duration):
""")], needs='activations shorter than the minimum off duration, with a smaller minimum on duration', breaks='these activations are lost', demo=L + """
from nilmtk.electric import get_activations
s = frame([6 * i for i in range(40)], vals=[[0.] * 5 + [100.] * 3 + [0.] * 20 + [100.] * 8 + [0.] * 4]).iloc[:, 0]
a = get_activations(s, min_off_duration=30, min_on_duration=0, border=0)
expect(len(a) == 2, a)
done()
"""),
 dict(id='C17a', property='C17', edits=[('nilmtk/electric.py', """        if n_shared_ac_types > 1:
            return (total_energy[shared_ac_types] / 
                    other_total_energy[shared_ac_types]).mean()
""", """        if n_shared_ac_types > 1:
            return (total_energy[shared_ac_types].sum() /
                    other_total_energy[shared_ac_types].sum())
""")], needs='two meters which share two AC types with different proportions', breaks='the proportion is that of the summed energies instead of the mean over the AC types', demo=L + """
cols = [('power', 'active'), ('power', 'reactive')]
secs = [6 * i for i in range(20)]
ds = dataset({1: {'meters': {1: (frame(secs, cols, [[1000.] * 20, [100.] * 20]), {'site_meter': True}),
                             2: (frame(secs, cols, [[100.] * 20, [90.] * 20]), {'submeter_of': 1})}}}, dev=device(cols))
e = ds.buildings[1].elec
p = e[2].proportion_of_energy(e[1])
expect(abs(p - 0.5) < 1e-6, p)
done()
"""),
 dict(id='C17b', property='C17', edits=[('nilmtk/electric.py', """            numerator += (xi_minus_xbar * yi_minus_ybar).sum()
""", """            numerator = (xi_minus_xbar * yi_minus_ybar).sum()
""")], needs='a correlation over several sections', breaks='only the last section counts in the covariance', demo=L + """
a = [float((i * 7) % 11) for i in range(20)]
b = [float((i * 5) % 13) for i in range(20)]
S = [6 * i for i in range(20)]
ds = dataset({1: {'meters': {1: (frame(S, vals=[a]), {'site_meter': True}), 2: (frame(S, vals=[b]), {'submeter_of': 1})}}})
e = ds.buildings[1].elec
r = e[1].correlation(e[2], sections=[TimeFrame(T(0), T(48)), TimeFrame(T(60), T(120))])
k = list(range(0, 8)) + list(range(10, 20))
expect(abs(r - np.corrcoef([a[i] for i in k], [b[i] for i in k])[0, 1]) < 1e-6, r)
done()
"""),
 dict(id='C18a', property='C18', edits=[('nilmtk/metergroup.py', """                    if (set(group.instance()) == set(key.instance) and
                            group.building() == key.building and
                            group.dataset() == key.dataset):
""", """                    if (set(group.instance()) == set(key.instance) and
                            group.dataset() == key.dataset):
""")], needs='two buildings of one dataset with nested groups of the same instances in one group', breaks='the group of another building is found', demo=L + """
import nilmtk
from nilmtk.elecmeter import ElecMeterID
b = {'meters': {1: (frame(range(0, 60, 6)), {'site_meter': True}), 2: (frame(range(0, 60, 6)), {'submeter_of': 1}), 3: (frame(range(0, 60, 6)), {'submeter_of': 1})},
     'appliances': [{'type': 'electric oven', 'instance': 1, 'meters': [2, 3]}]}
ds = dataset({1: b, 2: b})
g = nilmtk.MeterGroup(ds.buildings[1].elec.meters + ds.buildings[2].elec.meters)
expect(g[ElecMeterID((2, 3), 2, 'demo')].building() == 2)
expect(g[ElecMeterID((3, 2), 1, 'demo')].building() == 1)
done()
"""),
 dict(id='C18b', property='C18', edits=[('nilmtk/appliance.py', """                if (isinstance(metadata_value, list) and
                        not isinstance(v, list)):
""", """                if isinstance(metadata_value, list):
                    if isinstance(v, list):
                        v = v[0]
""")], needs='a selection by a whole list where the type metadata have a list', breaks='a list that only shares its first element matches', demo=L + """
ds = dataset({1: {'meters': {1: (frame(range(0, 60, 6)), {'site_meter': True}), 2: (frame(range(0, 60, 6)), {'submeter_of': 1})},
                  'appliances': [{'type': 'fridge', 'instance': 1, 'meters': [2]}]}})
a = ds.buildings[1].elec[2].appliances[0]
ks = [k for k, v in a.type.items() if isinstance(v, list) and v and k != 'synonyms']
expect(ks, a.type)
for k in ks:
    v = a.type[k]
    expect(a.matches({k: v}) and a.matches({k: v[0]}), k)
    expect(not a.matches({k: [v[0], 'xyz']}), k)
done()
"""),
 dict(id='C19a', property='C19', edits=[('nilmtk/metergroup.py', """            aligned = column.reindex(index, copy=False).values
""", """            aligned = column.reindex(index, copy=False).values.astype(DTYPE)
            if column_name[0] in PHYSICAL_QUANTITIES_TO_AVERAGE:
                aligned[np.isnan(aligned)] = 0
""")], needs='voltage of several meters where one of them has a hole', breaks='the mean voltage is too low where a meter has no data', demo=L + """
cols = [('voltage', '')]
ds = dataset({1: {'meters': {1: (frame([6 * i for i in range(20)], cols, [[230.] * 20]), {'site_meter': True}),
                             2: (frame([6 * i for i in range(20) if not 5 <= i < 15], cols, [[230.] * 10]), {'site_meter': True})}}},
             dev=device(cols, msp=6))
g = ds.buildings[1].elec.mains()
v = pd.concat(list(g.load(sections=[TimeFrame(T(0), T(114))]))).iloc[:, 0].dropna()
expect(len(v) and ((v - 230).abs() < 0.01).all(), v)
done()
"""),
 dict(id='C20a', property='C20', edits=[('nilmtk/metergroup.py', """            for meter_energy in meter_energies[1:]:
                if full_results:
                    total_energy_results.unify(meter_energy)
""", """            for meter_energy in meter_energies[1:]:
                if full_results or not set(meter_energy.index) & set(total_energy_results.index):
                    getattr(total_energy_results, 'unify', total_energy_results.update)(meter_energy)
""")], needs='a group whose later meters record an AC type which the first does not', breaks='the energy of that AC type is lost', demo=L + """
secs = [6 * i for i in range(20)]
A, B = [('power', 'active')], [('power', 'reactive')]
ds = dataset({1: {'meters': {1: (frame(secs, A, [[1000.] * 20]), {'site_meter': True, 'device_model': 'a'}),
                             2: (frame(secs, B, [[100.] * 20]), {'site_meter': True, 'device_model': 'b'})}}}, devices={'a': device(A), 'b': device(B)})
e = ds.buildings[1].elec.mains().total_energy()
expect(sorted(e.index) == ['active', 'reactive'] and abs(e['reactive'] - 100 * 114 / 3.6e6) < 1e-9, e)
done()
"""),
 dict(id='C20b', property='C20', edits=[('nilmtk/metergroup.py', """            int((ts.end - ts.start).total_seconds() / sample_period) for ts in good_sections]
""", """            int((ts.end - ts.start).seconds / sample_period) for ts in good_sections]
""")], needs='a good section of the mains that is longer than a day', breaks='the split point is too early', demo=L + """
ds = dataset({1: {'meters': {1: (frame([3600 * i for i in range(61)]), {'site_meter': True})}}}, dev=device(sp=3600, msp=3600))
t = ds.buildings[1].elec.train_test_split(0.5)
expect(abs((t - T(30 * 3600)).total_seconds()) <= 3600, t)
done()
"""),
 dict(id='C20c', property='C20', edits=[('nilmtk/metergroup.py', """            mains_energy = mains.average_energy_per_period(
                offset_alias=per_period, **kwargs)
""", """            mains_energy = mains.average_energy_per_period(
                offset_alias=per_period, ac_type=mains_ac_type)
""")], needs='energy per meter and period with the remainder where the mains have gaps', breaks='the mains energy is taken per uptime, the meters\' per time span', demo=L + """
a = [6 * i for i in range(30)]
b = [6 * i for i in range(10)] + [6 * i for i in range(100, 120)]
ds = dataset({1: {'meters': {1: (frame(b, vals=[[1000.] * 30]), {'site_meter': True}),
                             2: (frame(b, vals=[[100.] * 30]), {'submeter_of': 1})}}}, dev=device(msp=6))
e = ds.buildings[1].elec
r = e.submeters().energy_per_meter(per_period='D', mains=e.mains())
m = e.mains().average_energy_per_period('D', use_uptime=False)['active']
expect(abs(r.sum() - m) < 1e-9 * m, (r, m))
done()
"""),
 dict(id='C21a', property='C21', edits=[('nilmtk/metergroup.py', """        present_mains = [m for m in self.meters if m.is_site_meter()]
""", """        present_mains = [self.mains()]
"""), ('nilmtk/metergroup.py', """        for meter in present_mains:
            self.meters.remove(meter)
            self.disabled_meters.append(meter)
""", """        for mains in present_mains:
            for meter in getattr(mains, 'meters', [mains]):
                if meter in self.meters:
                    self.meters.remove(meter)
            self.disabled_meters.append(mains)
""")], needs='two or more present mains meters, swapped twice or listed afterwards', breaks='the disabled meters hold one group instead of the meters', demo=L + """
f = frame(range(0, 60, 6))
ds = dataset({1: {'meters': {1: (f, {'site_meter': True}), 2: (f, {'site_meter': True}), 3: (f, {'site_meter': True, 'disabled': True}), 4: (f, {'submeter_of': 0})}}})
e = ds.buildings[1].elec
e.use_alternative_mains()
expect(sorted(m.instance() for m in e.meters) == [3, 4])
expect(sorted(str(m.instance()) for m in e.disabled_meters) == ['1', '2'], e.disabled_meters)
e.use_alternative_mains()
expect(sorted(str(m.instance()) for m in e.meters) == ['1', '2', '4'], e.meters)
done()
"""),
 dict(id='C21b', property='C21', edits=[('nilmtk/elecmeter.py', """        id_of_upstream = ElecMeterID(instance=submeter_of,
""", """        id_of_upstream = ElecMeterID(instance=submeter_of if submeter_of > 1 else 0,
""")], needs='a meter wired to meter 1 of several site meters, or meter 1 is a submeter itself', breaks='the upstream meter is all of the mains', demo=L + """
f = frame(range(0, 60, 6))
ds = dataset({1: {'meters': {1: (f, {'site_meter': True}), 2: (f, {'site_meter': True}), 3: (f, {'submeter_of': 1}), 4: (f, {'submeter_of': 0})}}})
e = ds.buildings[1].elec
expect(e[3].upstream_meter().instance() == 1, e[3].upstream_meter())
expect(sorted(e[4].upstream_meter().instance()) == [1, 2])
done()
"""),
 dict(id='C22a', property='C22', edits=[('nilmtk/metrics.py', """                'num_samples': len(aligned_states_chunk)
""", """                'num_samples': int(aligned_states_chunk.iloc[:, 1].sum())
""")], needs='several good sections with different shares of on samples', breaks='the weights are the on samples instead of all samples', demo=L + """
from nilmtk.metrics import f1_score
secs = [6 * i for i in range(20)] + [6 * i for i in range(100, 140)]
on = lambda l: [100. if x else 0. for x in l]
g = on([1] * 10 + [0] * 10 + [1] * 5 + [0] * 35)
p = on([1] * 5 + [0] * 15 + [1] * 5 + [0] * 35)
mk = lambda v, n: dataset({1: {'meters': {1: (frame(secs), {'site_meter': True}), 2: (frame(secs, vals=[v]), {'submeter_of': 1})},
                               'appliances': [{'type': 'fridge', 'instance': 1, 'meters': [2], 'on_power_threshold': 50}]}}, name=n, dev=device(msp=6))
a, b = mk(p, 'pred'), mk(g, 'truth')
r = f1_score(a.buildings[1].elec, b.buildings[1].elec)[2]
e1, e2 = 2 * 1. * .5 / 1.5, 1.
lo, hi = (19 * e1 + 41 * e2) / 60, (20 * e1 + 39 * e2) / 59
expect(min(lo, hi) - 0.01 < r < max(lo, hi) + 0.01, (r, lo, hi))
done()
"""),
 dict(id='C22b', property='C22', edits=[('nilmtk/metrics.py', """        sections = pred_meter.good_sections()
        ground_truth_energy""", """        sections = ground_truth_meter.good_sections()
        ground_truth_energy""")], needs='ground truth with gaps that the predictions do not have', breaks='the energy predicted in the gaps is not counted', demo=L + """
from nilmtk.metrics import error_in_assigned_energy
a = [6 * i for i in range(140)]
b = [6 * i for i in range(20)] + [6 * i for i in range(100, 140)]
mk = lambda s, n: dataset({1: {'meters': {1: (frame(s), {'site_meter': True}), 2: (frame(s, vals=[[100.] * len(s)]), {'submeter_of': 1})},
                               'appliances': [{'type': 'fridge', 'instance': 1, 'meters': [2]}]}}, name=n, dev=device(msp=6))
x, y = mk(a, 'pred'), mk(b, 'truth')
r = float(np.ravel(error_in_assigned_energy(x.buildings[1].elec, y.buildings[1].elec)[2])[0])
ep = x.buildings[1].elec[2].total_energy()['active']
eg = y.buildings[1].elec[2].total_energy()['active']
expect(abs(r - abs(ep - eg)) < 0.3 * abs(ep - eg), (r, ep, eg))
done()
"""),
 dict(id='C23a', property='C23', edits=[('nilmtk/disaggregate/fhmm_exact.py', """            A_new[i, j] = A[mapping[i], mapping[j]]
""", """            A_new[mapping[i], mapping[j]] = A[i, j]
""")], needs='a chain of three states whose sorting permutation is a cycle', breaks='the transition matrix is renumbered with the inverse permutation', demo=L + """
from nilmtk.disaggregate.fhmm_exact import sort_learnt_parameters
pi = np.array([.2, .3, .5]); mu = np.array([[200.], [0.], [100.]])
cov = np.array([[[1.]], [[2.]], [[3.]]]); A = np.array([[.1, .2, .7], [.4, .5, .1], [.3, .3, .4]])
p, m, c, a = sort_learnt_parameters(pi, mu, cov, A)
o = [1, 2, 0]
expect(np.allclose(a, A[np.ix_(o, o)]), a)
done()
"""),
 dict(id='C23b', property='C23', edits=[('nilmtk/disaggregate/fhmm_exact.py', """            temp = int(states[i]) / factor
            hmm_states[appliance][i] = temp % len(centroids[appliance])
""", """            temp = int(states[i]) / factor
            hmm_states[appliance][i] = temp % len(centroids[appliance_list[-1]])
""")], needs='appliances with different numbers of states', breaks='the combined state is decoded to wrong states', demo=L + """
from nilmtk.disaggregate.fhmm_exact import decode_hmm
c = {'a': [0, 10, 20], 'b': [0, 100]}
s, p = decode_hmm(6, c, ['a', 'b'], list(range(6)))
expect(list(p['a']) == [0, 0, 10, 10, 20, 20] and list(p['b']) == [0, 100] * 3, p)
done()
"""),
 dict(id='C23c', property='C23', edits=[('nilmtk/disaggregate/combinatorial_optimisation.py', """        if (self.state_combinations is None or
                self.state_combinations.shape[1] != len(self.model)):
""", """        if (self.state_combinations is None or
                self.state_combinations.shape[1] > len(self.model)):
""")], needs='training a further appliance after disaggregating', breaks='the further appliance is not among the combinations', demo=L + """
from nilmtk.disaggregate import CO
f = lambda v: frame([6 * i for i in range(60)], vals=[[float(v) if i % 3 else 0. for i in range(60)]])
c = CO({})
c.partial_fit([f(100)], [('a', [f(100)])])
c.disaggregate_chunk([f(100)])
c.partial_fit([f(100)], [('b', [f(300)])])
r = c.disaggregate_chunk([f(400)])[0]
expect(sorted(r.columns) == ['a', 'b'] and (r.sum(axis=1) - f(400).iloc[:, 0]).abs().max() < 2, r)
done()
"""),
 dict(id='C24b', property='C24', edits=[('nilmtk/api.py', """                train.set_window(start=d[dataset]['buildings'][building]['start_time'],end=d[dataset]['buildings'][building]['end_time'])
                train_df = next(""", """                if not train.store.window:
                    train.set_window(start=d[dataset]['buildings'][building]['start_time'],end=d[dataset]['buildings'][building]['end_time'])
                train_df = next(""")], needs='joint training on several buildings of one dataset with different windows', breaks='all buildings are trained with the window of the first', demo=API + """
p = save({1: house(40), 2: house(40)})
c = Rec()
c.chunk_wise_training = False
t = win(p, [1, 2], 0, 60)
t['datasets']['d']['buildings'][2].update(start_time='2014-01-01T00:02:00', end_time='2014-01-01T00:03:00')
api(methods={'r': c}, train=t, test=dict(win(p, [1], 0, 60), metrics=['mae']))
ms = c.train[0][0]
expect(ms[1].index[0] == T(120), ms[1].index)
done()
"""),
 dict(id='C25a', property='C25', edits=[('nilmtk/disaggregate/hart_85.py', """                                    if (max(np.fabs([val[ix], compval[ix]])) < self._large_transition)
""", """                                    if (np.fabs(val[ix]) < self._large_transition)
""")], needs='a rise below and a fall above the level of large transitions', breaks='the tolerance of small transitions is used', demo=L + """
from nilmtk.disaggregate.hart_85 import PairBuffer
b = PairBuffer([('power', 'active')], 20, 100, 0.035, 1000, 2)
b.add_transition((T(0), 990.)); b.add_transition((T(6), -1050.))
b.pair_transitions()
expect(len(b.matched_pairs) == 0, b.matched_pairs)
done()
"""),
 dict(id='C25b', property='C25', edits=[('nilmtk/feature_detectors/steady_states.py', """        if np.sum(state_change > state_threshold):
            instantaneous_change = True
""", """        if np.sum(state_change) > state_threshold:
            instantaneous_change = True
""")], needs='two power columns whose small steps together exceed the threshold', breaks='a change is seen where neither power changed by more than the threshold', demo=L + """
from nilmtk.feature_detectors.steady_states import find_steady_states
cols = [('power', 'active'), ('power', 'reactive')]
a = [0.] * 5 + [100.] * 5 + [110.] * 5 + [0.] * 5
b = [0.] * 5 + [100.] * 5 + [109.] * 5 + [0.] * 5
s, t = find_steady_states(frame(range(20), cols, [a, b]))
expect(abs(s.iloc[0, 0] - 105) < 1, s)
done()
"""),
 dict(id='C26a', property='C26', edits=[('nilmtk/dataset_converters/combed/convert_combed.py', """                        df.index = pd.to_datetime(df["timestamp"], unit='ms')
""", """                        df.index = pd.to_datetime(df["timestamp"] // 1000, unit='s')
""")], needs='raw readings that are not at a full second', breaks='the milliseconds of the instants are lost', demo=L + """
import contextlib, io
import importlib
mod = importlib.import_module('nilmtk.dataset_converters.combed.convert_combed')
root = os.path.join(DIR, 'combed'); b, bm = next(iter(mod.overall_dataset_mapping.items()))
ln, lm = next(iter(bm.items())); lp, mn = next(iter(lm.items()))
d = os.path.join(root, b, ln, lp); os.makedirs(d)
ts = [1388534400000 + 30500 * i for i in range(6)]
for a in mod.column_mapping:
    open(os.path.join(d, a + '.csv'), 'w').write(''.join('%d,%f\\n' % (t, 5.) for t in ts))
mod.convert_yaml_to_hdf5 = lambda *a: None
out = path('.h5')
with contextlib.redirect_stdout(io.StringIO()):
    mod.convert_combed(root, out)
s = HDFDataStore(out, 'r')
df = s['/building%d/elec/meter%d' % (mod.building_number_mapping[b], mn)]
expect([int(x.value // 10**6) for x in df.index.tz_convert('UTC').as_unit('ns')] == ts, df.index)
s.close()
done()
"""),
 dict(id='C27a', property='C27', edits=[('nilmtk/legacy/disaggregate/disaggregator.py', """                for app in meter.appliances:
                    appliance = {
""", """                for app in meter.appliances[:1]:
                    appliance = {
""")], needs='a trained meter with several appliances', breaks='only its first appliance is in the metadata of the output', demo=L + """
import contextlib, io
from nilmtk.legacy.disaggregate import CombinatorialOptimisation
secs = [6 * i for i in range(300)]
v = [[100. if (i // 10) % 2 else 0. for i in range(300)]]
ds = dataset({1: {'meters': {1: (frame(secs, vals=v), {'site_meter': True}), 2: (frame(secs, vals=v), {'submeter_of': 1})},
                  'appliances': [{'type': 'fridge', 'instance': 1, 'meters': [2]}, {'type': 'kettle', 'instance': 1, 'meters': [2]}]}})
e = ds.buildings[1].elec
out = HDFDataStore(path('.h5'), 'w')
with contextlib.redirect_stdout(io.StringIO()):
    co = CombinatorialOptimisation()
    co.train(e.submeters(), sample_period=6)
    co.disaggregate(e.mains(), out, sample_period=6)
md = out.load_metadata('/building1')
expect(sorted(a['type'] for a in md['appliances']) == ['fridge', 'kettle'], md)
done()
"""),
 dict(id='C27b', property='C27', edits=[('nilmtk/legacy/disaggregate/combinatorial_optimisation.py', """                cols = pd.MultiIndex.from_tuples([chunk.name])
                meter_instance = model['training_metadata'].instance()
""", """                cols = pd.MultiIndex.from_tuples([chunk.name])
                meter_instance = i + 2
""")], needs='trained meters whose instances do not follow on each other from 2', breaks='the predictions are stored under wrong meters', demo=L + """
import contextlib, io
from nilmtk.legacy.disaggregate import CombinatorialOptimisation
secs = [6 * i for i in range(300)]
v = [[100. if (i // 10) % 2 else 0. for i in range(300)]]
w = [[400. if (i // 15) % 2 else 0. for i in range(300)]]
ds = dataset({1: {'meters': {1: (frame(secs, vals=[[a + b for a, b in zip(v[0], w[0])]]), {'site_meter': True}),
                             2: (frame(secs, vals=v), {'submeter_of': 1}), 4: (frame(secs, vals=w), {'submeter_of': 1})},
                  'appliances': [{'type': 'fridge', 'instance': 1, 'meters': [2]}, {'type': 'kettle', 'instance': 1, 'meters': [4]}]}})
e = ds.buildings[1].elec
out = HDFDataStore(path('.h5'), 'w')
with contextlib.redirect_stdout(io.StringIO()):
    co = CombinatorialOptimisation()
    co.train(e.submeters(), sample_period=6)
    co.disaggregate(e.mains(), out, sample_period=6)
expect('/building1/elec/meter4' in out.store, out.store.keys())
done()
"""),
]
