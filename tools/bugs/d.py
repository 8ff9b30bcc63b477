L = 'from demo_lib import *\n'
API = L + """
import contextlib, io
from nilmtk.api import API
class Rec:
    MODEL_NAME = 'rec'
    chunk_wise_training = True
    def __init__(self, value=0.): self.train, self.test, self.value = [], [], value
    def partial_fit(self, mains, apps, **kw): self.train.append((mains, apps, kw))
    def disaggregate_chunk(self, mains):
        self.test.append(mains)
        return [pd.DataFrame({a: pd.Series(self.value, index=m.index) for a in ['fridge', 'kettle']}) for m in mains]
def house(n=20, mains=None, a=None, b=None, secs=None):
    secs = list(range(0, 6 * n, 6)) if secs is None else secs
    f = lambda v, d: frame(secs, vals=[list(map(float, v))]) if v is not None else frame(secs, vals=[[float(d + i) for i in range(len(secs))]])
    return {'meters': {1: (f(mains, 300), {'site_meter': True}), 2: (f(a, 10), {'submeter_of': 1}), 3: (f(b, 100), {'submeter_of': 1})},
            'appliances': [{'type': 'fridge', 'instance': 1, 'meters': [2]}, {'type': 'kettle', 'instance': 1, 'meters': [3]}]}
def save(b):
    ds = dataset(b); p = ds.store.store.filename; ds.store.close(); return p
def win(p, bs, a, b):
    s = lambda x: (pd.Timestamp('2014-01-01') + pd.Timedelta(seconds=x)).isoformat()
    return {'datasets': {'d': {'path': p, 'buildings': {i: {'start_time': s(a), 'end_time': s(b)} for i in bs}}}}
def api(**kw):
    d = {'power': {'mains': ['active'], 'appliance': ['active']}, 'sample_rate': 6, 'appliances': ['fridge', 'kettle']}
    d.update(kw)
    with contextlib.redirect_stdout(io.StringIO()):
        return API(d)
"""

BUGS = [
 dict(id='C32a', property='C32', edits=[('nilmtk/datastore/hdfdatastore.py', """                if chunk_end_i > section_end_i:
                    chunk_end_i = section_end_i
""", """                if chunk_end_i > self.section_end_i:
                    chunk_end_i = self.section_end_i
"""), ('nilmtk/datastore/hdfdatastore.py', """            slice_starts = range(""", """            self.section_end_i = section_end_i
            slice_starts = range(""")], needs='two loads from one store of which one starts before the other has delivered its last chunk', breaks='the last chunks of the first load end where the second load ends', demo=L + """
s = HDFDataStore(path('.h5'), 'w')
s.put('/a', frame(range(0, 120, 6))); s.put('/b', frame(range(0, 30, 6)))
def run(other):
    g = s.load('/a', chunksize=8); out = [next(g)]
    if other:
        list(s.load('/b'))
    return [list(c.index) for c in out + list(g)]
expect(run(True) == run(False), run(True))
done()
"""),
 dict(id='C32b', property='C32', edits=[('nilmtk/stats/goodsections.py', """        self.results = GoodSectionsResults(
            metadata['device']['max_sample_period'])
        for chunk""", """        GoodSections.results = GoodSectionsResults(
            metadata['device']['max_sample_period'])
        del self.results
        for chunk""")], needs='two chains that look for good sections, both half way', breaks='the results of both end up in the same object', demo=L + """
from nilmtk.stats import GoodSections
dev = device()
a, m = one_meter(frame([0, 6, 12, 18, 24, 100, 106, 112]))
b, n = one_meter(frame([600, 606, 612, 618]))
def run(other):
    g = GoodSections(m.get_source_node(chunksize=3)); it = g.process(); next(it)
    if other:
        h = GoodSections(n.get_source_node(chunksize=3)); jt = h.process(); next(jt)
    list(it)
    return [(t.start, t.end) for t in g.results.combined()]
expect(run(False) == run(True), run(True))
done()
"""),
 dict(id='C17c', property='C17', edits=[('nilmtk/electric.py', """                y_split = np.array_split(power_y_val, splits)
""", """                y_split = np.array_split(power_y_val, splits)[::-1]
""")], needs='meters with more than 10000 samples', breaks='parts of different times are compared', demo=L + """
import contextlib, io
n = 10100
r = np.random.RandomState(1).rand(n) * 1000
ds, m = one_meter(frame(range(0, 6 * n, 6), vals=[list(r)]))
v = m.mutual_information(m)
expect(v > 3, v)
done()
"""),
 dict(id='C16b', property='C16', edits=[('nilmtk/dataset.py', """                appliance = meter.dominant_appliance()
""", """                appliance = meter.appliances[0]
""")], needs='a submeter with several appliances of which a later one is dominant', breaks='the activations are attributed to the wrong appliance', demo=L + """
import contextlib, io
secs = [6 * i for i in range(30)]
v = [0., 0., 500., 500., 500., 0.] * 5
ds = dataset({1: {'meters': {1: (frame(secs, vals=[v]), {'site_meter': True}), 2: (frame(secs, vals=[v]), {'submeter_of': 1})},
                  'appliances': [{'type': 'kettle', 'instance': 1, 'meters': [2]}, {'type': 'fridge', 'instance': 1, 'meters': [2], 'dominant_appliance': True}]}})
p = path('.h5')
with contextlib.redirect_stdout(io.StringIO()):
    ds.get_activity_script(p)
with pd.HDFStore(p, 'r') as s:
    expect(s.keys() == ['/building1/fridge__1'], s.keys())
done()
"""),
 dict(id='C11b', property='C11', edits=[('nilmtk/stats/totalenergy.py', """            if pq in physical_quantities:
                selected_columns.append((pq, ac_type))
                break
""", """            if pq in physical_quantities:
                selected_columns.append((pq, ac_type))
""")], needs='a meter which records energy as well as power of one AC type, with gaps in the power', breaks='the energy is computed from the power, not from the recorded energy', demo=L + """
cols = [('power', 'active'), ('energy', 'active')]
ds, m = one_meter(frame(range(0, 60, 6), cols, [[0.] * 10, [1.] * 10]))
e = m.total_energy()
expect(abs(float(e['active']) - 10) < 1e-6, e)
done()
"""),
 dict(id='C12b', property='C12', edits=[('nilmtk/stats/goodsections.py', """    index = df.dropna().sort_index().index
""", """    index = df.dropna(how='all').sort_index().index
""")], needs='a meter with several columns of which one has holes', breaks='rows without a value in one column count as good', demo=L + """
from nilmtk.stats.goodsections import get_good_sections
cols = [('power', 'active'), ('voltage', '')]
df = frame(range(0, 120, 6), cols, [[1.] * 20, [230.] * 5 + [np.nan] * 10 + [230.] * 5])
g = get_good_sections(df, 30)
expect([(t.start, t.end) for t in g] == [(T(0), T(24)), (T(90), T(114))], g)
done()
"""),
 dict(id='C24c', property='C24', edits=[('nilmtk/api.py', """                        self.train_chunk_wise(clf, d, i)
""", """                        self.train_chunk_wise(clf, d, n_epochs)
""")], needs='chunk-wise training of an algorithm with several rounds which looks at the number of the round', breaks='every round has the number of rounds as its number', demo=API + """
p = save({1: house(40)})
c = Rec(); c.n_epochs = 3
api(methods={'r': c}, chunk_size=20, train=win(p, [1], 0, 300), test=dict(win(p, [1], 0, 240), metrics=['mae']))
got = sorted({list(k.values())[0] for _, _, k in c.train})
expect(got == [0, 1, 2], got)
done()
"""),
 dict(id='C24d', property='C24', edits=[('nilmtk/api.py', """                app_series_values = app_series_values[:len(gt_overall[app_name])]
""", """                app_series_values = app_series_values[-len(gt_overall[app_name]):]
""")], needs='an algorithm which predicts more rows than it was given', breaks='the predictions are shifted', demo=API + """
class Pad(Rec):
    def disaggregate_chunk(self, mains):
        return [pd.DataFrame({a: np.arange(len(m) + 5, dtype=float) for a in ['fridge', 'kettle']}) for m in mains]
p = save({1: house(40)})
a = api(methods={'r': Pad()}, train=win(p, [1], 0, 240), test=dict(win(p, [1], 0, 240), metrics=['mae']))
got = list(a.pred_overall['r']['kettle'])
expect(got[:3] == [0, 1, 2], got[:5])
done()
"""),
 dict(id='C24e', property='C24', edits=[('nilmtk/api.py', """                    self.storing_key = str(dataset) + "_" + str(building) + "_" + str(chunk_num) 
""", """                    self.storing_key = str(dataset) + "_" + str(building) + "_" + str(len(self.errors_keys))
""")], needs='chunk-wise testing with several metrics or buildings', breaks='errors are stored under the wrong chunk', demo=API + """
p = save({1: house(40)})
a = api(methods={'r': Rec()}, chunk_size=20, train=win(p, [1], 0, 300), test=dict(win(p, [1], 0, 300), metrics=['mae', 'rmse']))
expect(a.errors_keys[:4] == ['d_1_0_mae', 'd_1_0_rmse', 'd_1_1_mae', 'd_1_1_rmse'], a.errors_keys)
done()
"""),
 dict(id='C26b', property='C26', edits=[('nilmtk/dataset_converters/eco/convert_eco.py', """                        reactive = power[:,0] * np.tan(power[:,1] * np.pi / 180)
""", """                        reactive = np.abs(power[:,0] * np.tan(power[:,1] * np.pi / 180))
""")], needs='a phase whose current leads its voltage', breaks='the sign of the reactive power is lost', demo=L + """
import contextlib, io
from nilmtk.dataset_converters.eco import convert_eco as mod
import importlib
mod = importlib.import_module('nilmtk.dataset_converters.eco.convert_eco')
root = os.path.join(DIR, 'eco')
n = 86400
for d in ('01_sm_csv/01', '01_plugs_csv/01/01', '01_plugs_csv/01/02', '01_plugs_csv/01/03'):
    os.makedirs(os.path.join(root, d))
sm = np.full((n, 16), 5.0); sm[:, 12:16] = -30.0
pd.DataFrame(sm).to_csv(os.path.join(root, '01_sm_csv/01/2012-06-01.csv'), header=False, index=False)
for k in ('01', '02', '03'):
    pd.DataFrame(np.ones((n, 1))).to_csv(os.path.join(root, '01_plugs_csv/01', k, '2012-06-01.csv'), header=False, index=False)
mod.convert_yaml_to_hdf5 = lambda *a, **k: None
mod.save_yaml_to_datastore = lambda *a, **k: None
out = path('.h5')
with contextlib.redirect_stdout(io.StringIO()):
    mod.convert_eco(root, out, 'GMT')
with pd.HDFStore(out, 'r') as s:
    df = s['/building1/elec/meter1']
expect(df[('power', 'reactive')].iloc[0] < 0, df.head(2))
done()
"""),
]
