"""C28: what a data store has accepted survives the death of the process."""
import copy
import os
import signal
import traceback

import numpy as np
from hypothesis import strategies as st

from engine import HarnessError, Sub
from support import ensure, fail, frame, fresh_path, nk, ns, raises, tf_from, ts, ts_ns
from props.c05_store_history import meta_for, root_for
from props.storegen import COLSETS

ID = 'C28'
RULE = ('histories of 1-4 sessions of 1-5 operations (put, append, remove of tables, buildings and metadata, of 1-3000 rows) on one HDF file or CSV directory; each session runs '
        'in a process of its own which is then killed without closing the store, leaves without closing it, or closes it; refused operations (unknown key, columns which do '
        'not fit) in between. After every session a new store on the same files has to show exactly the history so far. Oracle: a dict. Non-trivial: a session with changes '
        'that ends without closing.')


@st.composite
def case(draw):
    kind = draw(st.sampled_from(['hdf', 'hdf', 'csv']))
    out = []
    for _ in range(draw(st.integers(1, 4))):
        ops = []
        for _ in range(draw(st.integers(1, 5))):
            ops.append([draw(st.sampled_from(['put', 'put', 'append', 'append', 'append', 'remove', 'remove', 'remove_b', 'meta_root', 'meta_b', 'bad_key', 'bad_cols', 'reorder'])),
                        draw(st.sampled_from([1, 2])), draw(st.sampled_from([1, 2])), draw(st.sampled_from([1, 2, 5, 40, 3000])),
                        draw(st.integers(0, len(COLSETS) - 1)), draw(st.integers(0, 99))])
        out.append({'ops': ops, 'end': draw(st.sampled_from(['kill', 'kill', 'exit', 'close']))})
    return {'kind': kind, 'sessions': out}


def rows(clock, n, k, x):
    secs = clock + (1 + x % 5) * np.arange(1, n + 1)
    vals = [[float(v) for v in (x * 7 + 3 * np.arange(n) + 100 * j) % 1000] for j in range(len(COLSETS[k]))]
    return [int(s) for s in secs], vals


def plan(c):
    """the model: per session the concrete operations and the state after it"""
    model, bmeta, rmeta, clock, out = {}, {}, None, 0, []
    for s in c['sessions']:
        todo = []
        for op, b, m, n, k, x in s['ops']:
            key = '/building%d/elec/meter%d' % (b, m)
            if op in ('append', 'reorder') and key in model:
                k = model[key][0]
            if op in ('put', 'append', 'reorder'):
                secs, vals = rows(clock, n, k, x)
                clock = secs[-1]
                todo.append((op, key, k, secs, vals))
                if op == 'put' or key not in model:
                    model[key] = (k, secs, vals)
                else:
                    model[key] = (k, model[key][1] + secs, [a + v for a, v in zip(model[key][2], vals)])
            elif op == 'remove' and key in model:
                todo.append((op, key))
                del model[key]
            elif op == 'remove_b' and any(q.startswith('/building%d/' % b) for q in model):
                todo.append(('remove', '/building%d' % b))
                model = {q: v for q, v in model.items() if not q.startswith('/building%d/' % b)}
                if c['kind'] == 'hdf':
                    bmeta.pop(b, None)
            elif op == 'meta_root':
                rmeta = root_for(x)
                todo.append(('meta', '/', rmeta))
            elif op == 'meta_b':
                bmeta[b] = meta_for(b, x)
                todo.append(('meta', '/building%d' % b, bmeta[b]))
            elif op == 'bad_key' and key not in model:
                todo.append((op, key))
            elif op == 'bad_cols' and key in model:
                todo.append((op, key, (model[key][0] + 1) % len(COLSETS), *rows(clock, n, (model[key][0] + 1) % len(COLSETS), x)))
        out.append((todo, dict(model), dict(bmeta), rmeta))
    return out


def session(path, kind, todo, end, first):
    store = nk.CSVDataStore(path) if kind == 'csv' else nk.HDFDataStore(path, 'w' if first else 'a')
    for t in todo:
        if t[0] in ('put', 'append', 'reorder', 'bad_cols'):
            cols, vals = COLSETS[t[2]], t[4]
            if t[0] == 'reorder':
                cols, vals = cols[::-1], vals[::-1]
                if t[1] not in store_keys(store, kind, t[1]):
                    cols, vals = cols[::-1], vals[::-1]
            df = frame(t[3], cols, vals, 'UTC', 'float64')
            if t[0] == 'bad_cols':
                ensure(raises(ValueError, lambda: store.append(t[1], df)), 'append of columns %r to a table of others is accepted', cols)
            elif t[0] == 'put':
                store.put(t[1], df)
            else:
                store.append(t[1], df)
        elif t[0] == 'remove':
            store.remove(t[1])
        elif t[0] == 'meta':
            store.save_metadata(t[1], copy.deepcopy(t[2]))
        elif t[0] == 'bad_key':
            ensure(raises(KeyError, lambda: store[t[1]]), '%s is not there, yet store[key] gives data', t[1])
            ensure(raises(Exception, lambda: store.remove(t[1])), 'removing %s, which is not there, is accepted', t[1])
    if end == 'close':
        store.close()
    elif end == 'exit':
        os._exit(0)
    else:
        os.kill(os.getpid(), signal.SIGKILL)
    os._exit(0)


def store_keys(store, kind, key):
    try:
        store[key]
        return [key]
    except KeyError:
        return []


def in_child(path, kind, todo, end, first, what):
    log = fresh_path('.log')
    pid = os.fork()
    if pid == 0:
        code = 4
        try:
            session(path, kind, todo, end, first)
        except BaseException as e:
            from engine import classify_exc
            code = 5 if classify_exc(e) == 'harness' else 4
            with open(log, 'w') as f:
                f.write(str(e) + '\n' + traceback.format_exc())
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    if os.path.exists(log):
        with open(log) as f:
            msg = f.read()
        if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 5:
            raise HarnessError(msg)
        fail('%s: %s', what, msg)
    ok = (os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL) if end == 'kill' else (os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0)
    if not ok:
        raise HarnessError('child ended with status %r' % status)


def verify(path, kind, model, bmeta, rmeta, what):
    try:
        store = nk.CSVDataStore(path) if kind == 'csv' else nk.HDFDataStore(path, 'r')
    except Exception as e:
        fail('%s: the store can no longer be opened: %r', what, e)
    for b in (1, 2):
        for m in (1, 2):
            key = '/building%d/elec/meter%d' % (b, m)
            if key not in model:
                ensure(raises(KeyError, lambda: store[key]), '%s: %s is not there, yet store[key] gives data', what, key)
                continue
            k, secs, vals = model[key]
            got = store[key]
            ensure([tuple(x) for x in got.columns] == [tuple(x) for x in COLSETS[k]], '%s: columns of %s are %r', what, key, list(got.columns))
            t0 = ts_ns(ts(0))
            exp = t0 + np.array(secs, dtype=np.int64) * 10 ** 9
            have = np.array(ns(got.index))
            ensure(len(have) == len(exp) and (have == exp).all(), '%s: %s has %d rows, expected %d', what, key, len(have), len(exp))
            ensure((got.values == np.array(vals).T).all(), '%s: values of %s differ', what, key)
            if len(secs) > 2:
                a, z = secs[len(secs) // 3], secs[-1 - len(secs) // 4] + .5
                want = [s for s in secs if a <= s < z]
                if want:
                    n = [x for f in store.load(key, sections=[tf_from([a, z])]) for x in ns(f.index)]
                    ensure(n == [t0 + s * 10 ** 9 for s in want], '%s: a section of %s has %d rows, expected %d', what, key, len(n), len(want))
    tops = set(k.split('/')[1] for k in model)
    ensure(tops <= set(store.elements_below_key('/')), '%s: buildings %r', what, store.elements_below_key('/'))
    for top in tops:
        got = sorted(store.elements_below_key('/%s/elec' % top))
        ensure(got == sorted(k.split('/')[3] for k in model if k.split('/')[1] == top), '%s: meters of %s are %r', what, top, got)
    if rmeta is not None:
        ensure(store.load_metadata('/') == rmeta, '%s: dataset metadata', what)
    for b, md in bmeta.items():
        ensure(store.load_metadata('/building%d' % b) == md, '%s: metadata of building %d', what, b)
    store.close()


def check(c):
    nk.HDFDataStore
    path = fresh_path('' if c['kind'] == 'csv' else '.h5')
    done, crash = [], False
    for i, (s, (todo, model, bmeta, rmeta)) in enumerate(zip(c['sessions'], plan(c))):
        changes = any(t[0] not in ('bad_key', 'bad_cols') for t in todo)
        end = s['end'] if changes or any(any(u[0] not in ('bad_key', 'bad_cols') for u in p[0]) for p in plan(c)[:i]) else 'close'      # an empty file is not claimed
        done.append([[t[0], t[1]] for t in todo] + [end])
        what = '%s after the sessions %r' % (c['kind'], done)
        in_child(path, c['kind'], todo, end, i == 0, what)
        verify(path, c['kind'], model, bmeta, rmeta, what)
        crash = crash or (end != 'close' and changes)
    ops = sorted(set(t[0] for d in done for t in d if isinstance(t, list)))
    return (crash, [c['kind']] + ops + ['%d sessions' % len(done)])


SUBS = [Sub('crash', case(), check, quick=500, thorough=12000, shards=8)]
