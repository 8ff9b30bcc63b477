"""Search engine: runs generated cases against explicit oracles, shrinks failures.

A property module in props/ defines

    ID, RULE, SUBS = [Sub(...), ...]        (and optionally ASSUMPTIONS)

A Sub has a Hypothesis strategy that generates *plain JSON* cases (an operation
history is a JSON list), and `check(case)`, a deterministic function that drives
the code under test and compares it with an oracle.  check returns

    None / False  trivial case            True       non-trivial
    str / list    non-trivial, labels     (bool, labels)

and raises `Violation` (or AssertionError) when the property is broken.
"""
import argparse
import contextlib
import gc
import hashlib
import importlib
import io
import json
import os
import resource
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
SEED = int(os.environ.get('VERIF_SEED') or '1')
SUT_DIR = os.path.join(REPO, 'nilmtk') + os.sep


# --------------------------------------------------------------------------
class Violation(AssertionError):
    """The property is broken.  `finding` names a known-findings signature."""

    def __init__(self, msg, finding=None):
        super().__init__(msg)
        self.finding = finding


class HarnessError(Exception):
    """The check cannot answer (environment, or harness out of step)."""


class Sub:
    def __init__(self, name, strategy, check, quick=200, thorough=4000, shards=1,
                 tshards=8, examples=(), what=''):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.shards, self.tshards = quick, thorough, shards, tshards
        self.examples = list(examples)
        self.what = what


def setup_imports():
    for p in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
        if p not in sys.path:
            sys.path.append(p)           # at the end: /opt/venv wins
    try:
        import hypothesis  # noqa
    except ImportError:
        import glob
        for pat in ('hypothesis-*-cp312-*.whl', 'hypothesis-*-py3-*.whl',
                    'sortedcontainers-*.whl', 'attrs-*.whl'):
            for w in sorted(glob.glob('/opt/veriftools/wheels/' + pat))[-1:]:
                d = tempfile.mkdtemp(prefix='whl-')
                shutil.unpack_archive(w, d, 'zip')
                sys.path.append(d)
        import hypothesis  # noqa
    warnings.simplefilter('ignore')


def load_prop(pid):
    for f in sorted(os.listdir(os.path.join(VERIF, 'harness', 'props'))):
        if f.startswith(pid.lower() + '_') and f.endswith('.py'):
            return importlib.import_module('props.' + f[:-3])
    raise HarnessError('no module for property ' + pid)


def known_findings(pid):
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    if not os.path.exists(path):
        return {}
    with open(path) as fh:
        data = json.load(fh)
    return {f['signature']: f for f in data.get('findings', []) if f['property'] == pid}


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def is_sut_frame(fn):
    return os.path.realpath(fn).startswith(SUT_DIR)


def classify_exc(exc):
    """'violation' if the exception comes out of the code under test."""
    if isinstance(exc, Violation):
        return 'violation'
    if isinstance(exc, (MemoryError, HarnessError, KeyboardInterrupt)):
        return 'harness'
    if isinstance(exc, OSError) and exc.errno in (12, 24, 28, 30):
        return 'harness'                    # ENOMEM, EMFILE, ENOSPC, EROFS
    frames = traceback.extract_tb(exc.__traceback__)
    if any(is_sut_frame(f.filename) for f in frames):
        return 'violation'
    # the checks never raise these on results of the promised shape
    if isinstance(exc, (AssertionError, ArithmeticError, AttributeError, LookupError, TypeError, ValueError, StopIteration)):
        return 'violation'
    return 'harness'


class Sink(io.TextIOBase):
    def write(self, s):
        return len(s)


@contextlib.contextmanager
def quiet():
    s = Sink()
    with contextlib.redirect_stdout(s), contextlib.redirect_stderr(s), \
            warnings.catch_warnings():
        warnings.simplefilter('ignore')
        yield


class Ctx:
    pass


def run_case(sub, case, findings):
    """-> (status, labels|message, finding)"""
    import support
    support.begin_case()
    try:
        with quiet():
            out = sub.check(case)
    except Exception as e:                                  # noqa
        kind = classify_exc(e)
        tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-12:])
        if kind == 'harness':
            return 'harness', tb, None
        fnd = getattr(e, 'finding', None)
        if fnd is not None and fnd in findings:
            return 'known', fnd, fnd
        msg = str(e) if isinstance(e, Violation) else '%s: %s' % (type(e).__name__, e)
        return 'violation', msg + '\n' + tb, fnd
    finally:
        support.end_case()
    if isinstance(out, tuple):
        nontriv, labels = out
    elif isinstance(out, str):
        nontriv, labels = True, [out]
    elif isinstance(out, (list, set, frozenset)):
        nontriv, labels = True, list(out)
    else:
        nontriv, labels = bool(out), []
    return 'ok', (nontriv, labels), None


def task_seed(pid, sub, shard, seed):
    h = hashlib.sha256(('%s|%s|%d|%d' % (pid, sub, shard, seed)).encode()).digest()
    return int.from_bytes(h[:6], 'big')


def corpus_cases(pid, subname):
    d = os.path.join(VERIF, 'corpus', pid)
    out = []
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            if f.endswith('.json'):
                with open(os.path.join(d, f)) as fh:
                    rec = json.load(fh)
                if rec.get('sub') == subname:
                    out.append(rec['case'])
    return out


def run_task(task):
    """Run one shard of one sub-check; returns a JSON-able result."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    mod = load_prop(task['property'])
    sub = {s.name: s for s in mod.SUBS}[task['sub']]
    findings = known_findings(task['property'])
    t0 = time.time()
    deadline = t0 + task['budget_s']
    st = {'evals': 0, 'nontrivial': set(), 'labels': {}, 'samples': [], 'skipped': 0,
          'known': {}, 'fail': None, 'harness': None, 'first_fail_t': None}

    def one(case):
        """True if ok; False if failing."""
        if st['first_fail_t'] is None:
            if time.time() > deadline:
                st['skipped'] += 1
                return True
        elif time.time() > st['first_fail_t'] + task['shrink_s']:
            return True
        st['evals'] += 1
        status, info, fnd = run_case(sub, case, findings)
        if status == 'ok':
            nontriv, labels = info
            for l in labels:
                st['labels'][l] = st['labels'].get(l, 0) + 1
            if nontriv:
                c = canon(case)
                h = hashlib.sha1(c.encode()).hexdigest()[:16]
                if h not in st['nontrivial']:
                    st['nontrivial'].add(h)
                    n = len(st['nontrivial'])
                    if n in (3, 40) and len(c) < 6000:
                        st['samples'].append(case)
            return True
        if status == 'known':
            st['known'][info] = st['known'].get(info, 0) + 1
            return True
        if status == 'harness':
            if st['harness'] is None:
                st['harness'] = info + '\ncase: ' + canon(case)[:3000]
            return True
        if st['first_fail_t'] is None:
            st['first_fail_t'] = time.time()
        c = canon(case)
        if st['fail'] is None or (len(c), c) <= (len(st['fail']['canon']), st['fail']['canon']):
            st['fail'] = {'case': case, 'canon': c, 'message': info}
        return False

    if task['shard'] == 0:
        for case in list(sub.examples) + corpus_cases(task['property'], sub.name):
            if not one(json.loads(json.dumps(case))):
                break
    if st['fail'] is None and st['harness'] is None and task['n'] > 0:
        def body(case):
            if st['harness'] is not None:
                return
            if not one(json.loads(json.dumps(case))):
                raise AssertionError('falsified')
        test = given(sub.strategy)(body)
        test = settings(max_examples=task['n'], database=None, deadline=None,
                        report_multiple_bugs=False, print_blob=False,
                        phases=[Phase.generate, Phase.shrink],
                        suppress_health_check=list(HealthCheck))(test)
        test = hypothesis.seed(task['seed'])(test)
        try:
            with quiet():
                test()
        except AssertionError:
            pass
        except Exception as e:
            if st['fail'] is None and st['harness'] is None:
                st['harness'] = 'generator: ' + ''.join(
                    traceback.format_exception(type(e), e, e.__traceback__)[-8:])
    if st['fail'] is not None:
        st['fail'].pop('canon')
    st['nontrivial'] = sorted(st['nontrivial'])
    st['wall'] = time.time() - t0
    st.pop('first_fail_t')
    return st


# -------------------------------------------------------------------- worker
def worker(pid):
    # a case which needs more than this fails, instead of taking the other workers' memory
    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
    proto = os.fdopen(os.dup(1), 'w', buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    setup_imports()
    try:
        import support
        load_prop(pid)
        support.after_import()
        gc.collect()
        gc.freeze()
        proto.write(json.dumps({'ready': True}) + '\n')
    except BaseException:
        proto.write(json.dumps({'ready': False, 'error': traceback.format_exc()}) + '\n')
        return 2
    for line in sys.stdin:
        task = json.loads(line)
        try:
            if task.get('replay') is not None:
                mod = load_prop(pid)
                sub = {s.name: s for s in mod.SUBS}[task['sub']]
                status, info, fnd = run_case(sub, task['replay'], known_findings(pid))
                res = {'status': status, 'info': info if isinstance(info, str) else None}
            else:
                res = run_task(task)
        except BaseException:
            res = {'crash': traceback.format_exc()}
        proto.write(json.dumps(res, default=str) + '\n')
    return 0


class Worker:
    def __init__(self, pid, idx, hs=0):
        d = tempfile.mkdtemp(prefix='w%d-' % idx)
        self.hs = hs
        # the order in which sets are walked through is part of the input: HASH_SEEDS orders are tried
        env = dict(os.environ, TMPDIR=d, MPLCONFIGDIR=d, HOME=d, PYTHONHASHSEED=str(hs))
        self.p = subprocess.Popen(
            [sys.executable, os.path.join(VERIF, 'harness', 'run.py'), '--worker', pid],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
            env=env, cwd=d, text=True)
        self.error = None
        self.ready = False

    def wait_ready(self):
        if self.ready:
            return True
        line = self.p.stdout.readline()
        try:
            m = json.loads(line)
        except ValueError:
            self.error = 'worker died at start-up'
            return False
        if not m.get('ready'):
            self.error = m.get('error')
            return False
        self.ready = True
        return True

    def call(self, task):
        try:
            self.p.stdin.write(json.dumps(task) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            return json.loads(line)
        except (ValueError, OSError):
            return {'crash': 'worker died (signal or hard crash)', 'died': True}

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(10)
        except subprocess.TimeoutExpired:
            self.p.kill()


HASH_SEEDS = 4


def run_tasks(pid, tasks, stop_on_fail=True):
    """Workers take tasks of their own hash seed first; one that finds none left starts anew under another hash seed."""
    qs = [[] for _ in range(HASH_SEEDS)]
    for i, t in enumerate(tasks):
        qs[t['hs']].append((i, t))
    lock = threading.Lock()
    results = [None] * len(tasks)
    nw = int(os.environ.get('VERIF_WORKERS') or 0) or min(8, os.cpu_count() or 1)
    nw = max(1, min(nw, len(tasks)))
    stop = threading.Event()

    def take(hs):
        with lock:
            if qs[hs]:
                return qs[hs].pop(0)
            rest = max(qs, key=len)
            return rest.pop(0) if rest else None

    def loop(idx):
        w = None
        hs = idx % HASH_SEEDS
        try:
            while True:
                got = take(hs)
                if got is None:
                    return
                i, t = got
                if stop.is_set():
                    results[i] = {'notrun': True}
                    continue
                hs = t['hs']
                if w is None or w.hs != hs:
                    if w is not None:
                        w.close()
                    w = Worker(pid, idx, hs)
                if not w.wait_ready():
                    results[i] = {'crash': w.error}
                    continue
                r = w.call(t)
                results[i] = r
                if r.get('fail') and stop_on_fail:
                    stop.set()
                if r.get('died'):
                    w.close()
                    w = None
        finally:
            if w is not None:
                w.close()
    ths = [threading.Thread(target=loop, args=(k,)) for k in range(nw)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    return results


def fresh_call(pid, task, hs=0):
    w = Worker(pid, 99, hs)
    try:
        if not w.wait_ready():
            return {'crash': w.error}
        return w.call(task)
    finally:
        w.close()


# -------------------------------------------------------------------- parent
def say(s):
    sys.stdout.write(s + '\n')
    sys.stdout.flush()


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp'
    with open(tmp, 'w') as fh:
        json.dump(obj, fh, indent=1, sort_keys=True, default=str)
        fh.write('\n')
    os.replace(tmp, path)


def do_replay(path, cwd):
    if not os.path.isabs(path):
        path = os.path.join(cwd, path)
    with open(path) as fh:
        rec = json.load(fh)
    pid = rec['property']
    if rec['kind'] == 'case':
        r = fresh_call(pid, {'sub': rec['sub'], 'replay': rec['case']}, rec.get('hash_seed', 0))
        if r.get('status') == 'violation':
            say('VIOLATION property=%s replay=%s' % (pid, path))
            say(r['info'])
            return 1
        say('%s %s' % (r.get('status') or 'crash', r.get('info') or r.get('crash') or ''))
        return 0 if r.get('status') in ('ok', 'known') else 2
    r = fresh_call(pid, rec['task'], rec.get('hash_seed', 0))
    if r.get('fail'):
        say('VIOLATION property=%s replay=%s' % (pid, path))
        say(r['fail']['message'])
        return 1
    say('not reproduced')
    return 0 if 'crash' not in r else 2


def parent(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--replay')
    ap.add_argument('--sub', action='append')
    ap.add_argument('--n', type=int)
    ap.add_argument('--cwd', default='.')
    ap.add_argument('--stats', action='store_true')
    a = ap.parse_args(argv)
    if a.replay:
        return do_replay(a.replay, a.cwd)
    pid = a.property
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    setup_imports()
    import meta
    subs = meta.subs(pid)                   # [{name, quick, thorough, shards, tshards}]
    if a.sub:
        subs = [s for s in subs if s['name'] in a.sub]
    tasks = []
    for s in subs:
        n = a.n if a.n is not None else s[tier]
        sh = s['shards'] if tier == 'quick' else s['tshards']
        sh = max(1, min(sh, n or 1))
        for k in range(sh):
            tasks.append({'property': pid, 'sub': s['name'], 'shard': k, 'hs': len(tasks) % HASH_SEEDS,
                          'n': -(-n // sh), 'seed': task_seed(pid, s['name'], k, SEED),
                          'budget_s': 300 if tier == 'quick' else 3600,
                          'shrink_s': 40 if tier == 'quick' else 240})
    results = run_tasks(pid, tasks)

    findings = known_findings(pid)
    evals = 0
    nontriv = 0
    per = {}
    samples = []
    known = {}
    harness = []
    fails = []
    for t, r in zip(tasks, results):
        if r is None:
            harness.append('%s: no result' % t['sub'])
            continue
        if r.get('notrun'):
            continue
        if 'crash' in r:
            harness.append('%s: %s' % (t['sub'], r['crash']))
            continue
        p = per.setdefault(t['sub'], {'evaluations': 0, 'nt': set(), 'labels': {},
                                      'skipped_by_time_budget': 0, 'wall_s': 0.0})
        p['evaluations'] += r['evals']
        p['nt'].update(r['nontrivial'])
        p['skipped_by_time_budget'] += r['skipped']
        p['wall_s'] = round(p['wall_s'] + r['wall'], 2)
        for k, v in r['labels'].items():
            p['labels'][k] = p['labels'].get(k, 0) + v
        for c in r['samples'][:1]:
            if sum(1 for s in samples if s['sub'] == t['sub']) < 2:
                samples.append({'sub': t['sub'], 'case': c})
        for k, v in r['known'].items():
            known[k] = known.get(k, 0) + v
        if r['harness']:
            harness.append('%s: %s' % (t['sub'], r['harness']))
        if r['fail']:
            fails.append((t, r['fail']))
    for p in per.values():
        p['distinct_nontrivial'] = len(p.pop('nt'))
        evals += p['evaluations']
        nontriv += p['distinct_nontrivial']

    rdir = os.path.join(VERIF, 'replays')
    violations = []
    seen = set()
    for t, f in fails:
        if t['sub'] in seen:
            continue
        rec = {'property': pid, 'sub': t['sub'], 'kind': 'case', 'case': f['case'],
               'message': f['message'], 'seed': SEED, 'tier': tier, 'hash_seed': t['hs']}
        r = fresh_call(pid, {'sub': t['sub'], 'replay': f['case']}, t['hs'])
        if r.get('status') != 'violation':
            r2 = fresh_call(pid, t, t['hs'])
            if not r2.get('fail'):
                harness.append('%s: failure not reproducible: %s\ncase: %s'
                               % (t['sub'], f['message'], canon(f['case'])[:3000]))
                continue
            rec = {'property': pid, 'sub': t['sub'], 'kind': 'campaign', 'task': t,
                   'case': r2['fail']['case'], 'message': r2['fail']['message'],
                   'seed': SEED, 'tier': tier, 'hash_seed': t['hs']}
        h = hashlib.sha1(canon([t['sub'], rec['case']]).encode()).hexdigest()[:10]
        path = os.path.join(rdir, '%s-%s-%s.json' % (pid, t['sub'], h))
        write_json(path, rec)
        violations.append((path, rec))
        seen.add(t['sub'])

    m = meta.describe(pid)
    ev = {
        'property': pid, 'tier': tier, 'seed': SEED, 'level': 'exploration',
        'coverage': {
            'evaluations': evals, 'distinct_nontrivial': nontriv, 'rule': m['rule'],
            'samples': samples or [{'note': 'no non-trivial case sampled in this run'}],
            'per_subcheck': per,
            'known_finding_hits': known,
        },
        'assumptions': m['assumptions'],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    if not (a.sub or a.n is not None):
        write_json(os.path.join(VERIF, 'evidence', pid + '.json'), ev)
    if a.stats or a.sub:
        say(json.dumps(per, indent=1, sort_keys=True))
    for sig, f in sorted(findings.items()):
        say('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    if violations:
        for path, rec in violations:
            say('VIOLATION property=%s replay=%s' % (pid, path))
            say('  sub-check %s; case %s' % (rec['sub'], canon(rec['case'])[:2000]))
            say('  ' + rec['message'].replace('\n', '\n  ')[:4000])
        return 1
    if harness:
        for h in harness[:5]:
            say('HARNESS-ERROR ' + h[:6000])
        return 2
    say('%s %s: held on %d generated cases (%d distinct non-trivial), %.1fs'
        % (pid, tier, evals, nontriv, time.time() - t0))
    return 0


def main(argv):
    if argv and argv[0] == '--worker':
        return worker(argv[1])
    argv = [x for x in argv if x != '--parent']
    return parent(argv)
