"""Shared helpers: lazy access to the code under test, per-case isolation,
comparison helpers, and JSON <-> pandas builders."""
import importlib
import math
import os
import shutil
import sys
import tempfile

import numpy as np
import pandas as pd

from engine import HarnessError, Violation, REPO


class _Lazy:
    """nk.TimeFrame, nk.MeterGroup ...; nk('nilmtk.utils') for a submodule."""

    def __getattr__(self, name):
        import nilmtk
        return getattr(nilmtk, name)

    def __call__(self, modname):
        import nilmtk  # noqa
        return importlib.import_module(modname)


nk = _Lazy()
_case = {'dir': None, 'n': 0}


def after_import():
    import nilmtk
    f = os.path.realpath(nilmtk.__file__)
    if not f.startswith(REPO + os.sep):
        raise HarnessError('nilmtk imported from %s, not from %s' % (f, REPO))


def _reset_sut():
    nilmtk = sys.modules.get('nilmtk')
    if nilmtk is None:
        return
    g = getattr(nilmtk, 'global_meter_group', None)
    if g is not None and getattr(g, 'meters', None):
        g.meters = []
    cache = getattr(nilmtk, 'STATS_CACHE', None)
    store = getattr(cache, 'store', None)
    if store is not None:
        try:
            for grp in list(store.root._v_groups):
                store.remove(grp)
        except Exception:
            pass
    em = getattr(nilmtk, 'ElecMeter', None)
    if em is not None and isinstance(getattr(em, 'meter_devices', None), dict):
        em.meter_devices.clear()


def begin_case():
    _reset_sut()


def end_case():
    tf = sys.modules.get('tables.file')
    if tf is not None:
        keep = None
        nilmtk = sys.modules.get('nilmtk')
        cache = getattr(nilmtk, 'STATS_CACHE', None)
        keep = getattr(cache, 'full_path', None)
        for h in list(tf._open_files.handlers):
            try:
                if h.filename != keep:
                    h.close()
            except Exception:
                pass
    plt = sys.modules.get('matplotlib.pyplot')
    if plt is not None:
        plt.close('all')
    if _case['dir'] is not None:
        shutil.rmtree(_case['dir'], ignore_errors=True)
        _case['dir'] = None


def case_dir():
    if _case['dir'] is None:
        _case['dir'] = tempfile.mkdtemp(prefix='case-')
    return _case['dir']


def fresh_path(suffix=''):
    _case['n'] += 1
    return os.path.join(case_dir(), 'f%d%s' % (_case['n'], suffix))


# ------------------------------------------------------------------ oracles
def fail(msg, *a, finding=None):
    raise Violation(msg % a if a else msg, finding=finding)


def ensure(cond, msg, *a, finding=None):
    if not cond:
        raise Violation(msg % a if a else msg, finding=finding)


def isnan(x):
    try:
        return x is None or x is pd.NaT or (isinstance(x, (float, np.floating)) and math.isnan(x))
    except TypeError:
        return False


def close(a, b, rtol=1e-6, atol=1e-9):
    a_n, b_n = isnan(a), isnan(b)
    if a_n or b_n:
        return a_n and b_n
    a, b = float(a), float(b)
    if a == b:
        return True
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def ensure_close(got, exp, what, rtol=1e-6, atol=1e-9):
    try:
        ok = close(got, exp, rtol, atol)
    except (TypeError, ValueError) as e:
        raise Violation('%s: got %r, expected %r (%s)' % (what, got, exp, e))
    if not ok:
        raise Violation('%s: got %r, expected %r' % (what, got, exp))


def ensure_array(got, exp, what, rtol=1e-6, atol=1e-9):
    got = np.asarray(got, dtype=float)
    exp = np.asarray(exp, dtype=float)
    if got.shape != exp.shape:
        raise Violation('%s: shape %r, expected %r\n got %r\n expected %r'
                        % (what, got.shape, exp.shape, got.tolist()[:40], exp.tolist()[:40]))
    ok = np.isclose(got, exp, rtol=rtol, atol=atol, equal_nan=True)
    if not ok.all():
        raise Violation('%s: got %r, expected %r' % (what, got.tolist()[:60], exp.tolist()[:60]))


def ensure_index(got, exp, what):
    """Same instants in the same order (resolution- and timezone-agnostic)."""
    g = ns(got)
    e = ns(exp)
    if g != e:
        raise Violation('%s: index %r, expected %r' % (what, list(got)[:40], list(exp)[:40]))


def ns(index):
    """list of UTC nanosecond integers."""
    if isinstance(index, pd.DatetimeIndex):
        idx = index
        if idx.tz is not None:
            idx = idx.tz_convert('UTC').tz_localize(None)
        return idx.as_unit('ns').asi8.tolist()
    return [ts_ns(t) for t in index]


def ts_ns(t):
    if t is None or t is pd.NaT:
        return None
    t = pd.Timestamp(t)
    if t.tzinfo is not None:
        t = t.tz_convert('UTC').tz_localize(None)
    return int(t.as_unit('ns').value)


def raises(exc, f, *a, **k):
    """True if f raises exc; any other exception propagates."""
    try:
        f(*a, **k)
    except exc:
        return True
    return False


# ----------------------------------------------------------------- builders
EPOCH = pd.Timestamp('2011-04-18 09:22:00', tz='UTC')


def ts(sec, tz='UTC', base=EPOCH):
    """seconds offset -> tz-aware Timestamp (ns unit)."""
    t = base + pd.Timedelta(int(round(sec * 1000)), unit='ms')
    t = t.as_unit('ns')
    return t.tz_convert(tz) if tz else t.tz_localize(None)


def index_from(secs, tz='UTC', base=EPOCH):
    idx = pd.DatetimeIndex([ts(s, 'UTC', base) for s in secs], dtype='datetime64[ns, UTC]')
    return idx.tz_convert(tz) if tz else idx.tz_localize(None)


def tf_from(pair, tz='UTC', base=EPOCH):
    """[start, end] in seconds (None = open) -> nilmtk TimeFrame."""
    a, b = pair
    return nk.TimeFrame(None if a is None else ts(a, tz, base),
                        None if b is None else ts(b, tz, base))


def mi_columns(cols):
    return pd.MultiIndex.from_tuples([tuple(c) for c in cols], names=['physical_quantity', 'type'])


def frame(secs, cols, data, tz='UTC', dtype='float32'):
    """data: list of columns (lists); None -> NaN."""
    df = pd.DataFrame(
        {i: np.array([np.nan if v is None else v for v in col], dtype='float64')
         for i, col in enumerate(data)}, index=index_from(secs, tz))
    df = df.astype(dtype)
    df.columns = mi_columns(cols)
    return df
