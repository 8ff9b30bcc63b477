#!/usr/bin/env python3
"""Entry point of every registered check.

    python3 harness/run.py C01                 # tier from VERIF_TIER (default quick)
    python3 harness/run.py C01 --tier thorough
    python3 harness/run.py --replay replays/C01-....json
    python3 harness/run.py C01 --sub NAME [--n N]   # development

The parent re-executes itself with /opt/venv's interpreter in a scrubbed
environment, makes a scratch directory, and hands (sub-check, shard) tasks to
worker processes.  Exit: 0 held, 1 violation, 2 the check itself could not answer.
"""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


def _env(scratch):
    env = {
        'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
        'HOME': scratch, 'TMPDIR': scratch, 'MPLCONFIGDIR': scratch,
        'TZ': 'UTC', 'LC_ALL': 'C.UTF-8', 'MPLBACKEND': 'Agg',
        'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
        'PYTHONWARNINGS': 'ignore', 'PYTHONUNBUFFERED': '1',
        'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
        'MKL_NUM_THREADS': '1', 'NUMEXPR_MAX_THREADS': '1',
        'VERIF_SEED': os.environ.get('VERIF_SEED', '1'),
        'VERIF_TIER': os.environ.get('VERIF_TIER', 'quick'),
        'VERIF_REPO': REPO,
        'VERIF_WORKERS': os.environ.get('VERIF_WORKERS', ''),
        'PYTHONPATH': os.pathsep.join([REPO, os.path.join(VERIF, 'harness', 'stubs'),
                                       os.path.join(VERIF, 'harness')]),
    }
    return env


def main():
    if '--worker' in sys.argv or '--parent' in sys.argv:
        import engine
        return engine.main(sys.argv[1:])
    import shutil
    import subprocess
    import tempfile
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    try:
        st = os.statvfs('/dev/shm')
        if st.f_bavail * st.f_frsize < 512 * 1024 * 1024:
            base = None
    except OSError:
        base = None
    scratch = tempfile.mkdtemp(prefix='nilmtk-verif-', dir=base)
    try:
        cmd = [PY, os.path.abspath(__file__), '--parent', '--cwd', os.getcwd()] + sys.argv[1:]
        p = subprocess.Popen(cmd, env=_env(scratch), cwd=scratch, start_new_session=True)
        try:
            rc = p.wait()
        except KeyboardInterrupt:
            rc = 2
        finally:
            try:
                os.killpg(p.pid, 9)
            except (ProcessLookupError, PermissionError):
                pass
        return rc if rc in (0, 1, 2) else 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
