#!/usr/bin/env python3
"""Plant a bug: mkbug.py SPEC.py   (development tool; nothing registered uses it)

SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new), ...], needs, breaks, demo=python text)].
For each: applies the edits to /repo, writes seeded/<id>/, runs the stable tests, the demo with and without
the patch and the property's check, and restores /repo."""
import json
import os
import runpy
import shutil
import subprocess
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MK_REPO', '/repo')  # a scratch copy will do


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def edit(path, pairs):
    raw = open(path, newline='').read()
    crlf = '\r\n' in raw
    s = raw.replace('\r\n', '\n')
    for o, n in pairs:
        assert s.count(o) == 1, (path, s.count(o), o)
        s = s.replace(o, n)
    if crlf:
        s = s.replace('\n', '\r\n')
    open(path, 'w', newline='').write(s)


def restore():
    sh('git -C %s checkout -- .' % REPO)


def original_lines(diff):
    """Does the patch change a line that is as in the original repository?"""
    base = sh('git -C %s rev-list --max-parents=0 HEAD' % REPO).stdout.split()[0]
    cur = None
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            cur = sh('git -C %s show %s:%s' % (REPO, base, l[6:])).stdout.splitlines()
        elif l.startswith('-') and l[1:].strip() and cur and l[1:].rstrip('\r') in [x.rstrip('\r') for x in cur]:
            return True
    print('   no original line changed')
    return False


def run(b, check=True):
    if b.get("skip"):
        return
    d = os.path.join(VERIF, 'seeded', b['id'])
    assert not sh('git -C %s status --porcelain' % REPO).stdout.strip()
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    demo = b['demo'].strip('\n') + '\n'
    open(d + '/demo.py', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(
        '#!/bin/bash\n# cwd: the repository.  Exit 0: the property holds here.\n'
        'D="$(cd "$(dirname "$0")" && pwd)"\nS="$(mktemp -d)"\ntrap \'rm -r "$S"\' EXIT\n'
        'cp -r "$D/stubs" "$S/stubs"\n'
        'cd "$S" && PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TZ=UTC TMPDIR="$S" HOME="$S" PYTHONPATH="$OLDPWD:$S/stubs" '
        '/opt/venv/bin/python -W ignore "$D/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    shutil.copy(os.path.join(VERIF, 'tools', 'demo_lib.py'), d)
    shutil.copytree(os.path.join(VERIF, 'harness', 'stubs'), d + '/stubs', ignore=shutil.ignore_patterns('__pycache__'))
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    base = sh('bash %s/demo.sh' % d, cwd=REPO)
    files = {}
    for f, o, n in b['edits']:
        files.setdefault(f, []).append((o, n))
    try:
        for f, prs in files.items():
            edit(os.path.join(REPO, f), prs)
        diff = subprocess.run('git -C %s diff --no-color' % REPO, shell=True, stdout=subprocess.PIPE).stdout
        open(d + '/patch.diff', 'wb').write(diff)
        bad = sh('bash %s/demo.sh' % d, cwd=REPO)
        old = original_lines(diff.decode())
        if REPO == '/repo':
            sh('bash /opt/vp/test.sh /tmp/o_bug.json')
            passed = len(json.load(open('/tmp/o_bug.json')).get('passed') or [])
        else:
            t = sh('PYTHONPATH=%s MPLBACKEND=Agg TZ=UTC PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest nilmtk/tests/test_timeframe.py -q -p no:cacheprovider -o addopts=' % os.path.join(VERIF, 'harness', 'stubs'), cwd=REPO).stdout
            passed = int(t.split(' passed')[0].split()[-1]) if ' passed' in t and 'failed' not in t else 0
        out = None
        if check:
            out = sh('python3 harness/run.py %s' % b['property'], cwd=VERIF, env=dict(os.environ, VERIF_REPO=REPO))
    finally:
        restore()
    caught = out is not None and out.returncode == 1 and 'VIOLATION property=%s ' % b['property'] in out.stdout
    ok = base.returncode == 0 and bad.returncode != 0 and passed >= 6 and old
    print('%-28s %s demo base=%d patched=%d tests=%d  check=%s %s' % (
        b['id'], 'OK ' if ok else 'BAD', base.returncode, bad.returncode, passed, out and out.returncode, 'CAUGHT' if caught else 'MISSED'))
    f = os.path.join(VERIF, 'tools', 'detected.json')
    det = json.load(open(f)) if os.path.exists(f) else {}
    if out is not None:
        det[b['id']] = 'yes' if caught else 'no'
        json.dump(det, open(f, 'w'), indent=1, sort_keys=True)
    if not ok:
        print('   base:', base.stdout[-600:])
        print('   patched:', bad.stdout[-600:])
    if not caught and out is not None:
        print('   ', out.stdout[-800:])
    sys.stdout.flush()


if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = set(sys.argv[2:])
    for b in bugs:
        if not only or b['id'] in only:
            run(b)
