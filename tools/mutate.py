#!/usr/bin/env python3
"""Mutation run (development tool; nothing registered uses it).

mutate.py WORKDIR JOBFILE OUT.jsonl   -- WORKDIR/repo is a scratch copy of /repo, WORKDIR/verif one of /verif.
JOBFILE: JSON list of [file, [properties], number of mutants, optional list of function names]."""
import ast
import json
import os
import random
import subprocess
import sys
import time

CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '*'}
SKIP = ('print', 'warn', 'plot', 'describe', 'draw', '_repr_', 'savefig', 'stdout')


def mutants(src, funcs=None):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    raw = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    out = []

    def add(n, new, what):
        a, b = span(n)
        out.append((n.lineno, a, b, new, what))

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if isinstance(n, ast.FunctionDef):
                fn = n.name
                if funcs is None and any(s in fn for s in SKIP):
                    return
            body = n.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
            for x in body:
                visit(x, fn)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        ok = fn is not None and (funcs is None or fn in funcs)
        if ok and isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            t = text(n)
            if any(s in t.split('(')[0] for s in SKIP):
                return
            add(n, 'pass', 'delete %s' % t[:60])
        if ok and isinstance(n, ast.AugAssign):
            add(n, 'pass', 'delete %s' % text(n)[:60])
        if ok and isinstance(n, ast.Raise):
            return
        if ok and isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            l, r = text(n.left), text(n.comparators[0])
            add(n, '(%s) %s (%s)' % (l, CMP[type(n.ops[0])], r), 'compare')
        if ok and isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.JoinedStr,)) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            add(n, '(%s) %s (%s)' % (text(n.left), BIN[type(n.op)], text(n.right)), 'arith')
        if ok and isinstance(n, ast.BoolOp):
            j = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + j.join('(%s)' % text(v) for v in n.values) + ')', 'boolop')
        if ok and isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, '(%s)' % text(n.operand), 'drop not')
        if ok and isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add(n.test, 'not (%s)' % text(n.test), 'negate')
            if isinstance(n, ast.If):
                add(n.test, 'False', 'never')
        if ok and isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                add(n, str(not n.value), 'bool')
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), 'int')
            elif isinstance(n.value, float):
                add(n, repr(n.value * 1.5 + (n.value == 0)), 'float')
        if ok and isinstance(n, ast.Call) and n.keywords:
            for k in n.keywords:
                if k.arg:
                    parts = [text(a) for a in n.args] + [('%s=%s' % (q.arg, text(q.value)) if q.arg else '**' + text(q.value)) for q in n.keywords if q is not k]
                    add(n, '%s(%s)' % (text(n.func), ', '.join(parts)), 'drop keyword %s' % k.arg)
        if ok and isinstance(n, ast.Continue):
            add(n, 'break', 'continue->break')
        if ok and isinstance(n, ast.Break):
            add(n, 'continue', 'break->continue')
        for x in ast.iter_child_nodes(n):
            visit(x, fn)

    visit(tree, None) if False else [visit(x, None) for x in tree.body]
    good = []
    for l, a, b, new, what in out:
        s = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            ast.parse(s)
        except SyntaxError:
            continue
        good.append((l, raw[a:b].decode(), new, what, s))
    return good


def main():
    work, jobs, out = sys.argv[1:4]
    rng = random.Random(int(os.environ.get('MUT_SEED', '1')))
    repo, verif = work + '/repo', work + '/verif'
    for job in json.load(open(jobs)):
        f, props, k = job[:3]
        p = os.path.join(repo, f)
        orig = open(p, newline='').read()
        src = orig.replace('\r\n', '\n')
        ms = mutants(src, job[3] if len(job) > 3 else None)
        rng.shuffle(ms)
        for l, old, new, what, s in ms[:k]:
            open(p, 'w', newline='').write(s.replace('\n', '\r\n') if '\r\n' in orig else s)
            t0, res = time.time(), {}
            try:
                for q in props:
                    try:
                        r = subprocess.run(['python3', 'harness/run.py', q], cwd=verif, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600,
                                           env=dict(os.environ, VERIF_REPO=repo, VERIF_TIER='quick', VERIF_SEED='1', VERIF_WORKERS=os.environ.get('MUT_WORKERS', '4')))
                        res[q] = r.returncode
                    except subprocess.TimeoutExpired:
                        res[q] = 'timeout'
                    if res[q] in (1, 'timeout'):
                        break
            finally:
                open(p, 'w', newline='').write(orig)
            with open(out, 'a') as fh:
                fh.write(json.dumps({'file': f, 'line': l, 'old': old[:200], 'new': new[:200], 'what': what, 'res': res, 'caught': 1 in res.values() or 'timeout' in res.values(), 's': round(time.time() - t0)}) + '\n')


main()
