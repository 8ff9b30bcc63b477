#!/usr/bin/env python3
"""Fills the tables of DESIGN.md (between markers) from properties_src and seeded/*/meta.json + tools/detected.json."""
import glob
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from properties_src import PROPS  # noqa


def main():
    rows = []
    for p in PROPS:
        rows.append('* **%s** %s. *Generated:* %s. *Decided by* %s. *Bounds:* %s. *Tests do not reach it because* %s' % (
            p['id'], p['title'], p['text'], p['technique'], p['note'], p['why']))
    det = {}
    f = os.path.join(HERE, 'detected.json')
    if os.path.exists(f):
        det = json.load(open(f))
    bugs = ['| bug | property | what it breaks | needs | caught by quick check |', '|---|---|---|---|---|']
    for m in sorted(glob.glob(os.path.join(VERIF, 'seeded', '*', 'meta.json'))):
        i = os.path.basename(os.path.dirname(m))
        d = json.load(open(m))
        bugs.append('| %s | %s | %s | %s | %s |' % (i, d['property'], d['what_it_breaks'].replace('|', '/'), d['needs'].replace('|', '/'), det.get(i, '?')))
    path = os.path.join(VERIF, 'DESIGN.md')
    s = open(path).read()
    s = s.replace('PROPS_TABLE', '<!-- props -->\n<!-- /props -->').replace('BUGS_TABLE', '<!-- bugs -->\n<!-- /bugs -->')
    s = re.sub(r'<!-- props -->.*?<!-- /props -->', lambda _: '<!-- props -->\n' + '\n'.join(rows) + '\n<!-- /props -->', s, flags=re.S)
    s = re.sub(r'<!-- bugs -->.*?<!-- /bugs -->', lambda _: '<!-- bugs -->\n' + '\n'.join(bugs) + '\n<!-- /bugs -->', s, flags=re.S)
    open(path, 'w').write(s)


main()
