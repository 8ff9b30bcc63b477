#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties_src.py and checks them."""
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from properties_src import PROPS  # noqa


def main():
    lines, checks = [], []
    for p in PROPS:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        assert re.match(r'^[A-Z][0-9]{2,3}$', p['id'])
        lines.append(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p['observe'] or ['public API, in process'], 'hook_needed': None}}))
        checks.append({'property': p['id'], 'quick_cmd': 'python3 harness/run.py ' + p['id'],
                       'thorough_cmd': 'python3 harness/run.py %s --tier thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as fh:
        fh.write('\n'.join(lines) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 tools/selfcheck.py', 'checks': checks, 'not_applicable': [],
           'notes': 'Nothing is built: the checks import nilmtk from /repo (pure Python) with the interpreter of /opt/venv. '
                    'No hooks in /repo. A replay: python3 harness/run.py --replay replays/<file>.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')
    for p in PROPS:
        n = len(re.findall(r'[.!?](?= |$)', p['statement']))
        if n > 3:
            print(p['id'], 'statement has', n, 'sentences')


main()
