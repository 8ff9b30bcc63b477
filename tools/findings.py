#!/usr/bin/env python3
"""Writes KNOWN_FINDINGS.json: FINDINGS below, and one 'fixed' entry per fix commit of /repo (development tool)."""
import json
import os
import subprocess
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property decided by the subject line of the fix commit
MAP = {
    '7f75b6a': 'C03', '47980ba': 'C09', 'c78d586': 'C01', 'c7a9e5a': 'C01', '5e57afd': 'C01', 'dfb90e0': 'C03', '0a232bf': 'C03',
    '67a888e': 'C05', '351dde7': 'C04', 'd55ab6c': 'C04', '60d2202': 'C04', '95cfeab': 'C04', '2292ea1': 'C04', '6e80648': 'C05',
    '81666ea': 'C04', 'c141d20': 'C06', '0fc5fec': 'C04', 'e7b1947': 'C04', '15b7d15': 'C08', 'd781bc5': 'C10', '8009e55': 'C10',
    '2c1717b': 'C11', '5a7fa30': 'C12', '91fadd6': 'C12', '15338dc': 'C12', '914c03e': 'C13', '21ff075': 'C15', '547740d': 'C15',
    '814060e': 'C15', 'ad28637': 'C14',
    '700262f': 'C16', '87137d6': 'C17', '1b8ee6b': 'C12',
    '4bfd117': 'C18', '651433a': 'C18', 'b2545bc': 'C18', 'f5a10f4': 'C19', 'b0f883d': 'C19', 'c9f4d99': 'C19', '07cde73': 'C19',
    '09408a5': 'C20', 'c175fd9': 'C20', 'ee4488e': 'C20', '09ea6b8': 'C20', 'c02f867': 'C20', '9a53930': 'C13', '228d23e': 'C21', '2aa1217': 'C21', '663b7f7': 'C19',
    '894362c': 'C22', '2a2cc3c': 'C22',
    'ef4b454': 'C23', '5348e63': 'C23', 'ec26961': 'C23', '16201ff': 'C23', '4ed647b': 'C24', '441a226': 'C24', '65b24dd': 'C25', '73e03d3': 'C25',
    'f5797b5': 'C25', 'cdb479a': 'C25', 'b9f26d1': 'C25', '8e09045': 'C25',
    '385ad6d': 'C27', '99327cb': 'C27', '9749a55': 'C27', 'ee2d1ab': 'C27', '9e1d5b2': 'C18', '581c2ca': 'C28', '73955a7': 'C28', '76080db': 'C19',
    '9d89191': 'C29', 'a720e13': 'C29', '9da4d52': 'C29', 'a764182': 'C29', '7054501': 'C29', '7a21726': 'C29', '1ebfe1f': 'C29', '4e10748': 'C29', '0e2fe5c': 'C29', '617f37d': 'C29', 'ee18154': 'C29',
    'dd6283c': 'C07', 'b7d31bd': 'C22', '3083793': 'C22', '8334541': 'C30', '3c93004': 'C30', 'c0eba0f': 'C29', 'c6bf101': 'C09', '2650a0c': 'C16', '1fd5294': 'C22', 'ed9782a': 'C10', '0e327ce': 'C04',
    '93a5b7d': 'C26', 'e85a44e': 'C26', '7b9ad08': 'C26', '9728e1a': 'C26', '6a95045': 'C26', 'e3eaed6': 'C26', '09b2872': 'C26', 'c09759d': 'C26', 'bf69f8c': 'C26',
}
FINDINGS = [
    {'property': 'C15', 'signature': 'cache-include-end',
     'what': 'total_energy or good_sections asked for a section whose end is a sample, after the same section with the other value of '
             'include_end, is answered from the cache entry of the latter (the cache tables and TimeFrame equality do not record include_end)'},
]


def main():
    log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s', '--reverse', '9021e66..HEAD'], text=True)
    fixed = []
    for line in log.splitlines():
        h, s = line.split(' ', 1)
        if s.startswith('fix: '):
            fixed.append('fixed: property=%s %s %s' % (MAP[h], h, s[5:]))
    with open(os.path.join(VERIF, 'KNOWN_FINDINGS.json'), 'w') as fh:
        json.dump({'findings': FINDINGS, 'fixed': fixed}, fh, indent=1)
        fh.write('\n')


main()
