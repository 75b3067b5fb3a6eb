#!/usr/bin/env python3
"""Writes known_findings.json: the defects that were found, and by which property (run by hand after a fix: commit)."""
import json
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '2a8f06f'
OPEN = [
    {'id': 'version-mismatch', 'property': 'P23', 'status': 'open', 'kind': 'assertion', 'msg': '^a stream signed by a newer version is reported as such$',
     'what': 'a stream signed by a newer version of the framework is never reported as VERSION_MISMATCH (the report compares with an own version that is still empty)'},
    {'id': 'resync-extra-start', 'property': 'P28', 'status': 'open', 'kind': 'assertion', 'msg': '^intact GOPs are authentic again after another start of a GOP was inserted$',
     'what': 'SEIs are associated with the pending GOPs strictly in order, so after a forged start of a GOP was inserted the validation stays one GOP behind and reports every later GOP NOT_OK'},
    {'id': 'resync-tune-in', 'property': 'P28', 'status': 'open', 'kind': 'assertion', 'msg': '^intact GOPs are authentic again after tuning in to a disturbed stream$',
     'what': 'when the first GOP received after tuning in is damaged, or its SEI is lost, the validation stays one GOP behind and reports every later GOP NOT_OK'},
    {'id': 'resync-late-sei', 'property': 'P28', 'status': 'open', 'kind': 'assertion', 'msg': '^intact GOPs are authentic again after the start of a GOP was lost while a SEI came late$',
     'what': 'when the start of a GOP is lost while the SEI of the GOP before it came late, the validation stays one GOP behind and reports later GOPs NOT_OK as long as they have equally many pictures'},
]
# words of the commit subject -> property
PROP = {'3628dd5': 'P02', '5b8e1d8': 'P04', '0d039cc': 'P02', '7a8525a': 'P08', '5b53b2a': 'P09', '868bc95': 'P09', '76feb02': 'P09', 'cbf3073': 'P24', '8c12b86': 'P24', 'e8ed66a': 'P24',
        '5f61a71': 'P24', '9508d98': 'P14', '9c2bd72': 'P17', 'fe71139': 'P09', '01f8ef0': 'P02', '46ecd56': 'P09', '5863a71': 'P09', '7477f4b': 'P09', '16d1002': 'P03', '1847d40': 'P06',
        '72d17ac': 'P09', '342cc84': 'P09', '79f56ec': 'P05', 'b3d6ddf': 'P02', 'fdb36b4': 'P08', '857cf35': 'P09', '9ed5c28': 'P09', '70c18da': 'P26', 'af62d02': 'P09', '9741b47': 'P11',
        '1daa228': 'P12', '3105a79': 'P12', '99e7343': 'P13', 'ce9a817': 'P04', '5008a8e': 'P04', '59e6c34': 'P16', 'a5c355e': 'P17', '95cba29': 'P17', 'd48e469': 'P17', '48af35b': 'P20',
        'b952558': 'P20', '647a0b5': 'P20', '0298c0d': 'P24', '73ef990': 'P24', 'e18c6ca': 'P06', 'e78638b': 'P25', '254b69b': 'P25', 'ea1ad81': 'P21', '9624e5b': 'P21', '55e0b22': 'P22',
        '618c6e4': 'P22', '2db5226': 'P22', '176795b': 'P22', 'dc37580': 'P22', '7013c7f': 'P21', '29d4b10': 'P21', '07161c2': 'P19', 'b46d168': 'P19', '43114e9': 'P19', '6f55b23': 'P19',
        '7a9ea33': 'P26', 'e0a645c': 'P26', '67dd7d4': 'P26', '8fb9605': 'P26', '041e185': 'P27', '392dd24': 'P26', '2b18d47': 'P26', 'a5df939': 'P27', '7956fba': 'P27', '2272097': 'P28', '93cc1fe': 'P16', 'f4a0a1d': 'P27', '3bf89f3': 'P27',
        '0c060a9': 'P29', 'c549314': 'P31', 'ea2166a': 'P31', '63de425': 'P31', '335ab97': 'P21'}
out = list(OPEN)
for l in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', BASE + '..HEAD'], capture_output=True, text=True, check=True).stdout.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    p = PROP[h]
    out.append({'id': 'fixed-' + h, 'property': p, 'status': 'fixed', 'line': 'fixed: property=%s %s %s' % (p, h, s[5:])})
with open(HERE + '/known_findings.json', 'w') as f:
    f.write('[\n' + ',\n'.join(' ' + json.dumps(x) for x in out) + '\n]\n')
