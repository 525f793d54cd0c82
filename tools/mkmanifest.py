#!/usr/bin/env python3
"""Write MANIFEST.json from the property modules and properties.jsonl."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REASON = ('A pure function of its arguments: no schedule, clock, I/O, crash point or second party can influence it, so there is '
          'nothing for a simulator to decide; generating inputs for it would be plain property-based testing.')
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf8'):
    p = json.loads(line)
    if not os.path.exists(os.path.join(HERE, 'props', p['id'].lower() + '.py')):
        na.append({'property': p['id'], 'reason': REASON if p['id'].startswith('N') else 'not yet built'})
        continue
    m = importlib.import_module('props.' + p['id'].lower())
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 run.py %s' % p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough python3 run.py %s' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': m.TECHNIQUE,
        'level': m.LEVEL,
        'level_note': m.NOTE,
    })
out = {
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'hooks': {'guard': 'CSVW_SIM', 'enable': 'No hooks were needed in /repo: all seams are outside of it (LD_PRELOAD shim for '
              'system calls, clock and randomness; replaced socket module; trace-based thread scheduler). The variable is unused.',
              'source_commits': []},
    'checks': checks,
    'not_applicable': na,
    'notes': 'Every check runs the code in /repo/src directly (no build products are used). VERIF_REPO selects another tree. '
             'Replay a violation with: python3 run.py Cxx --replay FILE',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf8') as fp:
    json.dump(out, fp, indent=1)
    fp.write('\n')
