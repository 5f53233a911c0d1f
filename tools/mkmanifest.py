"""Writes /verif/MANIFEST.json from dsim/meta.py."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from dsim import meta
m = {'version': 1, 'setup_cmd': 'bin/setup',
     'checks': [{'property': p, 'quick_cmd': 'bin/check %s quick' % p, 'thorough_cmd': 'bin/check %s thorough' % p,
                 'evidence_file': 'evidence/%s.json' % p, 'technique': i['technique'], 'level': 'exploration', 'level_note': i['note']}
                for p, i in sorted(meta.PROPS.items())],
     'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(meta.NA.items())],
     'notes': 'No hooks in /repo: every seam (bytecode schedule points, clock, child process, hash and identity functions, locks) is outside of it. '
              'bin/replay FILE re-executes a reported violation; bin/selfcheck audits determinism. Genuine defects found are repaired by fix: commits, see known_findings.json.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
