#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl and the check
modules present in mc/ (run by hand)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
TECH = {}
exec(open(os.path.join(V, 'tools', 'techniques.py')).read())
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if os.path.exists(os.path.join(V, 'mc', i.lower() + '.py')):
        level, tech, note = TECH[i]
        checks.append({'property': i,
                       'quick_cmd': './check.sh %s quick' % i,
                       'thorough_cmd': './check.sh %s thorough' % i,
                       'technique': tech, 'level': level, 'level_note': note,
                       'evidence_file': 'evidence/%s.json' % i})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
           'not_applicable': na,
           'notes': 'No hooks: every check imports the unmodified package '
                    'from /repo. Repairs of genuine defects are the fix: '
                    'commits listed in known_findings.json.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
