#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of checks."""
import json, sys
CHECKS = json.load(open('/verif/tools/checks.json'))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
m = {'version': 1,
     'setup_cmd': 'bash /verif/tools/setup.sh',
     'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo: the checks add their packages, and instrumented copies of the sources, to the build '
              'through go build -overlay. KNOWN_FINDINGS.txt lists findings and repairs; DESIGN.md explains the checks.'}
for p in props:
    c = CHECKS.get(p['id'])
    if c is None:
        m['not_applicable'].append({'property': p['id'], 'reason': 'not claimed yet: its check is being built'})
        continue
    m['checks'].append({'property': p['id'], 'quick_cmd': './check.sh ' + p['id'],
                        'thorough_cmd': './check.sh ' + p['id'] + ' --thorough',
                        'evidence_file': 'evidence/%s.json' % p['id'],
                        'technique': c['technique'], 'level': 'model_checking', 'level_note': c['note']})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
