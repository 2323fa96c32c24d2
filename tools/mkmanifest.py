#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules that exist."""
import importlib
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'checks'))
import engine  # noqa

checks, na = [], []
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    pid = json.loads(l)['id']
    if os.path.exists(os.path.join(ROOT, 'props', pid.lower() + '.py')):
        m = importlib.import_module(pid.lower())
        checks.append(dict(property=pid, quick_cmd='python3 run.py %s quick' % pid, thorough_cmd='python3 run.py %s thorough' % pid,
                           evidence_file='evidence/%s.json' % pid,
                           technique=m.INFO.get('technique', 'bounded exhaustive enumeration of programs and histories, each run on an executable '
                                                'reference model and replayed on the real interpreter'),
                           level='model_checking',
                           level_note=m.INFO.get('note', 'Complete within the enumerated bounds (see evidence rule); trusts the reference model '
                                                 'ref/psref.py, the comparison in checks/engine.py and the fork-server harness.')))
    else:
        na.append(dict(property=pid, reason='check under construction'))
json.dump(dict(version=1, setup_cmd='python3 harness/build.py',
               hooks=dict(guard='PSC_VERIF', enable='-DPSC_VERIF when compiling /repo/src (harness/build.py)', source_commits=['22e2070']),
               checks=checks, not_applicable=na,
               notes='See DESIGN.md. KNOWN_FINDINGS.txt lists the defects found (all repaired by fix: commits).'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
