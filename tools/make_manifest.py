"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python -B /verif/run.py'
NOTES = {}
exec(open(os.path.join(here, 'tools', 'notes.py')).read())
checks = []
for line in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(line)
    if not os.path.isfile(os.path.join(here, 'checks', p['id'] + '.py')):
        continue
    tech, note = NOTES.get(p['id'], (DEFAULT_TECH, DEFAULT_NOTE))
    checks.append({'property': p['id'],
                   'quick_cmd': '{0} {1} quick'.format(PY, p['id']),
                   'thorough_cmd': '{0} {1} thorough'.format(PY, p['id']),
                   'evidence_file': 'evidence/{0}.json'.format(p['id']),
                   'technique': tech, 'level': 'exploration', 'level_note': note})
m = {'version': 1,
     'setup_cmd': '/opt/venv/bin/python -B /verif/tools/selfcheck.py',
     'checks': checks, 'not_applicable': [],
     'notes': 'Runtime monitoring of the real code under generated workloads; see DESIGN.md. Checks read the working tree '
              'of /repo directly (pure Python) and rebuild the native extension in a scratch directory where needed. '
              'No hooks were added to /repo.'}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks')
