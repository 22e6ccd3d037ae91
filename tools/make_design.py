"""Writes DESIGN.md: hand-written parts here, per-property sections from properties.jsonl, tools/notes.py and the check modules."""
import ast
import glob
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(os.path.join(here, 'tools', 'notes.py')).read(), ns)


def consts(pid):
    t = ast.parse(open(os.path.join(here, 'checks', pid + '.py')).read())
    r = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1:
            names = [n.targets[0]] if isinstance(n.targets[0], ast.Name) else getattr(n.targets[0], 'elts', [])
            vals = n.value.elts if isinstance(n.value, ast.Tuple) and len(names) > 1 else [n.value]
            for a, v in zip(names, vals):
                try:
                    r[a.id] = ast.literal_eval(v)
                except (ValueError, AttributeError):
                    pass
    return r


HEAD = open(os.path.join(here, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(here, 'tools', 'design_tail.md')).read()
out = [HEAD.rstrip(), '', '## 4. Properties', '']
for line in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    tech, mon, orc, reach = ns['D'][pid]
    c = consts(pid)
    out.append('### {0}. {1}'.format(pid, p['title']))
    out.append('')
    out.append('- Decided by: {0}.'.format(tech))
    out.append('- Watched: {0}.'.format(mon))
    out.append('- Oracle: {0}.'.format(orc))
    out.append('- Workload and reach beyond the tests: {0}.'.format(reach))
    out.append('- Counted as different executions: {0}.'.format(c.get('RULE', '-').rstrip('.')))
    if c.get('ASSUMPTIONS'):
        out.append('- Assumed or not judged: {0}'.format(' '.join(c['ASSUMPTIONS'])))
    out.append('- Bounds: {0} generated cases quick, {1} thorough (one seed each); the run gives no verdict (exit 2) unless the '
               'monitors saw at least {2}.'.format(c.get('QUICK'), c.get('THOROUGH'), ', '.join(
                   '{0} {1}'.format(v, k.replace('_', ' ')) for k, v in c.get('MIN', {}).items()) or 'something'))
    out.append('')
out += ['## 5. Findings', '', 'Defects of crys-gsu found by the checks and repaired by `fix:` commits (none is left as a known finding):', '',
        '| property | commit | what failed |', '|---|---|---|']
for l in open(os.path.join(here, 'known-findings.txt')):
    if l.startswith('fixed:'):
        _, pp, h, what = l.rstrip('\n').split(' ', 3)
        out.append('| {0} | {1} | {2} |'.format(pp.split('=')[1], h, what))
out += ['', '## 6. Planted bugs', '',
        'Each was written from the text of a property and the code, confirmed to pass the 23 stable tests and to be exposed by its '
        'own demonstration, and kept whether or not it was caught. "Caught by" lists every quick check (seed 1) that reports a '
        'violation with the bug applied (from `tools/catches.py`).', '',
        '| bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
try:
    catches = json.load(open(os.path.join(here, 'tools', 'catches.json')))
except OSError:
    catches = {}
for f in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f))
    k = os.path.basename(os.path.dirname(f))
    out.append('| {0} | {1} | {2} | {3} | {4} |'.format(k, d['property'], d['needs'], d['what_it_breaks'],
                                                      ', '.join(catches.get(k, [])) or '?'))
out += ['', TAIL.rstrip(), '']
with open(os.path.join(here, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out))
