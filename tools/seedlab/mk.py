"""mk.py ID: builds seed from /verif/tools/seedlab/ID.py which defines PROP, FILE(s) edits EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO."""
import sys, os, subprocess, json, shutil
sid = sys.argv[1]
ns = {}
exec(open('/verif/tools/seedlab/%s.py' % sid).read(), ns)
w = '/tmp/seedlab_' + sid
shutil.rmtree(w, ignore_errors=True)
subprocess.check_call(['git', 'clone', '-q', '/repo', w])
for f, o, n in ns['EDITS']:
    p = w + '/crysgsu/' + f
    s = open(p).read()
    assert s.count(o) == 1, ('count', s.count(o), o)
    # the lines removed must come from the original repository
    open(p, 'w').write(s.replace(o, n))
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
open(d + '/patch.diff', 'w').write(diff)
open(d + '/demo.py', 'w').write(open('/verif/tools/seedlab/prelude.py').read() + '\n\n' + ns['DEMO'].lstrip('\n'))
open(d + '/demo.sh', 'w').write('#!/bin/sh\nexec /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"\n')
os.chmod(d + '/demo.sh', 0o755)
json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
# removed lines: blame
cur = None
bad = []
import re
for l in diff.split('\n'):
    if l.startswith('--- a/'): cur = l[6:]
    m = re.match(r'@@ -(\d+)', l)
    if m: ln = int(m.group(1)) - 1
    elif l.startswith('-') and not l.startswith('---'):
        ln += 1
        b = subprocess.check_output(['git', '-C', '/repo', 'blame', '-L', '%d,%d' % (ln, ln), 'HEAD', '--', cur], text=True)
        a = subprocess.call(['git', '-C', '/repo', 'merge-base', '--is-ancestor', b.split()[0].lstrip('^'), '46499b7'])
        if a: bad.append(b)
    elif l.startswith(' '): ln += 1
if bad: print('NOT ORIGINAL', bad)
r0 = subprocess.run(['sh', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
r1 = subprocess.run(['sh', d + '/demo.sh'], cwd=w, capture_output=True, text=True)
print(sid, 'demo clean', r0.returncode, (r0.stdout + r0.stderr)[-300:] if r0.returncode else '')
print(sid, 'demo patched', r1.returncode, (r1.stdout + r1.stderr)[-60:].strip().replace('\n', ' | '))
# stable tests: emulate test.sh on the copy
print(sid, subprocess.run(['python3','/verif/tools/seedlab/stable.py',w],capture_output=True,text=True).stdout.strip())
for pid in [ns['PROP']] + ns.get('ALSO', []):
    if '--no-checks' in sys.argv: break
    q = subprocess.run(['/opt/venv/bin/python', '-B', '/verif/run.py', pid, 'quick'], env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True)
    print(sid, pid, q.returncode, q.stdout[-160:].strip().replace('\n', ' | '))
shutil.rmtree(w)
