"""tryseed.py ID [PID ...]: runs quick checks (default: the property of the bug) with the planted bug applied to a clone; VERIF_SEED as given."""
import json, os, shutil, subprocess, sys
sid, pids = sys.argv[1], sys.argv[2:]
d = '/verif/seeded/' + sid
pids = pids or [json.load(open(d + '/meta.json'))['property']]
w = '/tmp/try_{0}_{1}'.format(sid, os.getpid())
subprocess.check_call(['git', 'clone', '-q', '/repo', w])
try:
    subprocess.check_call(['git', '-C', w, 'apply', d + '/patch.diff'])
    for p in pids:
        q = subprocess.run(['/opt/venv/bin/python', '-B', '/verif/run.py', p, 'quick'], env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True)
        print(sid, p, 'seed', os.environ.get('VERIF_SEED', '-'), 'rc', q.returncode, q.stdout[-170:].strip().replace('\n', ' | '))
finally:
    shutil.rmtree(w)
