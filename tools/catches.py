"""Development tool: which quick checks report a violation with each planted bug applied (writes tools/catches.json).

catches.py [ID ...]   works on clones of /repo under /tmp; evidence goes to a copy of /verif, never to /verif itself.
"""
import glob
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(here, 'tools', 'catches.json')
try:
    res = json.load(open(out))
except OSError:
    res = {}
ids = sys.argv[1:] or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(here + '/seeded/*/meta.json'))
pids = [json.loads(l)['id'] for l in open(here + '/properties.jsonl')]
base = '/tmp/catches.{0}'.format(os.getpid())
os.makedirs(base)
shutil.copytree(here, base + '/v', ignore=shutil.ignore_patterns('.git', 'seeded', 'replay'))
try:
    for sid in ids:
        w = base + '/r'
        shutil.rmtree(w, ignore_errors=True)
        subprocess.check_call(['git', 'clone', '-q', '/repo', w])
        subprocess.check_call(['git', '-C', w, 'apply', here + '/seeded/{0}/patch.diff'.format(sid)])

        def one(pid):
            q = subprocess.run([sys.executable, '-B', base + '/v/run.py', pid, 'quick'], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=w, VERIF_SEED='1'))
            return pid, q.returncode, 'VIOLATION property={0} '.format(pid) in q.stdout
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(one, pids))
        res[sid] = [p for p, rc, v in rs if rc == 1 and v]
        print(sid, res[sid], [(p, rc) for p, rc, v in rs if rc not in (0, 1)], flush=True)
        json.dump(res, open(out, 'w'), indent=1, sort_keys=True)
finally:
    shutil.rmtree(base)
