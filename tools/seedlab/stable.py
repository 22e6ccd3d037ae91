"""stable.py W: runs the stable tests on the clone W; prints failures among the baseline"""
import sys, os, subprocess, json, shutil
W = sys.argv[1]
base = json.load(open('/opt/vp/BASELINE.json'))
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
R = W + '.rep'
os.makedirs(R, exist_ok=True)
s = open('/opt/vp/test.sh').read().replace('/opt/vp/reports', R).replace('/repo', W).replace('bash /opt/vp/swim.sh', 'true')
open(R + '/t.sh', 'w').write(s)
p = subprocess.run(['bash', R + '/t.sh', W + '.out.json'], capture_output=True, text=True)
o = json.load(open(W + '.out.json'))
def names(x):
    if isinstance(x, dict):
        for k in ('stable', 'passed', 'pass', 'tests'):
            if k in x: return x[k]
    return x
print('stable', len(names(base)), 'missing:', sorted(set(names(base)) - set(names(o))))
shutil.rmtree(R, ignore_errors=True)
os.remove(W + '.out.json')
