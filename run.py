"""Entry point of the checks: run.py <property> quick|thorough, run.py <property> replay <file>."""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    # A fixed hash seed makes every run repeatable.
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
        os.environ[k] = '1'
    os.execv(sys.executable, [sys.executable, '-B', '-W', 'ignore'] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vh import core

if __name__ == '__main__':
    rc = core.main(sys.argv[1:])
    sys.stdout.flush()
    sys.exit(rc)
