"""Setup: nothing to build in advance; make sure the interpreter and libraries the checks need are there."""
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import numpy
import scipy
for f in sorted(os.listdir(os.path.join(here, 'checks'))):
    if f.endswith('.py'):
        compile(open(os.path.join(here, 'checks', f)).read(), f, 'exec')
print('ready: python', sys.version.split()[0], 'numpy', numpy.__version__, 'scipy', scipy.__version__)
