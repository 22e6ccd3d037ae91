PROP='P42'
EDITS=[('remesh.py',"""        grid.store(outputfilename)
""","""
        # The result appears only when it is complete.
        tmp = outdir + '/remeshed.tmp'
        grid.store(tmp)
        os.replace(tmp, outputfilename)
""")]
NEEDS='two runs with one output directory at the same time'
BREAKS='the grid of one run is stored under the name of the other one, or a run fails'
DEMO='''
import time
with scratch() as d:
    for n in 'ab':
        dat(d + '/%s.dat' % n, [(n, *box(2))], ('T', 'Hw', 'Hi'), val=lambda v, k: 0.0)
    # The first run stands still when it has stored its grid and goes on after the second one.
    first = """
import sys, os, runpy, time
d, src = sys.argv[1:3]
sys.path.insert(0, src)
import gsu
real = gsu.Grid.store
def store(self, name):
    real(self, name)
    open(d + '/stored', 'w').close()
    while not os.path.exists(d + '/go'):
        time.sleep(0.01)
gsu.Grid.store = store
sys.argv = ['remesh.py', '-g', d + '/a.dat', '-o', d + '/out']
runpy.run_path(src + '/remesh.py', run_name='__main__')
"""
    p = subprocess.Popen([sys.executable, '-B', '-W', 'ignore', '-c', first, d, SRC], stderr=subprocess.DEVNULL)
    try:
        while not os.path.exists(d + '/stored') and p.poll() is None:
            time.sleep(0.01)
        q = subprocess.run([sys.executable, '-B', '-W', 'ignore', SRC + '/remesh.py', '-g', d + '/b.dat', '-o', d + '/out'])
        open(d + '/go', 'w').close()
        r = p.wait(60)
    finally:
        p.kill()
    assert q.returncode == 0 and r == 0, (q.returncode, r)
    for n in 'ab':
        assert 'ZONE T="%s"' % n in open(d + '/out/%s.dat' % n).read(), n
'''
