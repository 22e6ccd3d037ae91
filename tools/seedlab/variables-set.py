PROP='P38'
ALSO=['P03']
EDITS=[('gsu/grid.py','''        variables = ['X', 'Y', 'Z'] + list(self.Faces[0].Data.keys())
''','''        variables = ['X', 'Y', 'Z'] + list({k for f in self.Faces for k in f.Data})
''')]
NEEDS='another hash seed than before (every start of python without a fixed one)'
BREAKS='the order of variables in stored grids changes from run to run'
DEMO='''
with scratch() as d:
    dat(d + '/g.dat', [('z', *sheet(2, 2))], names=('T', 'Hw', 'Hi', 'HTC', 'Beta', 'TauX', 'TauY', 'TauZ'))
    outs = set()
    for k in range(4):
        r = subprocess.run([sys.executable, '-B', '-W', 'ignore', SRC + '/split.py', d + '/g.dat', '-o', d + '/o.dat', '-s', 'n2'], capture_output=True, text=True,
                           env=dict(os.environ, PYTHONHASHSEED=str(k)), cwd=d)
        assert r.returncode == 0, r.stderr
        outs.add(open(d + '/o.dat').read())
    assert len(outs) == 1, len(outs)
'''
