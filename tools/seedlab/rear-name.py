PROP='P36'
ALSO=['P38','P37']
EDITS=[('remesh.py','''        outputfilename = outdir + '/' + filename.replace('_r_', '_')
''','''        outputfilename = outdir + '/' + filename.replace('_r', '')
''')]
NEEDS="a grid whose name contains '_r' which is not the mark of the merge tool"
BREAKS='the remeshed grid is written under a name which differs from the given one in more than the mark'
DEMO='''
with scratch() as d:
    os.mkdir(d + '/in')
    p = d + '/in/wing_rear_r_000000000100.dat'
    dat(p, [('z', *box(2))], val=lambda n, k: 0.0)
    r = subprocess.run([sys.executable, '-B', '-W', 'ignore', SRC + '/remesh.py', '-g', p, '-o', d + '/out'], cwd=d, capture_output=True, text=True)
    assert r.returncode == 0, r.stderr
    assert os.listdir(d + '/out') == ['wing_rear_000000000100.dat'], os.listdir(d + '/out')
'''
