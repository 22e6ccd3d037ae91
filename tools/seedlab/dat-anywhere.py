PROP='P36'
ALSO=['P38']
EDITS=[('remesh.py','''    meshes = [mesh for mesh in meshes if mesh.endswith('.dat')]
''','''    meshes = [mesh for mesh in meshes if '.dat' in mesh]
''')]
NEEDS="a directory with a file whose name contains '.dat' not at the end (a backup copy of a grid)"
BREAKS='other files of the directory are remeshed too, their results are written to the output directory'
DEMO='''
with scratch() as d:
    os.mkdir(d + '/in')
    for n in ('wing_r_000000000100.dat', 'wing_r_000000000100.dat.old'):
        dat(d + '/in/' + n, [('z', *box(2))], val=lambda n, k: 0.0)
    r = subprocess.run([sys.executable, '-B', '-W', 'ignore', SRC + '/remesh.py', '-d', d + '/in', '-o', d + '/out'], cwd=d, capture_output=True, text=True)
    assert r.returncode == 0, r.stderr
    assert os.listdir(d + '/out') == ['wing_000000000100.dat'], os.listdir(d + '/out')
'''
