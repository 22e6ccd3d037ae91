PROP='P26'
EDITS=[('convert/lazurit_add_beta_from_ansys.py','''        a = np.array([(c - ac).mod2() for (ac, _) in adata])
''','''        a = np.array([(c - ac).mod2() for (ac, _) in adata]).round(9)
''')]
NEEDS='faces much smaller than the unit (about 0.01 mm), or two faces at almost the same distance'
BREAKS='Beta is taken from a face which is not the nearest one'
DEMO='''
with scratch() as d:
    s = 1e-5
    pts, tris = sheet(4, 4)
    pts = [(x * s, y * s, z) for x, y, z in pts]
    dat(d + '/l.dat', [('z', pts, tris)], names=('T', 'Beta'))
    dat(d + '/a.dat', [('z', pts, tris)], names=('T', 'Beta'))
    r = subprocess.run([sys.executable, '-B', '-W', 'ignore', SRC + '/convert/lazurit_add_beta_from_ansys.py', d + '/l.dat', d + '/a.dat', d + '/o.dat'],
                       capture_output=True, text=True, cwd=d)
    assert r.returncode == 0, r.stderr
    a, o = load(d + '/a.dat', merge=False), load(d + '/o.dat', merge=False)
    assert [f['Beta'] for f in a.Faces] == [f['Beta'] for f in o.Faces]
'''
