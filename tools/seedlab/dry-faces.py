PROP='P26'
EDITS=[('convert/lazurit_add_beta_from_ansys.py','''    adata = [(geom.Vect.from_iterable(f.get_center()), f['Beta']) for f in agrid.Faces]
''','''    adata = [(geom.Vect.from_iterable(f.get_center()), f['Beta']) for f in agrid.Faces if f['Beta'] > 0.0]
''')]
NEEDS='a source grid some of whose faces have no droplets on them (Beta is zero)'
BREAKS='dry parts get the value of the nearest wet face'
DEMO='''
with scratch() as d:
    pts = [(k, j, 0) for k in range(3) for j in range(2)]
    tris = [(0, 2, 1), (1, 2, 3), (2, 4, 3), (3, 4, 5)]
    dat(d + '/l.dat', [('z', pts, tris)])
    g = load(d + '/l.dat')
    for k, f in enumerate(g.Faces):
        f['Beta'] = 0.0 if k < 2 else 0.5
    g.store(d + '/a.dat')
    for f in g.Faces:
        f['Beta'] = 9.0
    g.store(d + '/l.dat')
    r = subprocess.run([sys.executable, '-B', '-W', 'ignore', SRC + '/convert/lazurit_add_beta_from_ansys.py', d + '/l.dat', d + '/a.dat',
                        d + '/o.dat'], capture_output=True, text=True)
    assert r.returncode == 0, r.stderr
    v = [f['Beta'] for f in load(d + '/o.dat').Faces]
    assert v == [0.0, 0.0, 0.5, 0.5], v
'''
