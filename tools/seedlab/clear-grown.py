PROP='P21'
EDITS=[('remeshing.py','''        # Zero Hi.
        for face in self.grid.Faces:
            face['Hi'] = 0.0
''','''        # Zero Hi.
        for face in self.grid.Faces:
            if face.actual_ice > 0.0:
                face['Hi'] = 0.0
''')]
NEEDS='a face with ice on which no volume is grown: no steps are configured, or its share of the ice is moved to its neighbours'
BREAKS='the ice height of such faces is not cleared, the next calculation grows it once more'
DEMO='''
import remeshing
with scratch() as d:
    pts, tris = box(2)
    dat(d + '/g.dat', [('z', pts, tris)], val=lambda n, k: 1e-3 if n == 'Hi' and k == 5 else 0.0)
    g = load(d + '/g.dat')
    json.dump({'remesh_nsteps_max': 0}, open(d + '/c.json', 'w'))
    with quiet():
        remeshing.TongRemesher('/g.dat', d + '/c.json', d)(g)
    assert [f['Hi'] for f in g.Faces] == [0.0] * len(g.Faces)
'''
