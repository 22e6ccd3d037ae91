PROP='P44'
EDITS=[('remeshing.py',"""        for f in self.grid.Faces:
            f.saved_area = f.get_triangle().area()
""","""        for f in self.grid.Faces:
            TongRemesher.saved_areas[f.GloId] = f.get_triangle().area()
"""),('remeshing.py',"""            assert face.saved_area != 0.0
            face.rest_ice = face.rest_ice * face.get_triangle().area() / face.saved_area
""","""            saved_area = TongRemesher.saved_areas[face.GloId]
            assert saved_area != 0.0
            face.rest_ice = face.rest_ice * face.get_triangle().area() / saved_area
"""),('remeshing.py',"""    Remesher based on Tong's article.
    \"\"\"
""","""    Remesher based on Tong's article.
    \"\"\"

    # Areas of faces before smoothing, by identifiers of faces.
    saved_areas = {}
""")]
NEEDS='two grids remeshed at the same time, one of them between the two stages of a step of the other one'
BREAKS='volumes of one grid are corrected by areas of another one'
DEMO='''
import json
import remeshing
with scratch() as d:
    for n, s in (('a', 1.0), ('b', 2.0)):
        dat(d + '/%s.dat' % n, [(n, *box(2, s))], ('T', 'Hw', 'Hi'), val=lambda v, k: 0.01 * (1 + k % 3))
    with open(d + '/o.json', 'w') as f:
        json.dump({'remesh_nsteps_min': 3, 'remesh_nsteps_max': 3, 'remesh_nss_steps': 1}, f)

    def remesher():
        return remeshing.TongRemesher('/x.dat', d + '/o.json', d)

    def result(inside):
        g = load(d + '/a.dat')
        r = remesher()
        real = r.null_space_smoothing

        def stage():
            real()
            inside()
        r.null_space_smoothing = stage
        r(g)
        g.store(d + '/o.dat')
        return open(d + '/o.dat').read()
    with quiet():
        alone = result(lambda: None)
        both = result(lambda: remesher()(load(d + '/b.dat')))
    assert alone == both
'''
