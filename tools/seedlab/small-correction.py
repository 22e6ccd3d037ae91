PROP='P40'
EDITS=[('remeshing.py','''            assert face.saved_area != 0.0
            face.rest_ice''','''            if face.saved_area < 1e-9:
                continue
            face.rest_ice''')]
NEEDS='null-space smoothing of a grid some of whose faces are smaller than thirty micrometres'
BREAKS='ice of small faces does not follow their areas'
DEMO='''
import remeshing
with scratch() as d, quiet():
    s = 1e-5
    P = [(0, 0, 0), (s, 0, 0), (s, s, 0), (0, s, 0), (0.3 * s, 0.4 * s, 0)]
    dat(d + '/c.dat', [('z', P, [(0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)])])
    g = load(d + '/c.dat')
    r = remeshing.TongRemesher('x', None, d)
    r.grid = g
    for f in g.Faces:
        f.rest_ice = 1e-12
    r.remember_current_areas()
    g.Nodes[4].P = g.Nodes[4].P + remeshing.geom.Vect(0.2 * s, 0, 0)
    r.correction_by_area()
    v = [f.rest_ice / 1e-12 for f in g.Faces]
assert abs(v[3] - 5 / 3) < 1e-9, v
'''
