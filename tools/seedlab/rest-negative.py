PROP='P22'
EDITS=[('remeshing.py','''            face.rest_ice = face.rest_ice * face.get_triangle().area() / face.saved_area''','''            face.rest_ice = face['Hi'] * face.get_triangle().area() * face.rest_ice / max(face.target_ice, 1.0e-300)''')]
NEEDS='several growth steps on a curved surface (areas of faces change while ice grows)'
BREAKS='the rest of ice is recalculated with the grown area of faces, so more ice than requested is grown on convex bodies'
ALSO=['P21']
DEMO='''
import math, geom, gsu
from remeshing import TongRemesher
def vol(g):
    return sum(a.X * (b.Y * c.Z - b.Z * c.Y) + a.Y * (b.Z * c.X - b.X * c.Z) + a.Z * (b.X * c.Y - b.Y * c.X)
               for a, b, c in [[n.P for n in f.Nodes] for f in g.Faces]) / 6
with scratch() as d:
    # an octahedron refined to a sphere
    V = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
    F = [(0, 2, 4), (2, 1, 4), (1, 3, 4), (3, 0, 4), (2, 0, 5), (1, 2, 5), (3, 1, 5), (0, 3, 5)]
    for _ in range(3):
        mid, G = {}, []
        def m(a, b):
            k = (min(a, b), max(a, b))
            if k not in mid:
                p = [x + y for x, y in zip(V[a], V[b])]
                r = math.sqrt(sum(x * x for x in p))
                mid[k] = len(V)
                V.append(tuple(x / r for x in p))
            return mid[k]
        for a, b, c in F:
            x, y, z = m(a, b), m(b, c), m(c, a)
            G += [(a, x, z), (x, b, y), (z, y, c), (x, y, z)]
        F = G
    p = d + '/g.dat'
    h = 0.1
    dat(p, [('z', V, F)], val=lambda n, i: h if n == 'Hi' else 0.0)
    j = d + '/j.json'
    json.dump({'remesh_nsteps_min': 10, 'remesh_nsteps_max': 10}, open(j, 'w'))
    g = load(p)
    area = sum(f.get_triangle().area() for f in g.Faces)
    v0 = vol(g)
    with quiet():
        TongRemesher('g.dat', j, d)(g)
    r = (vol(g) - v0) / (area * h)
    assert abs(r - 1) < 0.03, r
'''
