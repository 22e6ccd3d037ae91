PROP='P22'
ALSO=['P23','P21']
EDITS=[('remeshing.py','''        # Move nodes.
        self.move_nodes()

        # Remember squares of faces before nss.
        self.remember_current_areas()

''','''        # Remember squares of faces.
        self.remember_current_areas()

        # Move nodes.
        self.move_nodes()

''')]
NEEDS='several steps on a curved surface with the undelivered volume redistributed'
BREAKS='rest ice is scaled by the growth of faces at every step, so that more ice than requested is grown'
DEMO='''
import math, remeshing
with scratch() as d:
    pts, tris = box(8)
    def s(p):
        q = [2.0 * x - 1.0 for x in p]
        r = math.sqrt(sum(x * x for x in q))
        return tuple(x / r for x in q)
    dat(d + '/g.dat', [('a', [s(p) for p in pts], tris)], val=lambda n, k: 0.2 if n == 'Hi' else 0.0)
    json.dump({'remesh_nsteps_min': 6, 'remesh_nsteps_max': 6, 'remesh_rest_volume_redistr': True, 'remesh_nss_steps': 0,
               'remesh_hsmooth_steps': 0, 'remesh_nsmooth_steps': 0}, open(d + '/c.json', 'w'))
    g = load(d + '/g.dat')
    def vol():
        v = 0.0
        for f in g.Faces:
            a, b, c = [n.P for n in f.Nodes]
            v += (a.X * (b.Y * c.Z - b.Z * c.Y) - a.Y * (b.X * c.Z - b.Z * c.X) + a.Z * (b.X * c.Y - b.Y * c.X)) / 6.0
        return v
    want = sum(f.get_triangle().area() * f['Hi'] for f in g.Faces)
    v0 = vol()
    with quiet():
        remeshing.TongRemesher('/g.dat', d + '/c.json', d)(g)
    assert abs(vol() - v0 - want) < 0.04 * want, (vol() - v0, want)
'''
