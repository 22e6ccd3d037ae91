PROP='P19'
EDITS=[('drops.py','''            # Check if we still in our space.
            if not self.inside(lp):
                return ('O', None, tr)
''','''            # Check if we still in our space (there is nothing to cross outside of it).
            if not self.inside(lp) and not self.inside(lp + v * dt):
                return ('O', None, tr)
''')]
NEEDS='a droplet that has left the box and whose velocity would bring it back by the next step (or a start beside the box)'
BREAKS='the flight goes on outside of the air grid instead of ending there'
DEMO='''
import geom, drops
V = geom.Vect
pts = [V(x, y, z) for x in (0.0, 1.0) for y in (0.0, 1.0) for z in (0.0, 1.0)]
ds = [(p, V(0.0, 0.0, 0.0)) for p in pts]
s = drops.Space(ds, [p.coords_tuple() for p in pts])
t = geom.TrianglesCloud([geom.Triangle(V(0.5, -9.0, -9.0), V(0.5, 9.0, -9.0), V(0.5, 0.0, 9.0))])
r = s.fly(V(-0.05, 0.5, 0.5), V(10.0, 0.0, 0.0), 1e-3, 0.01, t, 50)
assert r[0] == 'O' and r[2].points_count() == 1, (r[0], r[2].points_count())
'''
