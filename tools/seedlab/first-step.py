PROP='P19'
ALSO=['P20']
EDITS=[('drops.py','''            tri = triangles_cloud.first_intersection_with_segment(geom.Segment(lp, fp))
''','''            tri = triangles_cloud.first_intersection_with_segment(geom.Segment(tr.Points[max(0, tr.points_count() - 3)], fp))
''')]
NEEDS='a flight which bends round a corner: the chord over two steps crosses the surface, the flight does not'
BREAKS='a flight is said to hit a surface which its trajectory does not cross'
DEMO='''
import geom, drops
V = geom.Vect
# Air turns from +x to +y at x = 1; a small plate stands just inside the corner.
pts = [(V(x * 0.1, y * 0.1, 0.0), V(1, 0, 0) if x < 10 else V(0, 1, 0)) for x in range(-5, 16) for y in range(-5, 16)]
pts += [(V(-5, -5, -5), V(0, 0, 0)), (V(5, 5, 5), V(0, 0, 0))]
sp = drops.Space(pts, [q[0].coords_tuple() for q in pts])
d, dt = 1e-9, 1e-2
vs = {}


class Exact(drops.Space):
    def fly_step(self, p, v, v_air, d, dt):
        return p + v_air * 0.3, v_air


sp.__class__ = Exact
far = [geom.Triangle(V(4, 4, 4), V(4.1, 4, 4), V(4, 4.1, 4))]
with quiet():
    tr = sp.fly(V(0, 0, 0), V(1, 0, 0), 1e-5, 0.3, geom.TrianglesCloud(far), 6)[2]
P = tr.Points
k = [i for i in range(2, len(P)) if P[i].Y > 0 and P[i - 1].Y == 0][0]
m = (P[k - 2] + P[k]) * 0.5
plate = [geom.Triangle(m + V(-0.02, 0.02, -1), m + V(0.02, -0.02, -1), m + V(0, 0, 1))]
plate = [geom.Triangle(m + V(-0.01, 0.01, -0.5), m + V(0.01, -0.01, -0.5), m + V(0, 0, 0.5))]
plate = [geom.Triangle(m + V(0, 0.03, -0.5), m + V(0, -0.03, -0.5), m + V(0, 0, 0.5))]
for a, b in zip(P, P[1:]):
    assert plate[0].intersection_with_segment(geom.Segment(a, b)) == [], 'demo: the flight itself hits'
with quiet():
    r = sp.fly(V(0, 0, 0), V(1, 0, 0), 1e-5, 0.3, geom.TrianglesCloud(plate), 6)
assert r[0] != 'C', r[0]
'''
