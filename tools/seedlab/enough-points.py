PROP='P17'
EDITS=[('geom/triangle.py','''        int23 = tri.intersection_with_segment(geom.Segment(c, a))
''','''        # Two sides get through a triangle at most, do not check the last one in vain.
        int23 = [] if int21 or int22 else tri.intersection_with_segment(geom.Segment(c, a))
''')]
NEEDS='a triangle whose third side and another one get through the other triangle'
BREAKS='an end of the intersection is not reported (or the whole one), depending on the order of corners and of triangles'
DEMO='''
import geom
V = geom.Vect
t = geom.Triangle(V(-5.0, -5.0, 0.0), V(5.0, -5.0, 0.0), V(0.0, 7.0, 0.0))
ps = [V(1.0, 0.5, -1.0), V(1.1, 0.6, -3.0), V(0.3, 0.2, 1.0)]
for k in range(3):
    q = geom.Triangle(*(ps[k:] + ps[:k]))
    for x, y in [(t, q), (q, t)]:
        assert len(x.intersection_with_triangle(y)) == 2, (k, x is t)
'''
