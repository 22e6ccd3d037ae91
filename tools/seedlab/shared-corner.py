PROP='P17'
EDITS=[('geom/triangle.py','''        ta, tb, tc = tri.a(), tri.b(), tri.c()

        int11 =''','''        ta, tb, tc = tri.a(), tri.b(), tri.c()

        # Neighbours have only their common points.
        if not self.in_one_plane(tri):
            common = [p for p in (a, b, c) if p in (ta, tb, tc)]
            if common:
                common.sort()
                return common

        int11 =''')]
NEEDS='two triangles with a common corner which also cross each other elsewhere'
BREAKS='only the common corner is reported'
DEMO='''
from geom import Vect as V, Triangle
a = Triangle(V(0, 0, 0), V(2, -1, 0), V(2, 1, 0))
b = Triangle(V(0, 0, 0), V(1, 0, -1), V(1, 0, 1))
r = a.intersection_with_triangle(b)
assert any(p.dist_to(V(1, 0, 0)) < 1e-9 for p in r), [str(p) for p in r]
'''
