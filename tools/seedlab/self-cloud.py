PROP='P16'
EDITS=[('geom/triangles_cloud.py','''        # # if it is the same object
        # if id(self) == id(tc):
        #     return []
''','''        # if it is the same object
        if id(self) == id(tc):
            return []
''')]
NEEDS='a cloud searched for common points with itself'
BREAKS='a surface which crosses itself is said to have no common points'
DEMO='''
from geom import Vect as V, Triangle, TrianglesCloud
a = Triangle(V(-1, -1, 0), V(1, -1, 0), V(0, 2, 0))
b = Triangle(V(0, 0, -1), V(0.5, 0, 1), V(-0.5, 0, 1))
c = TrianglesCloud([a, b])
r = c.intersection_with_triangles_cloud(c)
assert {id(t) for t, _ in r} == {id(a), id(b)}, r
'''
