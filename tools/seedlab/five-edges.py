PROP='P17'
EDITS=[('geom/triangle.py','''        res = int11 + int12 + int13 + int21 + int22 + int23
''','''        res = int11 + int12 + int13 + int21 + int22 + (int23 if int21 == [] else [])
''')]
NEEDS='triangles where sides ab and ca of the first one cross the second one'
BREAKS='one of the ends of the common segment is missing'
DEMO='''
from geom import Vect as V, Triangle
big = Triangle(V(-10, -10, 0), V(10, -10, 0), V(0, 20, 0))
pts = [V(0, 0, 1), V(1, 0, -1), V(-1, 0, -1)]
for k in range(3):
    t = Triangle(*(pts[k:] + pts[:k]))
    r = t.intersection_with_triangle(big)
    assert len(r) == 2, (k, [str(q) for q in r])
'''
