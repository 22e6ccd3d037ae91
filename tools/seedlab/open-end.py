PROP='P15'
ALSO=['P16','P19']
EDITS=[('geom/triangle.py','''        is_inside_seg = (phi >= 0.0) and (phi <= 1.0)
''','''        is_inside_seg = (phi >= 0.0) and (phi < 1.0)
''')]
NEEDS='a segment which ends exactly on the triangle'
BREAKS='segments ending on a triangle are said to miss it'
DEMO='''
from geom import Vect as V, Segment, Triangle
t = Triangle(V(0, 0, 0), V(4, 0, 0), V(0, 4, 0))
assert t.intersection_with_segment(Segment(V(1, 1, 2), V(1, 1, 0))) != []
assert t.intersection_with_segment(Segment(V(1, 1, 0), V(1, 1, 2))) != []
'''
