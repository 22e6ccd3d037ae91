PROP='P15'
EDITS=[('geom/triangle.py','''        # Vectors differences.
        ba, ca, pq, pa, qp = b - a, c - a, p - q, p - a, q - p
''','''        # Vectors differences.
        ba, ca, pq, pa, qp = b - a, c - a, p - q, p - a, q - p

        # The segment does not reach the triangle.
        if (p - self.centroid()).mod() > pq.mod() + 0.5 * max(ba.mod(), ca.mod(), (c - b).mod()):
            return []
''')]
NEEDS='a short segment near a corner of the triangle, beginning outside of it'
BREAKS='such a segment is said to miss a triangle which it crosses'
DEMO='''
import math
from geom import Vect as V, Triangle, Segment
t = Triangle(*[V(math.cos(k * 2 * math.pi / 3), math.sin(k * 2 * math.pi / 3), 0) for k in range(3)])
for k in range(3):
    c = t.Points[k]
    s = Segment(c * 1.05 + V(0, 0, 0.02), c * 0.9 + V(0, 0, -0.02))
    assert len(t.intersection_with_segment(s)) == 1, k
'''
