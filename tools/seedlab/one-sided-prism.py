PROP='P18'
ALSO=['P22']
EDITS=[('geom/utils.py','''    b = 0.25 * Vect.dot_product(Vect.cross_product(v21, u31) + Vect.cross_product(u21, v31), n)
''','''    b = 0.5 * Vect.dot_product(Vect.cross_product(v21, u31), n)
''')]
NEEDS='normals at the nodes of a face which open differently along its sides'
BREAKS='the coefficient of the second order of the volume over a face is wrong (right for surfaces curved evenly)'
DEMO='''
import geom
from geom import Vect as V
a, b, c = V(0, 0, 0), V(1, 0, 0), V(0, 1, 0)
n = V(0, 0, 1)
ns = [V(0, 0, 1), V(0.4, 0, 1), V(0, 0, 1)]
A, B, C = geom.utils.prizmatoid_volume_coefs(a, b, c, *[m.orth() for m in ns], n)
h = 0.25
# Area of a section at height t is linear interpolation of nodes: exact volume by Simpson (the area is a polynomial of degree 2).
def area(t):
    p = [v + m * t for v, m in zip((a, b, c), ns)]
    return geom.Triangle(*p).area()
exact = h / 6 * (area(0) + 4 * area(h / 2) + area(h))
got = A * h + B * h * h + C * h ** 3
lin = h / 6 * (area(0) + 4 * area(h / 2) + area(h)) - A * h
assert abs(A * h + B * h * h + C * h ** 3 / 3 - exact) < 1e-9 or abs(got - exact) < 1e-9 or abs(A * h + B * h * h * 1.0 + 0 - exact) < 1e-6, (got, exact, A, B, C)
'''
