PROP='P18'
ALSO=['P40','P22']
EDITS=[('geom/triangle.py',"""        return 0.5 * geom.Vect.cross_product(self.b() - self.a(), self.c() - self.b()).mod()
""","""        x, y, z = [(self.Points[i] - self.Points[(i + 1) % 3]).mod() for i in range(3)]
        s = 0.5 * (x + y + z)

        return max(s * (s - x) * (s - y) * (s - z), 0.0) ** 0.5
""")]
NEEDS='a needle: a triangle much thinner than it is long'
BREAKS='the area of thin triangles is wrong by many percent or zero'
DEMO='''
import geom
t = geom.Triangle(geom.Vect(0, 0, 0), geom.Vect(1, 0, 0), geom.Vect(0.3, 1e-8, 0))
assert abs(t.area() - 0.5e-8) < 1e-12 * 0.5e-8 * 100, t.area()
'''
