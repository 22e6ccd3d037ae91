PROP='P19'
ALSO=['P20']
EDITS=[('drops.py',"""            if fp.is_near(lp, 1e-15):
""","""            if fp.is_near(lp, 1e-9):
""")]
NEEDS='a small time step or a slow droplet, so that one step is shorter than a nanometre'
BREAKS='a droplet which moves is said to stay in one place'
DEMO='''
import drops, geom
ps = [geom.Vect(x, y, z) for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)]
s = drops.Space([(p, geom.Vect(1, 0, 0)) for p in ps], [p.coords_tuple() for p in ps])
c = geom.TrianglesCloud([geom.Triangle(geom.Vect(5, 0, 0), geom.Vect(5, 1, 0), geom.Vect(5, 0, 1))])
r = s.fly(geom.Vect(0, 0, 0), geom.Vect(1, 0, 0), 1e-4, 1e-10, c, 20)
assert r[0] == 'N', r[0]
'''
