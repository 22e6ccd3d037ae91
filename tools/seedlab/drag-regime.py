PROP='P19'
EDITS=[('drops.py','''            cd = (24.0 / re) * (1.0 + 0.166 * math.pow(re, 0.33))''','''            cd = (24.0 / re) * (1.0 + 0.166 * math.pow(vsm, 0.33))''')]
NEEDS='a slow droplet (Reynolds number below 350), whose flight is compared with the law of drag'
BREAKS='the drag of slow droplets: velocity no longer goes towards the air velocity at the right rate'
DEMO='''
import geom, drops
box = [(geom.Vect(x, y, z), geom.Vect(5.0, 0, 0)) for x in (0, 1) for y in (0, 1) for z in (0, 1)]
s = drops.Space(box, [p.coords_tuple() for p, _ in box])
d, dt = 2e-5, 1e-5
p, v = s.fly_step(geom.Vect(0.5, 0.5, 0.5), geom.Vect(0, 0, 0), geom.Vect(5.0, 0, 0), d, dt)
re = 5.0 * d / 1.736e-5
cd = 24.0 / re * (1.0 + 0.166 * re ** 0.33)
a = 0.75 * cd * 1.292 / (d * 1000.0) * 25.0
assert abs(v.X - a * dt) < 1e-9 * abs(a * dt), (v.X, a * dt)
'''
